"""C13: a divisor that can be zero is reported, and only then."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C13"
EXAMPLES = {"quick": 600, "thorough": 6000}
RULE = (
    "cases are programs of 1-5 lines with divisions whose divisor may or may not be able to be 0 (entangled divisors such "
    "as a - a + 1 and divisors that only come near 0 included), and pairs X, Y rolled as VAR a = X; VAR b = Y; a // b; "
    "ZeroDivisionError must be raised by every query exactly when the exact joint distribution says the divisor can be 0, "
    "otherwise the weights are exact floors; every rolled quotient must be the floor of the rolled operands; all constant "
    "pairs in -7..7 are enumerated; non-trivial = a divisor has at least two outcomes, or 0, or a negative outcome"
)
QUERIES = ("get_probability_distributions", "get_probability_distributions_dict", "get_average", "max", "min")
# lines around a quotient of two known values: it is worked out whatever stands around it
AROUND = ("1 OR (a // b)", "0 OR (a // b)", "(a // b) OR 1", "0 AND (a // b)", "1 AND (a // b)", "(a // b) AND 0", "0 * (a // b)",
          "(a // b) * 0", "ABS(a // b)", "!(a // b)", "MAX(9, a // b)", "MIN(-9, a // b)", "MAX(a // b, 0)", "VAR q = a // b",
          "(a // b) == 1", "1 != (a // b)", "a // b - a // b", "0 // (a // b + 99999)", "5 + a // b", "(((a // b)))", "0 > (a // b) OR 1")
PICTURES = ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")


@st.composite
def _case(draw, tier):
    o = gen.Opts(cap=draw(st.sampled_from([60, 250, 800])), max_joint=2000, names=("a", "b", "c"), max_nodes=4, zero_division=False,
                 binary_and=True, big=draw(gen.bigs))
    b = gen.Builder(draw, o)
    if draw(st.integers(0, 2)) == 0:
        return {"x": b.expr(draw(st.integers(1, 4))), "y": b.expr(draw(st.integers(1, 4))), "seed": draw(st.integers(0, 10 ** 6))}
    joint = oracle.Joint()
    program = []
    for _ in range(draw(st.integers(0, 3))):
        b.model.work.done = 0
        line = ["set", draw(st.sampled_from(o.names)), b.expr(draw(st.integers(1, 3)))]
        saved = joint.names, joint.worlds, joint.out
        joint.run(line)
        if len(joint.out) > o.max_joint:
            joint.names, joint.worlds, joint.out = saved
            continue
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)
    b.model.work.done = 0
    left = b.expr(draw(st.integers(1, 3)))
    right = b.expr(draw(st.integers(1, 4)))
    known = sorted(b.model.vars)
    shape = draw(st.integers(0, 5))
    if shape == 0 and known:
        v = ["var", draw(st.sampled_from(known))]
        right = b.attempt(["bin", "-", v, right], right)
    elif shape == 1 and known:
        v = ["var", draw(st.sampled_from(known))]
        right = ["bin", "+", ["bin", "-", v, v], ["int", draw(st.integers(-1, 1))]]
        right = b.attempt(right, ["int", 0])
    elif shape == 2:
        right = b.attempt(["bin", "+", right, ["int", draw(st.integers(-6, 6))]], right)
    elif shape == 3:
        right = b.attempt(["bin", "*", right, ["bin", "!=", right, ["int", 0]]], right)
    o.zero_division = True
    quotient = b.attempt(["bin", "//", left, right], left)
    around = draw(st.integers(0, 9))
    if around == 0:
        quotient = ["abs", quotient]
    elif around == 1:
        quotient = ["not", quotient]
    elif around == 2:
        quotient = ["mm", draw(st.sampled_from(("MAX", "MIN"))), ["int", 1], quotient]
    elif around == 3:
        quotient = ["bin", draw(st.sampled_from(("OR", "*", "+"))), ["int", draw(st.integers(0, 1))], quotient]
    elif around == 4:
        quotient = ["par", quotient]
    program.append(["set", "q", quotient] if draw(st.booleans()) else ["out", quotient])
    if draw(st.integers(0, 3)) == 0:
        program.append(["out", ["int", 5]])
    return {"program": program, "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    for x in range(-7, 8):
        for y in range(-7, 8):
            yield {"x": ["int", x], "y": ["int", y], "seed": 0}
    a = ["var", "a"]
    for lo in (-3, -1, 0, 1):
        for hi in (-1, 0, 1, 4):
            if lo <= hi:
                d = ["dice", None, ["list", [[lo, hi, None]], False, 0]]
                yield {"x": ["dice", 2, ["n", 6]], "y": d, "seed": 1}
                yield {"program": [["set", "a", d], ["out", ["bin", "//", a, a]]], "seed": 2}
                yield {"program": [["set", "a", d], ["set", "b", ["bin", "//", ["int", 9], ["bin", "+", a, ["int", 1]]]], ["out", ["var", "b"]]], "seed": 3}
                yield {"program": [["set", "a", d], ["out", ["bin", "//", ["int", 9], ["bin", "*", a, ["bin", "!=", a, ["int", 0]]]]]], "seed": 4}
                yield {"program": [["set", "a", d], ["out", ["bin", "//", ["int", 9], ["bin", "+", a, ["bin", "==", a, ["int", 0]]]]]], "seed": 4}


def check(case, ctx):
    if "x" in case:
        return pair(case, ctx)
    program = case["program"]
    texts = syntax.program_text(program)
    joint, model = oracle.Joint(), oracle.LabelModel()
    try:
        joint.run_all(program)
        model.run_all(program)
        want = True
    except oracle.DivByZero:
        want = None
    for query in QUERIES + (PICTURES if want is None else ()):
        got = sut.call(getattr(sut.fresh(), query), list(texts))
        if want is None:
            ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError",
                        "%s of %r: %s, but a divisor can be 0: expected ZeroDivisionError", query, texts, str(got)[:200])
        else:
            judge.returned(got, "%s of %r, whose divisors cannot be 0," % (query, texts))
            if query == "get_probability_distributions":
                judge_quotients(got, joint, model, texts)
    random.seed(case["seed"])
    for _ in range(6):
        got = sut.call(sut.fresh().roll, list(texts))
        if isinstance(got, sut.Raised):
            ctx.require(want is None and got.kind == "ZeroDivisionError", "roll of %r %r", texts, got)
    wide = classify(program)
    ctx.label("divisor can be zero", want is None)
    ctx.label("divisor cannot be zero", want is not None)
    ctx.nontrivial(wide)
    ctx.note(" ; ".join(texts))
    return None


def judge_quotients(got, joint, model, texts):
    exact, alt = joint.marginals(), model.marginals()
    for name in sorted(exact):
        weights = judge.result_map(got[name], name)
        # the weights of repeatedly read variables are the subject of C04 (finding K1)
        if not judge.same_ratio(weights, exact[name]) and not judge.same_ratio(weights, alt[name]):
            from vlib.engine import Violation
            raise Violation("%s of %r has weights %s, exact %s" % (name, texts, judge.show(weights), judge.show(exact[name])))


def classify(program):
    """does some divisor vary, or is it zero or negative"""
    joint = oracle.Joint()
    for line in program:
        for node in syntax.walk(syntax.line_expr(line)):
            if node[0] == "bin" and node[1] == "//":
                saved = joint.names, joint.worlds, joint.out
                try:
                    d = joint.run(["out", node[3]]).stdout()
                except oracle.DivByZero:
                    return True
                joint.names, joint.worlds, joint.out = saved
                if len(d) > 1 or min(d) <= 0:
                    return True
        try:
            joint.run(line)
        except oracle.DivByZero:
            return True
    return False


def pair(case, ctx):
    x, y = case["x"], case["y"]
    dx, dy = oracle.dist(x, {}), oracle.dist(y, {})
    a, b = ["var", "a"], ["var", "b"]
    texts = syntax.program_text([["set", "a", x], ["set", "b", y]])
    direct = syntax.line_text(["out", ["bin", "//", x, y]])
    got = sut.call(sut.fresh().get_probability_distributions, [direct])
    for query in QUERIES + (PICTURES if 0 in dy else ()):
        for lines in ([direct], texts + ["a // b"]):
            got = sut.call(getattr(sut.fresh(), query), list(lines))
            if 0 in dy:
                ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError", "%s of %r: %s, expected ZeroDivisionError",
                            query, lines, str(got)[:200])
            else:
                judge.returned(got, "%s of %r" % (query, lines))
                if query == "get_probability_distributions":
                    judge.exact(got["stdout"], oracle.dist(["bin", "//", x, y], {}), "%r" % lines)
    random.seed(case["seed"])
    interp = sut.fresh()
    for _ in range(12):
        first = judge.returned(sut.call(interp.roll, list(texts)), "roll of %r" % texts)
        va, vb = first["a"], first["b"]
        got = sut.call(interp.roll, ["a // b"])
        if vb == 0:
            ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError", "a=%r, b=0: roll of a // b: %r", va, got)
        else:
            judge.returned(got, "a=%r, b=%r: roll of a // b" % (va, vb))
            exact = oracle.apply_op("//", va, vb)
            ctx.require(got["stdout"] == exact and type(got["stdout"]) is int, "a=%r, b=%r: roll of a // b is %r, expected %r", va, vb, got["stdout"], exact)
        for line in random.sample(AROUND, 3):
            got = sut.call(interp.roll, [line])
            if vb == 0:
                ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError", "a=%r, b=0: roll of %r: %r", va, line, got)
            elif va // vb != -99999:
                judge.returned(got, "a=%r, b=%r: roll of %r" % (va, vb, line))
    ctx.label("pair")
    ctx.label("operands of different sign", (min(dx) < 0) != (min(dy) < 0))
    ctx.nontrivial(len(dy) > 1 or min(dy) <= 0)
    ctx.note(direct)
    return None
