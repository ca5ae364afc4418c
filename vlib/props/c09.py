"""C09: logic yields 0 or 1 and treats exactly the values above 0 as true."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C09"
EXAMPLES = {"quick": 900, "thorough": 7200}
RULE = (
    "cases are 'VAR a = X', 'VAR b = Y', 'VAR r = a op b' (or !a), and nested logic, over operands with negative, zero "
    "and positive values, plus all operators over all constant pairs in -3..3; distribution, max and min compared "
    "exactly, and in every roll r must be the operator applied to the rolled a and b (finding K2: AND may be bitwise); "
    "non-trivial = an operand can be negative or above 1"
)
OPS = syntax.CMP_OPS + syntax.LOGIC_OPS + ("AND", "OR", "!")


@st.composite
def _case(draw, tier):
    o = gen.Opts(cap=draw(st.sampled_from([60, 200])), max_nodes=3, big=draw(gen.bigs))
    b = gen.Builder(draw, o)
    if draw(st.integers(0, 2)) == 2:
        o.max_nodes = 6
        def logic(depth):
            op = draw(st.sampled_from(OPS))
            if depth == 0:
                return b.expr(draw(st.integers(1, 2)))
            left = logic(depth - 1)
            if op == "!":
                return ["not", left]
            return b.attempt(["bin", op, left, logic(depth - 1)], left)
        e = logic(draw(st.integers(1, 3)))
        return {"e": e, "seed": draw(st.integers(0, 10 ** 6))}
    if draw(st.integers(0, 7)) == 0:
        base = draw(st.sampled_from((2 ** 31, 2 ** 53, 2 ** 63, 10 ** 16, 10 ** 20, 10 ** 30))) + draw(st.integers(-1000, 1000))
        base *= draw(st.sampled_from((1, 1, -1)))
        x, y = ["int", base + draw(st.integers(-1, 1))], ["int", base + draw(st.integers(-1, 1))]
        if draw(st.booleans()):
            x = ["bin", draw(st.sampled_from("+-")), ["dice", None, ["n", draw(st.integers(2, 4))]], x]
        return {"x": x, "y": y, "op": draw(st.sampled_from(OPS)), "seed": draw(st.integers(0, 10 ** 6))}
    return {"x": b.expr(draw(st.integers(1, 3))), "y": b.expr(draw(st.integers(1, 3))), "op": draw(st.sampled_from(OPS)),
            "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    for x in range(-3, 4):
        for y in range(-3, 4):
            for op in syntax.CMP_OPS + syntax.LOGIC_OPS:
                yield {"x": ["int", x], "y": ["int", y], "op": op, "seed": 0}
        yield {"x": ["int", x], "y": ["int", 0], "op": "!", "seed": 0}
    for base in (2 ** 53, 10 ** 16, -2 ** 63):
        for off in (-1, 0, 1, 2):
            for op in syntax.CMP_OPS + syntax.LOGIC_OPS:
                yield {"x": ["int", base], "y": ["int", base + off], "op": op, "seed": 0}
    d = ["dice", None, ["list", [[-2, 2, None]], False, 0]]
    for op in OPS[:-1]:
        yield {"x": d, "y": d, "op": op, "seed": 3}


def divides(e):
    """finding K2 can make a roll of e divide by zero"""
    return oracle.divides_by_zero(e, {})


def check(case, ctx):
    if "e" in case:
        return nested(case, ctx)
    x, y, op = case["x"], case["y"], case["op"]
    a, b = ["var", "a"], ["var", "b"]
    r = ["not", a] if op == "!" else ["bin", op, a, b]
    program = [["set", "a", x], ["set", "b", y], ["set", "r", r]]
    texts = syntax.program_text(program)
    da, db = oracle.dist(x, {}), oracle.dist(y, {})
    plain = ["not", x] if op == "!" else ["bin", op, x, y]
    want = oracle.dist(plain, {})
    for form, lines in (("with variables", texts), ("directly", [syntax.line_text(["out", plain])])):
        got = judge.returned(sut.call(sut.fresh().get_probability_distributions, list(lines)), "program %r" % lines)["stdout"]
        judge.exact(got, want, "%r" % lines)
        for query, pick in (("max", max), ("min", min)):
            bound = judge.returned(sut.call(getattr(sut.fresh(), query), list(lines)), "%s of %r" % (query, lines))
            ctx.require(bound["stdout"] == pick(want), "%s of %r is %r, expected %r", query, lines, bound["stdout"], pick(want))
    random.seed(case["seed"])
    for _ in range(15):
        got = sut.call(sut.fresh().roll, list(texts))
        if isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError" and (divides(x) or divides(y)):
            ctx.known("K2", "roll of %r %r" % (texts, got))
            continue
        judge.returned(got, "roll of %r" % texts)
        va, vb, vr = got["a"], got["b"], got["r"]
        for v, d, e in ((va, da, x), (vb, db, y)):
            if v not in d:
                ctx.require(v in oracle.dist(e, {}, bitwise_and=True), "roll of %r returned %r", texts, got)
                ctx.known("K2", "roll of %r returned %r" % (texts, got))
        exact = (0 if va > 0 else 1) if op == "!" else oracle.apply_op(op, va, vb)
        if type(vr) is int and vr == exact:
            continue
        ctx.require(op == "AND" and type(vr) is int and vr == oracle.apply_op(op, va, vb, bitwise_and=True),
                    "roll of %r returned %r, but %s of a=%d, b=%d is %d", texts, got, op, va, vb, exact)
        ctx.known("K2", "roll of %r returned %r" % (texts, got))
    wide = any(v < 0 or v > 1 for v in da) or (op != "!" and any(v < 0 or v > 1 for v in db))
    ctx.label("op " + op)
    ctx.label("negative operand", min(da) < 0 or (op != "!" and min(db) < 0))
    ctx.nontrivial(wide)
    ctx.note(" ; ".join(texts))


def nested(case, ctx):
    e = case["e"]
    want = oracle.dist(e, {})
    text = syntax.line_text(["out", e])
    got = judge.returned(sut.call(sut.fresh().get_probability_distributions, [text]), "distribution of %r" % text)["stdout"]
    judge.exact(got, want, text)
    for query, pick in (("max", max), ("min", min)):
        bound = judge.returned(sut.call(getattr(sut.fresh(), query), [text]), "%s of %r" % (query, text))
        ctx.require(bound == {"stdout": pick(want)}, "%s of %r is %r, expected %r", query, text, bound, pick(want))
    random.seed(case["seed"])
    for _ in range(10):
        roll = sut.call(sut.fresh().roll, [text])
        if isinstance(roll, sut.Raised) and roll.kind == "ZeroDivisionError" and divides(e):
            ctx.known("K2", "roll of %r %r" % (text, roll))
            continue
        roll = judge.returned(roll, "roll of %r" % text)["stdout"]
        if roll not in want:
            alt = oracle.dist(e, {}, bitwise_and=True)
            ctx.require(roll in alt and any(n[0] == "bin" and n[1] == "AND" for n in syntax.walk(e)), "roll of %r returned %r, possible: %s", text, roll, judge.show(want))
            ctx.known("K2", "roll of %r returned %r" % (text, roll))
    logic = [n for n in syntax.walk(e) if n[0] == "not" or (n[0] == "bin" and n[1] in syntax.CMP_OPS + syntax.LOGIC_OPS)]
    ctx.label("nested logic", len(logic) > 1)
    ctx.nontrivial(len(logic) > 1)
    ctx.note(text)
