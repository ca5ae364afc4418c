"""C05: one roll is one consistent outcome of the whole program."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C05"
EXAMPLES = {"quick": 900, "thorough": 7200}
RULE = (
    "cases are programs of 1-7 lines with a random seed, rolled 12 times on one interpreter and 2 times on fresh ones; "
    "each result dictionary must be one of the exact possible joint results; finding K2 (AND of values other than 0/1 "
    "is bitwise in rolls) is accepted only when the result is possible under exactly that rule; non-trivial = at least "
    "one variable is read and there are at least two possible results"
)


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 11)) == 0:
        e = draw(gen.many_dice())
        return {"program": [["set", "a", e], ["out", ["bin", draw(st.sampled_from("+-*")), ["var", "a"], ["var", "a"]]]],
                "seed": draw(st.integers(0, 10 ** 6))}
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a", "b", "c", "d"), ("stdout", "a"), ("total_damage", "_")])
    o = gen.Opts(cap=draw(st.sampled_from([300, 1000, 3000])), max_joint=6000, names=names,
                 max_nodes=draw(st.sampled_from([2, 4, 7])), prefer_vars=draw(st.booleans()), big=draw(gen.bigs))
    return {"program": draw(gen.any_program(o, 1, 7)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    two, one = ["int", 2], ["int", 1]
    yield {"program": [["out", ["bin", "AND", two, one]]], "seed": 0}  # finding K2
    d = ["dice", None, ["list", [[-1, 2, None]], False, 0]]
    a, b = ["var", "a"], ["var", "b"]
    for op in syntax.BIN_OPS:
        if op != "//":
            yield {"program": [["set", "a", d], ["set", "b", d], ["set", "c", ["bin", op, a, b]]], "seed": 1}
            yield {"program": [["set", "a", d], ["set", "b", ["bin", op, a, a]], ["set", "a", ["bin", op, b, a]]], "seed": 2}
    for op in ("MAX", "MIN"):
        yield {"program": [["set", "a", d], ["set", "b", d], ["set", "c", ["mm", op, a, b]]], "seed": 3}
    for f in ("not", "abs"):
        yield {"program": [["set", "a", d], ["set", "b", [f, a]]], "seed": 4}


def check(case, ctx):
    program = case["program"]
    texts = syntax.program_text(program)
    joint = oracle.Joint().run_all(program)
    names = joint.names_reported()
    possible = joint.reports()
    bitwise = None
    has_and = any(x[0] == "bin" and x[1] == "AND" for l in program for x in syntax.walk(syntax.line_expr(l)))
    random.seed(case["seed"])
    interp = sut.fresh()
    for i in range(14):
        if i >= 12:
            interp = sut.fresh()
        got = sut.call(interp.roll, list(texts))
        if isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError" and has_and:
            ctx.require(oracle.Joint(bitwise_and=True).run_all(program).lost, "roll of %r %r", texts, got)
            ctx.known("K2", "roll of %r %r" % (texts, got))
            continue
        judge.returned(got, "roll of %r" % texts)
        ctx.require(isinstance(got, dict) and set(got) == set(names), "roll of %r reports %r, expected names %r", texts, got, names)
        for n in names:
            ctx.require(type(got[n]) is int, "roll of %r: %s is %r, not an integer", texts, n, got[n])
        result = tuple(got[n] for n in names)
        if result not in possible:
            if bitwise is None and has_and:
                bitwise = oracle.Joint(bitwise_and=True).run_all(program).reports()
            ctx.require(bitwise is not None and result in bitwise, "roll of %r returned the impossible result %r", texts, got)
            ctx.known("K2", "roll of %r returned %r" % (texts, got))
    reads = any(syntax.reads(syntax.line_expr(l)) for l in program)
    ctx.label("reads variables", reads)
    ctx.label("several variables", len(joint.names) > 1)
    ctx.label("more than 100 possible results", len(possible) > 100)
    ctx.nontrivial(reads and len(possible) > 1)
    ctx.note(" ; ".join(texts))
