"""C07: max and min are tight bounds."""
from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C07"
EXAMPLES = {"quick": 700, "thorough": 6000}
RULE = (
    "cases are programs of 1-6 lines (signs, negative factors and divisors, ABS, MIN/MAX, entangled variables); the max "
    "and min queries must report, for every variable and the last line, exactly the extreme of the exact joint "
    "outcomes; finding K3 (MIN/MAX bounded operand by operand) is accepted only with exactly that value; non-trivial = "
    "an operator is used and the last line has at least two outcomes"
)


@st.composite
def _case(draw, tier):
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("stdout", "a")])
    o = gen.Opts(cap=draw(st.sampled_from([200, 600, 2000])), max_joint=4000, names=names,
                 max_nodes=draw(st.sampled_from([2, 3, 5, 8])), big=draw(gen.bigs))
    return {"program": draw(gen.any_program(o, 1, 6))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    a = ["var", "a"]
    d6 = ["dice", None, ["n", 6]]
    seven = ["bin", "-", ["int", 7], a]
    yield {"program": [["set", "a", d6], ["out", ["mm", "MIN", a, seven]]]}  # finding K3
    yield {"program": [["set", "a", d6], ["out", ["mm", "MAX", a, seven]]]}
    leaves = [["int", -2], ["int", 3], ["dice", None, ["n", 4]], ["dice", 2, ["F"]], ["kd", 3, ["F"], "k", 2],
              ["dice", None, ["list", [[-5, -2, None], [1, None, None]], False, 0]], ["kd", 2, ["n", 4], "d", 1],
              ["dice", None, ["list", [[-5, -2, None]], False, 0]]]
    for x in leaves:
        for y in leaves:
            for op in syntax.BIN_OPS:
                if op == "//" and 0 in oracle.dist(y, {}):
                    continue
                yield {"program": [["set", "a", x], ["set", "b", ["bin", op, a, y]]]}


def check(case, ctx):
    program = case["program"]
    texts = syntax.program_text(program)
    joint = oracle.Joint().run_all(program)
    exact = joint.marginals()
    for which, pick in (("max", max), ("min", min)):
        got = judge.returned(sut.call(getattr(sut.fresh(), which), list(texts)), "%s of %r" % (which, texts))
        ctx.require(isinstance(got, dict) and set(got) == set(exact), "%s of %r reports %r, expected names %r", which, texts, got, sorted(exact))
        interval = None
        for name in sorted(exact):
            want = pick(exact[name])
            if type(got[name]) is int and got[name] == want:
                continue
            if interval is None:
                interval = oracle.interval_bounds(program, which)
            ctx.require(type(got[name]) is int and got[name] == interval[name], "%s of %r reports %s = %r, exact %r", which, texts, name, got[name], want)
            ctx.known("K3", "%s of %r reports %s = %r, exact %r" % (which, texts, name, got[name], want))
    ops = {x[0] if x[0] != "bin" else x[1] for l in program for x in syntax.walk(syntax.line_expr(l))}
    for k in ops:
        ctx.label("uses " + k)
    ctx.label("negative minimum", min(exact["stdout"]) < 0)
    ctx.nontrivial(len(exact["stdout"]) > 1 and bool(ops & (set(syntax.BIN_OPS) | {"not", "abs", "mm"})))
    ctx.note(" ; ".join(texts))
