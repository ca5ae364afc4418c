"""C01: the distribution of a variable-free expression is exact."""
from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C01"
EXAMPLES = {"quick": 1500, "thorough": 12000}
RULE = (
    "cases are expressions built from constants, dice, keep/drop dice and every operator (1-9 nodes, up to hundreds of "
    "dice, sides in +-1e9, weights beyond 2**53), plus all operators over all pairs of a fixed set of small operands; "
    "oracle: independent exact enumeration by convolution; non-trivial = the expression has an operator and at least "
    "two outcomes"
)


@st.composite
def _case(draw, tier):
    cap = draw(gen.caps) * (1 if tier == "quick" else 2)
    o = gen.Opts(cap=cap, max_nodes=draw(st.sampled_from([3, 3, 4, 4, 5, 5, 9, 9, 30])), big=draw(gen.bigs))
    return {"e": gen.Builder(draw, o).expr(draw(st.integers(2, o.max_nodes)))}


def strategy(tier):
    return _case(tier)


LEAVES = [
    ["int", 0], ["int", 1], ["int", -2], ["int", 3], ["bool", 1], ["dice", None, ["n", 3]], ["dice", 2, ["F"]],
    ["dice", 2, ["list", [[-3, None, None], [2, None, 2]], False, 0]], ["kd", 3, ["n", 3], "k", 2],
    ["kd", 3, ["list", [[-1, 2, None]], False, 0], "d", 1],
]


def fixed(tier):
    for leaf in LEAVES:
        yield {"e": leaf}
        yield {"e": ["not", leaf]}
        yield {"e": ["abs", leaf]}
    for a in LEAVES:
        for b in LEAVES:
            for op in syntax.BIN_OPS:
                if op == "//" and 0 in oracle.dist(b, {}):
                    continue
                yield {"e": ["bin", op, a, b]}
            for op in ("MAX", "MIN"):
                yield {"e": ["mm", op, a, b]}


def check(case, ctx):
    e = case["e"]
    want = oracle.dist(e, {})
    text = syntax.line_text(["out", e])
    interp = sut.fresh()
    got = judge.returned(sut.call(interp.get_probability_distributions, [text]), "distribution of %r" % text)
    ctx.require(set(got) == {"stdout"}, "entries %r for %r", sorted(got), text)
    judge.exact(got["stdout"], want, text)
    form = judge.returned(sut.call(interp.get_probability_distributions_dict, [text]), "distribution of %r" % text)
    ctx.require(set(form) == {"stdout"}, "entries %r for %r", sorted(form), text)
    judge.probabilities(form["stdout"], want, text)
    kinds = {x[0] if x[0] != "bin" else x[1] for x in syntax.walk(e)}
    for k in kinds:
        ctx.label("uses " + k)
    ctx.label("weights beyond 2**53", sum(want.values()) > 2 ** 53)
    ctx.label("negative outcomes", min(want) < 0)
    ctx.label("more than 50 outcomes", len(want) > 50)
    ctx.label("ten or more dice", any(x[0] in ("dice", "kd") and (x[1] or 0) >= 10 for x in syntax.walk(e)))
    ctx.nontrivial(len(want) > 1 and bool(kinds & (set(syntax.BIN_OPS) | {"not", "abs", "mm"})))
    ctx.note(text)
