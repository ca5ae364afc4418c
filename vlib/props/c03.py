"""C03: keep and drop."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, stats, sut, syntax

ID = "C03"
EXAMPLES = {"quick": 1500, "thorough": 12000}
RULE = (
    "cases are keep/drop terms (0-60 dice, weighted, negative and multi-digit sides, K from 0 beyond N), all small "
    "terms over a fixed set of dice enumerated; distribution compared exactly with a multinomial count over sorted "
    "dice, max/min exactly, 60-400 rolls by membership and a Chernoff frequency bound; terms of 61-2100 dice by bounds and "
    "by rolls within McDiarmid's bound of the exact mean; non-trivial = at least two "
    "dice, some but not all selected, at least two sides"
)


@st.composite
def _case(draw, tier):
    o = gen.Opts(cap=draw(st.sampled_from([500, 2000, 8000, 30000] if tier == "quick" else [2000, 8000, 60000, 200000])))
    if draw(st.integers(0, 19)) == 19:
        return {"many": draw(many()), "seed": draw(st.integers(0, 10 ** 6))}
    return {"e": gen.draw_kd(draw, o), "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def many(draw):
    """more dice than the distribution could be computed for: judged by bounds and rolls alone"""
    n = draw(st.one_of(st.integers(61, 300), st.integers(300, 2100)))
    spec = draw(st.sampled_from(SPECS + [["n", 6], ["n", 20], ["%"]]))
    k = draw(st.one_of(st.integers(0, 3), st.integers(1, n), st.integers(n - 2, n + 2)))
    return ["kd", n, spec, draw(st.sampled_from("kd")), k]


def strategy(tier):
    return _case(tier)


SPECS = [
    ["n", 1], ["n", 2], ["n", 3], ["n", 4], ["F"], ["list", [[-2, None, None], [3, None, None]], False, 0],
    ["list", [[9, 11, None]], False, 0], ["list", [[1, None, 3], [2, None, None]], True, 0],
    ["list", [[-10, None, None], [-9, None, 2], [100, None, None]], False, 1], ["list", [[0, None, None], [5, None, 2]], False, 0],
    ["list", [[-3, -1, None], [-20, None, None]], False, 0],
]


def fixed(tier):
    top = 5 if tier == "quick" else 7
    for spec in SPECS:
        for n in range(0, top + 1):
            for mode in "kd":
                for k in range(0, n + 2):
                    yield {"e": ["kd", n, spec, mode, k], "seed": n}
    for mode in "kd":
        for k in (0, 1, 2):
            yield {"e": ["kd", None, ["n", 6], mode, k], "seed": 5}


def check_many(case, ctx):
    e = case["many"]
    n, mode, k = e[1], e[3], e[4]
    faces = oracle.sides(e[2])
    text = syntax.dice_text(e)
    selected = min(k, n) if mode == "k" else max(0, n - k)
    interp = sut.fresh()
    for query, side in (("max", max(faces)), ("min", min(faces))):
        got = judge.returned(sut.call(getattr(interp, query), [text]), "%s of %r" % (query, text))
        ctx.require(got == {"stdout": side * selected}, "%s of %r is %r, expected %r", query, text, got, side * selected)
    expr, _ = judge.returned(sut.call(sut.parser().parse, text), "parse of %r" % text)
    random.seed(case["seed"])
    rolls = [judge.returned(sut.call(expr.roll), "roll of %r" % text) for _ in range(20)]
    if selected == 0:
        ctx.require(rolls == [0] * 20, "%r rolls %r, expected 0", text, rolls)
    else:
        bad = stats.find_far(rolls, n, selected, faces, repr(text), lowest=mode == "d")
        ctx.require(bad is None, "%s", bad)
    ctx.label("more than sixty dice")
    ctx.nontrivial(0 < selected < n and len(faces) > 1)
    ctx.note("%s (bounds and rolls)" % text)


def check(case, ctx):
    if "many" in case:
        return check_many(case, ctx)
    e = case["e"]
    n = 1 if e[1] is None else e[1]
    k = e[4]
    faces = oracle.sides(e[2])
    want = oracle.term(e)
    text = syntax.dice_text(e)
    interp = sut.fresh()
    dist = judge.returned(sut.call(interp.get_probability_distributions, [text]), "distribution of %r" % text)["stdout"]
    judge.exact(dist, want, text)
    for query, value in (("max", max(want)), ("min", min(want))):
        got = judge.returned(sut.call(getattr(interp, query), [text]), "%s of %r" % (query, text))
        ctx.require(got == {"stdout": value}, "%s of %r is %r, expected %r", query, text, got, value)
    expr, _ = judge.returned(sut.call(sut.parser().parse, text), "parse of %r" % text)
    random.seed(case["seed"])
    rolls = []
    for _ in range(400 if case["seed"] % 4 == 0 else 60):
        rolls.append(judge.returned(sut.call(expr.roll), "roll of %r" % text))
    bad = stats.find_deviation(rolls, want, "%r:" % text)
    ctx.require(bad is None, "%s", bad)
    selected = min(k, n) if e[3] == "k" else max(0, n - k)
    ctx.label("keep", e[3] == "k")
    ctx.label("drop", e[3] == "d")
    ctx.label("degenerate", selected in (0, n))
    ctx.label("ten or more dice", n >= 10)
    ctx.label("negative sides", min(faces) < 0)
    ctx.label("sides of different digit length", len({len(str(v)) for v in faces}) > 1)
    ctx.label("weighted sides", len(set(faces.values())) > 1)
    ctx.nontrivial(n >= 2 and 0 < selected < n and len(faces) > 1)
    ctx.note("%s -> %s" % (text, judge.show(want, 6)))
