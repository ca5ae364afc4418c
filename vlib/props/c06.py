"""C06: rolls occur with the advertised frequencies."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, stats, sut, syntax

ID = "C06"
EXAMPLES = {"quick": 100, "thorough": 800}
ROLLS = {"quick": 3000, "thorough": 12000}
RULE = (
    "cases are small programs, and single terms of up to 400 dice or 3000 sides, with a random seed, rolled thousands of times by the interpreter or by the lines parsed once; every outcome and lower tail of every "
    "reported entry, every joint outcome, and repetition/order of successive rolls are tested against exact "
    "probabilities with a Chernoff bound (surprise limit 45, false alarm below 1e-12 per run); AND is only applied to "
    "0/1 values (finding K2 lies outside); non-trivial = at least two outcomes"
)


@st.composite
def _case(draw, tier):
    case = draw(_plain(tier))
    case["parsed"] = draw(st.integers(0, 2)) == 0
    return case


@st.composite
def _plain(draw, tier):
    shape = draw(st.integers(0, 7))
    seed = draw(st.integers(0, 10 ** 6))
    if shape >= 6:
        return {"program": [["out", draw(gen.many_dice())]], "seed": seed, "rolls": ROLLS[tier]}
    if shape <= 2:
        o = gen.Opts(cap=2000, big=False)
        e = gen.draw_kd(draw, o) if shape == 0 else gen.draw_dice(draw, o)
        return {"program": [["out", e]], "seed": seed, "rolls": ROLLS[tier]}
    o = gen.Opts(cap=600, max_joint=400, names=("a", "b", "c"), max_nodes=draw(st.sampled_from([2, 4, 6])),
                 binary_and=True, big=False)
    return {"program": draw(gen.entangled(o) if draw(st.booleans()) else gen.programs(o, 1, 5)), "seed": seed, "rolls": ROLLS[tier]}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    n = 20000 if tier == "quick" else 100000
    a, b = ["var", "a"], ["var", "b"]
    lists = ["list", [[1, None, 3], [2, None, None], [-4, -3, 2]], False, 0]
    programs = [
        [["out", ["dice", None, ["n", 6]]]], [["out", ["dice", None, ["n", 20]]]], [["out", ["dice", 2, ["n", 6]]]],
        [["out", ["dice", None, ["%"]]]], [["out", ["dice", 4, ["F"]]]], [["out", ["dice", None, lists]]],
        [["out", ["dice", 3, lists]]], [["out", ["kd", 2, ["n", 20], "k", 1]]], [["out", ["kd", 4, ["n", 6], "k", 3]]],
        [["out", ["kd", 2, ["n", 20], "d", 1]]], [["out", ["kd", 4, ["n", 6], "d", 1]]], [["out", ["kd", 3, lists, "k", 2]]],
        [["out", ["kd", 3, lists, "d", 2]]], [["out", ["dice", 10, ["n", 6]]]], [["out", ["kd", 10, ["n", 4], "k", 3]]],
        [["set", "a", ["dice", None, ["n", 6]]], ["set", "b", ["dice", None, ["n", 6]]], ["out", ["bin", "==", a, b]]],
        [["set", "a", ["dice", 2, ["n", 4]]], ["set", "b", ["bin", "+", a, a]], ["out", ["bin", "-", b, a]]],
        [["out", ["mm", "MAX", ["dice", None, ["n", 8]], ["dice", None, ["n", 8]]]]],
        [["out", ["bin", "<", ["dice", None, ["n", 6]], ["dice", None, ["n", 6]]]]],
        [["out", ["bin", "-", ["dice", None, ["n", 6]], ["dice", None, ["n", 6]]]]],
        [["out", ["bin", "*", ["dice", None, ["n", 6]], ["dice", None, ["n", 6]]]]],
        [["out", ["bin", "//", ["dice", None, ["n", 20]], ["dice", None, ["n", 4]]]]],
        [["out", ["mm", "MIN", ["dice", None, ["n", 8]], ["kd", 2, ["n", 8], "d", 1]]]],
        [["out", ["kd", 5, ["n", 6], "k", 5]]],
    ]
    for i, p in enumerate(programs):
        yield {"program": p, "seed": i, "rolls": n, "parsed": False}
        yield {"program": p[:-1] + [syntax_par(p[-1])], "seed": i, "rolls": n // 4, "parsed": True}


def syntax_par(line):
    return line[:-1] + [["par", line[-1]]]


def roller(case, texts):
    """a function that rolls the program: the interpreter, or the lines parsed once and rolled again and again"""
    if not case["parsed"]:
        interp = sut.fresh()
        return lambda: interp.roll(list(texts))
    state = sut.ProbabilityDistributionStateFactory().create_new_empty_set()
    lines = [judge.returned(sut.call(sut.parser().parse, text, state), "parsing %r" % text)[0] for text in texts]

    def roll():
        last = [line.roll() for line in lines][-1]
        return dict(state.get_constant_dict(), stdout=last)
    return roll


def check(case, ctx):
    program, n = case["program"], case["rolls"]
    texts = syntax.program_text(program)
    joint = oracle.Joint().run_all(program)
    names = joint.names_reported()
    weights = joint.reports()
    roll = roller(case, texts)
    random.seed(ctx.seed * 1000003 + case["seed"])
    observed = []
    for _ in range(n):
        got = judge.returned(sut.call(roll), "roll of %r" % texts)
        ctx.require(isinstance(got, dict) and set(got) == set(names), "roll of %r reports %r", texts, got)
        observed.append(tuple(got[k] for k in names))
    bad = stats.find_deviation(observed, weights, "%r: result %r =" % (texts, names))
    ctx.require(bad is None, "%s", bad)
    bad = stats.find_serial(observed, weights, "%r" % (texts,))
    ctx.require(bad is None, "%s", bad)
    for i, name in enumerate(names):
        marginal = oracle.collect((k[i], w) for k, w in weights.items())
        bad = stats.find_deviation([o[i] for o in observed], marginal, "%r: %s =" % (texts, name))
        ctx.require(bad is None, "%s", bad)
    ctx.label("lines parsed once", case["parsed"])
    ctx.label("joint outcomes", len(names) > 1)
    ctx.label("keep/drop", any(x[0] == "kd" for l in program for x in syntax.walk(syntax.line_expr(l))))
    ctx.labels["thousands of rolls"] = n // 1000
    ctx.nontrivial(len(weights) > 1)
    ctx.note("%s (%d rolls, %d joint outcomes)" % (" ; ".join(texts), n, len(weights)))
