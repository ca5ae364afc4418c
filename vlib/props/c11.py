"""C11: a parsed line prints as text that means the same."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, sut, syntax

ID = "C11"
EXAMPLES = {"quick": 700, "thorough": 6000}
RULE = (
    "cases are programs of 0-4 assignments (or of up to 11 constants) followed by a line of any form (up to 30 nodes), written with random spacing, redundant "
    "parentheses and leading zeros; the line is printed, parsed again and both are compared in printed form, exact "
    "distribution, max, min, cost and rolls under the same seeds, in the same state; the variables it reports are "
    "compared with the names it reads; non-trivial = the line has an operator and at least one variable, pair of "
    "parentheses or dice"
)
SEPS = ["", " ", "  ", "\t", "\n"]


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        return _wide(draw)
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("_", "d", "k"), ("stdout", "x"), ("roll", "abs", "max")])
    o = gen.Opts(cap=draw(st.sampled_from([100, 400])), max_joint=1500, names=names, max_nodes=draw(st.sampled_from([2, 4])),
                 zero_division=draw(st.integers(0, 9)) == 0)
    b = gen.Builder(draw, o)
    prelude = []
    for _ in range(draw(st.integers(0, 4))):
        b.model.work.done = 0
        o.zero_division, keep = False, o.zero_division
        line = ["set", draw(st.sampled_from(list(names))), b.expr(draw(st.integers(1, 2)))]
        o.zero_division = keep
        b.model.work.done = 0
        b.model.run(line)
        prelude.append(line)
    b.model.work.done = 0
    e = b.expr(draw(st.integers(2, 9)))
    e = decorate(draw, syntax.explicit(e))
    line = ["set", draw(st.sampled_from(list(names))), e] if draw(st.integers(0, 3)) == 3 else ["out", e]
    return {"prelude": prelude, "line": line, "seps": draw(st.lists(st.sampled_from(SEPS), min_size=1, max_size=5)),
            "zeros": draw(st.integers(0, 3)) == 3, "seed": draw(st.integers(0, 999))}


WIDE = ["a", "b", "c", "d", "k", "x_y", "_", "aa", "total_damage", "stdout", "max"]


def _wide(draw):
    """many variables with constant values, and a large line"""
    names = WIDE[:draw(st.integers(3, len(WIDE)))]
    o = gen.Opts(cap=200, names=names, max_nodes=8, dice=False, prefer_vars=True, big=False, max_abs=10 ** 6, zero_division=True)
    b = gen.Builder(draw, o)
    prelude = []
    for name in names:
        line = ["set", name, ["int", draw(st.integers(-3, 5))]]
        b.model.run(line)
        prelude.append(line)
    e = b.expr(draw(st.integers(6, 30)))
    if draw(st.booleans()):
        # one operator over all of them
        op = draw(st.sampled_from(syntax.BIN_OPS + ("MAX", "MIN")))
        e = ["var", names[0]]
        for name in names[1:]:
            v = ["var", name] if draw(st.integers(0, 3)) else ["par", ["bin", draw(st.sampled_from(syntax.BIN_OPS)), ["var", name], ["int", 2]]]
            e = ["mm", op, e, v] if op in ("MAX", "MIN") else ["bin", op, e, v]
    e = decorate(draw, syntax.explicit(e))
    line = ["set", draw(st.sampled_from(names)), e] if draw(st.integers(0, 3)) == 3 else ["out", e]
    return {"prelude": prelude, "line": line, "seps": draw(st.lists(st.sampled_from(SEPS), min_size=1, max_size=5)),
            "zeros": False, "seed": 0}


def decorate(draw, e):
    kind = e[0]
    if kind == "bin":
        e = ["bin", e[1], decorate(draw, e[2]), decorate(draw, e[3])]
    elif kind in ("not", "abs", "par"):
        e = [kind, decorate(draw, e[1])]
    elif kind == "mm":
        e = [kind, e[1], decorate(draw, e[2]), decorate(draw, e[3])]
    if draw(st.integers(0, 9)) == 9:
        e = ["par", e]
    return e


def strategy(tier):
    return _case(tier)


def fixed(tier):
    base = {"prelude": [["set", "a", ["dice", None, ["F"]]]], "seps": [" "], "zeros": False, "seed": 5}
    a, d = ["var", "a"], ["dice", 2, ["n", 3]]
    for op in syntax.BIN_OPS:
        if op != "//":
            for left in (a, d, ["int", -3], ["par", ["bin", op, a, d]]):
                for right in (a, ["par", ["bin", op, a, ["int", -2]]], ["not", a], ["int", -2], ["int", 0]):
                    yield dict(base, line=["out", ["bin", op, left, right]])
    for e in (["not", ["not", a]], ["not", ["par", ["bin", "+", a, d]]], ["abs", ["bin", "-", a, d]],
              ["mm", "MAX", a, ["mm", "MIN", d, a]], ["par", ["par", a]], ["bool", 1], ["bool", 0], ["int", -7]):
        yield dict(base, line=["out", e])
        yield dict(base, line=["set", "b", e])


def text_of(line, case):
    toks = syntax.line_tokens(line)
    if case["zeros"]:
        toks = [("-00" + t[1:]) if t[0] == "-" and len(t) > 1 else ("00" + t if t.isdigit() else t) for t in toks]
    return syntax.join(toks, case["seps"])


def observe(prelude, text, seed):
    """everything a line does after the prelude"""
    out = {}
    for query in ("get_probability_distributions", "max", "min", "get_estimated_cost"):
        interp = sut.fresh()
        if prelude:
            judge.returned(sut.call(getattr(interp, query), list(prelude)), "%s of %r" % (query, prelude))
        got = sut.call(getattr(interp, query), [text])
        if isinstance(got, sut.Raised):
            out[query] = got.kind
        elif query == "get_probability_distributions":
            out[query] = {k: judge.result_map(v, "%s of %r" % (k, text)) for k, v in got.items()}
        else:
            out[query] = got
    rolls = []
    for i in range(4):
        interp = sut.fresh()
        random.seed(seed * 10 + i)
        got = sut.call(interp.roll, list(prelude) + [text])
        rolls.append(got.kind if isinstance(got, sut.Raised) else got)
    out["roll"] = rolls
    return out


def check(case, ctx):
    prelude = syntax.program_text(case["prelude"])
    line = case["line"]
    text = text_of(line, case)
    token = judge.returned(sut.call(sut.parser().parse, text), "parsing %r" % text)[0]
    printed = judge.returned(sut.call(str, token), "printing %r" % text)
    again = judge.returned(sut.call(sut.parser().parse, printed), "parsing %r, the printed form of %r" % (printed, text))[0]
    second = judge.returned(sut.call(str, again), "printing %r" % printed)
    ctx.require(printed == second, "%r prints as %r, which prints as %r", text, printed, second)
    if line[0] == "out":
        reads = syntax.reads(line[1])
        for what, t in ((text, token), (printed, again)):
            got = judge.returned(sut.call(t.get_contained_variables), "variables of %r" % what)
            ctx.require(set(got) == reads, "%r reports that it contains the variables %r, it reads %r", what, sorted(got), sorted(reads))
    one = observe(prelude, text, case["seed"])
    two = observe(prelude, printed, case["seed"])
    for query in sorted(one):
        ctx.require(one[query] == two[query], "%s after %r: line %r gives %s, its printed form %r gives %s", query, prelude,
                    text, str(one[query])[:300], printed, str(two[query])[:300])
    e = syntax.line_expr(line)
    nodes = list(syntax.walk(e))
    ctx.label("assignment", line[0] == "set")
    ctx.label("reads variables", bool(syntax.reads(e)))
    ctx.label("raises", isinstance(one["max"], str))
    ctx.nontrivial(any(n[0] in ("bin", "mm", "not", "abs") for n in nodes) and any(n[0] in ("var", "par", "dice", "kd") for n in nodes))
    ctx.note("%r prints as %r" % (text, printed))
