"""C14: answers depend only on the lines run, not on earlier queries."""
import random

from hypothesis import strategies as st

from vlib import draw as pictures
from vlib import gen, judge, sut, syntax
from vlib.engine import Violation

ID = "C14"
EXAMPLES = {"quick": 500, "thorough": 4000}
RULE = (
    "cases are histories of 2-9 (some 12-40) queries of any kind (roll, max, min, distributions, dictionaries, averages, cost, pictures; some "
    "fail in the lexer, the parser, by an unassigned name or by a division by zero) on one interpreter, each answer "
    "compared with a fresh interpreter's under the same random seed, leftover variables with a model of the names; and "
    "programs run in one call versus cut into separate calls on one interpreter or on interpreters sharing a starting "
    "state; non-trivial = at least two queries assign the same name, or the program is cut in at least two parts"
)
KINDS = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"]
PICTURES = ["get_histogram", "get_at_least_histogram", "get_at_most_histogram"]
NUMBERS = ("roll", "max", "min")
AGAIN = [["+", ["int", 1]], ["-", ["int", 2]], ["*", ["int", 2]], ["+", ["dice", None, ["n", 2]]], ["//", ["int", 2]], ["-", ["dice", None, ["n", 2]]]]
BAD = {"lex": "VAR a = 1 @ 2", "parse": "VAR a = (1 +", "zero": "VAR b = 1 // (d2 - 1)", "name": "VAR a = never_assigned + 1"}


@st.composite
def _program(draw, lines=4, limit=None):
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a",), ("a", "stdout"), ("a", "a_", "b")])
    o = gen.Opts(cap=draw(st.sampled_from([60, 200])), max_joint=800, names=names, max_nodes=draw(st.sampled_from([2, 3, 5])), binary_and=True,
                 max_abs=limit)
    if draw(st.integers(0, 19)) == 0 and limit is None:
        return draw(gen.wide(o) if draw(st.booleans()) else gen.chain(o))
    return draw(gen.programs(o, 1, lines))


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 2)) == 2:
        drawn = draw(st.integers(0, 49)) == 0
        program = draw(_program(7, 60 if drawn else None))
        cuts = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3))
        if draw(st.integers(0, 2)) == 0:
            # the same line again and again, each time on what the last one left
            name = draw(st.sampled_from(sorted({l[1] for l in program if l[0] == "set"} or {"a"})))
            again = draw(st.sampled_from(AGAIN))
            if not any(l[0] == "set" and l[1] == name for l in program):
                program = program + [["set", name, ["dice", None, ["n", 3]]]]
            program = program + [["set", name, ["bin", again[0], ["var", name], again[1]]]] * draw(st.integers(2, 3))
            cuts = draw(st.sampled_from([[1], [1], cuts]))
        between = []
        if draw(st.booleans()):
            between = [[draw(st.sampled_from(KINDS + ["same"] * 4)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(1, 4)))]
        return {"split": program, "cuts": cuts, "share": draw(st.booleans()), "between": between, "drawn": drawn, "seed": draw(st.integers(0, 9999))}
    ops = []
    if draw(st.integers(0, 39)) == 0:
        # a long history of short queries
        names = gen.draw_names(draw, [("a", "b", "c", "d", "e", "f", "g")])
        o = gen.Opts(cap=60, max_joint=200, names=names, max_nodes=2, binary_and=True)
        few = [draw(gen.programs(o, 1, 2)) for _ in range(5)]
        kinds = KINDS if draw(st.booleans()) else [draw(st.sampled_from(KINDS))]
        for _ in range(draw(st.integers(12, 40))):
            ops.append({"kind": draw(st.sampled_from(kinds)), "program": draw(st.sampled_from(few)), "bad": None, "at": 0})
        return {"ops": ops, "default": False, "seed": draw(st.integers(0, 9999))}
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(KINDS if draw(st.integers(0, 99)) else PICTURES))
        op = {"kind": kind, "program": draw(_program(limit=60 if kind in PICTURES else None)), "bad": None, "at": 0}
        if draw(st.integers(0, 3)) == 3:
            op["bad"] = draw(st.sampled_from(sorted(BAD)))
            op["at"] = draw(st.integers(0, 4))
        ops.append(op)
    return {"ops": ops, "default": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 9999))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    d, two = ["dice", None, ["n", 4]], ["dice", 2, ["n", 2]]
    a, b = ["var", "a"], ["var", "b"]
    p1 = [["set", "a", d], ["set", "b", ["bin", "+", a, a]], ["out", ["bin", "-", b, a]]]
    p2 = [["set", "b", two], ["set", "a", ["bin", "*", b, d]]]
    for one in KINDS:
        for two_kind in KINDS:
            for three in KINDS:
                yield {"ops": [{"kind": one, "program": p1, "bad": None, "at": 0}, {"kind": two_kind, "program": p2, "bad": None, "at": 0},
                               {"kind": three, "program": p1, "bad": None, "at": 0}], "default": False, "seed": 3}
    for one in PICTURES:
        for two_kind in ("roll", "max", "get_average", "get_histogram"):
            yield {"ops": [{"kind": one, "program": p1, "bad": None, "at": 0}, {"kind": two_kind, "program": p2, "bad": None, "at": 0},
                           {"kind": one, "program": p1, "bad": None, "at": 0}, {"kind": "get_average", "program": p2, "bad": None, "at": 0}],
                   "default": False, "seed": 3}
    for kind in KINDS + PICTURES[:1]:
        for bad in sorted(BAD):
            for at in range(3):
                yield {"ops": [{"kind": kind, "program": p1, "bad": bad, "at": at}, {"kind": kind, "program": p1, "bad": None, "at": 0}],
                       "default": False, "seed": 4}
    for cuts in ([1], [2], [1, 2], [3]):
        for share in (False, True):
            yield {"split": p1 + p2 + p1, "cuts": cuts, "share": share, "between": [], "drawn": True, "seed": len(cuts) + share}
            yield {"split": p1 + p2, "cuts": cuts, "share": share, "between": [["same", 0], ["same", 1], ["same", 2]], "drawn": False, "seed": 5}
            for other in KINDS:
                yield {"split": p1 + p2, "cuts": cuts, "share": share, "between": [[other, 0], [other, 1], [other, 2], [other, 3]], "drawn": False, "seed": 5}
            for op, number in AGAIN:
                yield {"split": p1[:1] + [["set", "a", ["bin", op, a, number]]] * 3, "cuts": cuts, "share": share, "between": [], "drawn": False, "seed": 5}


def comparable(kind, answer):
    if isinstance(answer, sut.Raised):
        return ("raised", answer.kind)
    if kind == "get_probability_distributions":
        return {k: judge.result_map(v, k) for k, v in answer.items()}
    if kind in PICTURES:
        return pictures.pixels(answer)
    return answer


def same(kind, x, y):
    if kind in PICTURES:
        wrong = pictures.differing(x, y)
        return wrong is not None and wrong <= 30
    if kind in ("get_average", "get_probability_distributions_dict", "get_probability_distributions"):
        if isinstance(x, dict) and isinstance(y, dict):
            if set(x) != set(y):
                return False
            if kind == "get_average":
                return all(judge.close(x[k], y[k]) for k in x)
            if kind == "get_probability_distributions":
                return all(judge.same_ratio(x[k], y[k]) for k in x)
            return all(set(x[k]) == set(y[k]) and all(judge.close(x[k][v], y[k][v]) for v in x[k]) for k in x)
    return x == y


def ask(interp, kind, lines, seed):
    random.seed(seed)
    return comparable(kind, sut.call(getattr(interp, kind), list(lines)))


def check(case, ctx):
    if "split" in case:
        return split(case, ctx)
    interp = sut.PythonDiceInterpreter() if case["default"] else sut.fresh()
    constants, variables = {}, set()      # names certainly there; value reported last, or None if not to be compared
    maybe = set()                         # names a failed query may have left
    assigned, repeated = set(), False
    for step, op in enumerate(case["ops"]):
        kind, program = op["kind"], op["program"]
        lines = syntax.program_text(program)
        own = [l[1] for l in program if l[0] == "set"]
        bad = op["bad"]
        if bad == "zero" and kind in ("get_estimated_cost", "roll"):
            bad = "parse"
        if bad:
            at = op["at"] % (len(lines) + 1)
            lines.insert(at, BAD[bad])
        seed = case["seed"] + step
        got = ask(interp, kind, lines, seed)
        other = ask(sut.fresh(), kind, lines, seed)
        what = "step %d, %s of %r after %d other queries" % (step, kind, lines, step)
        if bad:
            for answer in (got, other):
                ctx.require(isinstance(answer, tuple) and answer[0] == "raised", "%s: %r, expected an error", what, answer)
            ctx.require(got == other, "%s: %r, a fresh interpreter: %r", what, got, other)
            maybe |= set(own) | {"a", "b"}
            for name in set(own) | {"a", "b"}:
                if name in constants:
                    constants[name] = None
            ctx.label("failing query")
            continue
        if isinstance(other, tuple):
            raise Violation("%s: %r" % (what, other))
        repeated |= bool(set(own) & assigned)
        assigned |= set(own)
        if kind in PICTURES:
            ctx.require(not isinstance(got, tuple) and same(kind, got, other), "%s differs from the picture by a fresh interpreter", what)
            variables |= set(own)
            ctx.label("query of a picture")
            continue
        if kind == "get_estimated_cost":
            ctx.require(got == other, "%s: %r, a fresh interpreter: %r", what, got, other)
            for name in own:
                constants[name] = None
            continue
        ctx.require(isinstance(got, dict), "%s: %r, a fresh interpreter: %r", what, got, other)
        mine = {k: v for k, v in got.items() if k in other}
        ctx.require(set(mine) == set(other) and same(kind, mine, other), "%s: %s, a fresh interpreter: %s", what, str(mine)[:400], str(other)[:400])
        extra = set(got) - set(other)
        present = set(constants) if kind in NUMBERS else variables
        ctx.require(present - set(other) <= extra <= (present | maybe), "%s lists also %r, left over are %r (possibly %r)", what,
                    sorted(extra), sorted(present - set(other)), sorted(maybe))
        if kind in NUMBERS:
            for name in extra:
                if constants.get(name) is not None:
                    ctx.require(got[name] == constants[name], "%s: the left-over variable %s is now %r, it was %r", what, name, got[name], constants[name])
            for name in own:
                if name != "stdout":
                    constants[name] = got[name]
                else:
                    constants[name] = None
        if kind not in ("roll",):
            variables |= set(own)
        ctx.label("query " + kind)
    ctx.nontrivial(repeated)
    ctx.note("; ".join("%s%r" % (op["kind"], syntax.program_text(op["program"])) for op in case["ops"])[:400])
    return None


def split(case, ctx):
    program = case["split"]
    lines = syntax.program_text(program)
    parts, i, k = [], 0, 0
    while i < len(lines):
        n = case["cuts"][k % len(case["cuts"])]
        parts.append(lines[i:i + n])
        i += n
        k += 1
    for kind in KINDS + ([PICTURES[case["seed"] % 3]] if case["drawn"] else []):
        whole = ask(sut.fresh(), kind, lines, case["seed"])
        state = sut.ProbabilityDistributionStateFactory().create_new_empty_set()
        interp = sut.fresh()
        answers = []
        for step, part in enumerate(parts):
            if case["share"]:
                interp = sut.PythonDiceInterpreter(parser=sut.parser(), starting_state=state)
            if step and case["between"]:
                other, which = case["between"][step % len(case["between"])]
                words = sorted({l[1] for l in program if l[0] == "set"})
                asked = ["1", "2d4", "never_assigned", words[step % len(words)] + " + d2" if words else "3"][which]
                kept = random.getstate()
                sut.call(getattr(interp, kind if other == "same" else other), [asked])     # may well be an error
                random.setstate(kept)
            elif not step:
                random.seed(case["seed"])
            answers.append(comparable(kind, sut.call(getattr(interp, kind), list(part))))
        if kind == "get_estimated_cost":
            ctx.require(not any(isinstance(a, tuple) for a in answers) and sum(answers) == whole,
                        "%s of %r in one call is %r, in the parts %r it is %r", kind, lines, whole, parts, answers)
            continue
        ctx.require(not isinstance(whole, tuple), "%s of %r: %r", kind, lines, whole)
        if kind in PICTURES:
            ctx.require(not isinstance(answers[-1], tuple) and same(kind, answers[-1], whole), "%s of %r in one call differs from the picture after the parts %r",
                        kind, lines, parts)
            continue
        ctx.require(same(kind, answers[-1], whole), "%s of %r in one call is %s, after the parts %r%s%s it is %s", kind, lines, str(whole)[:300],
                    parts, " with a shared state" if case["share"] else "", " and reading queries %r in between" % case["between"] if case["between"] else "",
                    str(answers[-1])[:300])
    ctx.label("split run")
    ctx.label("shared starting state", case["share"])
    ctx.label("reading queries between the parts", bool(case["between"]))
    ctx.label("a line run again on its own result", len(lines) > len(set(lines)))
    ctx.nontrivial(len(parts) > 1)
    ctx.note("parts %r" % parts)
