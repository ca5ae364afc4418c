"""C15: returned results are snapshots and interpreters are isolated."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C15"
EXAMPLES = {"quick": 500, "thorough": 4000}
RULE = (
    "cases are 2-3 interpreters, each with its own program and query kind, advanced line by line in a random "
    "interleaving; every answer is compared with a model of that interpreter alone, kept, and compared again after all "
    "later steps; some returned dictionaries (and the dictionaries of returned distributions) are cleared or overwritten "
    "in between; 'stdout' is among the variable names; and expressions evaluated repeatedly in mixed order; non-trivial "
    "= at least two interpreters use a common name, or an expression is evaluated at least twice"
)
KINDS = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"]


@st.composite
def _case(draw, tier):
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a",), ("a", "stdout"), ("stdout",)])
    o = gen.Opts(cap=draw(st.sampled_from([60, 200])), max_joint=800, names=names, max_nodes=draw(st.sampled_from([2, 3, 5])), binary_and=True)
    if draw(st.integers(0, 3)) == 3:
        program = draw(gen.programs(o, 2, 5))
        return {"reuse": program, "order": draw(st.lists(st.integers(0, 6), min_size=3, max_size=10)), "seed": draw(st.integers(0, 9999))}
    runs = [{"kind": draw(st.sampled_from(KINDS)), "program": draw(gen.programs(o, 1, 5))} for _ in range(draw(st.integers(2, 3)))]
    if draw(st.booleans()):
        for r in runs[1:]:
            r["kind"] = runs[0]["kind"]
    total = sum(len(r["program"]) for r in runs)
    return {"runs": runs, "order": draw(st.lists(st.integers(0, 2), min_size=total, max_size=total)),
            "spoil": draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)), "make": draw(st.sampled_from(["default", "parser", "parser", "factories", "state factory", "parsed state"])),
            "seed": draw(st.integers(0, 9999))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    d, f = ["dice", None, ["n", 6]], ["dice", 2, ["F"]]
    a, b, s = ["var", "a"], ["var", "b"], ["var", "stdout"]
    p = [["set", "a", d], ["set", "b", ["bin", "+", a, f]], ["out", ["bin", "-", b, a]], ["set", "a", ["bin", "*", a, b]], ["out", a]]
    q = [["set", "stdout", d], ["out", ["int", 5]], ["out", s], ["set", "stdout", ["bin", "+", s, ["int", 1]]], ["out", ["bin", "*", s, s]], ["out", s]]
    for kind in KINDS:
        for spoil in ([0], [1], [2], [3], [4], [0, 1], [4, 0, 0]):
            yield {"runs": [{"kind": kind, "program": p}, {"kind": kind, "program": q}, {"kind": kind, "program": p}],
                   "order": [0, 1, 2] * 6, "spoil": spoil, "make": "default" if spoil == [0] else "parser", "seed": 2}
        for make in ("factories", "state factory", "parsed state"):
            for order in ([0, 1, 2] * 6, [0] * 8 + [1, 2] * 6):
                yield {"runs": [{"kind": kind, "program": p}, {"kind": kind, "program": q}, {"kind": kind, "program": p}],
                       "order": order, "spoil": [0], "make": make, "seed": 2}
    yield {"reuse": p, "order": [0, 1, 2, 3, 4, 5, 6, 0, 1, 2], "seed": 1}


class Model:
    """what an interpreter must answer, from its own lines only"""

    def __init__(self, kind):
        self.kind = kind
        self.lines = []
        self.rolled = {}
        self.label = oracle.LabelModel()
        self.costs = {}

    def judge(self, line, text, answer, what, ctx):
        self.lines.append(line)
        kind = self.kind
        judge.returned(answer, what)
        if kind == "get_estimated_cost":
            want = oracle.program_cost(self.lines) - oracle.program_cost(self.lines[:-1])
            ctx.require(answer == want, "%s: %r, expected %r", what, answer, want)
            return
        self.label.run(line)
        names = set(self.label.vars) | {"stdout"}
        ctx.require(isinstance(answer, dict) and set(answer) == names, "%s: %s, expected the names %r", what, str(answer)[:200], sorted(names))
        exact = self.label.marginals()
        if kind == "roll":
            for name, value in self.rolled.items():
                if name != "stdout" and not (line[0] == "set" and line[1] == name):
                    ctx.require(answer[name] == value, "%s: %s is %r, it was %r", what, name, answer[name], value)
            env = dict(self.rolled)
            possible = oracle.dist(syntax.line_expr(line), env)
            ctx.require(answer["stdout"] in possible, "%s: %r, impossible with %r", what, answer, env)
            if line[0] == "set":
                self.rolled[line[1]] = answer["stdout"]
                ctx.require(answer[line[1]] == answer["stdout"], "%s: %r", what, answer)
        elif kind in ("max", "min"):
            pick = max if kind == "max" else min
            bounds = None
            for name in sorted(names):
                if answer[name] != pick(exact[name]):
                    # finding K3 is the subject of C07
                    bounds = bounds or oracle.interval_bounds(self.lines, kind)
                    ctx.require(answer[name] == bounds[name], "%s: %s is %r, expected %r", what, name, answer[name], pick(exact[name]))
        else:
            for name in sorted(names):
                if kind == "get_probability_distributions":
                    judge.exact(answer[name], exact[name], "%s, entry %s" % (what, name))
                elif kind == "get_probability_distributions_dict":
                    judge.probabilities(answer[name], exact[name], "%s, entry %s" % (what, name))
                else:
                    total = sum(exact[name].values())
                    mean = sum(v * w for v, w in exact[name].items()) / total
                    scale = max(abs(v) for v in exact[name]) + 1
                    ctx.require(abs(answer[name] - mean) <= 1e-9 * scale, "%s: average of %s is %r, expected %r", what, name, answer[name], mean)


def freeze(answer):
    """a copy by value of everything a caller can see in an answer"""
    if isinstance(answer, dict):
        return {k: freeze(v) for k, v in answer.items()}
    if hasattr(answer, "get_result_map"):
        lo, hi = answer.min(), answer.max()
        return {
            "map": dict(answer.get_result_map()), "dict": dict(answer.get_dict_form()), "average": answer.average(),
            "least": dict(answer.at_least()) if hi - lo < 500 else None, "most": dict(answer.at_most()) if hi - lo < 500 else None,
            "zero": answer.contains_zero(), "bounds": (lo, hi),
            "labelled": sorted((o.value, w) for o, w in answer.get_constraint_result_map().items()),
        }
    return answer


def spoil(answer, how):
    """what a careless caller might do with an answer"""
    if not isinstance(answer, dict):
        return False
    inner = list(answer.values())
    if how == 1:
        answer.clear()
    elif how == 2:
        for key in list(answer):
            answer[key] = 12345
        answer["a"] = -1
        answer["intruder"] = 7
    elif how == 3:
        for value in inner:
            if isinstance(value, dict):
                value.clear()
                value[99] = 1.0
            elif hasattr(value, "get_result_map"):
                for view in (value.get_result_map(), value.get_dict_form(), value.at_least() if value.max() - value.min() < 500 else {}):
                    for key in list(view):
                        view[key] = 0
                    view[424242] = 5
        return False
    elif how == 4:
        for value in inner:
            if hasattr(value, "get_result_map"):
                pair = value + value
                pair.max_operator(value).not_operator()
                abs(value)
        return False
    return how in (1, 2)


def build(make, count):
    """interpreters which may have their parts in common, but not their state; all made before any is used"""
    if make == "default":
        return [sut.PythonDiceInterpreter() for _ in range(count)]
    if make == "parser":
        return [sut.fresh() for _ in range(count)]
    states = sut.ProbabilityDistributionStateFactory()
    if make == "state factory":
        return [sut.PythonDiceInterpreter(parser=sut.parser(), probability_distribution_state_factory=states) for _ in range(count)]
    if make == "factories":
        factory = sut.ProbabilityDistributionFactory()
        parser = sut.PythonDiceParser(probability_distribution_factory=factory, probability_distribution_state_factory=states)
        return [sut.PythonDiceInterpreter(parser=parser, probability_distribution_state_factory=states, probability_distribution_factory=factory)
                for _ in range(count)]
    # every line parsed without a state comes with a new one
    found = [judge.returned(sut.call(sut.parser().parse, "d4 + 1"), "parsing a line without a state")[1] for _ in range(count)]
    return [sut.PythonDiceInterpreter(parser=sut.parser(), starting_state=state) for state in found]


def check(case, ctx):
    if "reuse" in case:
        return reuse(case, ctx)
    runs = case["runs"]
    interps = build(case["make"], len(runs))
    models = [Model(r["kind"]) for r in runs]
    at = [0] * len(runs)
    kept = []
    step = 0
    order = list(case["order"]) + [0, 1, 2] * 8
    for which in order:
        which %= len(runs)
        run = runs[which]
        if at[which] >= len(run["program"]):
            continue
        line = run["program"][at[which]]
        at[which] += 1
        text = syntax.line_text(line)
        random.seed(case["seed"] + step)
        given = [text]
        answer = sut.call(getattr(interps[which], run["kind"]), given)
        what = "step %d: %s of %r on interpreter %d" % (step, run["kind"], text, which)
        ctx.require(given == [text], "%s changed the list of lines it was given to %r", what, given)
        models[which].judge(line, text, answer, what, ctx)
        how = case["spoil"][step % len(case["spoil"])]
        before = freeze(answer)
        if how == 3 and isinstance(answer, dict) and any(isinstance(v, dict) for v in answer.values()):
            spoil(answer, how)
        elif not spoil(answer, how):
            kept.append((what, answer, before))
        if how:
            ctx.label("answer spoiled")
        step += 1
    for what, answer, before in kept:
        now = freeze(answer)
        ctx.require(now == before, "the answer to %s was %s and has become %s", what, str(before)[:300], str(now)[:300])
    common = [set(l[1] for l in r["program"] if l[0] == "set") for r in runs]
    ctx.label("interleaved interpreters")
    ctx.label("interpreters made by: " + case["make"])
    ctx.label("variable named stdout", any("stdout" in c for c in common))
    ctx.nontrivial(any(common[i] & common[j] for i in range(len(runs)) for j in range(i)))
    ctx.note(" | ".join("%s%r" % (r["kind"], syntax.program_text(r["program"])) for r in runs)[:400])
    return None


def reuse(case, ctx):
    """one parsed expression evaluated many times"""
    program = case["reuse"]
    texts = syntax.program_text(program[:-1])
    e = syntax.line_expr(program[-1])
    text = syntax.line_text(["out", e])
    state = sut.ProbabilityDistributionStateFactory().create_new_empty_set()
    interp = sut.PythonDiceInterpreter(parser=sut.parser(), starting_state=state)
    if texts:
        judge.returned(sut.call(interp.max, list(texts)), "max of %r" % texts)
    token = judge.returned(sut.call(sut.parser().parse, text, state), "parsing %r" % text)[0]
    stored = {n: freeze(v) for n, v in state.get_var_dict().items()}
    constants = dict(state.get_constant_dict())
    calls = {
        0: ("distribution", lambda: freeze(token.get_probability_distribution())),
        1: ("max", token.max), 2: ("min", token.min), 3: ("cost", token.estimated_cost), 4: ("printed form", lambda: str(token)),
        5: ("variables", lambda: sorted(token.get_contained_variables())), 6: ("roll", token.roll),
    }
    first = {}
    for step, which in enumerate(list(case["order"]) + [0, 1, 2, 3, 4, 5, 6, 0]):
        name, fn = calls[which]
        random.seed(case["seed"])
        got = judge.returned(sut.call(fn), "%s of %r after %r" % (name, text, texts))
        if name in first:
            ctx.require(first[name] == got, "%s of %r after %r was %s, evaluated again (step %d) it is %s", name, text, texts, str(first[name])[:300],
                        step, str(got)[:300])
        first[name] = got
    now = {n: freeze(v) for n, v in state.get_var_dict().items()}
    ctx.require(now == stored, "evaluating %r after %r changed the stored variables from %s to %s", text, texts, str(stored)[:300], str(now)[:300])
    ctx.require(dict(state.get_constant_dict()) == constants, "evaluating %r after %r changed the stored values", text, texts)
    ctx.label("expression reused")
    ctx.nontrivial()
    ctx.note("%r evaluated repeatedly after %r" % (text, texts))
