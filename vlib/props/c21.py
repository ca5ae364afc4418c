"""C21: all query kinds describe the same program."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C21"
EXAMPLES = {"quick": 300, "thorough": 5000}
RULE = (
    "cases are programs of 1-6 lines; distribution objects, dictionaries, averages, max, min and 8 rolls of the same "
    "program are compared with each other (names and values), queries are repeated in a random order on one interpreter "
    "and on expressions taken from the parser; findings K2 and K3 are accepted only in their characterised form; "
    "non-trivial = at least two names are reported and one has two or more outcomes"
)
QUERIES = ["get_probability_distributions", "get_probability_distributions_dict", "get_average", "max", "min"]


@st.composite
def _case(draw, tier):
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a", "b", "c", "d"), ("stdout", "a"), ("total_damage", "_")])
    o = gen.Opts(cap=draw(st.sampled_from([200, 600, 1500])), max_joint=2500, names=names, max_nodes=draw(st.sampled_from([2, 4, 6])),
                 binary_and=draw(st.integers(0, 3)) != 0, prefer_vars=draw(st.booleans()), big=draw(gen.bigs))
    return {"program": draw(gen.any_program(o, 1, 6)), "order": draw(st.permutations(QUERIES)), "seed": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    a, b = ["var", "a"], ["var", "b"]
    d = ["dice", 2, ["list", [[-1, 1, None]], False, 0]]
    k = ["kd", 3, ["n", 4], "k", 2]
    for first in (d, k, ["int", 0], ["bool", 1], ["dice", 0, ["n", 4]]):
        for e in [["bin", op, a, first] for op in syntax.BIN_OPS if op != "//"] + [["not", a], ["abs", a], ["mm", "MAX", a, first], ["mm", "MIN", a, first],
                                                                                  ["bin", "//", ["int", 7], ["bin", "+", ["abs", a], ["int", 1]]]]:
            yield {"program": [["set", "a", first], ["set", "b", e], ["out", ["bin", "+", b, a]]], "order": QUERIES, "seed": 1}
    yield {"empty": []}
    yield {"empty": [["set", "a", d], ["out", a]]}
    yield {"program": [["set", "a", ["dice", None, ["n", 6]]], ["out", ["mm", "MIN", a, ["bin", "-", ["int", 7], a]]]], "order": QUERIES, "seed": 1}
    yield {"program": [["out", ["bin", "AND", ["int", 2], ["int", 1]]]], "order": QUERIES, "seed": 1}


def value_of(query, answer, what):
    judge.returned(answer, what)
    if query == "get_probability_distributions":
        return {k: judge.result_map(v, "%s entry %s" % (what, k)) for k, v in answer.items()}
    return answer


def empty(case, ctx):
    """a program without lines, on an interpreter that has or has not run something before"""
    texts = syntax.program_text(case["empty"])
    for query in QUERIES + ["roll", "get_estimated_cost"]:
        interp = sut.fresh()
        if texts:
            judge.returned(sut.call(getattr(interp, query), list(texts)), "%s of %r" % (query, texts))
        got = judge.returned(sut.call(getattr(interp, query), []), "%s of no lines" % query)
        ctx.require(got == (0 if query == "get_estimated_cost" else {}), "%s of no lines is %r", query, got)


def check(case, ctx):
    if "empty" in case:
        return empty(case, ctx)
    program = case["program"]
    texts = syntax.program_text(program)
    interp = sut.fresh()
    answers = {}
    for query in case["order"]:
        answers[query] = value_of(query, sut.call(getattr(interp, query), list(texts)), "%s of %r" % (query, texts))
    objects = answers["get_probability_distributions"]
    names = {l[1] for l in program if l[0] == "set"} | {"stdout"}
    for query in QUERIES:
        ctx.require(isinstance(answers[query], dict) and set(answers[query]) == names, "%s of %r lists %r, expected %r", query, texts,
                    sorted(answers[query]), sorted(names))
    bounds = {}
    for name in sorted(names):
        weights = objects[name]
        what = "%s of %r" % (name, texts)
        judge.probabilities(answers["get_probability_distributions_dict"][name], weights, what)
        total = sum(weights.values())
        mean = sum(v * w for v, w in weights.items()) / total
        scale = max(abs(v) for v in weights) + 1
        ctx.require(abs(answers["get_average"][name] - mean) <= 1e-9 * scale, "average of %s is %r, its distribution has %r", what, answers["get_average"][name], mean)
        for query, pick in (("max", max), ("min", min)):
            got = answers[query][name]
            if got != pick(weights):
                if query not in bounds:
                    bounds[query] = oracle.interval_bounds(program, query)
                ctx.require(got == bounds[query][name], "%s of %s is %r, its distribution has %r", query, what, got, pick(weights))
                ctx.known("K3", "%s of %s is %r, its distribution has %r" % (query, what, got, pick(weights)))
    # again, in the reverse order, on the same interpreter
    for query in reversed(case["order"]):
        again = value_of(query, sut.call(getattr(interp, query), list(texts)), "%s of %r, repeated" % (query, texts))
        ctx.require(again == answers[query], "%s of %r was %s, repeated it is %s", query, texts, str(answers[query])[:300], str(again)[:300])
    rolls(program, texts, objects, names, case, ctx)
    direct(texts, objects, answers, ctx)
    ctx.label("variables", len(names) > 1)
    ctx.nontrivial(len(names) > 1 and any(len(w) > 1 for w in objects.values()))
    ctx.note(" ; ".join(texts))


def rolls(program, texts, objects, names, case, ctx):
    random.seed(case["seed"])
    interp = sut.fresh()
    has_and = any(x[0] == "bin" and x[1] == "AND" for l in program for x in syntax.walk(syntax.line_expr(l)))
    bitwise = None
    for _ in range(8):
        got = sut.call(interp.roll, list(texts))
        if has_and and bitwise is None and (isinstance(got, sut.Raised) or any(got[n] not in objects[n] for n in got if n in objects)):
            bitwise = oracle.Joint(bitwise_and=True).run_all(program)
        if isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError" and bitwise is not None and bitwise.lost:
            ctx.known("K2", "roll of %r %r" % (texts, got))
            continue
        judge.returned(got, "roll of %r" % texts)
        ctx.require(set(got) == names, "roll of %r lists %r, expected %r", texts, sorted(got), sorted(names))
        for name in sorted(names):
            if got[name] not in objects[name]:
                ctx.require(bitwise is not None and got[name] in bitwise.marginals()[name], "roll of %r returned %s = %r, not an outcome of %s", texts,
                            name, got[name], judge.show(objects[name]))
                ctx.known("K2", "roll of %r returned %r" % (texts, got))


def direct(texts, objects, answers, ctx):
    """expressions taken from the parser"""
    for query, method in (("get_probability_distributions", "get_probability_distribution"), ("max", "max"), ("min", "min")):
        state = None
        for text in texts:
            token, state = judge.returned(sut.call(sut.parser().parse, text, state), "parsing %r" % text)
            got = judge.returned(sut.call(getattr(token, method)), "%s of the expression %r" % (method, text))
        if query == "get_probability_distributions":
            got = judge.result_map(got, "expression %r" % text)
            stored = {k: judge.result_map(v, k) for k, v in state.get_var_dict().items()}
        else:
            stored = dict(state.get_constant_dict())
        stored["stdout"] = got
        want = objects if query == "get_probability_distributions" else answers[query]
        ctx.require(stored == want, "%s of %r through parsed expressions is %s, through the interpreter %s", query, texts, str(stored)[:300], str(want)[:300])
