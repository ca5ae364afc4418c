"""C04: variables stay entangled with everything derived from them."""
from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C04"
EXAMPLES = {"quick": 700, "thorough": 5600}
RULE = (
    "cases are programs of 2-25 lines over 2-4 variables (chains, reassignment, self-reference, reuse of derived "
    "variables), followed by an operation on two of the returned distribution objects; every reported distribution is "
    "compared exactly with the joint distribution over all lines; the listed finding K1 is accepted only when the "
    "weights are exactly those of its characterisation; non-trivial = some value is read more than once, directly or "
    "through a derived variable, and has at least two outcomes"
)
OBJECT_OPS = ["+", "-", "*", "==", "!=", "<=", "<", ">=", ">", "AND", "OR", "MAX", "MIN"]


@st.composite
def _long_program(draw):
    """many reassignments of few names, small dice"""
    o = gen.Opts(cap=400, max_joint=3000, big=False)
    b = gen.Builder(draw, o)
    joint = oracle.Joint()
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a", "a_", "aa"), ("x",), ("a", "b", "c", "d")])
    program = []
    for _ in range(draw(st.integers(8, 25))):
        name = draw(st.sampled_from(list(names)))
        known = sorted(b.model.vars)
        kind = draw(st.integers(0, 7))
        if kind <= 2 or not known:
            e = ["dice", None, draw(st.sampled_from([["n", 2], ["n", 3], ["F"], ["list", [[0, None, None], [5, None, None]], False, 0]]))]
        elif kind <= 4:
            e = ["var", draw(st.sampled_from(known))]
        elif kind == 5:
            e = ["bin", draw(st.sampled_from("+-*")), ["var", draw(st.sampled_from(known))], ["int", draw(st.integers(-2, 3))]]
        else:
            e = ["bin", draw(st.sampled_from("+-*")), ["var", draw(st.sampled_from(known))], ["var", draw(st.sampled_from(known))]]
        b.model.work.done = 0
        e = b.attempt(e, ["int", 1])
        line = ["set", name, e]
        saved = joint.names, joint.worlds, joint.out
        joint.run(line)
        if len(joint.out) > o.max_joint:
            joint.names, joint.worlds, joint.out = saved
            line = ["set", name, ["int", 1]]
            joint.run(line)
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)
    known = sorted(b.model.vars)
    b.model.work.done = 0
    e = ["bin", "-", ["var", draw(st.sampled_from(known))], ["var", draw(st.sampled_from(known))]]
    program.append(["out", b.attempt(e, ["var", known[0]])])
    return program


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 4)) == 4:
        program = draw(_long_program())
    else:
        names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("a", "b", "c", "d"), ("a", "a_", "_"), ("roll", "max", "x_y"), ("stdout", "a")])
        o = gen.Opts(cap=draw(st.sampled_from([150, 400, 400, 1200, 3000])), max_joint=3000, names=names,
                     max_nodes=draw(st.sampled_from([2, 3, 3, 5, 7])), big=draw(gen.bigs), prefer_vars=draw(st.integers(0, 3)) > 0)
        program = draw(gen.any_program(o, 2, 7))
    return {"program": program, "op": draw(st.sampled_from(OBJECT_OPS)), "x": draw(st.integers(0, 5)), "y": draw(st.integers(0, 5))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    d6, d2 = ["dice", None, ["n", 6]], ["dice", None, ["n", 2]]
    a, b = ["var", "a"], ["var", "b"]
    two3 = ["dice", 2, ["n", 3]]
    base = {"op": "+", "x": 0, "y": 1}
    yield dict(base, program=[["set", "a", two3], ["set", "b", ["bin", "+", a, a]], ["out", b]])  # finding K1
    for first in (d6, d2, ["dice", None, ["F"]]):
        for op in syntax.BIN_OPS:
            if op == "//" and 0 in oracle.dist(first, {}):
                continue
            yield dict(base, op=OBJECT_OPS[len(op)], program=[["set", "a", first], ["out", ["bin", op, a, a]]])
            yield dict(base, program=[["set", "a", first], ["set", "b", a], ["out", ["bin", op, a, b]]])
            yield dict(base, program=[["set", "a", first], ["set", "b", a], ["set", "a", first], ["out", ["bin", op, a, b]]])


def apply(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "==":
        return x.__equal__(y)
    if op == "!=":
        return x.__not_equal__(y)
    if op == "<=":
        return x <= y
    if op == "<":
        return x < y
    if op == ">=":
        return x >= y
    if op == ">":
        return x > y
    if op == "AND":
        return x & y
    if op == "OR":
        return x | y
    if op == "MAX":
        return x.max_operator(y)
    return x.min_operator(y)


def check(case, ctx):
    program = case["program"]
    texts = syntax.program_text(program)
    joint = oracle.Joint().run_all(program)
    labelled = oracle.LabelModel().run_all(program)
    want, alt = joint.marginals(), labelled.marginals()
    got = judge.returned(sut.call(sut.fresh().get_probability_distributions, list(texts)), "program %r" % texts)
    ctx.require(set(got) == set(want), "program %r reports %r, expected %r", texts, sorted(got), sorted(want))
    all_exact = True
    for name in sorted(want):
        what = "%r in program %r" % (name, texts)
        all_exact &= judge.exact_or_known(ctx, got[name], want[name], alt[name], what)
    form = judge.returned(sut.call(sut.fresh().get_probability_distributions_dict, list(texts)), "program %r" % texts)
    ctx.require(set(form) == set(want), "program %r reports %r, expected %r", texts, sorted(form), sorted(want))
    for name in sorted(want):
        weights = judge.result_map(got[name], name)
        judge.probabilities(form[name], weights, "%r in program %r" % (name, texts))
    # the returned objects carry the entanglement with them
    names = sorted(n for n in joint.names if n != "stdout")
    if names:
        x, y = names[case["x"] % len(names)], names[case["y"] % len(names)]
        op = case["op"]
        extra = ["mm", op, ["var", x], ["var", y]] if op in ("MAX", "MIN") else ["bin", op, ["var", x], ["var", y]]
        size = len(labelled.vars[x]) * len(labelled.vars[y])
        if size <= 4000:
            combined = judge.returned(sut.call(apply, op, got[x], got[y]), "%s of the distributions of %s and %s" % (op, x, y))
            joint.run(["out", extra])
            labelled.run(["out", extra])
            judge.exact_or_known(ctx, combined, joint.stdout(), labelled.marginals()["stdout"],
                                 "returned objects %s %s %s of program %r" % (x, op, y, texts))
            ctx.label("objects combined")
    # classification
    deps, multi, reassigned, seen = {}, False, False, set()
    version = {}
    for line in program:
        e = syntax.line_expr(line)
        used = {}
        for node in syntax.walk(e):
            if node[0] == "var":
                for origin in deps[node[1]]:
                    used[origin] = used.get(origin, 0) + 1
        multi |= any(c > 1 for c in used.values())
        if line[0] == "set":
            name = line[1]
            reassigned |= name in seen
            seen.add(name)
            version[name] = version.get(name, 0) + 1
            origin = {(name, version[name])} if any(n[0] in ("dice", "kd") for n in syntax.walk(e)) else set()
            deps[name] = set(used) | origin
    ctx.label("same origin read more than once", multi)
    ctx.label("reassignment", reassigned)
    ctx.label("ten or more versions of a name", any(v >= 10 for v in version.values()))
    ctx.label("exact although read repeatedly", multi and all_exact)
    ctx.nontrivial(multi and len(want["stdout"]) > 1)
    ctx.note(" ; ".join(texts))
