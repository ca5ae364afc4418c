"""C16: the cost estimate is the documented sum over the program."""
from hypothesis import strategies as st

from vlib import dictionary, gen, judge, oracle, sut, syntax

ID = "C16"
EXAMPLES = {"quick": 1400, "thorough": 12000}
CASE_SECONDS = 40  # an estimate takes milliseconds; the distributions of many of these programs take ages
RULE = (
    "cases are programs of 1-8 (sometimes up to 60) lines over all expression forms, with dice counts up to 10**9 and up to 400 sides, whose "
    "distributions could often not be computed; the estimate is compared with the structural rule computed "
    "independently, also after a dummy estimate on the same interpreter and for single parsed lines; all keep/drop terms "
    "up to 5 dice are enumerated; an estimate that takes 40 s is a violation; non-trivial = the cost is above 12"
)


def draw_spec(draw):
    if draw(st.integers(0, 7)) == 7:
        return ["n", draw(st.integers(1, 400))]
    return gen.draw_spec(draw, 100)


def draw_count(draw):
    return draw(st.one_of(st.none(), st.integers(0, 6), st.integers(0, 300), st.integers(0, 10 ** 9), st.sampled_from(dictionary.COUNTS or [3])))


@st.composite
def _expr(draw, nodes, known):
    if nodes <= 1:
        kind = draw(st.integers(0, 9))
        if kind <= 1:
            return ["int", draw(st.integers(-10 ** 6, 10 ** 6))]
        if kind == 2:
            return ["bool", draw(st.integers(0, 1))]
        if kind <= 4 and known:
            return ["var", draw(st.sampled_from(known))]
        if kind <= 6:
            n = draw_count(draw)
            near = draw(st.integers(-2, 2))
            k = draw(st.one_of(st.integers(0, 4), st.integers(0, 10 ** 6))) if draw(st.booleans()) else max(0, (1 if n is None else n) + near)
            return ["kd", n, draw_spec(draw), draw(st.sampled_from("kd")), k]
        return ["dice", draw_count(draw), draw_spec(draw)]
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return ["not", draw(_expr(nodes - 1, known))]
    if kind == 1:
        return ["abs", draw(_expr(nodes - 1, known))]
    if kind == 2:
        return ["par", draw(_expr(nodes - 1, known))]
    left = draw(st.integers(1, nodes - 1))
    one, two = draw(_expr(left, known)), draw(_expr(max(1, nodes - 1 - left), known))
    if kind == 3:
        return ["mm", draw(st.sampled_from(("MAX", "MIN"))), one, two]
    return ["bin", draw(st.sampled_from(syntax.BIN_OPS)), one, two]


@st.composite
def _case(draw, tier):
    program, known = [], []
    names = gen.draw_names(draw, [("a", "b"), ("a", "b", "c"), ("stdout", "cost")])
    for _ in range(draw(st.integers(1, 8)) if draw(st.integers(0, 9)) else draw(st.integers(9, 60))):
        e = draw(_expr(draw(st.integers(1, 8)), known))
        if draw(st.integers(0, 3)):
            name = draw(st.sampled_from(names))
            program.append(["set", name, e])
            if name not in known:
                known.append(name)
        else:
            program.append(["out", e])
    return {"program": program}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    specs = [["n", 1], ["n", 4], ["F"], ["%"], ["list", [[1, None, 5], [1, None, None], [2, 4, None]], False, 0]]
    for spec in specs:
        for n in (None, 0, 1, 2, 5):
            yield {"program": [["out", ["dice", n, spec]]]}
            for mode in "kd":
                for k in range(0, 7):
                    yield {"program": [["out", ["kd", n, spec, mode, k]]]}
    for c in range(1, 60):
        yield {"program": [["out", ["not", ["dice", c, ["n", 1]]]], ["out", ["not", ["not", ["dice", c, ["n", 7]]]]]]}
    big = ["dice", 10 ** 9, ["n", 20]]
    huge = ["kd", 500, ["%"], "k", 250]
    a = ["var", "a"]
    for e in (big, huge, ["bin", "*", big, huge], ["not", big], ["abs", huge], ["mm", "MAX", big, huge], ["par", huge], ["bin", "//", huge, big],
              ["bin", "AND", big, huge], ["bin", "<", huge, huge]):
        yield {"program": [["set", "a", e], ["set", "b", ["bin", "+", a, a]], ["set", "a", ["var", "b"]], ["out", ["not", a]]]}


def check(case, ctx):
    program = case["program"]
    texts = syntax.program_text(program)
    want = oracle.program_cost(program)
    if want > 10 ** 13 and any(x[0] == "not" for line in program for x in syntax.walk(syntax.line_expr(line))):
        ctx.label("skipped, beyond exact floating point")
        return
    interp = sut.fresh()
    got = judge.returned(sut.call(interp.get_estimated_cost, list(texts)), "cost of %r" % texts)
    ctx.require(isinstance(got, int) and got == want, "estimated cost of %r is %r, expected %r", texts, got, want)
    # the same again, on an interpreter that knows the variables already, one line at a time
    again = [judge.returned(sut.call(interp.get_estimated_cost, [t]), "cost of %r" % t) for t in texts]
    for i, t in enumerate(texts):
        line_cost = oracle.program_cost(program[:i + 1]) - oracle.program_cost(program[:i])
        ctx.require(again[i] == line_cost, "estimated cost of line %r of %r is %r, expected %r", t, texts, again[i], line_cost)
    if len(program) == 1:
        token = judge.returned(sut.call(sut.parser().parse, texts[0]), "parsing %r" % texts[0])[0]
        direct = judge.returned(sut.call(token.estimated_cost), "cost of %r" % texts[0])
        ctx.require(direct == want, "estimated cost of the parsed line %r is %r, expected %r", texts[0], direct, want)
    ctx.label("distribution out of reach", want > 10 ** 6)
    ctx.label("keep or drop", any(n[0] == "kd" for l in program for n in syntax.walk(syntax.line_expr(l))))
    ctx.label("not", any(n[0] == "not" for l in program for n in syntax.walk(syntax.line_expr(l))))
    ctx.nontrivial(want > 12)
    ctx.note("%d: %s" % (want, " ; ".join(texts)[:300]))
