"""C17: pictures show the distribution they were asked for."""
from hypothesis import strategies as st

from vlib import draw as pictures
from vlib import dictionary, gen, judge, oracle, sut, syntax

ID = "C17"
EXAMPLES = {"quick": 60, "thorough": 600}
RULE = (
    "cases are pictures of one or two random distributions (1-40 outcomes, gaps, negative values, range up to 60, sometimes "
    "1200) or of a random program, compared pixel by pixel with a reference rendering of the exact data; at most 30 of "
    "307200 pixels may have no similar pixel within one pixel (floating point); finding K4 (comparison histogram) accepted only "
    "when the picture is the pinned one; non-trivial = at least two outcomes of unequal probability"
)
SINGLE = ["get_histogram", "get_at_least_histogram", "get_at_most_histogram"]
DOUBLE = ["get_compare", "get_compare_at_least", "get_compare_at_most", "get_compare_histogram"]
ALLOWED = 30
NAMES = ["one", "two", "fire ball", "Magic Missile", "A", "b2", "longer name of a distribution"]


@st.composite
def _weights(draw):
    lo = draw(st.one_of(st.integers(-8, 8), st.integers(-200, 200))) if draw(st.integers(0, 9)) else draw(st.integers(-10 ** 6, 10 ** 6))
    span = draw(st.sampled_from([1, 4, 12, 12, 60, 300]))
    if draw(st.integers(0, 9)) == 0:
        span = draw(st.one_of(st.integers(1, 1200), st.sampled_from(dictionary.COUNTS or [50])))
    n = draw(st.sampled_from([2, 3, 4, 5, 7, 12, 1, 40]))
    values = sorted({lo + draw(st.integers(0, span)) for _ in range(n)})
    return [[v, draw(st.one_of(st.integers(1, 6), st.integers(1, 1000)))] for v in draw(st.permutations(values))]


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 2)) == 2:
        o = gen.Opts(cap=150, max_abs=100, max_joint=400, names=("a", "b"), max_nodes=4, big=False)
        return {"kind": draw(st.sampled_from(SINGLE)), "program": draw(gen.programs(o, 1, 4))}
    kind = draw(st.sampled_from(SINGLE + DOUBLE + DOUBLE[:3]))
    case = {"kind": kind, "one": draw(_weights())}
    if kind in DOUBLE:
        case["two"] = draw(_weights())
        values = [v for v, _ in case["one"] + case["two"]]
        if kind == "get_compare_histogram" and max(values) - min(values) > 1500:
            shift = min(v for v, _ in case["one"]) - min(v for v, _ in case["two"]) + draw(st.integers(-50, 50))
            case["two"] = [[v + shift, w] for v, w in case["two"]]
        case["names"] = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=2)) if draw(st.booleans()) else None
        if case["names"] and draw(st.booleans()):
            # names that have much in common
            first, other = case["names"]
            case["names"] = [first, draw(st.sampled_from([first, first + " " + other, other + " " + first, first[:-1] or "x", first.swapcase(), first * 6]))]
            if draw(st.booleans()):
                case["names"].reverse()
    return case


def strategy(tier):
    return _case(tier)


def fixed(tier):
    one, two, three = [[3, 1], [1, 2], [2, 5]], [[2, 3], [3, 3], [6, 1]], [[-9, 2], [-7, 1]]
    for kind in SINGLE:
        for w in (one, two, three):
            yield {"kind": kind, "one": w}
    for kind in DOUBLE:
        yield {"kind": kind, "one": one, "two": two, "names": None}
        yield {"kind": kind, "one": two, "two": three, "names": ["two", "three"]}
        yield {"kind": kind, "one": three, "two": one, "names": ["three", "one"]}
    a = ["var", "a"]
    for kind in SINGLE:
        yield {"kind": kind, "program": [["set", "a", ["dice", None, ["n", 6]]], ["set", "b", ["bin", "*", a, a]], ["out", ["bin", "-", ["var", "b"], a]]]}
        yield {"kind": kind, "program": [["set", "a", ["dice", 3, ["n", 4]]], ["set", "b", ["dice", None, ["n", 3]]]]}


def reference(kind, one, two=None, names=None, rounding=False):
    if kind == "get_histogram":
        return pictures.bars(pictures.odds(one), pictures.average(one))
    if kind == "get_at_least_histogram":
        return pictures.bars(pictures.at_least(one, rounding), pictures.average(one))
    if kind == "get_at_most_histogram":
        return pictures.bars(pictures.at_most(one, rounding), pictures.average(one))
    if kind == "get_compare_histogram":
        return pictures.bars(pictures.difference(one, two))
    names = names or ["This distribution", "other distribution"]
    data = {"get_compare": pictures.odds, "get_compare_at_least": pictures.at_least, "get_compare_at_most": pictures.at_most}[kind]
    if rounding and kind != "get_compare":
        return pictures.lines(data(one, True), data(two, True), names[0], names[1])
    return pictures.lines(data(one), data(two), names[0], names[1])


def shown(image, what):
    judge.returned(image, what)
    return judge.returned(sut.call(pictures.pixels, image), what + ": reading the picture")


def matches(got, *data):
    """None if the picture is the one of the data, else the number of differing pixels"""
    best = None
    for rounding in (False, True):
        d = pictures.differing(got, reference(*data, rounding=rounding))
        if d is not None and d <= ALLOWED:
            return None
        if d is not None and (best is None or d < best):
            best = d
    return "all" if best is None else best


def check(case, ctx):
    kind = case["kind"]
    if "program" in case:
        program = case["program"]
        texts = syntax.program_text(program)
        what = "%s of %r" % (kind, texts)
        got = shown(sut.call(getattr(sut.fresh(), kind), list(texts)), what)
        exact = oracle.Joint().run_all(program).stdout()
        wrong = matches(got, kind, exact)
        if wrong is not None:
            # the weights of repeatedly read variables are the subject of C04 (finding K1)
            alt = oracle.LabelModel().run_all(program).marginals()["stdout"]
            ctx.require(not judge.same_ratio(exact, alt) and matches(got, kind, alt) is None, "%s differs from the picture of %s in %s pixels", what,
                        judge.show(exact), wrong)
        weights = exact
    else:
        weights = {v: w for v, w in case["one"]}
        factory = sut.ProbabilityDistributionFactory()
        one = judge.returned(sut.call(factory.create, dict(weights)), "create")
        what = "%s of %s" % (kind, judge.show(weights))
        if kind in SINGLE:
            got = shown(sut.call(getattr(one, kind)), what)
            wrong = matches(got, kind, weights)
            ctx.require(wrong is None, "%s differs from the reference picture in %s pixels", what, wrong)
        else:
            second = {v: w for v, w in case["two"]}
            two = judge.returned(sut.call(factory.create, dict(second)), "create")
            what += " and %s" % judge.show(second)
            args = case["names"] if case["names"] and kind != "get_compare_histogram" else []
            got = shown(sut.call(getattr(one, kind), two, *args), what)
            wrong = matches(got, kind, weights, second, args)
            if wrong is not None:
                pinned = kind == "get_compare_histogram" and pictures.differing(got, pictures.bars(pictures.difference_as_pinned(weights, second)))
                ctx.require(kind == "get_compare_histogram" and pinned is not None and pinned <= ALLOWED,
                            "%s (names %r) differs from the reference picture in %s pixels", what, args, wrong)
                ctx.known("K4", what)
    ctx.label(kind)
    ctx.label("interpreter", "program" in case)
    ctx.nontrivial(len(set(weights.values())) > 1)
    ctx.note(what[:300])
