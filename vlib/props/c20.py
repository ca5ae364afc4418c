"""C20: distribution objects combine like independent random integers."""
import operator
from fractions import Fraction

from hypothesis import strategies as st

from vlib import dictionary, judge, oracle, sut
from vlib.props import c04

ID = "C20"
EXAMPLES = {"quick": 1000, "thorough": 8000}
RULE = (
    "cases are three weight maps (1-10 outcomes, values up to 1e12, weights up to 1e30) and a sequence of 2-8 operations "
    "over the pool of distributions made so far (results included); every result is compared exactly with the "
    "convolution of its operands, all earlier distributions must be unchanged, the algebraic laws are checked on the "
    "objects, and every operator must reject operands that are no distributions with TypeError; all operators over all "
    "pairs of small maps are enumerated, and some maps have up to 90 outcomes; non-trivial = an operation has two operands with at least two outcomes each"
)
OPS = c04.OBJECT_OPS + ["//", "!", "abs"]
STRANGE = [3, None, "3", 1.5, {1: 1}, [1], object(), True, 0, 1, False, 0.0, (), set()]
REFLECTED = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "<": operator.lt, "<=": operator.le,
             ">": operator.gt, ">=": operator.ge, "AND": operator.and_, "OR": operator.or_}


@st.composite
def _weights(draw):
    n = draw(st.integers(1, 10))
    scale = draw(st.sampled_from([3, 3, 10, 1000, 10 ** 12]))
    out = {}
    for _ in range(n):
        out[draw(st.integers(-scale, scale))] = draw(st.one_of(st.integers(1, 5), st.integers(1, 10 ** 30), st.sampled_from([v for v in dictionary.INTS if v > 0])))
    factor = 10 ** draw(st.integers(30, 400)) if draw(st.integers(0, 9)) == 9 else 1
    return [[v, out[v] * factor] for v in draw(st.permutations(sorted(out)))]


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 24)) == 0:
        # many outcomes, scattered or in a row
        maps = []
        for _ in range(2):
            n, low = draw(st.sampled_from([20, 45, 60, 90])), draw(st.integers(-90, 90))
            step = draw(st.sampled_from([1, 1, 2, 7]))
            maps.append([[low + i * step, 1 + (i * draw(st.integers(1, 9))) % 7] for i in range(n)])
        return {"maps": maps + [[[1, 1], [-2, 3]]], "ops": [[draw(st.sampled_from(OPS)), 0, 1] for _ in range(3)], "limit": 9000}
    return {"maps": [draw(_weights()) for _ in range(3)],
            "ops": [[draw(st.sampled_from(OPS)), draw(st.integers(0, 9)), draw(st.integers(0, 9))] for _ in range(draw(st.integers(2, 8)))]}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    maps = [[[0, 1]], [[1, 2], [0, 3]], [[-1, 1], [1, 4]], [[2, 1], [-2, 5], [0, 1]], [[3, 1], [5, 1]], [[-4, 2], [-3, 1], [7, 1]]]
    for x in maps:
        for y in maps:
            yield {"maps": [x, y, [[1, 1], [2, 1]]], "ops": [[op, 0, 1] for op in OPS] + [["+", 0, 0], ["*", 1, 1]]}


def exact(op, x, y):
    if op == "!":
        return oracle.collect((0 if v > 0 else 1, w) for v, w in x.items())
    if op == "abs":
        return oracle.collect((abs(v), w) for v, w in x.items())
    if op in ("MAX", "MIN"):
        return oracle.collect((oracle.apply_mm(op, v, u), p * q) for v, p in x.items() for u, q in y.items())
    return oracle.collect((oracle.apply_op(op, v, u), p * q) for v, p in x.items() for u, q in y.items())


def run(op, x, y):
    if op == "!":
        return x.not_operator()
    if op == "abs":
        return abs(x)
    if op == "//":
        return x // y
    return c04.apply(op, x, y)


def check(case, ctx):
    factory = sut.ProbabilityDistributionFactory()
    pool = []
    for m in case["maps"]:
        weights = {v: w for v, w in m}
        given = dict(weights)
        made = judge.returned(sut.call(factory.create, given), "create(%s)" % judge.show(weights))
        ctx.require(given == weights, "create changed the map it was given")
        pool.append((made, weights, judge.show(weights)))
    rich = False
    for op, i, j in case["ops"]:
        x, wx, nx = pool[i % len(pool)]
        y, wy, ny = pool[j % len(pool)]
        unary = op in ("!", "abs")
        what = "%s of %s" % (op, nx) if unary else "%s %s %s" % (nx, op, ny)
        if not unary and len(wx) * len(wy) > case.get("limit", 1500):
            continue
        got = sut.call(run, op, x, y)
        try:
            want = exact(op, wx, wy)
        except oracle.DivByZero:
            ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError", "%s: %s, expected ZeroDivisionError", what, str(got)[:100])
            ctx.label("division by zero")
            continue
        judge.returned(got, what)
        weights = judge.result_map(got, what)
        ctx.require(weights == want, "%s has weights %s, exact %s", what, judge.show(weights), judge.show(want))
        judge.probabilities(judge.returned(sut.call(got.get_dict_form), what), want, what)
        rich |= not unary and len(wx) > 1 and len(wy) > 1
        pool.append((got, want, "(%s)" % what if len(what) < 200 else "(...)"))
    for made, weights, name in pool:
        now = judge.result_map(made, name)
        ctx.require(now == weights, "%s has become %s after the operations %r", name, judge.show(now), case["ops"])
    laws(pool, case, ctx)
    op = case["ops"][0][0]
    for odd in STRANGE:
        for each in ([op, "//", "MAX"] if op not in ("!", "abs") else ["+", "=="]):
            got = sut.call(run, each, pool[0][0], odd)
            ctx.require(isinstance(got, sut.Raised) and got.kind == "TypeError", "distribution %s %r: %s, expected TypeError", each, odd, str(got)[:100])
        for each in sorted(REFLECTED):
            got = sut.call(REFLECTED[each], odd, pool[0][0])
            ctx.require(isinstance(got, sut.Raised) and got.kind == "TypeError", "%r %s distribution: %s, expected TypeError", odd, each, str(got)[:100])
    ctx.label("result used as operand", any(i % 20 > 2 or j % 20 > 2 for _, i, j in case["ops"]))
    ctx.nontrivial(rich)
    ctx.note("%s ; %r" % (" ; ".join(p[2] for p in pool[:3]), case["ops"]))


def laws(pool, case, ctx):
    """relations between the objects themselves"""
    (x, wx, nx), (y, wy, ny), (z, wz, nz) = pool[0], pool[1], pool[2]

    def view(value, what):
        return judge.result_map(judge.returned(value, what), what)

    for op in ("+", "*"):
        one, two = view(sut.call(run, op, x, y), "x %s y" % op), view(sut.call(run, op, y, x), "y %s x" % op)
        ctx.require(one == two, "%s of %s and %s is not commutative: %s, %s", op, nx, ny, judge.show(one), judge.show(two))
        if len(wx) * len(wy) * len(wz) <= 300:
            left = view(sut.call(lambda: run(op, run(op, x, y), z)), "(x %s y) %s z" % (op, op))
            right = view(sut.call(lambda: run(op, x, run(op, y, z))), "x %s (y %s z)" % (op, op))
            ctx.require(left == right, "%s of %s, %s and %s is not associative: %s, %s", op, nx, ny, nz, judge.show(left), judge.show(right))
    low, high = view(sut.call(run, "MIN", x, y), "MIN"), view(sut.call(run, "MAX", x, y), "MAX")
    mean = lambda w: Fraction(sum(v * c for v, c in w.items()), sum(w.values()))
    ctx.require(mean(low) + mean(high) == mean(wx) + mean(wy), "minimum and maximum of %s and %s have averages %s and %s", nx, ny, mean(low), mean(high))
    for a, b in (("<", ">="), (">", "<="), ("==", "!=")):
        one, two = view(sut.call(run, a, x, y), a), view(sut.call(run, b, x, y), b)
        swapped = {1 - k: v for k, v in two.items()}
        ctx.require(one == swapped, "%s and %s of %s and %s are not opposite: %s, %s", a, b, nx, ny, judge.show(one), judge.show(two))
    back = view(sut.call(lambda: (x + y) - y), "(x + y) - y")
    ctx.require(sum(back.values()) == sum(wx.values()) * sum(wy.values()) ** 2, "total weight of (x + y) - y for %s and %s is %d", nx, ny, sum(back.values()))
