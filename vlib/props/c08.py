"""C08: summaries are consistent with the distribution."""
from fractions import Fraction

from hypothesis import strategies as st

from vlib import dictionary, gen, judge, oracle, sut, syntax

ID = "C08"
EXAMPLES = {"quick": 1500, "thorough": 12000}
RULE = (
    "cases are weight maps (1-40 outcomes, some with up to 1500 and a far, very unlikely one, negative values, gaps up to 3000, weights from 1 to 1e40, some with all weights scaled beyond 1e308) and programs; "
    "probabilities, average, at-least, at-most, max, min and contains-zero compared with exact fractions "
    "(floating-point tolerance 1e-9); non-trivial = at least two outcomes with unequal weights or a gap"
)
SPAN = 3000


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 3)) == 3:
        o = gen.Opts(cap=draw(st.sampled_from([300, 1500])), max_abs=SPAN // 2, max_joint=2000, names=("a", "b"), max_nodes=5)
        return {"program": draw(gen.programs(o, 1, 4))}
    if draw(st.integers(0, 9)) == 9:
        # many outcomes, some of them very unlikely: [lo, step, number, [exceptional weights]]
        return {"comb": [draw(st.integers(-600, 600)), draw(st.sampled_from([1, 1, 2, 3])),
                         draw(st.one_of(st.integers(40, 400), st.sampled_from(dictionary.COUNTS or [50]), st.integers(400, 1500))),
                         draw(st.one_of(st.integers(1, 9), st.sampled_from([10 ** 9, 10 ** 15, 10 ** 17, 10 ** 25]))),
                         draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(1, 10 ** 6)), min_size=0, max_size=5)),
                         draw(st.sampled_from([0, 0, 10 ** 9, -10 ** 9, 10 ** 17, -10 ** 17]))]}
    lo = draw(st.one_of(st.integers(-12, 6), st.integers(-2000, 2000), st.integers(-10 ** 12, 10 ** 12)))
    span = draw(st.sampled_from([3, 8, 30, 300, SPAN]))
    n = draw(st.integers(1, draw(st.sampled_from([2, 6, 40]))))
    weights = {}
    for _ in range(n):
        v = lo + draw(st.integers(0, span))
        w = draw(st.one_of(st.integers(1, 6), st.integers(1, 10 ** 6), st.integers(1, 10 ** 40),
                           st.sampled_from([x for x in dictionary.INTS if x > 0])))
        weights[v] = w
    if draw(st.integers(0, 9)) == 9:
        factor = 10 ** draw(st.integers(30, 500))  # totals beyond floating point
        weights = {v: w * factor for v, w in weights.items()}
    order = draw(st.permutations(sorted(weights)))
    return {"weights": [[v, weights[v]] for v in order]}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    for lo in (-3, -1, 0, 1):
        for mask in range(1, 32):
            yield {"weights": [[lo + i, 1 + (i * 7 + mask) % 5] for i in (3, 0, 4, 1, 2) if mask >> i & 1]}


def check(case, ctx):
    if "program" in case:
        texts = syntax.program_text(case["program"])
        got = judge.returned(sut.call(sut.fresh().get_probability_distributions, list(texts)), "program %r" % texts)
        averages = judge.returned(sut.call(sut.fresh().get_average, list(texts)), "average of %r" % texts)
        ctx.require(set(averages) == set(got), "averages of %r list %r, distributions list %r", texts, sorted(averages), sorted(got))
        for name in sorted(got):
            weights = judge.result_map(got[name], name)
            ctx.require(all(w > 0 for w in weights.values()), "%s of %r has weights %s", name, texts, judge.show(weights))
            summaries(got[name], weights, "%s of %r" % (name, texts), ctx)
            average(averages[name], weights, "get_average of %r, entry %s" % (texts, name), ctx)
        joint = oracle.Joint().run_all(case["program"])
        ctx.require(set(joint.marginals()["stdout"]) == set(judge.result_map(got["stdout"], "stdout")), "outcomes of %r", texts)
        ctx.label("program")
        ctx.note(" ; ".join(texts))
        return
    if "comb" in case:
        lo, step, n, common, odd, far = case["comb"]
        weights = {lo + i * step: common for i in range(n)}
        for i, w in odd:
            weights[lo + (i % n) * step] = w
        if far:
            weights[far] = 1 + n % 3
        ctx.label("many outcomes")
    else:
        weights = {v: w for v, w in case["weights"]}
    factory = sut.ProbabilityDistributionFactory()
    dist = judge.returned(sut.call(factory.create, dict(weights)), "create(%s)" % judge.show(weights))
    got = judge.result_map(dist, "create(%s)" % judge.show(weights))
    ctx.require(got == weights, "create(%s) has weights %s", judge.show(weights), judge.show(got))
    summaries(dist, weights, "create(%s)" % judge.show(weights), ctx)
    ctx.note(judge.show(weights, 6))


def average(value, weights, what, ctx):
    total = sum(weights.values())
    exact = Fraction(sum(v * w for v, w in weights.items()), total)
    # rounding of floating-point sums of probability times value, nothing more
    scale = sum(abs(v) * w for v, w in weights.items()) // total + 1
    ctx.require(isinstance(value, (int, float)) and abs(Fraction(value) - exact) <= Fraction(scale, 10 ** 9),
                "average of %s is %r, exact %s = %r", what, value, exact, float(exact))


def summaries(dist, weights, what, ctx):
    total = sum(weights.values())
    lo, hi = min(weights), max(weights)
    form = judge.returned(sut.call(dist.get_dict_form), what)
    judge.probabilities(form, weights, what)
    ctx.require(abs(sum(form.values()) - 1) < 1e-9, "probabilities of %s add up to %r", what, sum(form.values()))
    for query, want in (("max", hi), ("min", lo)):
        value = judge.returned(sut.call(getattr(dist, query)), "%s of %s" % (query, what))
        ctx.require(value == want, "%s of %s is %r, expected %r", query, what, value, want)
    zero = judge.returned(sut.call(dist.contains_zero), "contains_zero of %s" % what)
    ctx.require(zero is (0 in weights), "contains_zero of %s is %r", what, zero)
    average(judge.returned(sut.call(dist.average), "average of %s" % what), weights, what, ctx)
    if hi - lo <= 2 * SPAN:
        at_least = judge.returned(sut.call(dist.at_least), "at_least of %s" % what)
        at_most = judge.returned(sut.call(dist.at_most), "at_most of %s" % what)
        values = list(range(lo, hi + 1))
        ctx.require(sorted(at_least) == values, "at_least of %s covers %r..", what, sorted(at_least)[:10])
        ctx.require(sorted(at_most) == values, "at_most of %s covers %r..", what, sorted(at_most)[:10])
        below = 0
        for v in values:
            w = weights.get(v, 0)
            low, high = (below + w) / total, (total - below) / total
            ctx.require(isinstance(at_most[v], (int, float)) and abs(at_most[v] - low) < 1e-9, "at_most of %s at %d is %r, exact %r", what, v, at_most[v], low)
            ctx.require(isinstance(at_least[v], (int, float)) and abs(at_least[v] - high) < 1e-9, "at_least of %s at %d is %r, exact %r", what, v, at_least[v], high)
            below += w
    gap = hi - lo + 1 > len(weights)
    ctx.label("gap", gap)
    ctx.label("negative outcomes", lo < 0)
    ctx.label("contains zero", 0 in weights)
    ctx.label("weights beyond 2**53", total > 2 ** 53)
    ctx.nontrivial(len(weights) > 1 and (gap or len(set(weights.values())) > 1))
