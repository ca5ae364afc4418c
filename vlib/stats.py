"""Frequency tests with rigorous error bounds.

For N independent draws of an event of probability p, P(observed frequency at least as far as q on that side)
<= exp(-N * KL(q || p)) (Chernoff).  LIMIT = 45 bounds one event's false alarm by 3e-20.
"""
from math import log

LIMIT = 45.0
LAGS = (1, 2, 3, 4, 5, 6, 8, 10, 20)


def surprise(hits, n, p):
    """N * KL(hits/n || p); infinite when an impossible event occurred or a certain one did not"""
    q = hits / n
    out = 0.0
    if hits:
        if p <= 0:
            return float("inf")
        out += hits * log(q / p)
    if hits < n:
        if p >= 1:
            return float("inf")
        out += (n - hits) * log((1 - q) / (1 - p))
    return out


def find_deviation(values, weights, what="value"):
    """values: observed draws; weights: outcome -> exact weight. Tests every outcome, every lower tail and repeats."""
    n = len(values)
    total = sum(weights.values())
    counts = {}
    for v in values:
        counts[v] = counts.get(v, 0) + 1
    for v in counts:
        if v not in weights:
            return "%s %r was rolled but is impossible" % (what, v)
    below_w, below_n = 0, 0
    ordered = sorted(weights)
    for v in ordered:
        p = weights[v] / total
        s = surprise(counts.get(v, 0), n, p)
        if s > LIMIT:
            return "%s %r came up %d times in %d rolls, probability %.6g (surprise %.1f)" % (
                what, v, counts.get(v, 0), n, p, s)
        below_w += weights[v]
        below_n += counts.get(v, 0)
        if below_w < total:
            s = surprise(below_n, n, below_w / total)
            if s > LIMIT:
                return "%s <= %r came up %d times in %d rolls, probability %.6g (surprise %.1f)" % (
                    what, v, below_n, n, below_w / total, s)
    return None


def find_serial(values, weights, what="value"):
    """Independence of successive rolls and of rolls a few apart, on disjoint pairs (exactly independent trials)."""
    for lag in LAGS:
        bad = _serial(values, weights, what, lag)
        if bad:
            return bad
    return None


def _serial(values, weights, what, lag):
    pairs = [(values[i], values[i + lag]) for i in range(len(values) - lag) if i // lag % 2 == 0]
    n = len(pairs)
    if n == 0:
        return None
    total = sum(weights.values())
    same = sum(1 for x, y in pairs if x == y)
    p = sum(w * w for w in weights.values()) / (total * total)
    s = surprise(same, n, p) if p < 1 else 0
    if s > LIMIT:
        return "%s: a roll repeated the one %d before it %d times in %d pairs, probability %.6g" % (what, lag, same, n, p)
    less = sum(1 for x, y in pairs if x < y)
    p_less = (1 - p) / 2
    s = surprise(less, n, p_less) if 0 < p_less < 1 else (0 if less == 0 else float("inf"))
    if s > LIMIT:
        return "%s: a roll exceeded the one %d before it %d times in %d pairs, probability %.6g" % (what, lag, less, n, p_less)
    return None


def top_sum_mean(n, k, faces):
    """Mean of the sum of the k highest of n dice (0 < k <= n): every unit step v-1 -> v adds the mean number of selected
    dice of at least v, which is that of min(k, Binomial(n, P(die >= v)))."""
    from math import exp, lgamma

    total = sum(faces.values())
    if k == n:
        return n * sum(v * w for v, w in faces.items()) / total
    values = sorted(faces)
    mean = float(values[0] * k)
    above = total
    for low, high in zip(values, values[1:]):
        above -= faces[low]
        p = above / total
        step = 0.0
        for b in range(n + 1):
            step += min(k, b) * exp(lgamma(n + 1) - lgamma(b + 1) - lgamma(n - b + 1) + b * log(p) + (n - b) * log(1 - p))
        mean += (high - low) * step
    return mean


def find_far(values, n, k, faces, what, lowest=False):
    """Sums of the k highest (lowest) of n dice: no sum beyond the bounds, none further from the mean than McDiarmid's
    inequality allows with probability 2*exp(-LIMIT), and the mean of all of them within the same bound."""
    if lowest:
        return find_far([-v for v in values], n, k, {-v: w for v, w in faces.items()}, what)
    low, high = min(faces), max(faces)
    mean = top_sum_mean(n, k, faces)
    slack = 1e-6 * (1 + abs(mean)) + (high - low) * (n * LIMIT / 2) ** 0.5
    for v in values:
        if not k * low <= v <= k * high:
            return "%s: %r was rolled, outside %r..%r (or their negatives)" % (what, v, k * low, k * high)
        if abs(v - mean) > slack:
            return "%s: %r was rolled, the mean is %.6g and more than %.6g from it is all but impossible" % (what, v, mean, slack)
    if abs(sum(values) / len(values) - mean) > slack / len(values) ** 0.5 + 1e-6 * (1 + abs(mean)):
        return "%s: %d rolls average %.6g, their mean is %.6g" % (what, len(values), sum(values) / len(values), mean)
    return None
