"""Comparison of what the code returned with what the oracle requires."""
from vlib import sut
from vlib.engine import Violation


def number(v):
    """repr, short for integers of many digits"""
    if isinstance(v, int) and abs(v) >> 400:
        return "(%s%d-bit integer)" % ("-" if v < 0 else "", v.bit_length())
    return repr(v)


def show(weights, n=12):
    items = sorted(weights.items())
    text = ", ".join("%s: %s" % (number(k), number(v)) for k, v in items[:n])
    return "{" + text + (", ... %d entries" % len(items) if len(items) > n else "") + "}"


def returned(value, what):
    if isinstance(value, sut.Raised):
        raise Violation("%s %r" % (what, value))
    return value


def same_ratio(got, want):
    """got and want: value -> positive integer weight; equal up to one common factor"""
    if set(got) != set(want):
        return False
    total_got, total_want = sum(got.values()), sum(want.values())
    return all(got[k] * total_want == want[k] * total_got for k in want)


def plain_ints(mapping, what):
    for k, v in mapping.items():
        if type(k) is not int:
            raise Violation("%s: outcome %s is not an integer" % (what, number(k)))
        if type(v) is not int:
            raise Violation("%s: weight %s of outcome %s is not an integer" % (what, number(v), number(k)))


def result_map(distribution, what):
    got = returned(sut.call(distribution.get_result_map), what + " result map")
    if not isinstance(got, dict):
        raise Violation("%s: result map is %r" % (what, got))
    plain_ints(got, what)
    return got


def exact(distribution, want, what):
    """distribution object has exactly the weights want (up to a factor); its dictionary form has the probabilities"""
    got = result_map(distribution, what)
    if not same_ratio(got, want):
        raise Violation("%s: weights %s, exact weights %s" % (what, show(got), show(want)))
    form = returned(sut.call(distribution.get_dict_form), what + " dict form")
    probabilities(form, want, what)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def probabilities(form, want, what):
    if not isinstance(form, dict) or set(form) != set(want):
        raise Violation("%s: outcomes %s, exact outcomes %s" % (what, sorted(form)[:20], sorted(want)[:20]))
    total = sum(want.values())
    for k, w in want.items():
        p = w / total
        if isinstance(form[k], bool) or not isinstance(form[k], (int, float)) or not close(form[k], p):
            raise Violation("%s: probability of %r is %r, exact %s/%s = %r" % (what, k, form[k], number(w), number(total), p))


def exact_or_known(ctx, distribution, want, labelled, what, finding="K1"):
    """As exact(); the characterised finding K1 (weights counted once per read) is accepted and counted."""
    got = result_map(distribution, what)
    if same_ratio(got, want):
        exact(distribution, want, what)
        return True
    if labelled is not None and same_ratio(got, labelled):
        exact(distribution, labelled, what)
        ctx.known(finding, "%s: weights %s, exact %s" % (what, show(got), show(want)))
        return False
    raise Violation("%s: weights %s, exact weights %s" % (what, show(got), show(want)))
