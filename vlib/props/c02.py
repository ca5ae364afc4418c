"""C02: dice notation denotes the documented dice, in every spelling."""
import random

from hypothesis import strategies as st

from vlib import gen, judge, oracle, stats, sut, syntax

ID = "C02"
EXAMPLES = {"quick": 900, "thorough": 7200}
RULE = (
    "cases are dice notations (count left out, 0 or up to hundreds; side count, %, F, or a list of values, ranges in "
    "either direction and multipliers incl. 0, blanks, trailing comma, leading zeros) with equivalent respellings "
    "(entries shuffled, ranges expanded or reversed, multipliers expanded, keep-all and drop-none forms), plus all "
    "one-entry lists over a small alphabet (all two-entry lists in the thorough tier); oracle: the documented side "
    "multiset convolved exactly (above 400 dice: bounds, and rolls within McDiarmid's bound of the mean); non-trivial = a list with a range, multiplier or repeated value, or an alias form"
)


@st.composite
def _case(draw, tier):
    o = gen.Opts(cap=draw(gen.caps))
    kind = draw(st.integers(0, 9))
    if kind <= 5:
        spec = gen.draw_list_spec(draw, draw(st.sampled_from([8, 20, 60])))
    elif kind == 6:
        return wide(draw)
    else:
        spec = gen.draw_spec(draw, 120)
    faces = oracle.sides(spec)
    top = gen.max_count(faces, max(o.cap, len(faces) + 2))
    count = gen.draw_count(draw, min(top, 12) if gen.huge(spec) else top)
    case = {"count": count, "spec": spec, "seed": draw(st.integers(0, 10 ** 6)), "zeros": draw(st.integers(0, 7)),
            "shuffle": draw(st.integers(0, 1000)), "blank": draw(st.integers(0, 3)), "style": draw(st.integers(0, 5))}
    if draw(st.integers(0, 24)) == 24:
        case["spec"] = draw(st.sampled_from([
            ["n", 0], ["list", [[3, None, 0]], False, 0], ["list", [[1, 4, 0], [2, None, 0]], True, 1]]))
    return case


def wide(draw):
    """one die of hundreds or thousands of sides, or thousands of dice (bounds and rolls only)"""
    case = {"seed": draw(st.integers(0, 10 ** 6)), "zeros": draw(st.integers(0, 7)), "shuffle": draw(st.integers(0, 1000)),
            "style": draw(st.integers(0, 5))}
    if draw(st.booleans()):
        n = draw(st.one_of(st.integers(121, 700), st.integers(700, 2500)))
        low = draw(st.sampled_from([1, 0, -5, -n // 2, -n, 7 * n]))
        ends = draw(st.sampled_from([[low, low + n - 1], [low + n - 1, low]]))
        entries = [ends + [draw(st.sampled_from([None, 1, 2, 7]))]]
        if draw(st.booleans()):
            entries.append(draw(st.sampled_from([[low + 3, None, 5], [low - 4, low + 5, None], [0, None, None], [low + n + 9, None, 2]])))
        spec = ["n", n] if draw(st.integers(0, 3)) == 0 else ["list", entries, draw(st.booleans()), draw(st.integers(0, 2))]
        case.update(count=draw(st.sampled_from([None, 1])), spec=spec)
        return case
    case.update(many=draw(st.integers(401, 3000)), spec=draw(st.sampled_from(
        [["n", 1], ["n", 2], ["n", 6], ["n", 20], ["F"], ["%"], ["list", [[-3, None, 2], [1, 2, None]], False, 0],
         ["list", [[9, 5, None], [-100, None, None]], True, 0], ["list", [[0, None, 9], [7, None, None]], False, 0]])))
    return case


def strategy(tier):
    return _case(tier)


VALUES = [-12, -1, 0, 1, 10]


def _entries():
    out = []
    for m in (None, 0, 2):
        for v in VALUES:
            out.append([v, None, m])
        for a in VALUES:
            for b in VALUES:
                out.append([a, b, m])
    return out


def fixed(tier):
    base = {"seed": 1, "zeros": 0, "shuffle": 0, "blank": 0, "style": 0}
    entries = _entries()
    for i, e in enumerate(entries):
        for n in (None, 0, 1, 2):
            if (i + (n or 0)) % 2 == 0 or tier == "thorough":
                yield dict(base, count=n, spec=["list", [e], n == 2, i % 3], style=i % 6)
    for n in (1, 2, 3, 6, 9, 10, 11, 12, 20, 99, 100, 101):
        yield dict(base, count=None, spec=["n", n], style=n % 6)
    for s in (["%"], ["F"]):
        for n in (None, 0, 1, 2, 3):
            yield dict(base, count=n, spec=s, style=(n or 0))
    if tier == "thorough":
        for i, e in enumerate(entries):
            for j, f in enumerate(entries):
                yield dict(base, count=None, spec=["list", [e, f], j % 2 == 0, (i + j) % 3], style=(i + j) % 6)
    # finding K5
    yield {"k5": 40}


def respell(spec, style, shuffle):
    """another spelling of the same die"""
    kind = spec[0]
    rnd = random.Random(shuffle)
    if kind == "%":
        return ["n", 100] if style % 2 else ["list", [[1, 100, None]], False, 0]
    if kind == "F":
        return ["list", [[-1, None, None], [0, None, None], [1, None, None]], bool(style & 1), style % 3] if style % 2 else \
            ["list", [[1, -1, None]], False, 0]
    if kind == "n":
        n = spec[1]
        if style % 3 == 0 or n > 60:
            return ["list", [[1, n, None]], False, 0]
        if style % 3 == 1:
            return ["list", [[n, 1, None]], True, 1]
        return ["list", [[v, None, None] for v in range(1, n + 1)], False, 0]
    entries = []
    for lo, hi, mult in spec[1]:
        m = 1 if mult is None else mult
        if hi is not None and style in (0, 3):
            pieces = [[v, None, mult] for v in range(min(lo, hi), max(lo, hi) + 1)]
        elif hi is not None:
            pieces = [[hi, lo, mult]]
        else:
            pieces = [[lo, lo if style in (2, 3) else None, mult]]
        for a, b, mu in pieces:
            if style in (1, 3, 5) and m <= 4:
                entries.extend([[a, b, None]] * m)
            elif m > 1 and style == 4:
                entries.extend([[a, b, m - 1], [a, b, 1]])
            else:
                entries.append([a, b, mu])
    if not entries:
        return spec
    if len(entries) > 80:
        return spec
    rnd.shuffle(entries)
    if style == 2:
        entries.insert(rnd.randint(0, len(entries)), [5, 7, 0])
    return ["list", entries, not spec[2], 0 if len(entries) > 9 else (spec[3] + 1) % 3]


def pad_zeros(text, zeros):
    """leading zeros on the numbers of the notation (they do not change the numbers)"""
    if not zeros:
        return text
    out, i, k = [], 0, 0
    while i < len(text):
        if text[i].isdigit():
            j = i
            while j < len(text) and text[j].isdigit():
                j += 1
            out.append(("0" if (zeros >> (k % 3)) & 1 else "") + text[i:j])
            k += 1
            i = j
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


QUERIES = ("get_probability_distributions", "get_probability_distributions_dict", "get_average", "roll", "max", "min",
           "get_estimated_cost")


def check(case, ctx):
    if "k5" in case:
        return check_k5(case["k5"], ctx)
    if "many" in case:
        return check_many(case, ctx)
    spec, count = case["spec"], case["count"]
    term = ["dice", count, spec]
    text = pad_zeros(syntax.dice_text(term), case["zeros"])
    try:
        faces = oracle.sides(spec)
    except oracle.NoSides:
        for query in QUERIES:
            got = sut.call(getattr(sut.fresh(), query), [text])
            ctx.require(isinstance(got, sut.Raised) and got.kind == "ValueError",
                        "%s of %r (a die without sides): %r, expected ValueError", query, text, got)
        ctx.label("no sides")
        ctx.nontrivial()
        return None
    n = 1 if count is None else count
    want = oracle.sum_of(n, faces)
    first = look(text, want, case["seed"], ctx)
    other = respell(spec, case["style"], case["shuffle"])
    n_text = count if count is not None else (1 if case["style"] % 2 else None)
    if count == 1 and case["style"] % 2:
        n_text = None
    spelled = syntax.dice_text(["dice", n_text, other])
    second = look(spelled, want, case["seed"] + 1, ctx)
    ctx.require(first == second, "%r and %r are the same dice but have weights %s and %s", text, spelled,
                judge.show(first), judge.show(second))
    mode, k = [("k", n), ("k", n + 3), ("d", 0)][case["shuffle"] % 3]
    kept = syntax.dice_text(["kd", count, spec, mode, k])
    third = look(kept, want, case["seed"] + 2, ctx)
    ctx.require(first == third, "%r and %r are the same dice but have weights %s and %s", text, kept,
                judge.show(first), judge.show(third))
    if n > 1:
        if spec[0] != "list" or len(spec[1]) < 8:
            # a sum of separate dice is the same as several dice at once
            joined = " + ".join([syntax.dice_text(["dice", None, spec])] * n) if n <= 4 else None
            if joined:
                look(joined, want, case["seed"] + 3, ctx)
    ctx.label("count left out", count is None)
    ctx.label("zero dice", count == 0)
    ctx.label("ten or more dice", n >= 10)
    ctx.label("leading zeros", bool(case["zeros"]))
    if spec[0] == "list":
        ctx.label("range", any(e[1] is not None for e in spec[1]))
        ctx.label("descending range", any(e[1] is not None and e[1] < e[0] for e in spec[1]))
        ctx.label("negative range end", any(e[1] is not None and e[1] < 0 for e in spec[1]))
        ctx.label("multiplier", any(e[2] is not None for e in spec[1]))
        ctx.label("zero multiplier", any(e[2] == 0 for e in spec[1]))
        ctx.label("trailing comma", spec[2])
        ctx.label("overlapping entries", sum(faces.values()) > len(faces))
        ctx.nontrivial(any(e[1] is not None or e[2] is not None for e in spec[1]) or sum(faces.values()) > len(faces))
    else:
        ctx.nontrivial()
    ctx.note("%s == %s" % (text, spelled))
    return None


def look(text, want, seed, ctx):
    interp = sut.fresh()
    dist = judge.returned(sut.call(interp.get_probability_distributions, [text]), "distribution of %r" % text)["stdout"]
    judge.exact(dist, want, text)
    for query, value in (("max", max(want)), ("min", min(want))):
        got = judge.returned(sut.call(getattr(interp, query), [text]), "%s of %r" % (query, text))
        ctx.require(got == {"stdout": value}, "%s of %r is %r, expected %r", query, text, got, value)
    random.seed(seed)
    rolls = []
    for _ in range(25):
        got = judge.returned(sut.call(interp.roll, [text]), "roll of %r" % text)
        rolls.append(got.get("stdout"))
    bad = stats.find_deviation(rolls, want, "%r:" % text)
    ctx.require(bad is None, "%s", bad)
    return judge.result_map(dist, text)


def check_many(case, ctx):
    n, spec = case["many"], case["spec"]
    faces = oracle.sides(spec)
    text = pad_zeros(syntax.dice_text(["dice", n, spec]), case["zeros"])
    spelled = syntax.dice_text(["dice", n, respell(spec, case["style"], case["shuffle"])])
    kept = syntax.dice_text(["kd", n, spec] + [["k", n], ["k", n + 3], ["d", 0]][case["shuffle"] % 3])
    for one in (text, spelled, kept):
        interp = sut.fresh()
        for query, side in (("max", max(faces)), ("min", min(faces))):
            got = judge.returned(sut.call(getattr(interp, query), [one]), "%s of %r" % (query, one))
            ctx.require(got == {"stdout": side * n}, "%s of %r is %r, expected %r", query, one, got, side * n)
        random.seed(case["seed"])
        rolls = [judge.returned(sut.call(interp.roll, [one]), "roll of %r" % one)["stdout"] for _ in range(10)]
        bad = stats.find_far(rolls, n, n, faces, repr(one))
        ctx.require(bad is None, "%s", bad)
    ctx.label("more than four hundred dice")
    ctx.nontrivial(len(faces) > 1)
    ctx.note("%s == %s (bounds and rolls)" % (text, spelled))


def check_k5(n, ctx):
    """Finding K5: with blanks after the commas the time to read a list of n sides grows like 2**n."""
    import multiprocessing
    import time

    text = "d[" + ", ".join(str(i) for i in range(n)) + "]"
    proc = multiprocessing.get_context("fork").Process(target=sut.call, args=(sut.parser().parse, text))
    proc.start()
    deadline = time.time() + 4
    while proc.is_alive() and time.time() < deadline:
        time.sleep(0.05)
    if proc.is_alive():
        proc.kill()
        ctx.known("K5", "a list of %d sides written with a blank after each comma is not read within 4 s" % n)
    proc.join()
