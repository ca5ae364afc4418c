"""Generators of dice terms, expressions and programs (Hypothesis draws only, bounded by construction)."""
from math import comb

from hypothesis import strategies as st

from vlib import dictionary, oracle, syntax

NAMES = ["a", "b", "c", "roll", "x_y", "_", "d", "k", "dk", "stdout_", "abs", "max", "true", "var", "aa", "a_", "total_damage"]

_int = st.integers


class Opts:
    def __init__(self, cap=3000, max_abs=None, zero_division=False, binary_and=False, big=True, dice=True,
                 max_joint=6000, names=("a", "b", "c"), kd=True, max_nodes=8, max_count=None, prefer_vars=False):
        self.cap = cap
        self.max_abs = max_abs
        self.zero_division = zero_division
        self.binary_and = binary_and
        self.big = big
        self.dice = dice
        self.kd = kd
        self.max_joint = max_joint
        self.names = names
        self.max_nodes = max_nodes
        self.max_count = max_count
        self.prefer_vars = prefer_vars
        self.large = []


# ---------------------------------------------------------------- numbers

def draw_int(draw, o):
    if o.large and draw(_int(0, 2)) == 0:
        # close to another large number of the case: exactly equal, off by little, or the negative of it
        v = draw(st.sampled_from(o.large)) + draw(_int(-2, 2))
        return v if draw(_int(0, 3)) else -v
    kind = draw(_int(0, 11)) if o.big != "more" else draw(_int(5, 16))
    if kind <= 6:
        return draw(_int(-6, 12))
    if kind <= 8:
        v = draw(_int(-120, 200))
    elif kind == 9 or not o.big:
        v = draw(st.sampled_from(dictionary.SMALL))
    elif kind == 10:
        v = draw(_int(-10 ** 6, 10 ** 6))
    elif kind <= 13:
        v = draw(st.one_of(_int(-10 ** 20, 10 ** 20), st.sampled_from(dictionary.INTS)))
    elif kind == 14:
        v = draw(_int(2 ** 53 - 3, 2 ** 53 + 9)) * draw(st.sampled_from((1, -1, 2, 3, 5)))
    else:
        v = draw(st.sampled_from((2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 16, 10 ** 30))) + draw(_int(-2, 2))
        v *= draw(st.sampled_from((1, -1)))
    if o.max_abs is not None and abs(v) > o.max_abs:
        v = v % (o.max_abs + 1)
    if abs(v) > 10 ** 6 and o.max_abs is None:
        o.large.append(v)
    return v


# ---------------------------------------------------------------- dice

def draw_spec(draw, max_faces=100, zero=True, span=None):
    kind = draw(_int(0, 9))
    if kind <= 3:
        if draw(_int(0, 5)) == 5:
            n = draw(st.one_of(_int(1, max_faces), st.sampled_from([v for v in dictionary.COUNTS if v <= max_faces] or [6])))
        else:
            n = draw(_int(1, min(max_faces, 12)))
        return ["n", n]
    if kind == 4 and max_faces >= 3:
        return ["F"]
    if kind == 5 and max_faces >= 100:
        return ["%"]
    return draw_list_spec(draw, max_faces, zero, span)


def draw_side(draw, span=None):
    kind = draw(_int(0, 7))
    if span is not None and kind > 5:
        return draw(_int(-span, span))
    if kind <= 4:
        return draw(_int(-4, 12))
    if kind == 5:
        return draw(_int(-25, 25))
    if kind == 6:
        return draw(st.one_of(_int(-1200, 1200), st.sampled_from(dictionary.SMALL)))
    return draw(_int(-10 ** 9, 10 ** 9))


def draw_list_spec(draw, max_faces=100, zero=True, span=None):
    many = draw(_int(0, 11))
    n = draw(_int(1, 4)) if many < 11 else draw(_int(min(5, max_faces), min(40, max_faces)))
    entries, faces = [], 0
    for _ in range(n):
        lo, hi, mult = draw_side(draw, span), None, None
        room = max_faces - faces
        if room <= 0:
            break
        if draw(_int(0, 3)) == 3 and room > 1:
            length = draw(_int(0, 6)) if draw(_int(0, 6)) else draw(_int(0, room - 1))
            length = min(length, room - 1)
            hi = lo + length if draw(st.booleans()) else lo - length
            faces += length + 1
        else:
            faces += 1
        m = draw(_int(0, 9))
        if m >= 6:
            mult = draw(_int(0 if zero else 1, 5)) if m < 9 else draw(
                st.one_of(_int(1, 1000), st.sampled_from([v for v in dictionary.INTS if 0 < v]), _int(1, 10 ** 7)))
        entries.append([lo, hi, mult])
    if all(e[2] == 0 for e in entries):
        entries[0][2] = None
    if draw(_int(0, 39)) == 39:
        # the same die with weights far beyond floating point once a few are summed
        factor = 10 ** draw(_int(20, 200))
        for e in entries:
            e[2] = (1 if e[2] is None else e[2]) * factor
    blanks = draw(_int(0, 2))
    if len(entries) > 9:
        blanks = 0  # finding K5: long lists with blanks take exponential time
    return ["list", entries, draw(st.booleans()), blanks]


def huge(spec):
    """sides with weights of so many digits that only a few dice of it are rolled"""
    return spec[0] == "list" and any(e[2] is not None and e[2] > 10 ** 19 for e in spec[1])


def dice_work(n, d_width, m):
    return n * m + (n * d_width * m) // 2


def max_count(faces, cap):
    """largest number of dice whose distribution the implementation computes within cap steps"""
    m = len(faces)
    lo, hi = min(faces), max(faces)
    n, best = 1, 1
    while n <= 400:
        width = min((hi - lo) * n + 1, comb(n + m - 1, n))
        if dice_work(n, width, m) > cap:
            break
        best = n
        n += 1
    return best


def draw_count(draw, top):
    """number of dice, None meaning left out; 0 .. top"""
    kind = draw(_int(0, 9))
    if kind <= 1:
        return None
    if kind <= 6:
        return min(top, draw(_int(1, 4)))
    if kind == 7:
        return draw(_int(0, min(top, 12)))
    if kind == 8:
        return min(top, draw(st.sampled_from(dictionary.COUNTS or [3])))
    return draw(_int(0, top))


def draw_dice(draw, o):
    small = max(2, min(120, o.cap // 4))
    spec = draw_spec(draw, small, span=o.max_abs and min(o.max_abs, 40))
    faces = oracle.sides(spec)
    top = max_count(faces, max(o.cap // 2, len(faces) + 2))
    if o.max_count is not None:
        top = min(top, o.max_count)
    if huge(spec):
        top = min(top, 12)
    if o.max_abs is not None:
        biggest = max(1, max(abs(v) for v in faces))
        top = max(1, min(top, o.max_abs // biggest))
        if biggest > o.max_abs:
            spec, top = ["n", 6], min(top, o.max_abs // 6)
    return ["dice", draw_count(draw, max(1, top)), spec]


def kd_work(n, m, sel):
    return n * m * comb(sel + m - 1, sel)


def draw_kd(draw, o):
    spec = draw_spec(draw, draw(st.sampled_from([4, 6, 12, 30])), span=o.max_abs and min(o.max_abs, 30))
    faces = oracle.sides(spec)
    m = len(faces)
    mode = draw(st.sampled_from("kd"))
    n = draw(_int(1, 5)) if draw(_int(0, 3)) else draw(_int(0, 25))
    if draw(_int(0, 9)) == 9:
        n = min(60, draw(st.sampled_from(dictionary.COUNTS or [3])))
    if huge(spec):
        n = min(n, 8)
    off = draw(_int(0, 9))
    if off <= 5:
        k = draw(_int(0, n)) if n else 0
    elif off <= 7:
        k = draw(_int(0, 3))
    elif off == 8:
        k = n + draw(_int(0, 2))
    else:
        k = max(0, n - draw(_int(0, 2)))
    biggest = max(1, max(abs(v) for v in faces))
    if o.max_abs is not None and biggest > o.max_abs:
        spec, m, biggest = ["n", 6], 6, 6
    while n > 1:
        sel = k if mode == "k" else n - k
        if sel <= 0:
            break
        width = min(comb(sel + m - 1, sel), biggest * 2 * n)
        work = dice_work(n, width, m) if sel >= n else kd_work(n, m, sel)
        if work <= o.cap and (o.max_abs is None or n * biggest <= o.max_abs):
            break
        n -= 1
        if mode == "k" and k > 1 and k < n:
            k -= 1
    count = None if n == 1 and draw(st.booleans()) else n
    return ["kd", count, spec, mode, k]


@st.composite
def many_dice(draw):
    """A term too large for the other shapes, for rolls: many dice (often with sums that leave out integers), or many sides."""
    kind = draw(_int(0, 5))
    if kind == 0:
        n = draw(_int(101, 3000))
        spec = draw(st.sampled_from((["n", n], ["list", [[-n // 2, n // 3, None], [0, None, n // 7 + 1]], False, 0])))
        return ["dice", draw(st.sampled_from((None, 1))), spec]
    if kind <= 2:
        lo = draw(_int(-9, 9))
        spec = ["list", [[lo, None, draw(st.sampled_from((None, 1, 3, 40)))], [lo + draw(_int(1, 12)), None, None]], False, 0]
        if draw(_int(0, 2)) == 0:
            spec[1].append([lo + draw(_int(13, 20)), None, None])
    else:
        spec = draw_spec(draw, 8, zero=False, span=12)
    if huge(spec):
        spec = ["n", 6]
    faces = oracle.sides(spec)
    width = max(faces) - min(faces)
    top = max(2, min(400, 3000 // max(1, width)))
    counts = [v for v in dictionary.COUNTS if 10 <= v <= top]
    n = draw(st.one_of(_int(min(20, top), top), st.sampled_from(counts or [top])))
    if kind == 5:
        n = min(n, 60)
        return ["kd", n, spec, draw(st.sampled_from("kd")), draw(_int(0, n + 1))]
    return ["dice", n, spec]


# ---------------------------------------------------------------- expressions

class Builder:
    """Builds an expression together with the labelled outcome map the implementation will handle."""

    def __init__(self, draw, o, model=None):
        self.draw = draw
        self.o = o
        self.model = model or oracle.LabelModel(oracle.Work(o.cap * 3))

    def leaf(self):
        draw, o = self.draw, self.o
        if o.prefer_vars and self.model.vars and draw(_int(0, 1)):
            return ["var", draw(st.sampled_from(sorted(self.model.vars)))]
        top = 9 if self.model.vars else 6
        kind = draw(_int(0, top))
        if kind >= 6 and self.model.vars and kind != 6:
            return ["var", draw(st.sampled_from(sorted(self.model.vars)))]
        if kind in (0, 1) or not o.dice:
            if draw(_int(0, 8)) == 8:
                return ["bool", draw(_int(0, 1))]
            return ["int", draw_int(draw, o)]
        if kind == 2 and o.kd:
            return draw_kd(draw, o)
        return draw_dice(draw, o)

    def operand(self):
        """a small, often signed operand"""
        draw, o = self.draw, self.o
        if self.model.vars and draw(_int(0, 2)) == 0:
            return ["var", draw(st.sampled_from(sorted(self.model.vars)))]
        kind = draw(_int(0, 7)) if o.dice else 0
        if kind <= 1:
            e = ["int", draw_int(draw, o) if draw(st.booleans()) else draw(_int(-4, 4))]
        elif kind <= 5:
            entries = [[draw(_int(-9, 9)), None, None] for _ in range(draw(_int(1, 4)))]
            if draw(_int(0, 3)) == 0:
                entries[0][1] = entries[0][0] + draw(_int(-4, 4))
            if draw(_int(0, 3)) == 0:
                entries[-1][2] = draw(_int(1, 4))
            e = ["dice", draw(st.sampled_from((None, None, 1, 2))), ["list", entries, False, 0]]
            if o.kd and draw(_int(0, 4)) == 0:
                e = ["kd", draw(_int(2, 3)), e[2], draw(st.sampled_from("kd")), 1]
        elif kind == 6:
            e = ["dice", draw(_int(1, 2)), ["F"]]
        else:
            e = ["dice", None, ["n", draw(_int(1, 8))]]
        return self.attempt(e, ["int", 2])

    def pair(self):
        """one operator over two small operands"""
        draw = self.draw
        left, right = self.operand(), self.operand()
        for _ in range(draw(_int(0, 1))):
            which = draw(_int(0, 4))
            if which == 0:
                left = ["par", left]
            elif which == 1:
                right = ["par", right]
            elif which == 2:
                left = ["abs", left]
            elif which == 3:
                right = ["abs", right]
            else:
                right = ["not", right]
        op = draw(st.sampled_from(syntax.BIN_OPS + ("MAX", "MIN", "*", "*", "//", "//", "-")))
        if op in ("MAX", "MIN"):
            return self.attempt(["mm", op, left, right], left)
        if op == "AND" and self.o.binary_and and not (self.binary_valued(left) and self.binary_valued(right)):
            op = "OR"
        e = ["bin", op, left, right]
        if op == "//" and not self.o.zero_division:
            e = self.attempt(e, ["bin", "*", left, right])
        return self.attempt(e, left)

    def attempt(self, e, fallback):
        """e if the implementation can evaluate it within the budget, else fallback"""
        try:
            d = self.model.ev(e)
        except oracle.TooBig:
            self.model.work.done = 0
            return fallback
        except oracle.DivByZero:
            return e if self.o.zero_division else fallback
        if len(d) > self.o.cap:
            return fallback
        if self.o.max_abs is not None and any(abs(v) > self.o.max_abs for (v, _) in d):
            return fallback
        return e

    def binary_valued(self, e):
        try:
            return all(v in (0, 1) for (v, _) in self.model.ev(e))
        except (oracle.TooBig, oracle.DivByZero):
            return False

    def expr(self, nodes):
        draw = self.draw
        if nodes <= 1:
            e = self.leaf()
            return self.attempt(e, ["int", 2])
        if nodes <= 4 and draw(_int(0, 2)) == 0:
            return self.pair()
        kind = draw(_int(0, 15))
        if kind <= 10:
            op = draw(st.sampled_from(("+", "-", "*", "+", "-", "//", "//", "==", "!=", "<=", "<", ">=", ">", "AND", "OR", "AND", "OR")))
            left_nodes = draw(_int(1, nodes - 1))
            left = self.expr(left_nodes)
            right = self.expr(max(1, nodes - 1 - left_nodes))
            if op == "AND" and self.o.binary_and and not (self.binary_valued(left) and self.binary_valued(right)):
                op = "OR"
            e = ["bin", op, left, right]
            if op == "//" and not self.o.zero_division:
                e = self.attempt(e, ["bin", "+", left, right])
            return self.attempt(e, left)
        if kind == 11:
            e = ["not", self.expr(nodes - 1)]
        elif kind == 12:
            e = ["abs", self.expr(nodes - 1)]
        elif kind <= 14:
            left_nodes = draw(_int(1, nodes - 1))
            left = self.expr(left_nodes)
            right = self.expr(max(1, nodes - 1 - left_nodes))
            e = ["mm", draw(st.sampled_from(("MAX", "MIN"))), left, right]
            return self.attempt(e, left)
        else:
            e = ["par", self.expr(nodes - 1)]
        return e


@st.composite
def expressions(draw, o):
    return Builder(draw, o).expr(draw(_int(1, o.max_nodes)))


@st.composite
def programs(draw, o, min_lines=1, max_lines=6):
    """Programs that assign before they read; joint outcome space bounded."""
    b = Builder(draw, o)
    joint = oracle.Joint()
    n = draw(_int(min_lines, max_lines))
    program = []
    for i in range(n):
        last = i == n - 1
        is_set = draw(_int(0, 9)) < (5 if last else 9)
        b.model.work.done = 0
        nodes = draw(_int(1, o.max_nodes))
        e = b.expr(nodes)
        line = ["set", draw(st.sampled_from(list(o.names))), e] if is_set else ["out", e]
        saved = joint.names, joint.worlds, joint.out
        ok = True
        try:
            b.model.work.done = 0
            joint.run(line)
            ok = len(joint.out) <= o.max_joint
        except oracle.DivByZero:
            # the program ends here: later lines would never run
            program.append(line)
            return program
        if not ok:
            joint.names, joint.worlds, joint.out = saved
            line = ["set", line[1], ["int", 3]] if is_set else ["out", ["int", 3]]
            joint.run(line)
        b.model.run(line)
        program.append(line)
    return program


@st.composite
def entangled(draw, o, max_lines=4):
    """A few dice variables, then lines that read them (and each other) several times."""
    b = Builder(draw, o)
    joint = oracle.Joint()
    program = []

    def put(line, otherwise):
        saved = joint.names, joint.worlds, joint.out
        try:
            joint.run(line)
            ok = len(joint.out) <= o.max_joint
        except oracle.DivByZero:
            program.append(line)
            return False
        if not ok:
            joint.names, joint.worlds, joint.out = saved
            line = otherwise
            joint.run(line)
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)
        return True

    names = list(o.names)
    for name in names[:draw(_int(1, min(3, len(names))))]:
        kind = draw(_int(0, 5))
        if kind <= 2:
            e = ["dice", None, ["n", draw(_int(2, 6))]]
        elif kind == 3:
            e = ["dice", None, ["F"]]
        elif kind == 4:
            e = ["dice", None, draw_list_spec(draw, 5, span=20)]
        else:
            e = ["dice", 2, ["n", draw(_int(2, 4))]]
        put(["set", name, e], ["set", name, ["dice", None, ["n", 2]]])
    for i in range(draw(_int(1, max_lines))):
        known = sorted(b.model.vars)
        b.model.work.done = 0
        left = ["var", draw(st.sampled_from(known))]
        right = b.expr(draw(_int(1, 3)))
        if draw(_int(0, 3)):
            v = ["var", draw(st.sampled_from(known))]
            right = v if draw(st.booleans()) else b.attempt(["bin", draw(st.sampled_from("+-*")), right, v], v)
        op = draw(st.sampled_from(BINARY))
        e = ["mm", op, left, right] if op in ("MAX", "MIN") else ["bin", op, left, right]
        if op == "AND" and o.binary_and and not (b.binary_valued(left) and b.binary_valued(right)):
            e[1] = "OR"
        if draw(_int(0, 7)) == 0:
            e = [draw(st.sampled_from(("not", "abs"))), e]
        e = b.attempt(e, left)
        line = ["set", draw(st.sampled_from(names)), e] if draw(_int(0, 2)) else ["out", e]
        if not put(line, ["out", left]):
            return program
    return program


BINARY = syntax.BIN_OPS + ("MAX", "MIN", "+", "-", "*", "-", "+")
caps = st.sampled_from([300, 300, 800, 800, 2500, 2500, 8000])
bigs = st.sampled_from([False, True, True, "more"])


# ---------------------------------------------------------------- names and wide programs

def draw_names(draw, usual, n=None):
    """variable names: usually one of the given tuples, sometimes made-up, related or long ones"""
    if draw(_int(0, 3)):
        return draw(st.sampled_from(usual))
    letters = st.sampled_from("abdkoxz_abd")
    n = n or draw(_int(1, 4))
    names = []
    for _ in range(n):
        kind = draw(_int(0, 7))
        if names and kind <= 2:
            base = draw(st.sampled_from(names))
            name = base + draw(letters) if kind else draw(letters) + base
        elif names and kind == 3:
            name = draw(st.sampled_from(names))[::-1]
        elif kind == 4:
            name = draw(st.sampled_from(NAMES + dictionary.WORDS + ["false", "min", "and", "or", "dd", "stdout", "df", "result", "variable", "constraint"]))
        elif kind == 5:
            name = draw(letters) * draw(_int(1, 70))
        else:
            name = "".join(draw(letters) for _ in range(draw(_int(1, 12))))
        while name in names:
            name += "_"
        names.append(name)
    return tuple(names)


@st.composite
def wide(draw, o):
    """Many variables (8-24), most of them constants or derived from a few dice, then lines that read them."""
    b = Builder(draw, o)
    joint = oracle.Joint()
    program = []
    count = draw(_int(8, 24))
    stem = draw(st.sampled_from(("", "", "v_", "name")))
    names = [stem + chr(97 + i) for i in range(count)]
    if draw(_int(0, 3)) == 0:
        names = [stem + "a" * (i + 1) for i in range(count)]
    budget = draw(_int(1, 3))
    for i, name in enumerate(names):
        known = sorted(b.model.vars)
        kind = draw(_int(0, 5))
        if (kind == 0 or not known) and budget:
            budget -= 1
            e = ["dice", None, draw(st.sampled_from((["n", 2], ["n", 3], ["F"], ["list", [[-4, None, None], [7, None, None]], False, 0])))]
        elif kind <= 2 or not known:
            e = ["int", draw(_int(-9, 20))]
        elif kind == 3:
            e = ["var", draw(st.sampled_from(known))]
        else:
            e = ["bin", draw(st.sampled_from(("+", "-", "*", "<", "=="))), ["var", draw(st.sampled_from(known))], ["int", draw(_int(-3, 9))]]
        if e[0] == "bin" and o.max_abs is not None:
            e = b.attempt(e, ["int", i])
        line = ["set", name, e]
        joint.run(line)
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)
    for _ in range(draw(_int(1, 3))):
        b.model.work.done = 0
        e = ["var", draw(st.sampled_from(names))]
        for _ in range(draw(_int(1, 5))):
            e = b.attempt(["bin", draw(st.sampled_from("+-")), e, ["var", draw(st.sampled_from(names))]], e)
        line = ["set", draw(st.sampled_from(names)), e] if draw(st.booleans()) else ["out", e]
        joint.run(line)
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)
    return program


@st.composite
def chain(draw, o):
    """Each of 8-24 variables computed from the one before it, mixed with a new one, and the mixture taken apart again."""
    b = Builder(draw, o)
    program = []
    count = draw(_int(8, 24))
    stem = draw(st.sampled_from(("", "", "v_", "name")))
    names = [stem + chr(97 + i) for i in range(count)]
    if draw(st.booleans()):
        names.reverse()

    def put(line):
        b.model.work.done = 0
        b.model.run(line)
        program.append(line)

    small = (["n", 2], ["n", 3], ["F"], ["list", [[0, 1, None]], False, 0], ["list", [[-4, None, None], [7, None, None]], False, 0])
    extra = draw(_int(0, 1))
    for i, name in enumerate(names):
        if i == 0:
            put(["set", name, ["dice", None, draw(st.sampled_from(small))]])
            continue
        last = ["var", names[i - 1]]
        kind = draw(_int(0, 7))
        if kind <= 2:
            e = last
        elif kind == 3:
            e = b.attempt(["bin", "-", ["int", draw(_int(-3, 9))], last], last)
        elif kind == 4:
            e = b.attempt(["bin", "+", last, ["int", draw(_int(-3, 9))]], last)
        elif kind == 5:
            e = ["par", last]
        elif kind == 6:
            e = b.attempt(["mm", draw(st.sampled_from(("MAX", "MIN"))), last, ["var", names[draw(_int(0, i - 1))]]], last)
        elif extra:
            extra -= 1
            e = b.attempt(["bin", "+", last, ["dice", None, ["n", 2]]], last)
        else:
            e = ["abs", last]
        put(["set", name, e])
    z, y = stem + "zz", stem + "y"
    put(["set", z, ["dice", None, draw(st.sampled_from(small))]])
    last = ["var", names[-1]]
    e = b.attempt(["bin", draw(st.sampled_from("+-*")), ["var", z], last], last)
    put(["set", y, e])
    for _ in range(draw(_int(1, 3))):
        b.model.work.done = 0
        e = ["var", y]
        for name in draw(st.permutations([names[-1], z, draw(st.sampled_from(names))])):
            e = b.attempt(["bin", draw(st.sampled_from("-+-")), e, ["var", name]], e)
        put(["out", e] if draw(_int(0, 3)) else ["set", draw(st.sampled_from([y, z, names[-1], stem + "x"])), e])
    return program


@st.composite
def any_program(draw, o, lo, hi):
    kind = draw(_int(0, 11))
    if kind == 0:
        return draw(wide(o))
    if kind == 1:
        return draw(chain(o))
    return draw(entangled(o) if kind <= 6 else programs(o, lo, hi))
