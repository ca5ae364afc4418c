"""Reference semantics, written from the README, independent of the implementation.

Everything is exact integer arithmetic.  A weight is a number of equally likely die-face combinations.
"""
from math import comb

from vlib import syntax


class DivByZero(Exception):
    pass


class NoSides(Exception):
    pass


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- dice

def sides(spec):
    """value -> number of faces showing it."""
    kind = spec[0]
    if kind == "n":
        out = {v: 1 for v in range(1, spec[1] + 1)}
    elif kind == "%":
        out = {v: 1 for v in range(1, 101)}
    elif kind == "F":
        out = {-1: 1, 0: 1, 1: 1}
    else:
        out = {}
        for lo, hi, mult in spec[1]:
            m = 1 if mult is None else mult
            if m == 0:
                continue
            if hi is None:
                values = [lo]
            else:
                values = range(min(lo, hi), max(lo, hi) + 1)
            for v in values:
                out[v] = out.get(v, 0) + m
    if not out:
        raise NoSides(spec)
    return out


def convolve(a, b):
    out = {}
    for x, p in a.items():
        for y, q in b.items():
            out[x + y] = out.get(x + y, 0) + p * q
    return out


def sum_of(n, faces):
    result = {0: 1}
    power = dict(faces)
    while n:
        if n & 1:
            result = convolve(result, power)
        n >>= 1
        if n:
            power = convolve(power, power)
    return result


def keep_drop(n, faces, mode, k):
    """Exact weights of 'sum of the k highest' (mode k) or 'sum without the k highest' (mode d)."""
    if mode == "k":
        lo_rank, hi_rank = 0, min(k, n)  # ranks counted from the highest die
    else:
        lo_rank, hi_rank = min(k, n), n
    # process faces from highest to lowest; dice taken so far occupy ranks 0..used-1
    states = {(0, 0): 1}
    for value in sorted(faces, reverse=True):
        ways = faces[value]
        new = {}
        for (used, total), weight in states.items():
            free = n - used
            for m in range(free + 1):
                counted = max(0, min(used + m, hi_rank) - max(used, lo_rank))
                key = (used + m, total + counted * value)
                new[key] = new.get(key, 0) + weight * comb(free, m) * ways ** m
        states = new
    out = {}
    for (used, total), weight in states.items():
        if used == n:
            out[total] = out.get(total, 0) + weight
    return out


_DICE_CACHE = {}


def term(e):
    """Distribution of a dice or keep/drop term."""
    key = syntax.dice_text(e)
    hit = _DICE_CACHE.get(key)
    if hit is None:
        n = 1 if e[1] is None else e[1]
        faces = sides(e[2])
        if e[0] == "dice":
            hit = sum_of(n, faces)
        else:
            hit = keep_drop(n, faces, e[3], e[4])
        if len(_DICE_CACHE) > 4000:
            _DICE_CACHE.clear()
        _DICE_CACHE[key] = hit
    return hit


# ---------------------------------------------------------------- values

def apply_op(op, x, y, bitwise_and=False):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "//":
        if y == 0:
            raise DivByZero()
        # floor of the exact quotient, without using the host's //
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
            if q * y != x:
                q -= 1
        return q
    if op == "==":
        return 1 if x == y else 0
    if op == "!=":
        return 1 if x != y else 0
    if op == "<=":
        return 1 if x <= y else 0
    if op == "<":
        return 1 if x < y else 0
    if op == ">=":
        return 1 if x >= y else 0
    if op == ">":
        return 1 if x > y else 0
    if op == "AND":
        if bitwise_and:
            return 1 if (x & y) else 0
        return 1 if (x > 0 and y > 0) else 0
    if op == "OR":
        return 1 if (x > 0 or y > 0) else 0
    raise AssertionError(op)


def apply_mm(op, x, y):
    if op == "MAX":
        return x if x >= y else y
    return x if x <= y else y


def collect(pairs):
    out = {}
    for value, weight in pairs:
        out[value] = out.get(value, 0) + weight
    return out


class Work:
    """Counts outcome pairs combined; the implementation's effort is proportional to it."""

    def __init__(self, limit=None):
        self.done = 0
        self.limit = limit

    def add(self, n):
        self.done += n
        if self.limit is not None and self.done > self.limit:
            raise TooBig()


def dist(e, env, bitwise_and=False):
    """Exact weights of e when the variables have the fixed values in env."""
    kind = e[0]
    if kind == "int":
        return {e[1]: 1}
    if kind == "bool":
        return {1 if e[1] else 0: 1}
    if kind in ("dice", "kd"):
        return term(e)
    if kind == "var":
        return {env[e[1]]: 1}
    if kind == "par":
        return dist(e[1], env, bitwise_and)
    if kind == "not":
        return collect((0 if v > 0 else 1, w) for v, w in dist(e[1], env, bitwise_and).items())
    if kind == "abs":
        return collect((-v if v < 0 else v, w) for v, w in dist(e[1], env, bitwise_and).items())
    if kind == "mm":
        left, right = dist(e[2], env, bitwise_and), dist(e[3], env, bitwise_and)
        return collect((apply_mm(e[1], x, y), p * q) for x, p in left.items() for y, q in right.items())
    left, right = dist(e[2], env, bitwise_and), dist(e[3], env, bitwise_and)
    op = e[1]
    if op == "//" and bitwise_and:
        # finding K2 can make a divisor 0 that never is: the roll then fails, the other rolls remain possible
        right = {y: q for y, q in right.items() if y != 0}
    return collect((apply_op(op, x, y, bitwise_and), p * q) for x, p in left.items() for y, q in right.items())


def divides_by_zero(e, env):
    """with finding K2: can a division by zero happen in a roll of e"""
    return any(x[0] == "bin" and x[1] == "//" and 0 in dist(x[3], env, True) for x in syntax.walk(e))


class Joint:
    """Exact joint distribution of all variables of a program, after each line."""

    def __init__(self, bitwise_and=False):
        self.names = ()
        self.worlds = {(): 1}
        self.bitwise_and = bitwise_and
        self.out = {}  # joint of (world, stdout) after the last line
        self.lost = False  # with bitwise_and: some rolls end in a division by zero

    def run(self, line):
        e = syntax.line_expr(line)
        order = sorted(syntax.reads(e))
        for name in order:
            if name not in self.names:
                raise KeyError(name)
        index = {n: i for i, n in enumerate(self.names)}
        memo = {}
        joint = {}
        for world, weight in self.worlds.items():
            key = tuple(world[index[n]] for n in order)
            d = memo.get(key)
            if d is None:
                env = dict(zip(order, key))
                d = dist(e, env, self.bitwise_and)
                if self.bitwise_and and not self.lost:
                    self.lost = divides_by_zero(e, env)
                memo[key] = d
            for value, w in d.items():
                joint[(world, value)] = weight * w
        if line[0] == "set":
            name = line[1]
            if name in index:
                i = index[name]
                new = collect((w[:i] + (v,) + w[i + 1:], p) for (w, v), p in joint.items())
                out = collect(((w[:i] + (v,) + w[i + 1:], v), p) for (w, v), p in joint.items())
            else:
                self.names += (name,)
                new = {w + (v,): p for (w, v), p in joint.items()}
                out = {(w + (v,), v): p for (w, v), p in joint.items()}
            self.worlds, self.out = new, out
        else:
            self.out = joint
        return self

    def run_all(self, program):
        for line in program:
            self.run(line)
        return self

    def stdout(self):
        return collect((v, p) for (_, v), p in self.out.items())

    def var(self, name):
        i = self.names.index(name)
        return collect((w[i], p) for w, p in self.worlds.items())

    def marginals(self):
        """name -> weights for every reported entry ('stdout' is the last line)."""
        out = {n: self.var(n) for n in self.names}
        out["stdout"] = self.stdout()
        return out

    def reports(self):
        """weights of the possible result dictionaries, as tuples over names_reported()."""
        names = self.names_reported()
        index = {n: i for i, n in enumerate(self.names)}
        return collect(
            (tuple(v if n == "stdout" else w[index[n]] for n in names), p) for (w, v), p in self.out.items()
        )

    def names_reported(self):
        return tuple(sorted(set(self.names) | {"stdout"}))


# ---------------------------------------------------------------- the characterised finding K1
# The implementation labels every stored outcome with the value its variable has, and multiplies the weights of
# compatible outcomes; a variable read twice therefore contributes its weight twice.  For variables all of whose
# outcomes have equal weight this is exact.  LabelModel reproduces precisely that rule and nothing else.

class LabelModel:
    def __init__(self, work=None):
        self.vars = {}
        self.version = {}
        self.work = work or Work()
        self.out = {}

    def combine(self, a, b, fn):
        self.work.add(len(a) * len(b))
        out = {}
        for (x, la), p in a.items():
            for (y, lb), q in b.items():
                if la and lb:
                    da = dict(la)
                    ok = True
                    for name, value in lb:
                        if da.setdefault(name, value) != value:
                            ok = False
                            break
                    if not ok:
                        fn(x, y)  # division by zero is noticed before compatibility
                        continue
                    label = tuple(sorted(da.items()))
                else:
                    label = la or lb
                key = (fn(x, y), label)
                out[key] = out.get(key, 0) + p * q
        return out

    def ev(self, e):
        kind = e[0]
        if kind == "int":
            return {(e[1], ()): 1}
        if kind == "bool":
            return {(1 if e[1] else 0, ()): 1}
        if kind in ("dice", "kd"):
            d = term(e)
            n = 1 if e[1] is None else e[1]
            if e[0] == "dice":
                # repeated convolution in the implementation
                m = len(sides(e[2]))
                width = len(d)
                self.work.add(max(1, n) * m + (n * width * m) // 2)
            else:
                keep = min(e[4], n) if e[3] == "k" else max(0, n - e[4])
                m = len(sides(e[2]))
                if keep == n:
                    self.work.add(max(1, n) * m + (n * len(d) * m) // 2)
                elif keep:
                    self.work.add(n * m * comb(keep + m - 1, keep) // 4)
            return {(v, ()): w for v, w in d.items()}
        if kind == "var":
            return self.vars[e[1]]
        if kind == "par":
            return self.ev(e[1])
        if kind == "not":
            return collect(((0 if v > 0 else 1, lab), w) for (v, lab), w in self.ev(e[1]).items())
        if kind == "abs":
            return collect(((abs(v), lab), w) for (v, lab), w in self.ev(e[1]).items())
        if kind == "mm":
            op = e[1]
            return self.combine(self.ev(e[2]), self.ev(e[3]), lambda x, y: apply_mm(op, x, y))
        op = e[1]
        return self.combine(self.ev(e[2]), self.ev(e[3]), lambda x, y: apply_op(op, x, y))

    def run(self, line):
        e = syntax.line_expr(line)
        d = self.ev(e)
        self.out = d
        if line[0] == "set":
            name = line[1]
            self.version[name] = self.version.get(name, 0) + 1
            tag = (name, self.version[name])
            new = {}
            for (v, lab), w in d.items():
                labels = dict(lab)
                labels[tag] = v
                new[(v, tuple(sorted(labels.items())))] = w
            self.vars[name] = new
        return self

    def run_all(self, program):
        for line in program:
            self.run(line)
        return self

    def marginals(self):
        out = {n: collect((v, w) for (v, _), w in d.items()) for n, d in self.vars.items()}
        out["stdout"] = collect((v, w) for (v, _), w in self.out.items())
        return out


# ---------------------------------------------------------------- bounds (finding K3: interval rule of MIN and MAX)

def interval_bounds(program, which):
    """Entries reported when MIN/MAX bounds are taken operand by operand, everything else exactly."""
    model = Joint()
    constants = {}
    pick = max if which == "max" else min

    def bound(e):
        if e[0] == "par":
            return bound(e[1])
        if e[0] == "mm":
            return apply_mm(e[1], bound(e[2]), bound(e[3]))
        if e[0] == "var":
            return constants[e[1]]
        saved = model.names, model.worlds, model.out
        model.run(["out", e])
        value = pick(model.stdout())
        model.names, model.worlds, model.out = saved
        return value

    out = None
    for line in program:
        e = syntax.line_expr(line)
        out = bound(e)
        model.run(line)
        if line[0] == "set":
            constants[line[1]] = out
    result = dict(constants)
    result["stdout"] = out
    return result


# ---------------------------------------------------------------- costs

def faces_count(spec):
    return len(sides(spec))


def cost(e, variables):
    kind = e[0]
    if kind in ("int", "bool"):
        return 2
    if kind == "dice":
        return (1 if e[1] is None else e[1]) * faces_count(e[2])
    if kind == "kd":
        n = 1 if e[1] is None else e[1]
        k = e[4]
        kept = min(k, n) if e[3] == "k" else max(0, n - k)
        if n <= k:
            return n * faces_count(e[2]) if e[3] == "k" else 2
        if k == 0:
            return 2 if e[3] == "k" else n * faces_count(e[2])
        return n * kept * faces_count(e[2])
    if kind == "var":
        return variables[e[1]]
    if kind in ("par", "abs"):
        return cost(e[1], variables)
    if kind == "not":
        return cost(e[1], variables) * 11 // 10
    if kind == "mm":
        return cost(e[2], variables) + cost(e[3], variables)
    return cost(e[2], variables) + cost(e[3], variables)


def program_cost(program):
    variables = {}
    total = 0
    for line in program:
        c = cost(syntax.line_expr(line), variables)
        if line[0] == "set":
            variables[line[1]] = c
            c += 2
        total += c
    return total
