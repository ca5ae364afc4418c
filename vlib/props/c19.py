"""C19: constraint sets are conjunctions of allowed values."""
import copy

from hypothesis import strategies as st

from vlib import judge, sut

ID = "C19"
EXAMPLES = {"quick": 1200, "thorough": 25000}
RULE = (
    "cases are sequences of 2-14 operations (new set, set of several constraints, add, combine, deep copy, merge) over a "
    "pool of sets, with null, impossible and value constraints on up to 4 names (some sets on up to 16); after every operation all sets of the "
    "pool are compared with a model (one set of allowed values per name) by is_possible, complies and their parts, and "
    "the sets and constraints passed in must be unchanged; the whole sequence is repeated to compare equality and hashes; "
    "non-trivial = some name is constrained at least twice in one set"
)
NAMES = ["a", "b", "a_1", "a_11"]


@st.composite
def _constraint(draw):
    kind = draw(st.integers(0, 11))
    if kind == 0:
        return ["null"]
    if kind == 1:
        return ["impossible"]
    low = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2]))
    values = draw(st.lists(st.integers(-3, 4) if low else st.integers(0, 2), min_size=0 if kind == 2 else 1, max_size=4, unique=True))
    return ["var", draw(st.sampled_from(NAMES)), values]


@st.composite
def _case(draw, tier):
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.integers(0, 9))
        if kind <= 1:
            ops.append(["new", draw(st.lists(_constraint(), min_size=1, max_size=5))])
        elif kind == 2:
            ops.append(["empty"])
        elif kind <= 5:
            ops.append(["add", draw(st.integers(0, 9)), draw(_constraint())])
        elif kind <= 7:
            ops.append(["combine", draw(st.integers(0, 9)), draw(st.integers(0, 9))])
        elif kind == 8:
            ops.append(["copy", draw(st.integers(0, 9))])
        else:
            ops.append(["merge", draw(st.lists(_constraint(), min_size=0, max_size=6)), draw(_constraint())])
    if draw(st.integers(0, 4)) == 0:
        # sets on many names, which differ in a single name or value
        names = [draw(st.sampled_from(["n", "a_", "roll_"])) + chr(97 + i) for i in range(draw(st.integers(5, 16)))]
        low = draw(st.integers(-2, 2))
        size = draw(st.sampled_from([1, 1, 2, 5, 30]))
        many = [["var", n, list(range(low, low + size))] for n in names]
        other = [list(c) for c in many]
        which = draw(st.integers(0, len(names) - 1))
        other[which] = ["var", names[which], list(range(low + 1, low + 1 + size))] if draw(st.booleans()) else ["null"]
        half = draw(st.integers(1, len(names) - 1))
        ops = [["new", many], ["new", draw(st.permutations(other))], ["new", many[:half]], ["new", many[half:]], ["combine", 2, 3],
               ["combine", 0, 1]] + ops[:draw(st.integers(0, 4))]
    return {"ops": ops}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    pool = [["null"], ["impossible"], ["var", "a", [1, 2]], ["var", "a", [2, 3]], ["var", "b", [1]], ["var", "a", [9]], ["var", "b", []]]
    for x in pool:
        yield {"ops": [["new", [x]], ["empty"], ["combine", 0, 1], ["combine", 1, 0]]}
        for y in pool:
            yield {"ops": [["new", [x, y]], ["new", [x]], ["add", 1, y], ["new", [y]], ["combine", 1, 2], ["combine", 2, 1], ["merge", [x], y]]}
            for z in pool:
                yield {"ops": [["new", [x]], ["new", [y]], ["new", [z]], ["combine", 0, 1], ["combine", 3, 2], ["combine", 1, 2], ["combine", 0, 5],
                               ["merge", [x, y], z], ["new", [x, y, z]], ["new", [z, y, x]]]}


class Meaning:
    def __init__(self):
        self.impossible = False
        self.allowed = {}

    def add(self, c):
        if c[0] == "impossible":
            self.impossible = True
        elif c[0] == "var":
            values = set(c[2])
            if c[1] in self.allowed:
                values &= self.allowed[c[1]]
            self.allowed[c[1]] = values
        return self

    def join(self, other):
        out = self.copy()
        out.impossible |= other.impossible
        for name, values in other.allowed.items():
            out.add(["var", name, values])
        return out

    def copy(self):
        out = Meaning()
        out.impossible = self.impossible
        out.allowed = {k: set(v) for k, v in self.allowed.items()}
        return out

    def possible(self):
        return not self.impossible and all(self.allowed.values())

    def key(self):
        if not self.possible():
            return "impossible"
        return tuple(sorted((k, tuple(sorted(v))) for k, v in self.allowed.items()))


class World:
    def __init__(self):
        self.factory = sut.ConstraintFactory()
        self.merger = sut.ConstraintMerger()
        self.sets = []
        self.meanings = []
        self.given = []     # (constraint object, its meaning)
        self.single = {}    # one constraint object of each kind and meaning met so far
        self.twice = False

    def constraint(self, c):
        made = self._constraint(c)
        self.single.setdefault((c[0],) + tuple(c[1:2]) + tuple(tuple(v) for v in c[2:]), made)
        return made

    def _constraint(self, c):
        if c[0] == "null":
            return self.factory.null_constraint
        if c[0] == "impossible":
            return self.factory.impossible_constraint
        made = self.factory.var_value_constraint(name=c[1], values=set(c[2]))
        self.given.append((made, c))
        return made

    def put(self, made, meaning):
        self.sets.append(made)
        self.meanings.append(meaning)

    def apply(self, op):
        kind = op[0]
        if kind == "new":
            meaning = Meaning()
            made = [self.constraint(c) for c in op[1]]
            for c in op[1]:
                meaning.add(c)
            names = [c[1] for c in op[1] if c[0] == "var"]
            self.twice |= len(set(names)) < len(names)
            given = set(made)
            before = list(given)
            self.put(sut.ConstraintSet(given, self.merger), meaning)
            if len(given) != len(before) or any(x is not y for x, y in zip(given, before)):
                return "building a constraint set changed the set of constraints passed in"
        elif kind == "empty":
            self.put(sut.ConstraintSetFactory().create_constraint_set(), Meaning())
        elif not self.sets and kind in ("add", "combine", "copy"):
            return None
        elif kind == "add":
            i = op[1] % len(self.sets)
            self.twice |= op[2][0] == "var" and op[2][1] in self.meanings[i].allowed
            self.sets[i].add_constraint(self.constraint(op[2]))
            self.meanings[i].add(op[2])
        elif kind == "combine":
            i, j = op[1] % len(self.sets), op[2] % len(self.sets)
            self.twice |= bool(set(self.meanings[i].allowed) & set(self.meanings[j].allowed))
            self.put(self.sets[i].combine_sets(self.sets[j]), self.meanings[i].join(self.meanings[j]))
        elif kind == "copy":
            i = op[1] % len(self.sets)
            self.put(copy.deepcopy(self.sets[i]), self.meanings[i].copy())
        elif kind == "merge":
            many = {self.constraint(c) for c in op[1]}
            meaning = Meaning()
            for c in op[1]:
                meaning.add(c)
            before = set(many)
            clean = self.merger.merge_constraints(many)
            kept = list(clean)
            new = self.constraint(op[2])
            merged = self.merger.merge_new_constraints(clean, new)
            if many != before:
                return "merging changed the set passed in"
            if len(clean) != len(kept) or any(x is not y for x, y in zip(clean, kept)):
                return "merging a new constraint changed the set passed in"
            for got, want in ((clean, meaning), (merged, meaning.copy().add(op[2]))):
                wrong = disagree(got, want)
                if wrong:
                    return "merging %r: %s" % (op, wrong)
        return None


def disagree(parts, meaning):
    """a set of constraints, as a whole, against its meaning"""
    possible = all(c.is_possible() for c in parts)
    if possible != meaning.possible():
        return "possible: %r, expected %r" % (possible, meaning.possible())
    if possible:
        for values in assignments(meaning):
            got = all(c.complies(dict(values)) for c in parts)
            want = all(v in meaning.allowed[n] for n, v in values.items() if n in meaning.allowed)
            if got is not want:
                return "%r complies: %r, expected %r" % (values, got, want)
    return None


def assignments(meaning):
    yield {}
    for n in NAMES:
        for v in range(-3, 5):
            yield {n: v}
    first = {n: sorted(v)[0] for n, v in meaning.allowed.items()}
    yield first
    for n in NAMES:
        for v in (-1, 0, 1, 2):
            yield dict(first, **{n: v})
    for n in sorted(set(meaning.allowed) - set(NAMES)):
        for v in (min(meaning.allowed[n]) - 1, min(meaning.allowed[n]), max(meaning.allowed[n]), max(meaning.allowed[n]) + 1):
            yield {n: v}
            yield dict(first, **{n: v})
    yield {n: 0 for n in NAMES}
    yield {"unknown": 5}


def judge_set(made, meaning, what, ctx):
    possible = judge.returned(sut.call(made.is_possible), what)
    ctx.require(possible is meaning.possible(), "%s: is_possible() is %r, expected %r", what, possible, meaning.possible())
    if not possible:
        return
    for values in assignments(meaning):
        given = dict(values)
        got = judge.returned(sut.call(made.complies, given), what)
        want = all(v in meaning.allowed[n] for n, v in values.items() if n in meaning.allowed)
        ctx.require(got is want, "%s: complies(%r) is %r, expected %r (allowed %r)", what, values, got, want, meaning.allowed)
        ctx.require(given == values, "%s: complies changed its argument", what)
    parts = judge.returned(sut.call(lambda: made.constraints), what)
    wrong = disagree(parts, meaning)
    ctx.require(wrong is None, "%s: its constraints %r do not mean the same: %s", what, parts, wrong)
    if isinstance(parts, set):
        parts.clear()
    again = judge.returned(sut.call(made.is_possible), what)
    ctx.require(again and len(made.constraints) > 0, "%s: changing the returned constraints changed the set", what)


def check(case, ctx):
    world, twin = World(), World()
    for i, op in enumerate(case["ops"]):
        what = "after %r" % (case["ops"][:i + 1],)
        for w in (world, twin):
            wrong = judge.returned(sut.call(w.apply, op), what)
            ctx.require(wrong is None, "%s: %s", what, wrong)
        for j, made in enumerate(world.sets):
            judge_set(made, world.meanings[j], "%s, set %d" % (what, j), ctx)
    for made, c in world.given:
        ctx.require(made.name == c[1] and set(made.values) == set(c[2]), "after %r the constraint %r has become %r", case["ops"], c, made)
    singles = sorted(world.single)
    for j, key in enumerate(singles):
        made, other = world.single[key], twin.single[key]
        ctx.require((made == other) is True and (made != other) is False and hash(made) == hash(other),
                    "the constraint %r differs from the same constraint built the same way", key)
        for key2 in singles[:j]:
            if key[:2] != key2[:2] or set(key[2]) != set(key2[2]):
                other = world.single[key2]
                ctx.require((made == other) is False and (made != other) is True and (other == made) is False,
                            "the constraints %r and %r mean different things but are equal", key, key2)
    for j, made in enumerate(world.sets):
        other = twin.sets[j]
        ctx.require((made == other) is True and (made != other) is False, "after %r set %d differs from the same set built the same way: %s, %s",
                    case["ops"], j, made, other)
        ctx.require(hash(made) == hash(other), "after %r the hashes of set %d and of the same set built the same way differ", case["ops"], j)
        for k in range(j):
            if world.meanings[j].key() != world.meanings[k].key():
                ctx.require((made == world.sets[k]) is False, "after %r the sets %d and %d are equal but mean different things: %s", case["ops"], k, j, made)
    ctx.label("impossible set", any(not m.possible() for m in world.meanings))
    ctx.label("set on two or more names", any(len(m.allowed) > 1 for m in world.meanings))
    ctx.label("name constrained twice", world.twice)
    ctx.nontrivial(world.twice)
    ctx.note(str(case["ops"])[:300])
