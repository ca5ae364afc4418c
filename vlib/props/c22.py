"""C22: answers do not depend on the Python runtime or its hash seed."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import gen, judge, oracle, sut, syntax

ID = "C22"
EXAMPLES = {"quick": 160, "thorough": 2500}
RULE = (
    "cases are programs of 3-7 lines with several entangled variables, run in CPython with two different hash seeds and in "
    "PyPy; weights, probabilities, max, min, averages, cost, printed forms and contained variables must be the same in "
    "all of them and the weights those of the oracle; non-trivial = at least two variables are read"
)
CPYTHON = next((p for p in ("/opt/veriftools/pyvenv/bin/python", "/usr/bin/python3", "/usr/local/bin/python3") if os.path.exists(p)), None)
RUNTIMES = [(CPYTHON, "0"), (CPYTHON, "4242"), (sys.executable, "7")]
MISSING = ("matplotlib", "PIL", "numpy")


@st.composite
def _case(draw, tier):
    names = gen.draw_names(draw, [("a", "b", "c"), ("a", "b", "c", "d"), ("a", "a_", "aa"), ("stdout", "a", "b")])
    o = gen.Opts(cap=draw(st.sampled_from([100, 300, 600])), max_joint=1500, names=names, max_nodes=draw(st.sampled_from([3, 5, 7])),
                 zero_division=draw(st.integers(0, 7)) == 0, prefer_vars=True)
    return {"program": draw(gen.any_program(o, 3, 7))}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    d, a, b, c = ["dice", None, ["n", 4]], ["var", "a"], ["var", "b"], ["var", "c"]
    for op in syntax.BIN_OPS:
        yield {"program": [["set", "a", d], ["set", "b", ["bin", op, a, d]], ["set", "c", ["bin", "+", d, b]] if op != "//" else ["set", "c", ["bin", "+", d, a]],
                           ["out", ["bin", "-", ["bin", "*", a, c], ["par", ["bin", "+", b, a]]]]]}


class Remote:
    pool = []

    def __init__(self, python, seed):
        self.name = "%s with hash seed %s" % (os.path.basename(os.path.realpath(python)), seed)
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        env.pop("PYTHONPATH", None)
        script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "remote.py")
        self.answered = False
        self.err = tempfile.TemporaryFile(dir=os.environ.get("VERIF_TMP"))
        self.proc = subprocess.Popen([python, "-s", script, sut.REPO, libraries()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.err, env=env, universal_newlines=True, cwd="/")

    def send(self, texts):
        self.proc.stdin.write(json.dumps(texts) + "\n")
        self.proc.stdin.flush()

    def receive(self):
        line = self.proc.stdout.readline()
        if not line:
            self.err.seek(0)
            text = self.err.read().decode(errors="replace")[-1500:]
            Remote.pool.remove(self)
            if not self.answered and any("No module named '%s" % m in text for m in MISSING):
                return None  # the drawing libraries cannot be replaced there
            raise Died("%s ended: %s" % (self.name, text))
        self.answered = True
        return json.loads(line)


class Died(Exception):
    pass


LIBS = []


def libraries():
    """the pure Python libraries the code needs, for a runtime that does not have them"""
    if not LIBS:
        where = tempfile.mkdtemp(prefix="libs-", dir=os.environ.get("VERIF_TMP"))
        import appdirs
        import rply

        os.symlink(os.path.dirname(rply.__file__), os.path.join(where, "rply"))
        shutil.copy(appdirs.__file__, os.path.join(where, "appdirs.py"))
        LIBS.append(where)
    return LIBS[0]


def stop():
    for r in Remote.pool:
        r.proc.kill()
    for d in LIBS:
        shutil.rmtree(d, ignore_errors=True)


def remotes():
    if not Remote.pool:
        if CPYTHON is None:
            raise RuntimeError("no CPython found")
        atexit.register(stop)
        for python, seed in RUNTIMES:
            Remote.pool.append(Remote(python, seed))
    return Remote.pool


def check(case, ctx):
    program = case["program"]
    texts = syntax.program_text(program)
    pool = list(remotes())
    answers = []
    for r in pool:
        r.send(texts)
    for r in pool:
        try:
            answers.append(r.receive())
        except Died as exc:
            # a runtime in which the library cannot even be imported, or that ends: the library does not work there
            ctx.fail("program %r: %s" % (texts, exc))
    pool = [r for r, a in zip(pool, answers) if a is not None]
    answers = [a for a in answers if a is not None]
    first = answers[0]
    ctx.label("runtimes compared", len(pool))
    for r, other in zip(pool[1:], answers[1:]):
        for part in sorted(first):
            ctx.require(same(part, first[part], other[part]), "%s of %r is %s in %s, and %s in %s", part, texts, str(first[part])[:300], pool[0].name,
                        str(other[part])[:300], r.name)
    try:
        exact = oracle.Joint().run_all(program).marginals()
        alt = oracle.LabelModel().run_all(program).marginals()
    except oracle.DivByZero:
        for part in ("weights", "probabilities", "max", "min", "average"):
            ctx.require(first[part] == {"raised": "ZeroDivisionError"}, "%s of %r: %s, expected ZeroDivisionError", part, texts, str(first[part])[:200])
        exact = None
    if exact is not None:
        for part in ("weights", "probabilities", "max", "min", "average"):
            ctx.require(isinstance(first[part], dict) and set(first[part]) == set(exact), "%s of %r: %s, expected names %r", part, texts, str(first[part])[:200], sorted(exact))
        for name in sorted(exact):
            got = {v: int(w) for v, w in first["weights"][name]}
            ctx.require(judge.same_ratio(got, exact[name]) or judge.same_ratio(got, alt[name]), "%s of %r has weights %s, exact %s", name, texts,
                        judge.show(got), judge.show(exact[name]))
    reads = set()
    for l in program:
        reads |= syntax.reads(syntax.line_expr(l))
    ctx.label("division by zero", exact is None)
    ctx.label("four or more lines", len(program) > 3)
    ctx.nontrivial(len(reads) > 1)
    ctx.note(" ; ".join(texts))


def same(part, x, y):
    if part == "average" and isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y):
        return all(x[k] == y[k] or (not isinstance(x[k], str) and judge.close(x[k], y[k])) for k in x)
    return x == y
