"""Answers programs in another Python runtime: one JSON request per line on stdin, one JSON answer per line on stdout.

Run as: PYTHON remote.py REPO LIBS.  LIBS is a directory with the pure Python libraries the code needs (rply, appdirs).  The
drawing libraries are not available there and are replaced by empty modules; nothing here draws.
"""
import importlib.abc
import importlib.machinery
import json
import sys
import types

repo, libs = sys.argv[1:3]
sys.dont_write_bytecode = True
sys.path.insert(0, libs)
STUBBED = ("matplotlib", "PIL", "numpy")


class Anything:
    """stands for whatever the drawing libraries provide"""

    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class StubModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (Anything,), {})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] in STUBBED:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        return StubModule(spec.name)

    def exec_module(self, module):
        pass


sys.meta_path.insert(0, Finder())
sys.path.insert(0, repo)
sys.setrecursionlimit(5000)
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)  # weights of many digits are shown in messages

from python_dice.src.python_dice_interpreter import PythonDiceInterpreter  # noqa: E402
from python_dice.src.python_dice_parser import PythonDiceParser  # noqa: E402

PARSER = PythonDiceParser()


def answer(texts):
    def fresh():
        return PythonDiceInterpreter(parser=PARSER)

    def guarded(fn):
        try:
            return fn()
        except Exception as exc:  # pylint: disable=broad-except
            return {"raised": type(exc).__name__}

    def weights():
        got = fresh().get_probability_distributions(list(texts))
        return {k: sorted([v, str(w)] for v, w in d.get_result_map().items()) for k, d in got.items()}

    def odds():
        got = fresh().get_probability_distributions_dict(list(texts))
        return {k: sorted([v, p] for v, p in d.items()) for k, d in got.items()}

    return {
        "weights": guarded(weights),
        "probabilities": guarded(odds),
        "max": guarded(lambda: fresh().max(list(texts))),
        "min": guarded(lambda: fresh().min(list(texts))),
        "average": guarded(lambda: fresh().get_average(list(texts))),
        "cost": guarded(lambda: fresh().get_estimated_cost(list(texts))),
        "printed": guarded(lambda: [str(PARSER.parse(t)[0]) for t in texts]),
        "variables": guarded(lambda: [sorted(PARSER.parse(t)[0].get_contained_variables()) for t in texts]),
    }


def main():
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        sys.stdout.write(json.dumps(answer(json.loads(line))) + "\n")
        sys.stdout.flush()


main()
