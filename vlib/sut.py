"""Access to the code under test.  Everything is imported from the working tree (VERIF_REPO, default /repo)."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

# third-party modules first (they may use their own byte code caches) ...
import matplotlib  # noqa: E402

matplotlib.use("Agg")
from matplotlib import pyplot  # noqa: E402,F401
import PIL.Image  # noqa: E402,F401
import rply  # noqa: E402,F401

# ... then the code under test, never from a cache: the source as it is now decides
sys.pycache_prefix = os.path.join(os.environ.get("VERIF_TMP", "/nonexistent"), "no-cache")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import python_dice  # noqa: E402

if not os.path.abspath(python_dice.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError("python_dice imported from %s, not from %s" % (python_dice.__file__, REPO))

from python_dice import PythonDiceInterpreter  # noqa: E402
from python_dice.src.constraint.constraint_factory import ConstraintFactory  # noqa: E402
from python_dice.src.constraint.constraint_merger import ConstraintMerger  # noqa: E402
from python_dice.src.constraint.constraint_set import ConstraintSet  # noqa: E402
from python_dice.src.constraint.constraint_set_factory import ConstraintSetFactory  # noqa: E402
from python_dice.src.probability_distribution.probability_distribution_factory import (  # noqa: E402
    ProbabilityDistributionFactory,
)
from python_dice.src.probability_distribution.probability_distribution_state_factory import (  # noqa: E402
    ProbabilityDistributionStateFactory,
)
from python_dice.src.python_dice_lexer import PythonDiceLexer  # noqa: E402
from python_dice.src.python_dice_parser import PythonDiceParser  # noqa: E402


class Raised:
    """An exception that came out of the code under test."""

    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__

    def __repr__(self):
        return "raised %s(%s)" % (self.kind, str(self.exc)[:200])


def call(fn, *args, **kwargs):
    """Call into the code under test; exceptions become values, so they are judged and not mistaken for ours."""
    try:
        return fn(*args, **kwargs)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return Raised(exc)


_PARSER = []


def fresh():
    """A new interpreter with its own state (the parser, which keeps no state, is shared to save time)."""
    if not _PARSER:
        _PARSER.append(PythonDiceParser())
    return PythonDiceInterpreter(parser=_PARSER[0])


def parser():
    if not _PARSER:
        _PARSER.append(PythonDiceParser())
    return _PARSER[0]
