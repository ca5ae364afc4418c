"""Entry points of the worker and replay processes (run with python -m vlib.main)."""
import json
import sys


def main(argv):
    sys.setrecursionlimit(5000)
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)  # weights of many digits are shown in messages
    from vlib import engine

    if argv[0] == "--internal-worker":
        _, prop, tier, seed, index, out = argv
        engine.worker(prop, tier, int(seed), int(index), out)
        return 0
    if argv[0] == "--internal-replay":
        with open(argv[2]) as handle:
            cases = json.load(handle)["cases"]
        message = engine.replay_cases(argv[1], cases)
        if message is not None:
            sys.stderr.write("REPLAYED: %s\n" % message)
            return 1
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
