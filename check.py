#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import engine  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    parser.add_argument("--replay")
    args = parser.parse_args()
    if args.replay:
        with open(args.replay) as handle:
            data = json.load(handle)
        tmp = tempfile.mkdtemp(prefix="vreplay-")
        try:
            message = engine.replays_in_fresh_process(args.property, data["cases"], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if message is None:
            print("not reproduced: the cases of %s pass" % args.replay)
            return 0
        print(message)
        print("VIOLATION property=%s replay=%s" % (args.property, os.path.abspath(args.replay)))
        return 1
    return engine.drive(args.property, args.tier, args.seed)


if __name__ == "__main__":
    sys.exit(main())
