"""Fuzzing dictionary: integers and words that occur in the source under test (plus neighbours).

Only steers the generators; no verdict depends on it.
"""
import ast
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")


def _collect():
    ints, words, titles = set(), set(), set()
    root = os.path.join(REPO, "python_dice", "src")
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, name), encoding="utf-8") as handle:
                    tree = ast.parse(handle.read())
            except (SyntaxError, ValueError, OSError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float) and abs(v) < 1e12:
                        ints.add(int(v))
                        if 0 < abs(v) < 1:
                            ints.add(int(1 / abs(v)))
                    elif isinstance(v, str):
                        for m in re.findall(r"\d+", v)[:20]:
                            if len(m) < 10:
                                ints.add(int(m))
                        if 0 < len(v) <= 60 and v.isprintable():
                            titles.add(v)
                        if re.fullmatch(r"[a-z_]{1,20}", v):
                            words.add(v)
                elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Pow, ast.LShift, ast.Mult)):
                    if isinstance(node.left, ast.Constant) and isinstance(node.right, ast.Constant):
                        a, b = node.left.value, node.right.value
                        if isinstance(a, int) and isinstance(b, int) and 0 <= b < 100 and abs(a) < 1000:
                            ints.add(a ** b if isinstance(node.op, ast.Pow) else a << b if isinstance(node.op, ast.LShift) else a * b)
    around = set()
    for v in ints:
        if abs(v) < 10 ** 30:
            around.update((v - 1, v, v + 1, -v))
    return sorted(around, key=lambda v: (abs(v), v < 0)), sorted(words), sorted(titles)


INTS, WORDS, TITLES = _collect()
SMALL = [v for v in INTS if abs(v) <= 2000]
COUNTS = [v for v in INTS if 2 <= v <= 400]
