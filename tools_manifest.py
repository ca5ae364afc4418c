#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "C01": ("property-based testing against an exact enumeration oracle", "every generated expression's weights compared exactly with an independent convolution oracle"),
    "C02": ("property-based testing: spelling equivalences and exact oracle", "generated notations against the documented side multiset, plus enumeration of all short side lists over a small alphabet"),
    "C03": ("property-based testing against a multinomial oracle, exhaustive for small terms", "all small terms enumerated, larger ones generated"),
    "C04": ("model-based testing of programs against exact joint distribution", "known finding K1 (weights counted per read for unevenly weighted variables) accepted only in its exact characterised form"),
    "C05": ("property-based testing: membership in the exact joint outcome set", "rolls of generated programs under generated random seeds; known finding K2 (bitwise AND in rolls)"),
    "C06": ("statistical property-based testing with Chernoff error bounds", "false alarm probability below 1e-12 per run; only deviations above the stated detectable size are found"),
    "C07": ("property-based testing against exact joint extremes", "known finding K3 (operand-wise bounds of MIN/MAX) accepted only in its exact characterised form"),
    "C08": ("property-based testing of summaries against exact fractions", "floating point compared with tolerance 1e-9"),
    "C09": ("property-based and exhaustive testing of truth tables over all query kinds", "known finding K2 (bitwise AND in rolls)"),
    "C10": ("metamorphic and differential testing of spelling and grouping", "values compared with an oracle evaluating the intended tree"),
    "C11": ("round-trip property testing: print, parse, compare", "equality of meaning judged by the printed text, exact distributions, bounds, cost and seeded rolls"),
    "C12": ("grammar-aware fuzzing with a reference lexer and parser", "acceptance compared with an independent recogniser on mutated and random text; termination judged by a 120 s limit per case"),
    "C13": ("property-based testing against exact joint reachability of zero", "every query kind compared on the same program"),
    "C14": ("stateful model-based testing of query histories", "each answer compared with a fresh interpreter and with the oracle"),
    "C15": ("stateful testing with retained and mutated results", "deep copies of results compared after every later step"),
    "C16": ("property-based testing against the structural cost rule", "the rule is the one pinned by the existing cost tests"),
    "C17": ("property-based testing by differential rendering", "pictures compared pixel by pixel with a reference rendering of oracle data; known finding K4"),
    "C18": ("stateful testing of drawing histories", "pixel equality and pyplot's figure list before and after"),
    "C19": ("stateful model-based testing of constraint sets", "model: one set of allowed values per name"),
    "C20": ("property-based testing of algebraic laws and exact convolution", "operands compared before and after"),
    "C21": ("differential testing between query kinds", "no oracle needed beyond agreement; known findings K2 and K3"),
    "C22": ("differential testing across runtimes and hash seeds", "PyPy and CPython, several hash seeds, against the exact oracle; drawing libraries stubbed on CPython"),
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(HERE, "vlib", "props", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        technique, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": technique,
            "level": "exploration",
            "level_note": note + "; searches generated cases, never establishes absence; trusts the oracle in vlib/",
        })
    manifest = {
        "version": 1,
        "setup_cmd": "python3 setup_check.py",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo. Checks import /repo's working tree under /opt/venv/bin/python; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


if __name__ == "__main__":
    main()
