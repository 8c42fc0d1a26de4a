"""Writes MANIFEST.json from properties.jsonl and the modules in props/ (run by hand: python3-vt tools/mkmanifest.py)."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        m = importlib.import_module("props." + p.lower())
    except ModuleNotFoundError:
        na.append({"property": p, "reason": "no check has been built for it yet"})
        continue
    note = ("Holds for every value of the symbolic characters, sub-expressions and choices within the stated bounds; nothing is claimed outside "
            "them. Quick bounds: " + m.BOUNDS["quick"] + "; further names, texts and sizes: those next to a constant in the code's current source. ")
    note += "".join("Assumes: " + a + ". " for a in getattr(m, "ASSUMPTIONS", []))
    note += ("Trusted: z3, the engine in symx/ (regular-expression model, string model, source instrumentation); every explored path is "
             "re-run on the unmodified package with a solver-made witness and compared, and every counterexample is replayed there before it is reported.")
    checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
                   "technique": "symbolic execution of the real parser and transformer code with z3",
                   "level": "model_checking", "level_note": note})
out = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
       "notes": "All checks share the symbolic executor in symx/; harnesses are in props/. See DESIGN.md."}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
