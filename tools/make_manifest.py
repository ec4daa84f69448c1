#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has one, the others with a reason."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = set()
for m in os.listdir(os.path.join(HERE, "sa")):
    if m.startswith("p_") and m.endswith(".py"):
        have |= set(re.findall(r"^def (C\d\d)\(ck\)", open(os.path.join(HERE, "sa", m)).read(), re.M))

VALUE = "abstract interpretation to value graphs (loops as recurrences), compared with a reference program by normal form"
TECH = {
    "C10": VALUE + "; path conditions of raise statements; element type and ownership of regions",
    "C11": VALUE + " (two histories of one analysed program)",
    "C12": "alias and effect analysis: regions written and kept by every public call, and value graphs after the caller overwrites its arrays",
    "C13": "alias and effect analysis of returned regions over later calls",
    "C14": "effect analysis (global state, class state, caches, generator use, unordered iteration) and value graphs with and without other objects",
    "C15": "path conditions of raise statements and state at the raise, by abstract interpretation",
    "C16": VALUE + " (pretrained_run against the sequence of runs)",
    "C17": "abstract interpretation of the selection functions over symbolic names; resolved class and forwarded arguments",
    "C18": VALUE + ", with induction on the iterations",
    "C19": "sign analysis of every divisor, logarithm and linear system reached (sums of squares, Gram matrices)",
    "C20": "element type flow of caller data through arithmetic (taint of the caller's integer type)",
    "C22": "path conditions over a symbolic word for every named option",
    "C32": "import effect analysis with SciPy absent",
    "C33": "documentation calls and keywords resolved against signatures in the syntax tree",
    "C34": "shape and container growth analysis of object state over loops",
}
NOTE = ("Undecided obligations are listed in the evidence and never reported as violations. Assumes exact real arithmetic, finite data and NumPy as documented; trusts the "
        "interpreter's model of Python and NumPy in sa/. Discharged obligations hold for all sizes, lengths and values, not for samples.")
NA = {
    "C35": "Convergence is a limit statement about stochastic excitation; no static argument in reach bounds it (the update rules themselves are decided by C03-C09).",
    "C36": "Rounding error for arbitrary, also ill-conditioned data depends on run time magnitudes that no sound static bound in reach covers (linear solves, accumulated sums).",
}
checks, na = [], []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "/usr/bin/python3 -W ignore sa/check.py %s quick" % i,
                       "thorough_cmd": "/usr/bin/python3 -W ignore sa/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, VALUE), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: sa/ reads /repo's current source and never runs it. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
