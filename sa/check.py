#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the current source tree of /repo."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
VERIF = os.path.dirname(HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")

TRUSTED = ["the interpreter's model of Python and of the NumPy functions used (sa/pymodel.py, sa/npmodel.py, sa/npfuncs.py)",
           "the term algebra (sa/terms.py, sa/recs.py) over the reals",
           "the reference programs in sa/p_*.py state the property"]
ASSUME = ["data are finite real numbers; arithmetic is that of the reals",
          "NumPy and SciPy behave as documented",
          "arrays have the dimensions and lengths the documentation asks for (all sizes >= 1 are covered)"]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> obligation=<prefix> | <what fails>
                head, _, what = line[7:].partition(" | ")
                pid, _, ob = head.partition(" obligation=")
                out.append((pid.replace("property=", "").strip(), ob.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import core
    fun = None
    for m in ("p_filters", "p_effects", "p_functions", "p_mlp", "p_safety", "p_api"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        if hasattr(mod, prop):
            fun = getattr(mod, prop)
    if fun is None:
        print("no check for", prop)
        return 2
    ck = core.Check(prop, tier, seed)
    S = core.session(True)
    if S.load_error is not None:
        ck.add("import padasip", "refuted", "importing the package raises %s at %s" % (S.load_error.exc, S.load_error.node),
               ["%s" % (S.load_error.node,)], "every path of the import completes")
    else:
        ck.parallel(int(os.environ.get("VERIF_JOBS", "8")))
        try:
            ck.attempt(prop, lambda: fun(ck))
        finally:
            ck.finish()
        if ck.broken:
            print("\n".join(ck.broken))
            return 3
    if tier == "thorough" and S.load_error is None:
        import selftest
        try:
            ck.selftest = selftest.sensitivity(ck, fun)
        except Exception as e:
            ck.selftest = {"note": "mutation of the analysed functions failed: %s" % (e,)}
    return report(ck)


def report(ck):
    prop = ck.prop
    kf = [k for k in known_findings() if k[0] == prop]
    refuted = [o for o in ck.obs if o.verdict == "refuted"]
    listed, fresh = [], []
    for o in refuted:
        hit = [k for k in kf if o.name == k[1]]
        (listed if hit else fresh).append((o, hit))
    proved = [o for o in ck.obs if o.verdict == "proved"]
    und = [o for o in ck.obs if o.verdict == "undecided"]
    ev = {
        "property": prop, "tier": ck.tier, "seed": ck.seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of %s's current source (no execution): every obligation compares value graphs of the "
                           "analysed code with a reference, or applies an effect rule to everything the analysed calls do. proved = for all "
                           "inputs, sizes and numbers of samples under the assumptions; undecided = the normal forms differ or a construct is not "
                           "modelled and no witness distinguishes them." % core_repo(),
            "obligations": len(ck.obs), "discharged": len(proved), "undecided": len(und), "refuted": len(refuted),
            "known_findings": len(listed),
            "drivers_analysed": ck.drivers, "reference_programs": ck.refs,
            "functions_analysed": sorted("%s:%s" % (t[0], t[1]) for t in ck.touched if not str(t[0]).startswith("<")),
            "effects_recorded": dict(sorted(ck.events.items())),
            "constructs_not_modelled": dict(sorted(ck.unsupported.items())),
            "samples": ck.samples[:6] or [o.json() for o in ck.obs[:3]],
            "undecided_obligations": [o.json() for o in und][:60],
            "obligation_list": [o.name for o in proved][:400],
            "rules": sorted({o.rule for o in ck.obs if o.rule}),
            "trusted_base": TRUSTED,
        },
        "assumptions": ASSUME + ck.assumptions,
        "wall_s": round(time.time() - ck.t0, 2),
        "violations": len(fresh),
    }
    if getattr(ck, "selftest", None):
        ev["coverage"]["sensitivity"] = ck.selftest
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    for o, hit in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
    rc = 0
    if fresh:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".txt")
        with open(path, "w", encoding="utf-8") as f:
            for o, _ in fresh:
                f.write("property %s\nobligation: %s\nrule: %s\nconstructs: %s\nwitness: %s\ndriver analysed:\n%s\n%s\n" % (
                    prop, o.name, o.rule, "; ".join(map(str, o.where)), o.detail, o.driver, "-" * 70))
        for o, _ in fresh[:12]:
            print("%s [%s] %s" % (o.name, "; ".join(map(str, o.where[:3])), o.detail[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        rc = 1
        ev["coverage"]["violations_found"] = [o.json() for o, _ in fresh][:30]
    with open(os.path.join(edir, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d proved, %d undecided, %d refuted (%d known), %.1f s" % (
        prop, len(ck.obs), len(proved), len(und), len(refuted), len(listed), time.time() - ck.t0))
    return rc


def core_repo():
    import core
    return core.REPO


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode and False:
        pass
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
