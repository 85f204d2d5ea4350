#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
import report as report_mod


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        from prog import Prog
        P = Prog()
        mod = importlib.import_module("checks." + prop.lower())
        R = report_mod.Report(prop)
        mod.run(P, R, tier)
        R.finish_floors()
    except facts.Inconclusive as e:
        print("inconclusive: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        print("inconclusive: the analysis itself failed")
        return 3
    kn = {k["key"]: k for k in report_mod.known() if k["property"] == prop and k.get("status") != "fixed"}
    viol, found = [], []
    for key, msg in R.bad:
        (found if key in kn else viol).append((key, msg))
    ev_dir = os.environ.get("VERIF_EVID") or os.path.join(facts.VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join("evidence", "%s.violations.json" % prop)
    for key, msg in found:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[key]["what"], key))
    for key, msg in viol:
        print("[%s] %s\n    %s" % (prop, key, msg))
    n = len(R.obl)
    held = sum(1 for o in R.obl if o[2])
    cov = {
        "explanation": mod.EXPLANATION,
        "rules": {k: {"rule": r["text"], "instances": r["n"], "floor": r["floor"]} for k, r in R.rules.items()},
        "obligations": n,
        "discharged": held,
        "bodies_in_program": len(P.bodies),
        "samples": [("%s: %s" % (r, i))[:400] for r, i, ok in _spread(R.obl)],
    }
    cov.update(R.stats)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": R.assume + getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(ev_dir, "%s.violations.json" % prop)
    if viol:
        with open(rp, "w") as f:
            json.dump([{"key": k, "report": m} for k, m in viol], f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s holds: %d of %d obligations discharged, %d known findings (%.1fs)" % (
        prop, held, n, len(found), time.time() - t0))
    for k, r in R.rules.items():
        print("  %-28s %d instances (floor %d)" % (k, r["n"], r["floor"]))
    return 0


def _spread(obl, per=4):
    seen = {}
    for o in obl:
        seen.setdefault(o[0], []).append(o)
    for k, v in seen.items():
        step = max(1, len(v) // per)
        for o in v[::step][:per]:
            yield o


if __name__ == "__main__":
    sys.exit(main())
