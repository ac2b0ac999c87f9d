#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current sources."""
import json, os, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
import vf, props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]           # unit names, for debugging
    P = props.PROPS[pid]
    units = [u for u in P.units(tier) if not only or u.name in only]
    root = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    t0 = time.time()
    results, broken = [], []
    outdir = HERE + "/evidence"
    os.makedirs(outdir, exist_ok=True)

    def one(u):
        try:
            return P.run(u, root, tier)
        except vf.Broken as e:
            return e
    try:
        jobs = int(os.environ.get("VF_JOBS", "8"))
        with ThreadPoolExecutor(jobs) as ex:
            for u, r in zip(units, ex.map(one, units)):
                if isinstance(r, vf.Broken):
                    broken.append("%s: %s" % (u.name, r))
                else:
                    results.append(r)
        viol = [(r, v) for r in results for v in r.violations]
        for r, v in viol:
            rp = "%s/replay_%s_%s" % (outdir, pid, r.unit.name)
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            shutil.copy(v.pop("exe"), rp + "/replay")
            with open(rp + "/choices", "w") as f:
                f.write("# %s\n# found at %s; replay: %s %s\n" % (v["claim"], v["at"], v["replay"], v["detail"]))
                f.writelines("%d\n" % x for x in v["choices"])
            v["path"] = rp
            v.pop("choices")
        ev = evidence(P, pid, tier, results, broken, viol, time.time() - t0)
        with open("%s/%s.json" % (outdir, pid), "w") as f:
            json.dump(ev, f, indent=1)
        for r in results:
            print("unit %-28s %6.1f s  %5d obligations discharged, %d witnesses" % (
                r.unit.name, r.wall, r.discharged, len(r.reached)))
        for k in getattr(P, "known", []):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for r, v in viol:
            print("  unit %s: %s (%s) replay: %s %s" % (r.unit.name, v["claim"], v["at"], v["replay"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
        for b in broken:
            print("  no answer: " + b)
        if viol:
            return 1
        if broken:
            print("ERROR: no answer for %s" % pid)
            return 2
        print("OK property=%s units=%d wall=%.1f s" % (pid, len(results), time.time() - t0))
        return 0
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
        else:
            print("kept " + root)


def evidence(P, pid, tier, results, broken, viol, wall):
    funcs = sorted({f for r in results for f in r.funcs})
    cov = {
        "explanation": "Bounded symbolic execution (CBMC) of libmonitor's own sources from /repo, taken from the working tree on this "
                       "run; each unit is one solver problem over all choices of its harness within the stated bounds. "
                       "Witnesses are reachability goals that the solver must (and did) satisfy.",
        "units": [{"name": r.unit.name, "flavour": "static" if r.unit.static else "dynamic", "what": r.unit.what,
                   "obligations": r.total, "discharged": r.discharged,
                   "assertions": r.asserts, "witnesses_reached": r.reached,
                   "unwind": r.unit.unwind, "bounds": r.unit.bounds, "defines": r.unit.defs,
                   "symbolic_steps": r.stats["steps"], "vccs": r.stats["vccs"],
                   "vccs_given_to_solver": r.stats.get("vccs_solved", 0),
                   "sat_variables": r.stats["vars"], "sat_clauses": r.stats["clauses"],
                   "solver_s": round(r.stats["solver_s"], 3), "cbmc_s": round(r.cbmc_s, 2),
                   "witness_traces_replayed_on_compiled_code": r.validated,
                   "counterexamples_replayed": r.replayed} for r in results],
        "queries": len(results),
        "obligations": sum(r.total for r in results),
        "discharged": sum(r.discharged for r in results),
        "solver_s": round(sum(r.stats["solver_s"] for r in results), 2),
        "functions_encoded": funcs,
        "no_answer": broken,
    }
    return {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
            "coverage": cov, "assumptions": P.assumptions, "wall_s": round(wall, 1), "violations": len(viol)}


if __name__ == "__main__":
    sys.exit(main())
