"""Checks of the Python properties: runs vxpy/main.py (its own interpreter, with z3), reports and writes the evidence."""
import json, os, shutil, subprocess, time
from . import build, driver, table

PY = "/opt/veriftools/pyvenv/bin/python"
ASSUMPTIONS = [
    "CPython 3.12 executes the repository's Python; the proxies and stand-ins of /verif/vxpy (numbers and texts as z3 terms, threading and time under a controlled scheduler) behave as the originals; z3 is sound",
    "threads switch only at operations of threading and time and at accesses to attributes that threads share without a common lock (found by tracking the locks held at every access)",
]


class PySpec:
    common = False

    def __init__(self, jobs, bounds, assumptions=()):
        self.jobs, self.bounds, self.assumptions = jobs, bounds, ASSUMPTIONS + list(assumptions)
        self.technique = "symbolic execution of the Python source on z3 terms, with forking over thread schedules, z3 deciding each assertion"

    def run(self, prop, tier, seed, only=None):
        t0 = time.time()
        jobs = [j for j in self.jobs if (tier == "thorough" or not j.thorough_only) and (not only or j.entry in only)]
        jobs.sort(key=lambda j: -j.weight)
        inp = json.dumps([[j.entry, j.args_thorough if tier == "thorough" and j.args_thorough is not None else j.args, j.covers, 1500 if tier == "thorough" else 200] for j in jobs])
        p = subprocess.run([PY, "-X", "utf8", os.path.join(build.VERIF, "vxpy", "main.py")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        rs = []
        for l in p.stdout.splitlines():
            try:
                rs.append(json.loads(l))
            except ValueError:
                pass
        rc, nv, err = 0, 0, None
        if p.returncode or len(rs) != len(jobs):
            err = "the executor stopped with %s after %d of %d entries: %s" % (p.returncode, len(rs), len(jobs), p.stderr[-1500:])
            print("ERROR property=%s %s" % (prop, err))
            rc = 3
        fns = set()
        for r in rs:
            fns.update(r["functions"])
            print("%-32s %s paths=%s states=%s asserts=%s queries=%s solver=%.2fs wall=%.1fs validated=%s" % (
                r["entry"] + "".join("-%s" % a for a in r["args"]), "ok" if r["status"] == "ok" else r["status"].upper(), r["paths"], r["states"], r["asserts"], r["queries"], r["solver_s"], r["wall"], r["validated"]))
            if r["reduced"]:
                print("note: within smaller bounds: " + r["reduced"])
        bad = []
        for r in rs:
            if r["status"] == "error" or (r["status"] == "violation" and not r["detail"]["replayed"]):
                r["error"] = r["detail"] if r["status"] == "error" else "counterexample did not reproduce: %s: %s (%s)" % (r["detail"]["kind"], r["detail"]["msg"], r["detail"].get("replay_says"))
                print("ERROR property=%s %s: %s" % (prop, r["entry"], r["error"]))
                rc = 3
            elif r["status"] == "violation":
                bad.append(r)
        for r in bad:
            d, nv, rc = r["detail"], nv + 1, 1
            rd = os.path.join(build.VERIF, "replays", prop + "-" + r["entry"] + "".join("-%s" % a for a in r["args"]))
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            json.dump({"property": prop, "entry": r["entry"], "args": r["args"], "kind": d["kind"], "msg": d["msg"], "where": d["where"], "values": d["values"], "choices": d["choices"],
                       "schedule": d["schedule"], "racy": d["racy"], "run": "%s %s/vxpy/main.py --replay violation.json" % (PY, build.VERIF)}, open(rd + "/violation.json", "w"), indent=1)
            print("  %s: %s: %s\n    at %s\n    values: %s\n    decisions: %s" % (r["entry"], d["kind"], d["msg"], d["where"], d["values"], d["choices"]))
            print("VIOLATION property=%s replay=%s" % (prop, rd))
        covers = {}
        for r in rs:
            for c, n in r["covers"].items():
                covers[c] = covers.get(c, 0) + n
        tot = lambda k: sum(r[k] for r in rs)
        cov = {"states": tot("states"), "transitions": tot("forks") * 2, "traces_validated_against_impl": tot("validated"),
               "samples": [dict(entry=r["entry"], **s) for r in rs for s in r["samples"][-1:]],
               "paths": tot("paths"), "paths_joined_with_equal_states": tot("pruned"), "scheduling_steps": tot("steps"), "assertions_checked": tot("asserts"),
               "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "solver_sat": tot("sat"), "solver_unknown": 0, "solver_seconds": round(tot("solver_s"), 3),
               "functions_encoded": sorted(fns), "bounds": self.bounds, "cover_labels": covers,
               "entries": [{"entry": r["entry"], "args": r["args"], "paths": r["paths"], "states": r["states"], "queries": r["queries"], "solver_s": r["solver_s"],
                            "wall_s": round(r["wall"], 2), "unlocked_attributes": r["racy"], "reduced_bounds": r["reduced"], "error": r.get("error")} for r in rs],
               "exhaustive": rc != 3 and not nv and not any(r["reduced"] for r in rs)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nv}
        if err:
            cov["error"] = err
        d = driver.ensure(os.path.join(build.VERIF, "evidence"))
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return rc
