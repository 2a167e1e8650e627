"""Runs the harness entries of a property, replays counterexamples natively, writes the evidence."""
import copy, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, table

VERIF = build.VERIF
MIN_FREE = 6


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(finding, job, v):
    return finding["entry"] == job.entry and re.search(finding["msg"], v["msg"]) is not None and (
        "where" not in finding or any(re.search(finding["where"], x) for x in [v["where"]] + v["stack"])) and all(
        any(n == k and re.search(rx, h) for n, h in v["inputs"]) for k, rx in finding.get("inputs", {}).items())


START = time.time()


def limit(job, tier, reduced):
    """Seconds one run may take; in the quick tier the whole check stays below its 900 s."""
    if tier == "thorough":
        return job.time_thorough
    spent = time.time() - START
    return int(max(45, min(job.time, 100 if reduced else 150 if spent < 250 else 60)))


def reductions(job, tier):
    """The same run within smaller bounds, for code that needs more than the resources of one run."""
    out = []
    def less(what, **kw):
        j = copy.copy(job)
        j.args_thorough, j.covers, j.what = None, [], what
        for k, v in kw.items():
            setattr(j, k, v)
        out.append(j)
    if tier == "thorough":
        if job.args_thorough is not None and job.args_thorough != job.args or job.preempt_thorough != job.preempt:
            less("bounds of the quick check", preempt_thorough=job.preempt)
    for a in job.less:
        less("arguments %s instead of %s" % (a, job.args), args=list(a), preempt_thorough=job.preempt)
    if job.conc and (job.preempt is None or job.preempt > 2):
        less("at most 2 preemptions", preempt=2, preempt_thorough=2)
    return out


def engine_cmd(job, tier, bc, outf, extra=()):
    rt = build.runtime()
    t = limit(job, tier, hasattr(job, "what"))
    cmd = [build.engine(), bc, "--entry", job.entry, "--out", outf, "--max-time", str(t), "--max-mem", str(job.mem), "--max-instr", str(job.instr),
           "--solver-timeout", str(job.solver_ms)]
    if job.conc:
        cmd += ["--conc", "--sync", rt + "/sync.txt"]
        pre = job.preempt_thorough if tier == "thorough" else job.preempt
        if pre is not None:
            cmd += ["--preempt", str(pre)]
    for a in (job.args_thorough if tier == "thorough" and job.args_thorough is not None else job.args):
        cmd += ["--arg", str(a)]
    if job.all:
        cmd += ["--all"]
    return cmd + list(extra)


def write_record(path, job, tier, v):
    with open(path, "w") as f:
        f.write("K %s\n" % v["kind"])
        for a in (job.args_thorough if tier == "thorough" and job.args_thorough is not None else job.args):
            f.write("A %d\n" % a)
        for n, h in v["inputs"]:
            f.write("I %s %s\n" % (h or "-", n))
        for s in v["schedule"]:
            f.write("S %d %d %d\n" % tuple(s))


def native_build(job, tier, bc, d):
    """The explored program compiled to machine code (real C++ library, AddressSanitizer); returns the executable."""
    rt = build.runtime()
    dump = os.path.join(d, "native.bc")
    # deterministic: the same exploration again, now writing out the program with its scheduling points marked
    subprocess.run(engine_cmd(job, tier, bc, os.path.join(d, "again.json"), ["--dump-bc", dump, "--drop", rt + "/drop.txt"]),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    exe = os.path.join(d, "replay")
    build.run([build.CLANG, "-O1", "-fsanitize=address", "-w", dump, rt + "/native.o", "-o", exe,
               "-Wl,--defsym=vx_entry=" + job.entry, "-pthread"])
    os.remove(dump)
    return exe


def native_run(exe, rec, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=44:detect_stack_use_after_return=1:allocator_may_return_null=1")
    with tempfile.TemporaryDirectory() as cwd:
        try:
            r = subprocess.run([exe, rec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
            return r.returncode, r.stdout.decode(errors="replace")[-4000:]
        except subprocess.TimeoutExpired as e:
            return 124, "timeout " + ((e.stdout or b"").decode(errors="replace")[-2000:])


def reproduced(v, rc, out):
    k = v["kind"]
    if rc == 42:
        return True
    if rc == 44 and "AddressSanitizer" in out:
        return True
    if rc < 0 and -rc in (4, 6, 11, 7, 8):  # SIGILL (undefined behaviour trap), SIGABRT, SIGSEGV ...
        return True
    if rc == 124 and "bad_alloc" in v["msg"]:  # memory without end
        return True
    if rc == 124 and k in ("nontermination", "hang", "deadlock"):
        return True
    return False


RESOURCE = re.compile("time limit|memory limit|state limit|path limit")


def run_job(prop, job, tier, tmp):
    res = {"entry": job.entry, "harness": job.file}
    d = os.path.join(tmp, job.name())
    os.makedirs(d, exist_ok=True)
    outf = os.path.join(d, "out.json")
    bc = build.program(job.file, job.defs, bool(job.conc))
    t0 = time.time()
    for j in [job] + reductions(job, tier):
        if os.path.exists(outf):
            os.remove(outf)
        p = subprocess.run(engine_cmd(j, tier, bc, outf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode in (0, 1, 2) and os.path.exists(outf):
            r = json.load(open(outf))
            if r["violations"] or not RESOURCE.search("; ".join(r["incomplete"])) and not r["unknown"]:
                break
        elif p.returncode >= 0:
            break
        if tier == "quick" and time.time() - START > 650:
            break
    if j is not job:
        res["reduced"] = j.what
    job = j
    res["wall"] = time.time() - t0
    res["rc"] = p.returncode
    res["log"] = p.stdout[-3000:]
    if p.returncode not in (0, 1, 2) or not os.path.exists(outf):
        res["error"] = "engine stopped with %s: %s" % (p.returncode, p.stdout[-1500:])
        return res
    r = json.load(open(outf))
    res["r"] = r
    res["validated"] = 0
    errs = []
    if r["incomplete"]:
        errs.append("incomplete: " + "; ".join(r["incomplete"])[:1500])
    if r["unknown"]:
        errs.append("the solver gave no answer for %d queries" % r["unknown"])
    if not r["violations"]:
        miss = [c for c in job.covers if not r["covers"].get(c)]
        if hasattr(job, "what") and job.what != "bounds of the quick check" and not any(r["covers"].values()):
            miss = ["any label"]
        if miss and not r["incomplete"]:
            errs.append("vacuous: never reached " + ",".join(miss))
    res["violations"] = []
    res["known"] = []
    if r["violations"]:
        try:
            exe = native_build(job, tier, bc, d)
        except Exception as e:
            exe = None
            errs.append("replay could not be built: " + str(e)[-1500:])
        for i, v in enumerate(r["violations"][:6]):
            rec = os.path.join(d, "record%d" % i)
            write_record(rec, job, tier, v)
            kf = [f for f in known_findings(prop) if matches(f, job, v)]
            ok, out = False, ""
            if exe:
                rc, out = native_run(exe, rec)
                ok = reproduced(v, rc, out)
                v["native"] = {"rc": rc, "out": out}
            if not ok:
                errs.append("counterexample did not reproduce natively: %s: %s at %s [%s]" % (v["kind"], v["msg"], v["where"], out[-600:]))
            elif kf:
                res["known"].append(kf[0]["what"])
            else:
                rd = os.path.join(VERIF, "replays", prop + "-" + job.name())
                shutil.rmtree(rd, ignore_errors=True)
                os.makedirs(rd)
                shutil.copy(rec, rd + "/record")
                shutil.copy(exe, rd + "/replay")
                json.dump({"property": prop, "harness": job.file, "entry": job.entry, "violation": v, "run": "./replay record"}, open(rd + "/violation.json", "w"), indent=1)
                res["violations"].append((v, rd))
    elif job.validate or tier == "thorough":
        # the engine's view of some complete runs, executed by the real program
        try:
            exe = native_build(job, tier, bc, d)
            for i, v in enumerate(r["samples"][-2:]):
                rec = os.path.join(d, "sample%d" % i)
                write_record(rec, job, tier, v)
                rc, out = native_run(exe, rec)
                if rc == 0:
                    res["validated"] += 1
                else:
                    res.setdefault("validation_notes", []).append("%s: rc=%s %s" % (job.entry, rc, out[-400:]))
        except Exception as e:
            res.setdefault("validation_notes", []).append(str(e)[-500:])
    if errs and not res["violations"]:
        res["error"] = "; ".join(errs)
    return res


def demangle(names):
    return names


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    only = argv[2:] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = table.CHECKS[prop]
    if hasattr(spec, "run"):
        return spec.run(prop, tier, seed, only)
    jobs = [j for j in spec.jobs if (tier == "thorough" or not j.thorough_only) and (not only or j.entry in only)]
    tmp = tempfile.mkdtemp(prefix="run-", dir=ensure(os.path.join(build.BUILD)))
    results, broken = [], []
    try:
        build.engine()
        build.runtime()
        hs = sorted(set((j.file, tuple(j.defs), bool(j.conc)) for j in jobs))
        for c in sorted(set(h[2] for h in hs)):
            build.repo_bc(c)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda h: build.program(h[0], h[1], h[2]), hs))
        jobs.sort(key=lambda j: -j.weight)
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda j: safe(prop, j, tier, tmp), jobs))
    except Exception as e:
        print("ERROR property=%s %s" % (prop, str(e)[-3000:]))
        write_evidence(prop, spec, tier, seed, results, time.time() - t0, str(e)[-500:])
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rc = 0
    for r in results:
        x = r.get("r", {})
        print("%-32s %s paths=%s states=%s asserts=%s queries=%s solver=%.2fs wall=%.1fs mem=%sMB validated=%s" % (
            r["entry"], "ERROR" if r.get("error") else "VIOLATION" if r.get("violations") else "ok", x.get("paths"), x.get("states"), x.get("asserts"),
            x.get("queries"), x.get("solver_s", 0), r.get("wall", 0), int(x.get("mem_mb", 0)), r.get("validated")))
        if r.get("reduced"):
            print("  note: within smaller bounds, the full ones need too much time or memory on this code: " + r["reduced"])
        for n in r.get("validation_notes", []):
            print("  note: sample not reproduced: " + n.replace("\n", " | "))
    for r in results:
        for k in sorted(set(r.get("known", []))):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for r in results:
        if r.get("error"):
            print("ERROR property=%s %s: %s" % (prop, r["entry"], r["error"]))
            rc = 3
    nv = 0
    for r in results:
        for v, rd in r.get("violations", []):
            nv += 1
            print("  %s: %s: %s\n    at %s\n    inputs: %s" % (r["entry"], v["kind"], v["msg"], v["where"], v["inputs"]))
            if v["schedule"]:
                print("    schedule: %s" % " ".join("%d%s%s" % (s[0], "!" if s[1] else "", "@%d" % s[2] if s[2] else "") for s in v["schedule"] if s[1] != 9))
            print("VIOLATION property=%s replay=%s" % (prop, rd))
            rc = 1
    write_evidence(prop, spec, tier, seed, results, time.time() - t0, None)
    return rc


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def safe(prop, j, tier, tmp):
    try:
        return run_job(prop, j, tier, tmp)
    except Exception as e:
        return {"entry": j.entry, "error": traceback.format_exc()[-2500:]}


def write_evidence(prop, spec, tier, seed, results, wall, err):
    rs = [r["r"] for r in results if "r" in r]
    fns = sorted(set(f for r in rs for f in r["functions"] if not f.startswith("_GLOBAL__") and not f.startswith("__cxx_global")))
    covers = {}
    samples = []
    for r in results:
        if "r" not in r:
            continue
        for c, n in r["r"]["covers"].items():
            covers[c] = covers.get(c, 0) + n
        for s in r["r"]["samples"][-1:]:
            samples.append({"entry": r["entry"], "inputs": s["inputs"][:200], "schedule": s["schedule"][:400], "schedule_steps": len(s["schedule"])})
    tot = lambda k: sum(r[k] for r in rs)
    cov = {
        "states": int(sum(r["states"] if r["states"] else r["paths"] + r["forks"] for r in rs)),
        "transitions": int(sum(r["transitions"] if r["states"] else r["forks"] * 2 for r in rs)),
        "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
        "samples": samples,
        "paths": tot("paths"), "instructions": tot("instructions"), "assertions_checked": tot("asserts"),
        "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "solver_sat": tot("sat"), "solver_unknown": tot("unknown"),
        "solver_seconds": round(tot("solver_s"), 3),
        "functions_encoded": fns, "repository_lines_executed": tot("repo_lines"),
        "bounds": spec.bounds, "cover_labels": covers,
        "entries": [{"entry": r["entry"], "paths": r.get("r", {}).get("paths"), "states": r.get("r", {}).get("states"), "queries": r.get("r", {}).get("queries"),
                     "solver_s": r.get("r", {}).get("solver_s"), "wall_s": round(r.get("wall", 0), 2), "reduced_bounds": r.get("reduced"), "error": r.get("error")} for r in results],
        "exhaustive": not any(r.get("error") or r.get("reduced") for r in results) and not err,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": table.ASSUMPTIONS + spec.assumptions, "wall_s": round(wall, 2), "violations": sum(len(r.get("violations", [])) for r in results)}
    if err:
        ev["coverage"]["error"] = err
    d = ensure(os.path.join(VERIF, "evidence"))
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
