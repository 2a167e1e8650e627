"""check of a Python property: python main.py PROP TIER SEED EVIDENCE-PATH ; python main.py --replay FILE"""
import json
import multiprocessing
import os
import sys
import time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def functions():
    """Notes the functions of the repository that are executed."""
    from vxpy import props
    seen, mon = set(), sys.monitoring

    def enter(code, offset):
        f = code.co_filename
        if f.startswith(props.REPO + "/"):
            seen.add("%s:%s" % (f[len(props.REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.use_tool_id(mon.PROFILER_ID, "vx")
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, enter)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
    return seen


def work(job):
    from vxpy import engine, props
    entry, args, covers, limit = job
    t0, reduced = time.time(), None
    seen = functions()
    ex = engine.Explorer(props.ENTRIES[entry], args, max_time=limit)
    try:
        status, det = ex.explore()
        if status == "error" and det.startswith("time limit"):
            for bound in (3, 2):  # within a smaller bound
                less = engine.Explorer(props.ENTRIES[entry], args, max_time=100 if limit < 1000 else limit, max_preempt=bound)
                s, d = less.explore()
                if s != "error":
                    ex, status, det, reduced, covers = less, s, d, "at most %d preemptions" % bound, []
                    break
        if status == "violation":
            again = engine.Explorer(props.ENTRIES[entry], args)
            out = again.replay(det)
            det["replayed"] = isinstance(out, engine.Violation)
            det["replay_says"] = "%s: %s" % (out.kind, out.msg) if det["replayed"] else repr(out)
        if status == "ok":
            miss = [c for c in covers if not ex.covers.get(c)]
            if miss:
                status, det = "error", "vacuous: never reached " + ",".join(miss)
    except Exception as e:
        import traceback
        status, det = "error", traceback.format_exc()[-2000:]
    validated = 0
    if status == "ok":
        for s in ex.samples:
            again = engine.Explorer(props.ENTRIES[entry], args)
            out = again.replay({"racy": sorted(ex.racy), "choices": s["choices"], "values": s["inputs"]})
            if out is None:
                validated += 1
    return {"entry": entry, "args": args, "status": status, "detail": det, "paths": ex.paths, "pruned": ex.pruned, "forks": ex.forks, "asserts": ex.asserts,
            "queries": ex.queries, "sat": ex.sat, "unsat": ex.unsat, "solver_s": ex.solver_s, "states": len(ex.visited) + ex.paths, "steps": ex.steps, "covers": ex.covers,
            "samples": ex.samples, "wall": time.time() - t0, "validated": validated, "racy": sorted(map(list, ex.racy)), "functions": sorted(seen), "reduced": reduced}


def main():
    if sys.argv[1:2] == ["--replay"]:
        from vxpy import engine, props
        rec = json.load(open(sys.argv[2]))
        ex = engine.Explorer(props.ENTRIES[rec["entry"]], rec["args"])
        out = ex.replay(rec)
        print("%s: %s" % (out.kind, out.msg) if isinstance(out, engine.Violation) else "not reproduced: %r" % out)
        return 42 if isinstance(out, engine.Violation) else 0
    jobs = json.load(sys.stdin)
    ctx = multiprocessing.get_context("spawn")
    with ctx.Pool(8, maxtasksperchild=1) as p:
        for r in p.imap(work, [tuple(j) for j in jobs], chunksize=1):
            print(json.dumps(r))
            sys.stdout.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
