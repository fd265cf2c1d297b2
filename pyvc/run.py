"""Runner: check <ID> [--thorough] [--unit NAME] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import logging
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from pyvc import api  # noqa: E402


def load_known(pid):
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                if key.startswith("key="):
                    known[key[4:]] = what
    return known


def run_bounded(item, seed, thorough, known, scratch):
    b = api.B(item.name, seed, thorough, known)
    b.scratch = scratch
    out = {"kind": "bounded", "name": item.name, "bound": item.kw.get("bound")}
    t = time.time()
    signal.signal(signal.SIGALRM, api.slow)
    signal.setitimer(signal.ITIMER_REAL, api.CASE_S)
    b.watch = True
    try:
        try:
            item.fn(b)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out["status"] = "ok"
    except api.Fail as e:
        out.update(status="violation", msg=e.msg, data=e.data)
    except api.HarnessGap as e:
        out.update(status="gap", msg=str(e))
    except Exception as e:
        txt = traceback.format_exc()
        if api.from_repo(e) and not isinstance(e, MemoryError):
            out.update(status="violation", msg="unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                       data={"case": api.show(getattr(b, "current", None)), "traceback": txt[-4000:]})
        else:
            out.update(status="gap", msg="harness: " + txt[-1500:])
    out.update(evaluations=b.evaluations, distinct=len(b.seen), samples=b.samples,
               known=b.known_hit, wall=time.time() - t)
    return out


def confirm(item, out, ctx, spent):
    """Every failed obligation lies behind a loop and so depends on the invariants found for it. Run the unit again
    with the loops unrolled: if no path of at most UNROLL iterations fails, the proof is lost but the failure is not
    shown, and the unit counts as undecided. If that run does not get to its end, the failure stands."""
    from pyvc import core
    log, t0 = [], time.time()
    limit = t0 + min(200, max(60, 420 - spent))
    done, confirmed, why = 0, False, ""
    for n in range(1, UNROLL + 1):
        ctx2 = core.Ctx(item.name, budget_s=min(limit - time.time(), 60 if done >= 2 else 200), timeout_ms=ctx.timeout_ms)
        ctx2.max_paths = ctx.max_paths
        ctx2.unroll = n
        try:
            confirmed = core.refute(ctx2, item.fn)
            if not confirmed:
                done = n
        except BaseException as e:
            why = "%s: %s" % (type(e).__name__, str(e)[:200])
        log.append({"iterations": n, "paths": ctx2.npaths,
                    "failed": {k: o.failed[:1] for k, o in ctx2.obls.items() if o.failed}})
        if confirmed or why:
            break
    out["unrolled"] = {"runs": log, "confirmed": confirmed, "stopped": why, "wall": round(time.time() - t0, 2)}
    if not confirmed and done >= 2:
        out.update(status="undecided", msg="not proved: %s; with at most %d iterations of each loop nothing fails" % (
            sorted(n for n, o in ctx.obls.items() if o.failed), done))


UNROLL = 3


def run_unit(item, seed, thorough, verbose=False):
    from pyvc import core
    out = {"kind": "unit", "name": item.name}
    t = time.time()
    scale = 4 if thorough else 1
    ctx = core.Ctx(item.name, budget_s=item.kw["budget"] * scale,
                   timeout_ms=item.kw.get("timeout_ms", 8000) * (2 if thorough else 1))
    if "max_paths" in item.kw:
        ctx.max_paths = item.kw["max_paths"]
    ctx.verbose = verbose
    try:
        core.explore(ctx, item.fn)
        failed = {n: o for n, o in ctx.obls.items() if o.failed}
        unreached = [k for k, v in ctx.reached.items() if not v]
        if not ctx.obls:
            out.update(status="unsupported", msg="no obligation was generated")
        elif unreached and not any(f["status"] == "sat" for o in failed.values() for f in o.failed):
            # (a failed obligation may be what keeps a label from being reached)
            out.update(status="unsupported", msg="vacuous: %s" % unreached)
        elif any(f["status"] == "sat" for o in failed.values() for f in o.failed):
            out.update(status="failed")
            loops = any(f["status"] == "sat" and f.get("cut") for o in failed.values() for f in o.failed)
            straight = any(f["status"] == "sat" and not f.get("cut") for o in failed.values() for f in o.failed)
            if loops and not straight:
                confirm(item, out, ctx, time.time() - t)
        elif failed:
            out.update(status="undecided", msg="solver gave no answer for %s" % sorted(failed))
        else:
            out.update(status="proved")
        out["failed"] = {n: o.failed[:3] for n, o in failed.items()}
    except core.Unsupported as e:
        out.update(status="unsupported", msg=str(e), tb=traceback.format_exc()[-3000:])
    except core.Budget as e:
        out.update(status="unsupported", msg="budget: %s" % e)
    except BaseException as e:
        out.update(status="unsupported", msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                   tb=traceback.format_exc()[-3000:])
    out.update(obligations={n: {"vcs": o.vcs, "ok": o.ok, "time": round(o.time, 3)}
                            for n, o in ctx.obls.items()},
               functions=sorted(ctx.functions), contract_calls=sorted(ctx.contract_calls),
               assumptions=sorted(ctx.assumptions), paths=ctx.npaths, passes=getattr(ctx, "passes", 0),
               solver_time=ctx.solver_time, unknowns=ctx.unknowns, wall=time.time() - t)
    return out


def worker(conn, item, seed, thorough, known, verbose):
    scratch = tempfile.mkdtemp(prefix="pyvc-")
    old = os.getcwd()
    try:
        os.chdir(scratch)
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not verbose:
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        try:
            if item.kind == "unit":
                r = run_unit(item, seed, thorough, verbose)
            else:
                r = run_bounded(item, seed, thorough, known, scratch)
        except BaseException:
            r = {"kind": item.kind, "name": item.name, "status": "gap", "msg": traceback.format_exc()[-2000:]}
        conn.send(json.dumps(r, default=str))
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
        conn.close()


logging.disable(logging.CRITICAL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.thorough
    os.environ.setdefault("ELSIE_INKSCAPE", "/opt/vp/inkscape-quiet")
    known = load_known(a.pid)
    rep_dir = os.path.join(HERE, "replay")
    results = []
    import_error = None
    try:
        import elsie  # noqa: F401
        importlib.import_module("props." + a.pid)
    except Exception as e:
        import_error = traceback.format_exc()
        if api.from_repo(e) and not any("/verif/props" in l for l in import_error.splitlines()[-3:]):
            pass
    items = [i for i in api.REGISTRY if i.fn.__module__ == "props." + a.pid]
    if a.unit:
        items = [i for i in items if a.unit in i.name]
    limit = 700 if not thorough else 6 * 3600
    pending = list(items)
    running = []
    ctxmp = mp.get_context("fork")
    ncpu = max(2, os.cpu_count() or 2)
    while pending or running:
        while pending and len(running) < ncpu:
            it = pending.pop(0)
            r, w = ctxmp.Pipe(False)
            p = ctxmp.Process(target=worker, args=(w, it, seed, thorough, known, a.v))
            p.start()
            w.close()
            running.append((it, p, r, time.time()))
        for rec in list(running):
            it, p, r, ts = rec
            if r.poll(0.02):
                try:
                    results.append(json.loads(r.recv()))
                except EOFError:
                    results.append({"kind": it.kind, "name": it.name, "status": "gap", "msg": "worker died"})
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(rec)
            elif not p.is_alive():
                results.append({"kind": it.kind, "name": it.name, "status": "gap", "msg": "worker died"})
                running.remove(rec)
            elif time.time() - t0 > limit:
                p.kill()
                results.append({"kind": it.kind, "name": it.name, "status": "gap", "msg": "time limit"})
                running.remove(rec)
    # ---------------------------------------------------------------- verdict
    units = [r for r in results if r["kind"] == "unit"]
    bnd = [r for r in results if r["kind"] == "bounded"]
    viol = [r for r in bnd if r["status"] == "violation"]
    failed = [r for r in units if r["status"] == "failed"]
    lines = []
    code = 0
    for r in bnd:
        for k, m in (r.get("known") or {}).items():
            lines.append("KNOWN-FINDING: property=%s %s (%s)" % (a.pid, known.get(k, k), m[:200]))
    if viol or failed:
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s-%d.json" % (a.pid, os.getpid()))
        with open(path, "w") as f:
            json.dump({"property": a.pid, "seed": seed, "thorough": thorough,
                       "how_to_replay": "VERIF_SEED=%d /verif/check %s --unit NAME -v re-runs one unit "
                                        "deterministically" % (seed, a.pid),
                       "failing_inputs": viol,
                       "failed_obligations": [{"unit": r["name"], "failed": r["failed"],
                                               "unrolled": r.get("unrolled")} for r in failed]},
                      f, indent=1, default=str)
        for r in viol:
            lines.append("  failing input [%s]: %s" % (r["name"], r["msg"]))
        for r in failed:
            for n in r["failed"]:
                lines.append("  failed obligation [%s]: %s" % (r["name"], n))
        tail = "" if viol else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (a.pid, path, tail))
        code = 1
    nob = sum(o["vcs"] for r in units for o in (r.get("obligations") or {}).values())
    ndis = sum(o["ok"] for r in units if r["status"] in ("proved", "failed", "undecided")
               for o in r["obligations"].values())
    level = "proof" if units else "exploration"
    not_ok = [r for r in results if r["status"] in ("gap", "unsupported", "undecided")]
    cov = {}
    if units:
        cov.update(
            obligations=nob, discharged=ndis,
            checker_cmd="/verif/check %s" % a.pid,
            trusted_base=["PyVC (/verif/pyvc): symbolic interpreter of the Python ASTs of /repo/elsie",
                          "z3 5.x (python API), cvc5 1.1.2 as second opinion", "CPython 3.12 ast/inspect"],
            units=[{k: r.get(k) for k in ("name", "status", "msg", "obligations", "functions", "contract_calls",
                                          "paths", "passes", "solver_time", "unknowns", "wall")}
                   for r in units],
            functions_under_contract=sorted({f for r in units if r["status"] == "proved"
                                             for f in r.get("functions", [])}),
            solver_time_s=round(sum(r.get("solver_time") or 0 for r in units), 3),
            backend="z3")
    cov.update(
        evaluations=sum(r.get("evaluations", 0) for r in bnd),
        distinct_nontrivial=sum(r.get("distinct", 0) for r in bnd),
        rule="bounded stand-ins (never counted as proved): " + "; ".join(
            "%s: %s" % (r["name"], r.get("bound")) for r in bnd) + ". Non-trivial: as registered by the stand-in, "
             "distinct by the printed input.",
        samples=[s for r in bnd for s in r.get("samples", [])][:12],
        bounded=[{k: r.get(k) for k in ("name", "status", "msg", "bound", "evaluations", "distinct", "wall")}
                 for r in bnd],
        undecided=[{"name": r["name"], "status": r["status"], "reason": (r.get("msg") or "")[:800]} for r in not_ok])
    ev = {"property": a.pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level,
          "coverage": cov,
          "assumptions": sorted({x for r in units for x in r.get("assumptions", [])} | {
              "numbers are mathematical (no rounding, no overflow) in the proof units"} if units else set()),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(failed)}
    if import_error:
        ev["coverage"]["import_error"] = import_error[-2000:]
    if not a.no_evidence and not a.unit:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s: %d units (%d proved), obligations %d/%d discharged, bounded evaluations %d, %.1fs" % (
        a.pid, len(units), len([r for r in units if r["status"] == "proved"]), ndis, nob,
        cov["evaluations"], time.time() - t0))
    for r in not_ok:
        print("  undecided [%s] %s: %s" % (r["name"], r["status"], (r.get("msg") or "")[-300:]))
        if a.v and r.get("tb"):
            print(r["tb"])
    if a.v:
        for r in results:
            print("  %-10s %-40s %.1fs %s" % (r["status"], r["name"], r.get("wall", 0),
                                              r.get("obligations") or r.get("evaluations")))
            if r["status"] in ("violation", "failed"):
                print(json.dumps({k: r.get(k) for k in ("msg", "data", "failed")}, indent=1, default=str)[:6000])
    if import_error:
        print("import error:\n" + import_error[-1500:])
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
