"""Runs the check of one property: proofs over the current sources, replay, evidence, verdict."""
import gc
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import build, prog, smt

ROOT = build.ROOT
TOTAL = 480 if os.environ.get("VERIF_TIER", "quick") == "quick" else 600  # seconds for all proofs
DEADLINE = 840  # seconds for a check


def _proof(args):
    modname, pname, P, budget, q = args
    try:
        mod = importlib.import_module(modname)
        fn = dict(mod.PROOFS)[pname]
        rec = smt.Record()
        t = time.time()

        def run(ctx):
            fn(ctx, P)

        from .interp import CppThrow

        def guarded(ctx):
            try:
                fn(ctx, P)
            except CppThrow as e:
                ctx.prove("no unexpected exception", False, exception="%s: %s" % (e.tname, e.msg))

        smt.explore(guarded, rec, max_s=budget)
        rec.wall = time.time() - t
    except smt.Unsupported as e:
        rec = smt.Record()
        rec.undecided.append((pname, str(e)))
        rec.wall = 0
    except Exception:
        rec = smt.Record()
        rec.undecided.append((pname, "verifier error: " + traceback.format_exc()[-1500:]))
        rec.wall = 0
    q.put((pname, rec))


def run_proofs(mod, files, budget, only=None):
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue()
    P = prog.Program(files)
    gc.collect()
    gc.freeze()
    smt.TOKENS = ctxm.Semaphore(6)
    todo = [(mod.__name__, n, P, budget, q) for n, _ in mod.PROOFS if only is None or n in only]
    out = {}
    procs = {}
    sys.setrecursionlimit(20000)
    import threading

    t0 = time.time()
    pending = list(todo)
    end = t0 + TOTAL
    while pending or procs:
        if end == t0 + TOTAL and any(r.failures for r in out.values()):
            end = min(end, time.time() + 45)  # a failure decides the verdict
        if time.time() > end:
            for a in pending:
                r = smt.Record()
                r.undecided.append((a[1], "not tried: no time left"))
                r.wall = 0
                out.setdefault(a[1], r)
            pending = []
        while pending and len(procs) < 8:
            a = pending.pop(0)
            p = ctxm.Process(target=_proof, args=(a,))
            p.start()
            procs[a[1]] = (p, time.time())
        try:
            n, rec = q.get(timeout=0.5)
            out[n] = rec
            if n in procs:
                procs.pop(n)[0].join()
        except Exception:
            pass
        for n in list(procs):
            if n not in procs:
                continue
            p, st = procs[n]
            dead = not p.is_alive()
            if dead or time.time() - st > budget + 60 or time.time() > end:
                # give the queue a last chance
                try:
                    while True:
                        m, rec = q.get(timeout=0.3)
                        out[m] = rec
                        if m in procs:
                            procs.pop(m)[0].join()
                except Exception:
                    pass
                if n in procs:
                    p.kill()
                    p.join()
                    procs.pop(n)
                    r = smt.Record()
                    r.undecided.append((n, "proof process ended without an answer (time or memory)"))
                    r.wall = time.time() - st
                    out.setdefault(n, r)
    return out


def start_battery(bat, seed, tier):
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue()

    def run():
        os.nice(5)
        try:
            q.put(bat([], seed, tier))
        except Exception:
            q.put({"error": traceback.format_exc()[-3000:], "failed": [], "cases": 0})

    p = ctxm.Process(target=run)
    p.start()
    return q, p


def known_findings():
    f = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("specs." + pid.lower())
    budget = getattr(mod, "BUDGET", 240) * (2 if tier == "thorough" else 1)
    files = []
    for m in getattr(mod, "MODULES", []):
        files += build.module_files(m)
    for pat in getattr(mod, "FILES", []):
        import glob

        files += sorted(glob.glob(pat if pat.startswith("/") else build.SRC + "/" + pat, recursive=True))
    inst = getattr(mod, "INST", [])
    files += [os.path.join(ROOT, "specs", f) for f in inst]
    files = list(dict.fromkeys(files))
    asts, bad = build.export(files) if files else ([], [])
    t_export = time.time() - t0

    # the replay on the compiled code runs beside the proofs: it finds failing inputs, and stands in where they are undecided
    bat = getattr(mod, "BATTERY", None)
    bq, bp = start_battery(bat, seed, tier) if bat is not None else (None, None)
    recs = run_proofs(mod, asts, budget)
    total = smt.Record()
    proofs = {}
    undecided = []
    failures = []
    for n, _ in mod.PROOFS:
        r = recs.get(n)
        if r is None:
            r = smt.Record()
            r.undecided.append((n, "no answer"))
            r.wall = 0
        total.merge(r)
        ob = sum(t for d, t in r.obligations.values())
        di = sum(d for d, t in r.obligations.values())
        if ob == 0 and not r.undecided:
            r.undecided.append((n, "vacuous: no obligation was generated"))
        if not r.covers and not r.undecided and not r.failures:
            r.undecided.append((n, "vacuous: no path reaches the end of the proof"))
        proofs[n] = {"obligations": ob, "discharged": di, "paths": r.paths, "wall_s": round(r.wall, 2),
                     "undecided": len(r.undecided), "failed": len(r.failures), "covers": r.covers}
        undecided += [(n, w, y) for w, y in r.undecided]
        failures += [dict(f, proof=n) for f in r.failures]
    for f, e in bad:
        undecided.insert(0, ("export", f, e[:300]))

    # ---- verdict
    known = [k for k in known_findings() if ("property=%s " % pid) in k + " " and not k.startswith("fixed:")]
    violation = None
    notes = []
    battery = None
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    rpath = os.path.join(ROOT, "replays", pid + ".txt")
    if bat is not None:
        try:
            battery = bq.get(timeout=max(30, t0 + DEADLINE - time.time()))
        except Exception:
            battery = {"error": "the replay gave no answer in time", "failed": [], "cases": 0}
        if bp.is_alive():
            bp.terminate()
        bp.join(10)
    known_hit = []
    if battery and battery.get("failed"):
        bad = []
        for f in battery["failed"]:
            k = [x for x in known if x.split("::", 1)[-1].strip() and x.split("::", 1)[-1].strip() in f]
            if k:
                known_hit.append(k[0])
            else:
                bad.append(f)
        if bad:
            with open(rpath, "w") as s:
                s.write("property %s: the real code, compiled from the current sources, breaks it\n" % pid)
                s.write("command: %s\n" % battery.get("command", ""))
                for f in bad[:40]:
                    s.write("failing case: %s\n" % f)
                s.write("\nfailed obligations:\n")
                for f in failures[:20]:
                    s.write(json.dumps(f, indent=1) + "\n")
            violation = "VIOLATION property=%s replay=%s" % (pid, rpath)
    if failures and violation is None:
        rest = []
        for f in failures:
            k = [x for x in known if ("obligation=" + f["obligation"].replace(" ", "_")) in x]
            if k:
                known_hit.append(k[0])
            else:
                rest.append(f)
        if rest:
            with open(rpath, "w") as s:
                s.write("property %s: obligation(s) of the verifier fail; no failing input was found by replay\n" % pid)
                if battery:
                    s.write("replayed cases: %s %s\n" % (battery.get("cases"), battery.get("error", "")))
                for f in rest[:20]:
                    s.write(json.dumps(f, indent=1) + "\n")
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)

    ob = sum(t for d, t in total.obligations.values())
    di = sum(d for d, t in total.obligations.values())
    fully = not undecided and not total.bounded
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": "python3-vt check.py %s" % pid,
            "trusted_base": ["clang 18 AST of the current sources (tool/cppx.cpp)", "vc/ (symbolic execution, VC generation)",
                             "z3 5.x", "cvc5 1.1.2 (fallback)"] + getattr(mod, "TRUSTED", []),
            "named_obligations": {n: t for n, (d, t) in sorted(total.obligations.items())},
            "undischarged": [n for n, (d, t) in total.obligations.items() if d != t],
            "paths": total.paths,
            "proofs": proofs,
            "functions_under_contract": sorted(total.functions.values()),
            "contracts_used_at_calls": sorted(total.contracts_used),
            "backends": total.backends, "solver_s": round(total.solver_s, 2),
            "export_s": round(t_export, 2), "translation_units": len(asts),
            "undecided": [list(map(str, u))[:3] for u in undecided][:20],
            "bounded": sorted(set(total.bounded))[:20],
        },
        "assumptions": sorted(total.assumptions) + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if battery is not None:
        ev["coverage"]["bounded_replay"] = {k: (v if k != "failed" else len(v)) for k, v in battery.items()}
    if undecided:
        ev["coverage"]["explanation"] = "some obligations are undecided; a bounded replay on the compiled code stands in for them"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as s:
        json.dump(ev, s, indent=1)

    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d/%d obligations discharged, %d paths, %d undecided, %d bounded loops, %d failed, %.1f s" % (
        pid, di, ob, total.paths, len(undecided), len(set(total.bounded)), len(failures), time.time() - t0))
    if battery is not None:
        print("bounded replay: %s cases, %d failed %s" % (battery.get("cases"), len(battery.get("failed", [])),
                                                         battery.get("error", "")))
    for u in undecided[:6]:
        print("undecided:", *[str(x)[:300] for x in u])
    if violation:
        for f in failures[:4]:
            print("failed obligation: %s [%s] %s" % (f["obligation"], f["proof"], json.dumps(f.get("model", {}))[:300]))
        if battery:
            for f in battery.get("failed", [])[:4]:
                print("failing case:", f)
        print(violation)
        return 1
    if battery and battery.get("error") and (undecided or failures):
        print("error: the bounded replay did not run")
        return 2
    return 0
