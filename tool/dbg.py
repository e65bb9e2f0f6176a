"""Runs one proof in this process: dbg.py P02 "name" """
import glob
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from vc import build, prog, smt
from vc.interp import CppThrow

mod = importlib.import_module("specs." + sys.argv[1].lower())
files = []
for m in getattr(mod, "MODULES", []):
    files += build.module_files(m)
for pat in getattr(mod, "FILES", []):
    files += sorted(glob.glob(build.SRC + "/" + pat, recursive=True))
files += [os.path.join(ROOT, "specs", f) for f in getattr(mod, "INST", [])]
asts, bad = build.export(files)
for b in bad:
    print("EXPORT", b)
P = prog.Program(asts)
import gc, multiprocessing
gc.collect()
gc.freeze()
smt.TOKENS = multiprocessing.Semaphore(6)
for n, fn in mod.PROOFS:
    if len(sys.argv) > 2 and n not in sys.argv[2:]:
        continue
    rec = smt.Record()

    def run(ctx):
        try:
            fn(ctx, P)
        except CppThrow as e:
            if os.environ.get("TB"):
                traceback.print_exc()
            ctx.prove("no unexpected exception", False, exception="%s: %s" % (e.tname, e.msg))
        except (smt.Unsupported, smt.z3.Z3Exception) as e:
            if os.environ.get("TB"):
                traceback.print_exc()
                print("TRACE", ctx.trace)
            raise

    try:
        smt.explore(run, rec, max_s=int(os.environ.get("MAXS", "240")))
    except Exception:
        print(traceback.format_exc()[-600:])
    print("==", n, "paths", rec.paths, "obligations", sum(t for d, t in rec.obligations.values()), "undecided", len(rec.undecided),
          "bounded", len(rec.bounded), "failed", len(rec.failures), "covers", rec.covers, "solver %.1f" % rec.solver_s)
    for u in rec.undecided[:4]:
        print("  undecided", u)
    for f in rec.failures[:3]:
        print("  FAILED", f)
    for b in sorted(set(rec.bounded))[:4]:
        print("  bounded", b)
