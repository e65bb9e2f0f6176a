"""Shared by the specifications"""
import glob
import os
import subprocess
import tempfile

from vc import build
from vc.smt import Unsupported


class World:
    """Pure code: no external functions"""

    construct = {}

    def fn(self, q):
        return None

    def global_var(self, E, q):
        raise Unsupported("global %s" % q)


INJECT = sorted(set(__import__("re").findall(r"^VF_WRAP\(\w+, (\w+)", open(os.path.join(build.ROOT, "replay/inject.hpp")).read(), 8)))


def run_native(modules, harness, args=(), only=None, timeout=400, wraps=(), **kw):
    """Runs a replay program made of the current sources. It prints 'case <n>', 'FAIL <what>', 'sample <s>'."""
    h = os.path.join(build.ROOT, "replay", harness)
    if wraps:
        kw["extra_link"] = list(kw.get("extra_link", [])) + ["-Wl,--wrap=" + w for w in wraps]
    exe = build.native(modules, h, only=only, **kw)
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        cmd = [exe] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=d, timeout=timeout, errors="replace",
                               stdin=subprocess.DEVNULL)
            out, rc, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b"").decode(errors="replace"), -999, "timeout"
    return parse(out, rc, err, "replay/%s %s" % (harness, " ".join(map(str, args))))


def parse(out, rc, err, command):
    failed, samples, cases, done = [], [], 0, False
    last = ""
    for l in out.split("\n"):
        if l.startswith("FAIL "):
            failed.append(l[5:])
        elif l.startswith("sample "):
            samples.append(l[7:])
        elif l.startswith("cases "):
            cases = int(l[6:])
            done = True
        elif l.startswith("at "):
            last = l[3:]
    res = {"cases": cases, "failed": failed, "samples": samples[:8], "command": command}
    if rc == -999:
        if not failed:
            res["error"] = "replay timed out at: " + last
    elif not done:
        # the code under test ended the process (assertion, signal, std::terminate)
        failed.append("process ended with status %d at: %s %s" % (rc, last, err[-400:].replace("\n", " | ")))
    return res


def pybattery(pid, sources):
    """Runs replay/<pid>.py on the Python sources as they are"""

    def battery(files, seed, tier):
        cmd = ["python3-vt", os.path.join(build.ROOT, "replay", pid + ".py"), build.SRC, str(seed), tier]
        with tempfile.TemporaryDirectory(prefix="verif-") as d:
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=d, timeout=300, errors="replace", stdin=subprocess.DEVNULL,
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
                out, rc, err = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as e:
                out, rc, err = (e.stdout or b"").decode(errors="replace"), -999, "timeout"
        return parse(out, rc, err, "replay/%s.py" % pid)

    return battery
