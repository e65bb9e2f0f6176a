"""Shared by the replays of Python code"""
import importlib
import signal
import sys
import types

cases = 0


def load(src, *names):
    """Modules of the scalability package, from the sources"""
    base = src + "/quality_assurance/scalability/command/scalability"
    for n, p in (("scalability", base), ("scalability.experiment", base + "/experiment"), ("scalability.core", base + "/core")):
        m = types.ModuleType(n)
        m.__path__ = [p]
        sys.modules[n] = m
    return [importlib.import_module("scalability.experiment." + n) for n in names]


class TooLong(Exception):
    pass


def expired(*_):
    raise TooLong("does not end")


signal.signal(signal.SIGALRM, expired)
failed = 0


def case(what, f, seconds=5):
    """f() gives what is wrong, or None"""
    global cases, failed
    cases += 1
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        r = f()
    except TooLong as e:
        r = str(e)
    except Exception as e:
        r = "%s: %s" % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if r:
        failed += 1
        print("FAIL %s: %s" % (what, r), flush=True)
        if failed > 20:
            done()


def refuses(f):
    try:
        f()
    except (AssertionError, ValueError, TypeError, KeyError, IndexError):
        return True
    return False


def done():
    print("cases %d" % cases, flush=True)
    sys.exit(0)
