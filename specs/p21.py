"""P21: path names of arrays"""
import z3

from vc.interp import CppThrow, Interp
from vc.smt import And, Not, eq, lift
from vc.stdlib import Str, strval
from . import lib

MODULES = ["hl"]
INST = ["drv/hl.cpp"]
MOST = 12


def parts(ctx, n, some=None):
    """Components: nothing, or any string without a slash"""
    out = []
    for i in range(n):
        # the names may be anything; which components of the dataset are empty is enumerated
        if (some is None or i in some) and ctx.choose(2, note="component %d is empty" % i):
            out.append("")
            continue
        c = z3.String("component_%d" % i)
        ctx.segments = {**getattr(ctx, "segments", {}), c.get_id(): c}
        ctx.assume(z3.Length(c) >= 1)
        for x in ("/", "\0"):
            ctx.assume(Not(z3.Contains(c, z3.StringVal(x))))
        out.append(c)
    return out


def call(ctx, P, fn, v):
    E = Interp(ctx, P, None)
    try:
        return E, E.invoke(P.find("vl::" + fn)[0], None, [Str(v)])
    except CppThrow as e:
        ctx.prove("what is refused is refused by an exception", "runtime_error" in e.tname, exception=e.tname)
        return E, None


def items(E, a):
    return [strval(E, x) for x in a.items]


def join(cs):
    s = lift(cs[0])
    for c in cs[1:]:
        s = z3.Concat(s, z3.StringVal("/"), lift(c))
    return s


def three(n):
    def run(ctx, P):
        cs = parts(ctx, n)
        E, r = call(ctx, P, "parse3", join(cs))
        ctx.prove("a path is parsed exactly when it has three components", (r is not None) == (n == 3))
        if r is not None and n == 3:
            got = items(E, r)
            ctx.prove("the three names are the components", And(*[eq(a, b) for a, b in zip(got, cs)]) if len(got) == 3 else False)
        ctx.cover("end")
    return run


def four(n):
    def run(ctx, P):
        cs = parts(ctx, n, None if n < 6 else range(n - 3))
        s = join(cs)
        E, r = call(ctx, P, "parse4", s)
        ctx.prove("a path is parsed exactly when it has components for a dataset and three names", (r is not None) == (n >= 4))
        if r is None or n < 4:
            ctx.cover("end")
            return
        got = items(E, r)
        ctx.prove("the last three components are the names", And(*[eq(a, b) for a, b in zip(got[1:], cs[-3:])]) if len(got) == 4 else False)
        # the rest is the dataset: which components are empty?
        rest = cs[:-3]
        full = [c for c in rest if not isinstance(c, str)]
        absolute = isinstance(rest[0], str)
        if absolute and len(rest) == 1:
            ctx.cover("end")
            return  # no dataset at all
        want = z3.StringVal("/" if absolute else "")
        for i, c in enumerate(full):
            want = z3.Concat(want, z3.StringVal("/" if i else ""), c)
        if full and full[-1] is not rest[-1]:
            want = z3.Concat(want, z3.StringVal("/"))
        ctx.prove("the dataset is what comes before the names, repeated slashes being one", eq(got[0], z3.simplify(want)), components=n)
        ctx.cover("end")
    return run


PROOFS = [("three names, %d components" % n, three(n)) for n in range(1, 7)] + \
    [("dataset and three names, %d components" % n, four(n)) for n in range(1, MOST + 1)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx", "hl"], "p21.cpp", [seed, tier])
