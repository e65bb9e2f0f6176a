"""P06: attributes"""
import z3

from vc import h5
from vc.interp import CppThrow
from vc.smt import And, If, Implies, Not, Or, concrete, eq, is_sym, lift, simp
from vc.stdlib import CArr, Str, Vec, strval
from . import hd, lib

MODULES = ["hdf5"]
INST = ["drv/hdf5.cpp"]

RANGE = [(-2**7, 2**7 - 1), (-2**15, 2**15 - 1), (-2**31, 2**31 - 1), (-2**63, 2**63 - 1),
         (0, 2**8 - 1), (0, 2**16 - 1), (0, 2**32 - 1), (0, 2**64 - 1)]


def name(ctx, n):
    """Any non-empty name without zeros (names are passed as C strings)"""
    s = z3.String(n)
    ctx.assume(z3.Length(s) >= 1)
    ctx.assume(Not(z3.Contains(s, z3.StringVal("\0"))))
    return s


def text(ctx, n, lo=1):
    s = z3.String(n)
    ctx.assume(z3.Length(s) >= lo)
    ctx.assume(z3.Length(s) <= 2**31)
    return s


def number(ctx, n, k):
    if k < 8:
        return ctx.fresh(n, lo=RANGE[k][0], hi=RANGE[k][1])
    return z3.Real(n)


class S:
    def __init__(self, ctx, P, fail="none"):
        self.ctx = ctx
        self.e = e = hd.Env(ctx, P, fail="none")
        W = e.W
        where = ctx.choose(3, note="object: the root group, a group, a dataset")
        self.g = e.root if where == 0 else W.add(e.root, "g") if where == 1 else W.add_dataset(e.root, "d", hd.dt(2), [3])
        self.near = W.add(e.root, "near")
        self.n = name(ctx, "name")
        other = name(ctx, "other_name")
        ctx.assume(other != self.n)
        # other attributes: of the same object, and of the same name on another one
        self.others = [W.add_attr(self.g, other, text(ctx, "other_value")), W.add_attr(self.near, self.n, text(ctx, "near_value"))]
        self.kept = [(a, a.value, a.dtype.copy(), a.dims) for a in self.others]
        self.i = e.ident(self.g)
        self.a = e("attributes_of", self.i)
        self.fail = fail

    def before(self, same):
        """Prior state of the attribute: absent, as the value to write would make it, or of another type or size"""
        ctx, W = self.ctx, self.e.W
        c = ctx.choose(6, note="before: absent, like the new one, string, number, vector, long vector")
        self.c = c
        if c == 0:
            self.g.attrs.absent.append(self.n)
            self.old = None
        elif c == 1:
            self.old = same()
        elif c == 2:
            self.old = W.add_attr(self.g, self.n, text(ctx, "old_text"))
        elif c == 3:
            k = [0, 3, 6, 9][ctx.choose(4)]
            self.old = W.add_attr(self.g, self.n, number(ctx, "old_number", k), hd.dt(k))
        elif c == 4:
            k = [1, 4, 8][ctx.choose(3)]
            self.old = W.add_attr(self.g, self.n, [number(ctx, "old_%d" % i, k) for i in range(2)], hd.dt(k), [2])
        else:
            k = [3, 9][ctx.choose(2)]
            n = ctx.fresh("old_length", lo=1, hi=2**31)
            f = lambda i: lift(i)
            self.old = W.add_attr(self.g, self.n, ("seq", n, f, CArr(None, None, n, f)), hd.dt(k), [n])
        self.e.W.fail = self.fail

    def write(self, fn, value):
        e, ctx = self.e, self.ctx
        e.W.log.clear()
        threw, _ = e.throws(fn, self.a, Str(self.n), value)
        ctx.prove("writing an attribute succeeds unless the library fails", threw == (e.W.failed is not None),
                  exception=getattr(e, "exc", None) and "%s %s" % (e.exc.tname, e.exc.msg), failed=str(e.W.failed))
        self.frame(fn)
        e.W.fail = "none"
        return not threw

    def frame(self, fn):
        ctx = self.ctx
        for x in self.e.W.log:
            own = x[0] in ("create attribute", "write attribute", "delete attribute") and x[1] is self.g and \
                (ctx.entails(eq(x[2], self.n)))
            ctx.prove("only the attribute written changes", own, change=str(x[0]))
        for a, v, t, d in self.kept:
            ctx.prove("other attributes keep their value", And(eq(a.value, v), a.dtype.same(t)) and a.dims == d and
                      any(x[1] is a for x in a.owner.attrs.entries))

    def stored(self):
        ms = [x[1] for x in self.g.attrs.entries if self.ctx.entails(eq(x[0], self.n))]
        self.ctx.prove("the attribute exists", len(ms) == 1)
        self.ctx.prove("the attribute is reported to exist", self.e("attribute_exists", self.a, Str(self.n)))
        return ms[0]


def numbers(k):
    def run(ctx, P):
        s = S(ctx, P)
        v = number(ctx, "value", k)
        s.before(lambda: s.e.W.add_attr(s.g, s.n, number(ctx, "old", k), hd.dt(k)))
        if s.write("put_" + hd.CTYPES[k], v):
            x = s.stored()
            # also as the only element of an array that was there
            got = x.value[0] if isinstance(x.value, list) else x.value
            ctx.prove("the value stored is the one written", And(x.dims is None or And(len(x.dims) == 1, eq(x.dims[0], 1)), x.dtype.same(hd.dt(k))) and
                      not isinstance(got, tuple) and eq(got, v))
            r = s.e("get_" + hd.CTYPES[k], s.a, Str(s.n))
            ctx.prove("the value read is the one written", eq(r, v))
            s.frame("get")
            ctx.prove("the datatype reported is that of the value", value(s.e, s.e("attribute_type", s.a, Str(s.n))).same(hd.dt(k)))
        ctx.cover("end")
    return run


def vectors(k):
    def run(ctx, P):
        s = S(ctx, P)
        sym = ctx.choose(2)
        if sym:
            n = ctx.fresh("length", lo=1, hi=2**31)
            F = z3.Function("element_%d" % k, z3.IntSort(), z3.IntSort() if k < 8 else z3.RealSort())
            fn = lambda i: F(lift(i))
        else:
            n = 1 + ctx.choose(2)
            xs = [number(ctx, "value_%d" % i, k) for i in range(n)]

        def vec():
            return Vec(None, n=n, fn=fn) if sym else Vec(list(xs))

        def same():
            if sym:
                g = lambda i: 2 * F(lift(i))
                return s.e.W.add_attr(s.g, s.n, ("seq", n, g, CArr(None, None, n, g)), hd.dt(k), [n])
            return s.e.W.add_attr(s.g, s.n, [number(ctx, "old_%d" % i, k) for i in range(n)], hd.dt(k), [n])
        s.before(same)
        if s.write("putv_" + hd.CTYPES[k], vec()):
            x = s.stored()
            ctx.prove("the value stored has the type and length of the one written",
                      x.dims is not None and And(len(x.dims) == 1, eq(x.dims[0], n), x.dtype.same(hd.dt(k))))
            r = s.e("getv_" + hd.CTYPES[k], s.a, Str(s.n))
            ctx.prove("the vector read has the length of the one written", eq(r.size, n))
            if sym:
                i = ctx.fresh("index", lo=0)
                ctx.assume(lift(i) < n)
                ctx.prove("the values read are the ones written", eq(r.get_at(i), fn(i)))
            else:
                ctx.prove("the values read are the ones written", s.e.eqs([s.e.E.val(r.get_at(i)) for i in range(n)], xs))
            s.frame("get")
        ctx.cover("end")
    return run


def strings(ctx, P):
    s = S(ctx, P)
    v = text(ctx, "value")
    def same():
        o = text(ctx, "old")
        ctx.assume(z3.Length(o) == z3.Length(v))
        return s.e.W.add_attr(s.g, s.n, o)
    s.before(same)
    if s.write("put_str", Str(v)):
        x = s.stored()
        ctx.prove("the string stored is the one written", And(x.dims is None, x.dtype.cls == h5.T_STRING, eq(x.value, v)))
        r = s.e("get_str", s.a, Str(s.n))
        ctx.prove("the string read is the one written", eq(strval(s.e.E, r), v))
        s.frame("get")
    ctx.cover("end")


def value(e, o):
    return e.W.hids[e("dt_id", o)].obj


def absent(ctx, P):
    s = S(ctx, P)
    s.g.attrs.absent.append(s.n)
    s.e.W.log.clear()
    s.e.E.check_asserts = "refuse"
    ctx.prove("an attribute that was not written does not exist", Not(s.e("attribute_exists", s.a, Str(s.n))))
    fn = ["get_i32", "get_f64", "get_str", "getv_u8", "attribute", "attribute_type"][ctx.choose(6)]
    threw, _ = s.e.throws(fn, s.a, Str(s.n))
    ctx.prove("reading an absent attribute is refused", threw, function=fn)
    ctx.prove("reading an absent attribute changes nothing", not s.e.W.log)
    ctx.cover("end")


def failures(ctx, P):
    s = S(ctx, P, fail="one")
    c = ctx.choose(4, note="number, string, vector, read")
    if c == 0:
        s.before(lambda: s.e.W.add_attr(s.g, s.n, number(ctx, "old", 2), hd.dt(2)))
        s.write("put_i32", number(ctx, "value", 2))
    elif c == 1:
        v = text(ctx, "value")
        def same():
            o = text(ctx, "old")
            ctx.assume(z3.Length(o) == z3.Length(v))
            return s.e.W.add_attr(s.g, s.n, o)
        s.before(same)
        s.write("put_str", Str(v))
    elif c == 2:
        s.before(lambda: s.e.W.add_attr(s.g, s.n, [1, 2], hd.dt(2), [2]))
        s.write("putv_i32", Vec([5, 6]))
    else:
        k = ctx.choose(4)
        v = [7, z3.StringVal("text"), [1, 2], 5][k]
        s.old = s.e.W.add_attr(s.g, s.n, v, hd.dt(2) if k != 1 else None, [2] if k == 2 else None)
        s.e.W.fail = "one"
        s.e.E.check_asserts = "refuse"
        s.e.W.log.clear()
        fn = ["get_i32", "get_str", "getv_i32", "attribute_exists"][k]
        threw, r = s.e.throws(fn, s.a, Str(s.n))
        ctx.prove("a failure of the library is reported", threw == (s.e.W.failed is not None), failed=str(s.e.W.failed), function=fn)
        ctx.prove("reading changes nothing", not s.e.W.log)
    ctx.cover("end")


PROOFS = [("numbers " + hd.CTYPES[k], numbers(k)) for k in range(10)] + \
         [("vectors " + hd.CTYPES[k], vectors(k)) for k in range(10)] + \
         [("strings", strings), ("absent", absent), ("failures", failures)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p06.cpp", [seed, tier],
                          wraps=["H5Awrite", "H5Aread", "H5Acreate2", "H5Aopen", "H5Aexists"])
