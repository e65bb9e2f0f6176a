"""P08: constant-shape object arrays"""
from vc import h5
from vc.interp import Ptr, UNDEF
from vc.smt import And, Implies, Not, Or, eq, lift, simp
from vc.stdlib import CArr, Str
from . import hd, lib, md, p03

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/arrays.cpp"]
RANKS = [0, 1, 2, 4]


class S:
    def __init__(self, ctx, P, fail="none"):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P, fail="none")
        W = e.W
        self.p = ["c_", "s_"][ctx.choose(2, note="per object, per object and location in time")]
        self.top = W.add(e.root, "g")
        self.near = W.add_dataset(self.top, "near", hd.dt(1), [3, 4])
        W.add_attr(self.top, "x", "y")
        cheap = fail != "none"
        self.n = "a" if cheap else md.NAMES[ctx.choose(len(md.NAMES))]
        self.r = 2 if cheap else RANKS[ctx.choose(len(RANKS), note="rank")]
        self.shape = p03.vec(ctx, "extent", self.r, 1)

    def stored(self, count, k):
        """An existing array of count objects"""
        g = self.e.W.add_dataset(self.top, self.n, hd.dt(k), [count] + self.shape, maxdims=[h5.SIZE_MAX] + self.shape,
                                 dcpl={"chunk": [1] * (self.r + 1)})
        return g


def create(fail):
    def run(ctx, P):
        s = S(ctx, P, fail)
        e = s.e
        taken = ctx.choose(2, note="name: free, taken") if fail == "none" else 0
        k = 2 + 6 * ctx.choose(2) if s.n == "a" else 2
        v = 1 + ctx.choose(6, note="overload") if fail == "none" else 4
        f = (k + 1) % 10 if v in (3, 4) else k
        nodata = ctx.choose(2) if v < 5 else 0
        fill = Ptr(CArr([ctx.fresh("no_data")]), 0) if nodata else None
        shape = s.shape if v in (2, 4, 5) else []
        if taken:
            s.stored(3, 2)
        g = e.group(s.top)
        args = [g, Str(s.n)]
        if v in (3, 4):
            args.append(e.h("to_file", e.native(f)))
        args.append(e.native(k))
        if v in (2, 4, 5):
            args.append(e.dims("shape", shape))
        if v < 5:
            args.append(fill)
        e.mark()
        e.W.fail = fail
        threw, a = e.throws(s.p + "create%d" % v, *args)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating an array fails exactly when the name is taken, or the library fails",
                  threw == (taken == 1 or failed is not None) or (failed == "H5Lexists"), failed=str(failed))
        if threw:
            if failed is None:
                e.only("nothing changes", [])
        else:
            e.only("exactly one array is added", [("linked", s.top, s.n)])
            x = e.at(s.top, s.n)
            md.value_dataset(e, x, [0] + shape, [h5.SIZE_MAX] + shape, f)
            ctx.prove("the handle is of the array created", e.obj(e(s.p + "hid", a)) is x)
            ctx.prove("the memory type is the one asked for", e.dt_value(e(s.p + "memory", a)).same(hd.dt(k)))
            c = x.dcpl.get("chunk")
            ctx.prove("the array is chunked", c is not None and And(*[lift(y) >= 1 for y in c]))
            fv = x.dcpl.get("fill")
            ctx.prove("a no-data value is stored exactly when one is given", (fv is not None) == bool(nodata), fill=str(fv))
            if nodata and fv is not None:
                ctx.prove("the no-data value is the one given, of the memory type", eq(fv[1], fill.t.items[0]) and fv[0].same(hd.dt(k)))
            ctx.prove("a new array holds no objects", eq(e(s.p + "nr_arrays", a), 0))
            ctx.prove("the value shape reported is the one asked for", e.eqs(e.items(e(s.p + "array_shape", a)), shape))
        ctx.cover("end")
    return run


def expand(fail):
    def run(ctx, P):
        s = S(ctx, P, fail)
        e = s.e
        k = 4 if s.n == "a" else 9
        count = ctx.fresh("count", lo=0, hi=2**40)
        n = ctx.fresh("added", lo=0, hi=2**40)
        x = s.stored(count, k)
        own = ctx.choose(2)
        g = e.group(s.top)
        a = e(s.p + "open3", g, Str(s.n), e.native((k + 1) % 10)) if own else e(s.p + "open2", g, Str(s.n))
        ctx.prove("the memory type is the one asked for, or that of the elements stored",
                  e.dt_value(e(s.p + "memory", a)).same(hd.dt((k + own) % 10)))
        ctx.prove("the type stored", e.dt_value(e(s.p + "stored", a)).same(hd.dt(k)))
        ctx.prove("the number of objects is that of the file", eq(e(s.p + "nr_arrays", a), count))
        e.mark()
        e.W.fail = fail
        threw, _ = e.throws(s.p + "expand", a, n)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("expanding fails only when the library does", threw == (failed is not None), failed=str(failed))
        if threw:
            e.only("nothing changes", [])
        else:
            ctx.prove("the extents grow by the number of objects", e.eqs(x.dims, [simp(count + n)] + s.shape), got=str(x.dims))
            ch = e.changes()
            ctx.prove("nothing else changes", all(c[0] == "resized" and c[1] is x for c in ch))
            ctx.prove("the number of objects reported has grown by the one asked for", eq(e(s.p + "nr_arrays", a), simp(count + n)))
            b = e(s.p + "open2", g, Str(s.n))
            ctx.prove("the number of objects is found again", eq(e(s.p + "nr_arrays", b), simp(count + n)))
        ctx.prove("the value shape stays", e.eqs(e.items(e(s.p + "array_shape", a)), s.shape))
        if s.p == "c_":
            ctx.prove("the rank is that of the values", eq(e("c_rank", a), s.r))
            ctx.prove("the array is found", And(e("c_exists", g, Str(s.n)), Not(e("c_exists", g, Str("absent")))))
        ctx.cover("end")
    return run


def transfer(fail):
    def run(ctx, P):
        s = S(ctx, P, fail)
        e = s.e
        k = 3 if s.n == "a" else 8
        count = ctx.fresh("count", lo=1, hi=2**40)
        x = s.stored(count, k)
        own = ctx.choose(2)
        m = (k + own) % 10
        g = e.group(s.top)
        a = e(s.p + "open3", g, Str(s.n), e.native(m)) if own else e(s.p + "open2", g, Str(s.n))
        i = ctx.fresh("first", lo=0)
        j = ctx.fresh("last", lo=0)
        ctx.assume(i < count)
        op = ctx.choose(4, note="read object, read range, write object, write range")
        one = op in (0, 2)
        if not one:
            ctx.assume(And(j >= i, j <= count))
        s.buf = Ptr(CArr([UNDEF] * 4), 0)
        e.mark()
        s.g, s.k, s.dims = x, k, [count] + s.shape
        e.W.fail = fail
        threw, _ = e.throws(s.p + ["read_one", "read_range", "write_one", "write_range"][op], a, i if one else e("range", i, j), s.buf)
        ctx.prove("a transfer fails only when the library does", threw == (e.W.failed is not None), failed=str(e.W.failed))
        if not threw:
            s.r += 1
            n = 1 if one else simp(j - i)
            p03.one(s, "H5Dread" if op < 2 else "H5Dwrite", m, ([i] + [0] * (s.r - 1), [1] * s.r, [n] + s.shape), [n] + s.shape)
            s.r -= 1
        e.W.fail = "none"
        e.only("no other array changes", [("written", x, s.n)] if op > 1 and not threw else [])
        ctx.cover("end")
    return run


PROOFS = [("create, a call fails", create("one")), ("create", create("none")), ("expand", expand("none")), ("transfer", transfer("none")),
          ("expand, a call fails", expand("one")), ("transfer, a call fails", transfer("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p08.cpp", [seed, tier], wraps=lib.INJECT)
