"""P10: values of a shape per object"""
from vc import h5
from vc.interp import Ptr, UNDEF
from vc.smt import And, Implies, Not, Or, eq, is_sym, lift, simp
from vc.stdlib import CArr, Str
from . import hd, lib, md, p03, p09

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/arrays.cpp"]
NR = "lue_nr_objects"
IDS = p09.INDICES


class S(p09.S):
    def start(self):
        """A value with any number of objects reported, of which 5 and 7 exist"""
        e, r = self.e, self.rank
        constant = self.p == "dc_"
        self.kid = lambda n: e.W.add_dataset(self.x, n, hd.dt(self.k), ([3] if constant else []) + [2] * r,
                                             maxdims=([h5.SIZE_MAX] if constant else []) + [2] * r, dcpl={"chunk": [1] * (r + 1)} if constant else {})
        self.create(attr=NR)
        return self.populate(["5", "7"])

    def outcome(self, threw, taken, fail):
        e, ctx = self.e, self.ctx
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("expanding fails exactly when an object exists already, or the library fails",
                  threw == (taken or failed is not None) or failed == "H5Lexists", failed=str(failed),
                  exception=str(getattr(e, "exc", None) and e.exc.msg)[:200])
        if threw and failed is None:
            e.only("nothing changes", [])
            ctx.prove("the number of objects stays", eq(e(self.p + "nr", self.v), self.count))
        return not threw

    def grown(self, n):
        e, ctx, p = self.e, self.ctx, self.p
        ctx.prove("the number of objects grows by the number given", And(eq(e.attr(self.x, NR).value, simp(self.count + n)), eq(e(p + "nr", self.v), simp(self.count + n))))
        w = e(p + "open2", self.g, Str(self.n))
        ctx.prove("the number of objects is found again", eq(e(p + "nr", w), simp(self.count + n)))
        return w

    def array(self, w, i, shape, times=None, nodata=None):
        """Object i has an array of its own, of the shape given"""
        e, ctx = self.e, self.ctx
        x = e.at(self.x, str(i))
        if times is None:
            md.value_dataset(e, x, shape, shape, self.k)
        else:
            md.value_dataset(e, x, [times] + shape, [h5.SIZE_MAX] + shape, self.k)
        if x is None:
            return
        fv = x.dcpl.get("fill")
        ctx.prove("a no-data value is stored exactly when one is given", (fv is not None) == (nodata is not None))
        if nodata is not None and fv is not None:
            ctx.prove("the no-data value is the one given, of the memory type", And(eq(fv[1], nodata)) and fv[0].same(hd.dt(self.m)))
        if times is None:
            ctx.prove("the object is found", e("d_contains", w, i))
            for v, m in ((self.v, self.m), (w, self.k)):
                a = e("d_at", v, i)
                ctx.prove("the object opens as its array", e.obj(e("array_hid", a)) is x)
                ctx.prove("the shape reported is the one given", e.eqs(e.items(e("array_extents", a)), shape))
                ctx.prove("the memory type is that of the value", e.dt_value(e("array_memory", a)).same(hd.dt(m)))
        else:
            ctx.prove("the object is found", e("dc_exists", w, i))
            for v, m in ((self.v, self.m), (w, self.k)):
                a = e("dc_at", v, i)
                ctx.prove("the object opens as its array", e.obj(e("c_hid", a)) is x)
                ctx.prove("the shape reported is the one given", e.eqs(e.items(e("c_array_shape", a)), shape))
                ctx.prove("the number of locations in time is the one given", eq(e("c_nr_arrays", a), times))
                ctx.prove("the memory type is that of the value", e.dt_value(e("c_memory", a)).same(hd.dt(m)))


def create(fail, p):
    def run(ctx, P):
        s = S(ctx, P, p, fail != "none", fail == "none")
        threw, v = s.create(fail, NR)
        if not threw:
            ctx.prove("a new value holds nothing", eq(s.e(p + "nr", v), 0))
        ctx.cover("end")
    return run


def one(fail, p):
    """One object"""
    def run(ctx, P):
        s = S(ctx, P, p, fail != "none")
        e = s.e
        v = s.v = s.start()
        i = IDS[ctx.choose(5 if fail == "none" else 1, note="id")]
        shape = s.shape("given")
        d = e.dims("shape", shape)
        nodata = times = None
        if p == "d_":
            c = ctx.choose(3, note="no-data value: default, none, one")
            if c == 2:
                nodata = ctx.fresh("no_data")
            fn, args = ("d_expand_default", [i, d]) if c == 0 else ("d_expand_one", [i, d, Ptr(CArr([nodata]), 0) if c == 2 else None])
        else:
            times = ctx.fresh("times", lo=0, hi=2**40)
            fn, args = "dc_expand_one", [i, d, times]
        e.mark()
        e.W.fail = fail
        # a repeated identity is refused by assertion
        e.E.check_asserts = "refuse"
        threw, a = e.throws(fn, v, *args)
        e.E.check_asserts = True
        if s.outcome(threw, i == 5, fail):
            e.only("exactly one array is added, and the number", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
            w = s.grown(1)
            s.array(w, i, shape, times, nodata)
            if p == "dc_":
                ctx.prove("the array returned is the one created", e.obj(e("c_hid", a)) is e.at(s.x, str(i)))
            e.only("opening changes nothing", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
        ctx.cover("end")
    return run


def several(fail, p, flat=False):
    """Any number of objects: an arbitrary one"""
    def run(ctx, P):
        s = S(ctx, P, p, fail != "none")
        e = s.e
        v = s.v = s.start()
        i = IDS[ctx.choose(4 if fail == "none" else 1, note="id")]
        n = ctx.fresh("objects", lo=0, hi=2**40)
        ids = md.entry(e, n, i, 88)
        times = None
        if flat:
            import z3
            ext = z3.Function("extents", z3.IntSort(), z3.IntSort())
            shapes = Ptr(CArr(None, None, simp(n * s.rank), lambda k: ext(lift(k))), 0)
        else:
            shapes, shape = md.shapes(e, n, s.rank)
        args = [n, ids, shapes]
        if p == "dc_":
            a, times = md.counts(e, n, "times")
            args.append(a)
        e.mark()
        e.W.fail = fail
        e.E.each = True
        e.E.check_asserts = "refuse"
        threw, _ = e.throws(p + ("expand_extents" if flat else "expand_shapes"), v, *args)
        e.E.check_asserts = True
        e.E.each = False
        k = getattr(e.E, "iteration", None)
        if s.outcome(threw, i == 5 and k is not None, fail):
            if k is None:
                ctx.prove("without objects nothing changes", all(c[0] == "attribute" and c[1] is s.x and c[2] == NR for c in e.changes()))
                ctx.prove("no object is counted", And(eq(n, 0), eq(e(p + "nr", v), s.count)))
            else:
                shape = [ext(simp(k * s.rank + j)) for j in range(s.rank)] if flat else shape(k)
                times = times and times(k)
                e.only("an array is added per object, and the number", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
                w = s.grown(n)
                s.array(w, i, shape, times)
        ctx.cover("end")
    return run


def absent(p):
    def run(ctx, P):
        s = S(ctx, P, p, True)
        e = s.e
        v = s.start()
        ctx.prove("an object that does not exist is not found", Not(e("d_contains" if p == "d_" else "dc_exists", v, 3)))
        ctx.prove("an object that exists is found", e("d_contains" if p == "d_" else "dc_exists", v, 7))
        e.E.check_asserts = "refuse"
        threw, _ = e.throws(p + "at", v, 3)
        ctx.prove("an object that does not exist does not open", threw)
        threw, _ = e.throws(p + "open2", s.g, Str("absent"))
        ctx.prove("a value that does not exist does not open", threw)
        ctx.cover("end")
    return run


PROOFS = []
for p, t in (("d_", "per location"), ("dc_", "constant through time")):
    for fail, f in (("none", ""), ("one", ", a call fails")):
        PROOFS += [("create, %s%s" % (t, f), create(fail, p)), ("one object, %s%s" % (t, f), one(fail, p)),
                   ("several objects, %s%s" % (t, f), several(fail, p))]
        if p == "d_":
            PROOFS.append(("several objects by extents%s" % f, several(fail, p, True)))
    PROOFS.append(("absent objects, %s" % t, absent(p)))


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p10.cpp", [seed, tier], wraps=lib.INJECT)
