"""P09: values per location in time"""
from vc import h5
from vc.interp import Obj, Ptr, Ref, UNDEF
from vc.smt import And, Implies, Not, Or, eq, is_sym, lift, simp
from vc.stdlib import CArr, Str
from . import hd, lib, md, p03

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/arrays.cpp"]
NR = "lue_nr_locations_in_time"
INDICES = [0, 5, 12, 2**40 + 1, 2**64 - 1]


class S:
    """A group of arrays, created by the real code, with any number of elements reported and some that exist"""

    def __init__(self, ctx, P, p, cheap=False, full=False):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P)
        W = e.W
        self.p = p
        self.top = W.add(e.root, "g")
        near = W.add_dataset(self.top, "near", hd.dt(1), [3, 4])
        self.n = md.NAMES[ctx.choose(len(md.NAMES)) if full else 1]
        self.k = [2, 7, 9][ctx.choose(3, note="element type")] if full else 3
        self.m = (self.k + (ctx.choose(2, note="memory type: that of the elements, another") if full else 1)) % 10
        self.rank = 2 if cheap else [0, 1, 3, 2][ctx.choose(4 if full else 3, note="rank")]
        self.g = e.group(self.top)

    def create(self, fail="none", attr=NR):
        """Creates the group; returns (threw, handle)"""
        e, ctx, p = self.e, self.ctx, self.p
        e.mark()
        e.W.fail = fail
        if self.m == self.k:
            threw, v = e.throws(p + "create1", self.g, Str(self.n), e.native(self.k), self.rank)
        else:
            threw, v = e.throws(p + "create2", self.g, Str(self.n), e.h("to_file", e.native(self.k)), e.native(self.m), self.rank)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creation fails only when the library does", threw == (failed is not None) or failed == "H5Lexists", failed=str(failed))
        if threw:
            return True, None
        e.only("exactly one group is added", [("linked", self.top, self.n)])
        x = self.x = e.at(self.top, self.n)
        ctx.prove("a new group is empty", not x.links.entries)
        a = {n: y for n, y in x.attrs.entries}
        ctx.prove("the rank, the type and the number are stored", sorted(a) == sorted(["lue_datatype", "lue_rank", attr]))
        ctx.prove("the rank stored is the one given", eq(a["lue_rank"].value, self.rank))
        ctx.prove("the number stored is zero", eq(a[attr].value, 0))
        self.attr = a[attr]
        self.about(v)
        return False, v

    def about(self, v, m=None):
        e, ctx, p = self.e, self.ctx, self.p
        ctx.prove("the handle is of the group", e.obj(e(p + "hid", v)) is self.x)
        ctx.prove("the rank reported", eq(e(p + "rank", v), self.rank))
        ctx.prove("the element type reported", e.dt_value(e(p + "stored", v)).same(hd.dt(self.k)))
        ctx.prove("the memory type reported", e.dt_value(e(p + "memory", v)).same(hd.dt(self.m if m is None else m)))

    def populate(self, kids):
        """Any number reported by the file; some elements exist"""
        e, ctx = self.e, self.ctx
        self.count = ctx.fresh("reported", lo=0, hi=2**40)
        for n, a in self.x.attrs.entries:
            if a is self.attr:
                a.value = self.count
        for n in kids:
            self.kid(n)
        own = ctx.choose(2, note="opened with: the stored type, a memory type")
        if own:
            v = e(self.p + "open3", self.g, Str(self.n), e.native(self.m))
        else:
            v = e(self.p + "open2", self.g, Str(self.n))
        if not own:
            self.m = self.k
        self.about(v)
        return v

    def shape(self, n="extent"):
        return p03.vec(self.ctx, n, self.rank, 1)


def create(fail, p):
    def run(ctx, P):
        s = S(ctx, P, p, fail != "none", fail == "none")
        threw, v = s.create(fail)
        if not threw:
            ctx.prove("a new value holds nothing", eq(s.e(p + "nr", v), 0))
        ctx.cover("end")
    return run


def locations(fail):
    """Same shape: an array per location"""
    def run(ctx, P):
        s = S(ctx, P, "sv_", fail != "none")
        e = s.e
        s.kid = lambda n: e.W.add_dataset(s.x, n, hd.dt(s.k), [3] + [2] * s.rank, maxdims=[h5.SIZE_MAX] + [2] * s.rank, dcpl={"chunk": [1] * (s.rank + 1)})
        s.create()
        v = s.populate(["5", "7"])
        i = INDICES[ctx.choose(4 if fail == "none" else 1, note="location")]
        n = ctx.fresh("objects", lo=0, hi=2**40)
        shape = s.shape()
        ctx.prove("the number of locations is that of the file", eq(e("sv_nr", v), s.count))
        e.mark()
        e.W.fail = fail
        threw, a = e.throws("sv_expand", v, i, n, e.dims("shape", shape))
        failed, e.W.fail = e.W.failed, "none"
        taken = i == 5
        ctx.prove("expanding fails exactly when the location exists, or the library fails",
                  threw == (taken or failed is not None) or failed == "H5Lexists", failed=str(failed))
        if threw:
            if failed is None:
                e.only("nothing changes", [])
                ctx.prove("the number of locations stays", eq(e("sv_nr", v), s.count))
        else:
            e.only("exactly one array is added, and the number", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
            x = e.at(s.x, str(i))
            md.value_dataset(e, x, [n] + shape, [h5.SIZE_MAX] + shape, s.k)
            ctx.prove("the array returned is the one created", e.obj(e("s_hid", a)) is x)
            ctx.prove("the number of locations has grown by one", And(eq(e.attr(s.x, NR).value, simp(s.count + 1)), eq(e("sv_nr", v), simp(s.count + 1))))
            w = e("sv_open2", s.g, Str(s.n))
            ctx.prove("the number is found again", eq(e("sv_nr", w), simp(s.count + 1)))
            e.W.fail, e.W.failed = ("none" if failed else fail), None
            threw, b = e.throws("sv_at", v, i)
            failed, e.W.fail = e.W.failed, "none"
            ctx.prove("opening fails only when the library does", threw == (failed is not None))
            if not threw:
                ctx.prove("the location opens as the array created", e.obj(e("s_hid", b)) is x)
                ctx.prove("the memory type is that of the value", And(e.dt_value(e("s_memory", a)).same(hd.dt(s.m)), e.dt_value(e("s_memory", b)).same(hd.dt(s.m))))
                ctx.prove("the array has the objects asked for", And(eq(e("s_nr_arrays", b), n), e.eqs(e.items(e("s_array_shape", b)), shape)))
            e.only("opening changes nothing", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
        ctx.cover("end")
    return run


def open_absent(p):
    def run(ctx, P):
        s = S(ctx, P, p, True)
        e = s.e
        s.kid = lambda n: None
        s.create()
        v = s.populate([])
        threw, _ = e.throws(p + "at", v, 3)
        ctx.prove("a location that does not exist does not open", threw)
        threw, _ = e.throws(p + "open2", s.g, Str("absent"))
        ctx.prove("a value that does not exist does not open", threw)
        ctx.cover("end")
    return run


def ids_and_shapes(s, cheap=False):
    """Arrays of any length, of ids and of shapes; the entries of the arbitrary iteration are representatives"""
    ctx, e = s.ctx, s.e
    i = INDICES[1 if cheap else ctx.choose(3, note="id")]
    n = ctx.fresh("objects", lo=0, hi=2**40)
    shapes, shape = md.shapes(e, n, s.rank)
    return i, n, shape, md.entry(e, n, i, 88), shapes


def locations_different(fail):
    """Different shapes: a group of arrays per location"""
    def run(ctx, P):
        s = S(ctx, P, "dv_", fail != "none")
        e = s.e
        s.kid = lambda n: e.W.add(s.x, n)
        s.create()
        v = s.populate(["5", "7"])
        i = INDICES[ctx.choose(4 if fail == "none" else 1, note="location")]
        oid, n, shape, ids, shapes = ids_and_shapes(s, fail != "none")
        e.mark()
        e.W.fail = fail
        e.E.each = True
        threw, a = e.throws("dv_expand", v, i, n, ids, shapes)
        e.E.each = False
        failed, e.W.fail = e.W.failed, "none"
        taken = i == 5
        ctx.prove("expanding fails exactly when the location exists, or the library fails",
                  threw == (taken or failed is not None) or failed == "H5Lexists", failed=str(failed))
        if threw:
            if failed is None:
                e.only("nothing changes", [])
                ctx.prove("the number of locations stays", eq(e("dv_nr", v), s.count))
        else:
            e.only("exactly one location is added, and the number", [("linked", s.x, str(i)), ("attribute", s.x, NR)])
            ctx.prove("the number of locations has grown by one", And(eq(e.attr(s.x, NR).value, simp(s.count + 1)), eq(e("dv_nr", v), simp(s.count + 1))))
            x = e.at(s.x, str(i))
            ctx.prove("the location holds the number of objects asked for", And(eq(e.attr(x, "lue_nr_objects").value, n), eq(e("d_nr", a), n)))
            w = e("dv_open2", s.g, Str(s.n))
            ctx.prove("the number is found again", eq(e("dv_nr", w), simp(s.count + 1)))
            b = e("dv_at", w, i)
            ctx.prove("the location opens as the one created", And(e.obj(e("d_hid", b)) is x, e.obj(e("d_hid", a)) is x))
            ctx.prove("the location has the type and rank of the value", And(e.dt_value(e("d_stored", b)).same(hd.dt(s.k)), eq(e("d_rank", b), s.rank)))
            ctx.prove("the memory type of the location is that of the value", e.dt_value(e("d_memory", a)).same(hd.dt(s.m)))
            y = e.at(x, str(oid))
            if getattr(e.E, "iteration", None) is not None:
                shape = shape(e.E.iteration)
                md.value_dataset(e, y, shape, shape, s.k, "the array of each object")
                ctx.prove("each object is found", e("d_contains", b, oid))
            else:
                ctx.prove("without objects no array is created", not x.links.entries)
        ctx.cover("end")
    return run


PROOFS = [("create, same shape", create("none", "sv_")), ("create, different shape", create("none", "dv_")),
          ("locations, same shape", locations("none")), ("locations, different shape", locations_different("none")),
          ("open absent, same shape", open_absent("sv_")), ("open absent, different shape", open_absent("dv_")),
          ("create, same shape, a call fails", create("one", "sv_")), ("create, different shape, a call fails", create("one", "dv_")),
          ("locations, same shape, a call fails", locations("one")), ("locations, different shape, a call fails", locations_different("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p09.cpp", [seed, tier], wraps=lib.INJECT)
