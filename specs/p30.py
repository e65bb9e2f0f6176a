"""P30: object identities"""
from vc import h5
from vc.interp import Ptr, UNDEF
from vc.smt import And, Implies, Not, Or, eq, lift, simp
from vc.stdlib import CArr, Str
from . import hd, lib, md, p03

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/arrays.cpp"]
U64 = 7
KINDS = [("oid_", "lue_object_id"), ("aid_", "lue_active_object_id"), ("aix_", "lue_active_object_index"), ("asx_", "lue_active_set_index")]


def base(ctx, P):
    e = md.Env(ctx, P)
    top = e.W.add(e.root, "g")
    near = e.W.add(e.root, "near")
    for _, t in KINDS:
        e.W.add_dataset(near, t, hd.dt(U64), [3], maxdims=[h5.SIZE_MAX], dcpl={"chunk": [1]})
    return e, top


def create(fail):
    def run(ctx, P):
        e, top = base(ctx, P)
        p, tag = KINDS[ctx.choose(4, note="collection")]
        others = [t for _, t in KINDS if t != tag] if ctx.choose(2) else []
        for t in others:
            e.W.add_dataset(top, t, hd.dt(U64), [3], maxdims=[h5.SIZE_MAX], dcpl={"chunk": [1]})
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, a = e.throws(p + "create", g)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creation fails only when the library does", threw == (failed is not None) or failed == "H5Lexists", failed=str(failed))
        if not threw:
            e.only("exactly one collection is added", [("linked", top, tag)])
            x = e.at(top, tag)
            md.value_dataset(e, x, [0], [h5.SIZE_MAX], U64, "the collection")
            ctx.prove("the handle is of the collection created", e.obj(e(p + "hid", a)) is x)
            ctx.prove("unsigned 64-bit numbers are stored", And(e.dt_value(e(p + "stored", a)).same(hd.dt(U64)), e.dt_value(e(p + "memory", a)).same(hd.dt(U64))))
            ctx.prove("a new collection is empty", eq(e(p + "nr", a), 0))
        ctx.cover("end")
    return run


def use(fail):
    def run(ctx, P):
        e, top = base(ctx, P)
        p, tag = KINDS[ctx.choose(4, note="collection")]
        count = ctx.fresh("count", lo=1, hi=2**40)
        n = ctx.fresh("added", lo=0, hi=2**40)
        for _, t in KINDS:
            x = e.W.add_dataset(top, t, hd.dt(U64), [count if t == tag else 5], maxdims=[h5.SIZE_MAX], dcpl={"chunk": [1]})
            if t == tag:
                mine = x
        g = e.group(top)
        a = e(p + "open", g)
        ctx.prove("the collection opened is the one in the group", e.obj(e(p + "hid", a)) is mine)
        ctx.prove("unsigned 64-bit numbers are transferred", And(e.dt_value(e(p + "stored", a)).same(hd.dt(U64)), e.dt_value(e(p + "memory", a)).same(hd.dt(U64))))
        ctx.prove("the size is that of the file", eq(e(p + "nr", a), count))
        e.mark()
        e.W.fail = fail
        op = ctx.choose(3, note="expand, read one, write a range")
        i, j = ctx.fresh("first", lo=0), ctx.fresh("last", lo=0)
        ctx.assume(And(i < j, j <= count))
        buf = Ptr(CArr([UNDEF] * 4), 0)
        if op == 0:
            threw, _ = e.throws(p + "expand", a, n)
        elif op == 1:
            threw, _ = e.throws(p + "read_one", a, i, buf)
        else:
            threw, _ = e.throws(p + "write_range", a, e("range", i, j), buf)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None), failed=str(failed))
        if op == 0:
            ctx.prove("the collection grows by the number asked for, and keeps the rest", e.eqs(mine.dims, [count if threw else simp(count + n)]))
            ctx.prove("no other collection changes", all(c[0] == "resized" and c[1] is mine for c in e.changes()))
            ctx.prove("the size reported", eq(e(p + "nr", a), mine.dims[0]))
            ctx.prove("the size found when opened again", eq(e(p + "nr", e(p + "open", g)), mine.dims[0]))
        else:
            if not threw:
                class S: pass
                s = S()
                s.ctx, s.e, s.g, s.k, s.r, s.dims, s.buf = ctx, e, mine, U64, 1, [count], buf
                c = [1] if op == 1 else [simp(j - i)]
                p03.one(s, "H5Dread" if op == 1 else "H5Dwrite", U64, ([i], [1], c), c)
            e.only("no other collection changes", [("written", mine, tag)] if op == 2 and not threw else [])
        ctx.cover("end")
    return run


def tracker(fail):
    def run(ctx, P):
        e, top = base(ctx, P)
        new = ctx.choose(2)
        if not new:
            t = e.W.add(top, "lue_object_tracker")
            for _, x in KINDS[1:]:
                e.W.add_dataset(t, x, hd.dt(U64), [ctx.fresh("n", lo=0, hi=2**40)], maxdims=[h5.SIZE_MAX], dcpl={"chunk": [1]})
            # the same collections in the group itself: not those of the tracker
            for _, x in KINDS:
                e.W.add_dataset(top, x, hd.dt(U64), [3], maxdims=[h5.SIZE_MAX], dcpl={"chunk": [1]})
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, a = e.throws("tracker_create" if new else "tracker_open", g)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None) or failed == "H5Lexists", failed=str(failed))
        if not threw:
            e.only("only a tracker is added", [("linked", top, "lue_object_tracker")] if new else [])
            t = e.at(top, "lue_object_tracker")
            ctx.prove("the handle is of the tracker in the group", e.obj(e("tracker_hid", a)) is t)
            ctx.prove("a tracker has three collections", sorted(t.links.names()) == ["lue_active_object_id", "lue_active_object_index", "lue_active_set_index"])
            for fn, x in (("tracker_active_id", "lue_active_object_id"), ("tracker_active_index", "lue_active_object_index"), ("tracker_active_set", "lue_active_set_index")):
                ctx.prove("each collection is the one of its name in the group of the tracker", e.obj(e(fn, a)) is e.at(t, x), function=fn)
                if new:
                    md.value_dataset(e, e.at(t, x), [0], [h5.SIZE_MAX], U64, "the collection")
        ctx.cover("end")
    return run


PROOFS = [("create", create("none")), ("use", use("none")), ("tracker", tracker("none")),
          ("create, a call fails", create("one")), ("use, a call fails", use("one")), ("tracker, a call fails", tracker("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p30.cpp", [seed, tier], wraps=lib.INJECT)
