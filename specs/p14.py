"""P14: time domains"""
from vc import h5
from vc.smt import And, Not, eq, simp
from . import hd, lib, md
from .p12 import ASPECTS
from .p13 import Clock, count

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp"]
U64 = 7
TAG, ITEMS, COUNTS, TYPE = "lue_time_domain", "lue_coordinates", "lue_time_discretization", "lue_time_domain_item_type"
# driver of the items, of the dataset, of the number, coordinates of one
KINDS = [("time_points", "point_items", "nr_points", 1), ("time_boxes", "box_items", "nr_boxes", 2), ("time_cells", "cell_items", "nr_cells", 2)]


def arrays(kind):
    return {ITEMS: [KINDS[kind][3]]} | ({COUNTS: []} if kind == 2 else {})


def others(e):
    """Domains elsewhere: in a group nearby, and below the one under test"""
    for p in (e.W.add(e.root, "near"),):
        d = e.W.add(p, TAG)
        e.W.add_attr(d, TYPE, "point")
        for n in (ITEMS, COUNTS):
            e.W.add_dataset(d, n, hd.dt(U64), [4, 1], maxdims=[h5.SIZE_MAX, 1], dcpl={"chunk": [1, 1]})


def existing(e, ctx, top, kind, c):
    """A group with a time domain, as stored, with any number of items"""
    d = e.W.add(top, TAG)
    e.W.add_attr(d, TYPE, ASPECTS[3][2][kind])
    e.W.add_attr(d, "lue_epoch_kind", ASPECTS[10][2][c.kind])
    if c.origin is not None:
        e.W.add_attr(d, "lue_epoch_origin", c.origin)
    else:
        d.attrs.absent.append("lue_epoch_origin")
    if c.calendar is not None:
        e.W.add_attr(d, "lue_epoch_calendar", "gregorian")
    else:
        d.attrs.absent.append("lue_epoch_calendar")
    e.W.add_attr(d, "lue_time_unit", ASPECTS[8][2][c.unit])
    e.W.add_attr(d, "lue_nr_time_units", c.units, hd.dt(U64))
    n = {}
    for a, s in arrays(kind).items():
        n[a] = ctx.fresh("nr_%s" % a, lo=0, hi=2**40)
        e.W.add_dataset(d, a, hd.dt(U64), [n[a]] + s, maxdims=[h5.SIZE_MAX] + s, dcpl={"chunk": [1] * (1 + len(s))})
    return d, n


def items(e, kind, d):
    """Datasets of the items"""
    v = e(KINDS[kind][0], d)
    out = {ITEMS: e(KINDS[kind][1], v)}
    if kind == 2:
        out[COUNTS] = e("cell_counts", v)
    return v, out


def numbers(e, kind, v):
    out = {ITEMS: e(KINDS[kind][2], v)}
    if kind == 2:
        out[COUNTS] = e("nr_counts", v)
    return out


def look(e, ctx, x, kind, d, n, what):
    """The items of domain d are those stored in group x"""
    v, a = items(e, kind, d)
    for t, m in numbers(e, kind, v).items():
        ctx.prove("the number of items %s" % what, eq(m, n[t]), of=t)
    for t, y in a.items():
        ctx.prove("the items %s are those of the domain" % what, e.obj(e("value_hid", y)) is e.at(x, t), of=t)
        ctx.prove("the coordinates per item %s" % what, e.eqs(e.items(e("value_shape", y)), arrays(kind)[t]), of=t)
        ctx.prove("items %s are transferred as numbers of ticks" % what, And(e.dt_value(e("value_memory", y)).same(hd.dt(U64)), e.dt_value(e("value_stored", y)).same(hd.dt(U64))), of=t)
    return v, a


def create(fail):
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        others(e)
        top = e.W.add(e.root, "g")
        c = Clock(e, ctx, units=1, how=[1, 3][ctx.choose(2)] if fail == "none" else 3, kinds=1)
        kind = ctx.choose(3, note="items")
        taken = fail == "none" and ctx.choose(2, note="before: no domain, one")
        if taken:
            existing(e, ctx, top, kind, c)
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, d = e.throws("time_create", g, e("time_configuration", kind), c.v)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does, or there is one", threw == bool(failed or taken) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if taken:
            e.only("the domain there stays", [])
        elif not threw:
            e.only("only a time domain is added", [("linked", top, TAG)])
            x = e.at(top, TAG)
            a = e.attr(x, TYPE)
            ctx.prove("the kind of items is stored", a is not None and eq(a.value, ASPECTS[3][2][kind]))
            ctx.prove("only the items are created", sorted(map(str, x.links.names())) == sorted(arrays(kind)))
            for t, s in arrays(kind).items():
                md.value_dataset(e, e.at(x, t), [0] + s, [h5.SIZE_MAX] + s, U64, "the array of items")
            ctx.prove("the handle is of the domain", e.obj(e("time_hid", d)) is x)
            ctx.prove("the kind of items reported", eq(e("tc_item", e("time_config", d)), kind))
            if failed is None:
                c.same(e("time_clock", d), "the domain")
                look(e, ctx, x, kind, d, {t: 0 for t in arrays(kind)}, "of a new domain")
                ctx.prove("the domain exists", And(e("time_exists", g), Not(e("time_linked", g))))
            e.mark()
            o = e("time_open", g)
            ctx.prove("the domain opened is the one created", e.obj(e("time_hid", o)) is x)
            ctx.prove("the kind of items found again", eq(e("tc_item", e("time_config", o)), kind))
            e.only("opening changes nothing", [])
        ctx.cover("end")
    return run


def use(fail):
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        others(e)
        top = e.W.add(e.root, "g")
        c = Clock(e, ctx, units=len(ASPECTS[8][2]) if fail == "none" else 1, how=None if fail == "none" else 3)
        kind = ctx.choose(3, note="items") if fail != "none" or c.unit == 6 else 2
        x, n = existing(e, ctx, top, kind, c)
        g = e.group(top)
        e.mark()
        d = e("time_open", g)
        ctx.prove("the domain is the one in the group", e.obj(e("time_hid", d)) is x)
        ctx.prove("the kind of items", eq(e("tc_item", e("time_config", d)), kind))
        c.same(e("time_clock", d), "the domain")
        ctx.prove("the domain exists", And(e("time_exists", g), Not(e("time_linked", g))))
        v, a = look(e, ctx, x, kind, d, n, "stored")
        e.only("opening changes nothing", [])
        which = [ITEMS, COUNTS][ctx.choose(2) if kind == 2 else 0]
        m = ctx.fresh("added", lo=0, hi=2**40)
        e.W.fail = fail
        threw, _ = e.throws("value_expand", a[which], m)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None), failed=str(failed))
        after = dict(n)
        if not threw:
            after[which] = simp(n[which] + m)
        ctx.prove("only the items expanded grow", all(k == "resized" and o is e.at(x, which) for k, o, _ in e.changes()))
        for t, s in arrays(kind).items():
            ctx.prove("the extents afterwards", e.eqs(e.at(x, t).dims, [after[t]] + s), of=t)
        for w in (v, items(e, kind, e("time_open", g))[0]):
            for t, k in numbers(e, kind, w).items():
                ctx.prove("the number of items afterwards", eq(k, after[t]), of=t)
        ctx.cover("end")
    return run


def linked(fail):
    """A domain shared with another group"""
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        others(e)
        top = e.W.add(e.root, "g")
        c = Clock(e, ctx, units=1, how=3, kinds=1)
        kind = ctx.choose(3, note="items")
        x, n = existing(e, ctx, top, kind, c)
        other = e.W.add([e.root, top][ctx.choose(2)], "other")
        g, h = e.group(top), e.group(other)
        d = e("time_open", g)
        ctx.prove("there is no domain yet", And(Not(e("time_exists", h)), Not(e("time_linked", h))))
        threw, _ = e.throws("time_open", h)
        ctx.prove("a domain that does not exist does not open", threw)
        e.mark()
        e.W.fail = fail
        threw, _ = e.throws("time_link", h, d)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None), failed=str(failed))
        if threw:
            ctx.prove("nothing but the link changes", all(k == "linked" and o is other and n == TAG for k, o, n in e.changes()))
        else:
            e.only("only a link is added", [("linked", other, TAG)])
            ctx.prove("the domain is linked to", And(e("time_linked", h), Not(e("time_linked", g))))
            o = e("time_open", h)
            ctx.prove("the domain found through the link is the one linked to", e.obj(e("time_hid", o)) is x)
            look(e, ctx, x, kind, o, n, "found through the link")
            c.same(e("time_clock", o), "the domain found through the link")
        ctx.cover("end")
    return run


PROOFS = [("create", create("none")), ("use", use("none")), ("shared", linked("none")),
          ("create, a call fails", create("one")), ("use, a call fails", use("one")), ("shared, a call fails", linked("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p14.cpp", [seed, tier], wraps=lib.INJECT)
