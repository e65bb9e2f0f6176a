"""P15: space domains"""
from vc import h5
from vc.smt import And, Not, eq, simp
from . import hd, lib, md
from .p12 import ASPECTS

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp"]
TAG, ITEMS, MOBILITY, TYPE = "lue_space_domain", "lue_coordinates", "lue_mobility", "lue_space_domain_item_type"
# by mobility and kind of item
DRIVERS = {(0, 0): "still_point", (0, 1): "still_box", (1, 0): "moving_point", (1, 1): "moving_box"}
FREE = h5.SIZE_MAX


def choose(ctx):
    m, t = ctx.choose(2, note="mobility"), ctx.choose(2, note="kind of item")
    return m, t, DRIVERS[m, t]


def others(e):
    d = e.W.add(e.W.add(e.root, "near"), TAG)
    e.W.add_attr(d, TYPE, "point")
    e.W.add_attr(d, MOBILITY, "mobile")
    e.W.add_dataset(d, ITEMS, hd.dt(1), [4, 7], maxdims=[FREE, 7], dcpl={"chunk": [1, 1]})


def existing(e, ctx, top, m, t, k, width, n):
    d = e.W.add(top, TAG)
    e.W.add_attr(d, MOBILITY, ASPECTS[4][2][m])
    e.W.add_attr(d, TYPE, ASPECTS[5][2][t])
    e.W.add_dataset(d, ITEMS, hd.dt(k), [n, width], maxdims=[FREE, width], dcpl={"chunk": [1, 1]})
    return d


def config(e, c, m, t):
    return And(eq(e("sc_mobility", c), m), eq(e("sc_item", c), t))


def look(e, ctx, x, p, v, k, mem, width, n, what):
    ctx.prove("the items %s are those of the domain" % what, e.obj(e(p + "_hid", v)) is e.at(x, ITEMS))
    ctx.prove("the coordinates per item %s" % what, e.eqs(e.items(e(p + "_shape", v)), [width]))
    ctx.prove("the type of the coordinates %s" % what, e.dt_value(e(p + "_stored", v)).same(hd.dt(k)))
    ctx.prove("the memory type %s" % what, e.dt_value(e(p + "_memory", v)).same(hd.dt(mem)))
    ctx.prove("the number of items %s" % what, And(eq(e(p + "_nr", v), n), eq(e(p + "_arrays", v), n)))


def create(fail):
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        others(e)
        top = e.W.add(e.root, "g")
        m, t, p = choose(ctx)
        k = ctx.choose(10, note="type of the coordinates") if fail == "none" else 9
        r = ctx.fresh("rank", lo=1, hi=2**31)
        width = simp(2 * r) if t else r
        taken = fail == "none" and k == 9 and ctx.choose(2, note="before: no domain, one")
        if taken:
            existing(e, ctx, top, m, t, 9, 3, 4)
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, d = e.throws("space_create", g, e("space_configuration", m, t), e.native(k), r)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does, or there is one", threw == bool(failed or taken) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if taken:
            e.only("the domain there stays", [])
        elif not threw:
            e.only("only a space domain is added", [("linked", top, TAG)])
            x = e.at(top, TAG)
            for n, i in ((MOBILITY, ASPECTS[4][2][m]), (TYPE, ASPECTS[5][2][t])):
                a = e.attr(x, n)
                ctx.prove("the configuration is stored", a is not None and eq(a.value, i), attribute=n)
            ctx.prove("only the items are created", list(map(str, x.links.names())) == [ITEMS])
            md.value_dataset(e, e.at(x, ITEMS), [0, width], [FREE, width], k, "the array of items")
            ctx.prove("the handle is of the domain", e.obj(e("space_hid", d)) is x)
            ctx.prove("the configuration reported", config(e, e("space_config", d), m, t))
            ctx.prove("the domain exists", e("space_exists", g))
            look(e, ctx, x, p, e(p + "1", d), k, k, width, 0, "of a new domain")
            e.mark()
            o = e("space_open", g)
            ctx.prove("the domain opened is the one created", e.obj(e("space_hid", o)) is x)
            ctx.prove("the configuration found again", config(e, e("space_config", o), m, t))
            e.only("opening changes nothing", [])
        ctx.cover("end")
    return run


def use(fail):
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        others(e)
        top = e.W.add(e.root, "g")
        m, t, p = choose(ctx)
        k = ctx.choose(10, note="type of the coordinates") if fail == "none" else 3
        mem = k if ctx.choose(2) == 0 else (k + 1) % 10
        width = ctx.fresh("width", lo=1, hi=2**31)
        n = ctx.fresh("items", lo=0, hi=2**40)
        x = existing(e, ctx, top, m, t, k, width, n)
        g = e.group(top)
        e.mark()
        d = e("space_open", g)
        ctx.prove("the domain is the one in the group", e.obj(e("space_hid", d)) is x)
        ctx.prove("the configuration", config(e, e("space_config", d), m, t))
        ctx.prove("the domain exists", e("space_exists", g))
        v = e(p + "1", d) if mem == k else e(p + "2", d, e.native(mem))
        look(e, ctx, x, p, v, k, mem, width, n, "stored")
        e.only("opening changes nothing", [])
        a = ctx.fresh("added", lo=0, hi=2**40)
        e.W.fail = fail
        threw, _ = e.throws(p + "_expand", v, a)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None), failed=str(failed))
        after = n if threw else simp(n + a)
        ctx.prove("only the items grow", all(c == "resized" and o is e.at(x, ITEMS) for c, o, _ in e.changes()))
        ctx.prove("the extents afterwards", e.eqs(e.at(x, ITEMS).dims, [after, width]))
        look(e, ctx, x, p, v, k, mem, width, after, "afterwards")
        w = e(p + "1", e("space_open", g))
        look(e, ctx, x, p, w, k, k, width, after, "found again")
        ctx.cover("end")
    return run


def absent(ctx, P):
    e = md.Env(ctx, P)
    e.E.check_asserts = "refuse"
    others(e)
    top = e.W.add(e.root, "g")
    e.W.add(top, "lue_time_domain")
    g = e.group(top)
    e.mark()
    ctx.prove("there is no domain", Not(e("space_exists", g)))
    threw, _ = e.throws("space_open", g)
    ctx.prove("a domain that does not exist does not open", threw)
    e.only("nothing changes", [])
    ctx.cover("end")


PROOFS = [("create", create("none")), ("use", use("none")), ("absent", absent),
          ("create, a call fails", create("one")), ("use, a call fails", use("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p15.cpp", [seed, tier], wraps=lib.INJECT)
