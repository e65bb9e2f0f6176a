"""P17: properties of six kinds"""
from vc import h5
from vc.smt import And, Not, Or, eq, simp
from vc.stdlib import Str
from . import hd, lib, md, objects as ob
from .p06 import text

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp", "drv/objects.cpp"]
SAME, DIFFERENT, CONSTANT, VARIABLE = 0, 1, 0, 1
# shape per object, variability of the value and of the shape, for each kind
CLASS = [(SAME, CONSTANT, None), (SAME, VARIABLE, CONSTANT), (SAME, VARIABLE, VARIABLE),
         (DIFFERENT, CONSTANT, None), (DIFFERENT, VARIABLE, CONSTANT), (DIFFERENT, VARIABLE, VARIABLE)]
# ways of adding: driver, kind, what is given
WAYS = [("properties_add", 0, None), ("properties_add_shape", 0, "shape"), ("k0_add", 0, None), ("k0_add_shape", 0, "shape"),
        ("k1_add", 1, None), ("k1_add_shape", 1, "shape"), ("k2_add_rank", 2, "rank"), ("properties_add_rank", 3, "rank"),
        ("k4_add_rank", 4, "rank"), ("k5_add_rank", 5, "rank")]


class World:
    """Properties with one of each kind, or none, and others elsewhere"""

    def __init__(self, ctx, P, full):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        self.top = e.W.add(e.root, "g")
        self.x = ob.properties(e, self.top)
        self.kinds = [e.at(self.x, k) for k in ob.KINDS]
        self.there = {}
        if full:
            for k in range(6):
                # element types and ranks that differ
                self.there["p%d" % k] = (k, ob.prop(e, self.kinds[k], k, "p%d" % k, "about %d" % k if k % 2 else None, k=3 + k, dims=(2 + k,), rank=1 + k % 3))
            near = ob.properties(e, e.W.add(e.root, "near"))
            ob.prop(e, e.at(near, ob.KINDS[0]), 0, "n")

    def open(self):
        return self.e("properties_open", self.e.group(self.top))

    def look(self, p, there, what):
        """Everything reported of properties p"""
        e, ctx = self.e, self.ctx
        ctx.prove("the size %s counts every property once" % what, And(eq(e("properties_size", p), len(there)), eq(e("properties_empty", p), not there)))
        ctx.prove("the handle %s" % what, e.obj(e("properties_hid", p)) is self.x)
        for k in range(6):
            mine = {n: x for n, (j, x) in there.items() if j == k}
            got = [e.text(n) for n in e.items(e("k%d_names_of" % k, p))]
            ctx.prove("the names of each kind %s" % what, len(got) == len(mine) and all(any(ctx.entails(eq(n, m)) for m in got) for n in mine), kind=k)
            c = e("k%d_of" % k, p)
            ctx.prove("the collection of each kind %s" % what, e.obj(e("k%d_hid" % k, c)) is self.kinds[k], kind=k)
            for n, x in mine.items():
                self.classes(p, n, k, what)
                threw, v = e.throws("k%d_get" % k, c, Str(n))
                ctx.prove("each property is in the collection of its kind %s" % what, not threw and e.obj(e("k%d_element_hid" % k, v)) is x, kind=k)

    def classes(self, p, n, k, what):
        e, ctx = self.e, self.ctx
        ctx.prove("the properties are found %s" % what, e("properties_contains", p, Str(n)), kind=k)
        for fn, want in zip(("shape_per_object", "value_variability", "shape_variability"), CLASS[k]):
            threw, v = e.throws("properties_" + fn, p, Str(n))
            ctx.prove("the classification of each property %s" % what, threw if want is None else not threw and eq(v, want), kind=k, of=fn)
        threw, g = e.throws("properties_group", p, Str(n))
        ctx.prove("the group of the collection of each property %s" % what, not threw and e.obj(g) is self.kinds[k], kind=k)

    def absent(self, p, n, what):
        e, ctx = self.e, self.ctx
        ctx.prove("a name without property is not found %s" % what, Not(e("properties_contains", p, Str(n))))
        for fn in ("shape_per_object", "value_variability", "shape_variability", "group"):
            ctx.prove("a name without property is refused %s" % what, e.throws("properties_" + fn, p, Str(n))[0], of=fn)

    def element(self, v, k, x, t, m, dims, description, what):
        """What a property reports"""
        e, ctx = self.e, self.ctx
        d = "k%d_" % k
        g = e(d + "group", v)
        ctx.prove("the name %s" % what, eq(e.text(e("group_name", g)), x.name))
        ctx.prove("the description %s" % what, eq(e.text(e("group_description", g)), "" if description is None else description))
        ctx.prove("the element type %s" % what, And(e.dt_value(e(d + "stored", v)).same(hd.dt(t)), e.dt_value(e(d + "memory", v)).same(hd.dt(m))), kind=k)
        if k < 2:
            ctx.prove("the shape of the values %s" % what, e.eqs(e.items(e(d + "shape", v)), dims), kind=k)
        else:
            ctx.prove("the rank of the values %s" % what, eq(e(d + "rank", v), dims), kind=k)
        ctx.prove("the value %s" % what, e.obj(e(d + "value_hid", v)) is e.at(x, "lue_value"), kind=k)


def stored(full):
    def run(ctx, P):
        w = World(ctx, P, full)
        e = w.e
        e.mark()
        p = w.open()
        w.look(p, w.there, "stored")
        w.absent(p, "n", "stored")
        for n, (k, x) in w.there.items():
            v = e("k%d_element" % k, e.group(w.kinds[k]), Str(n))
            w.element(v, k, x, 3 + k, 3 + k, [2 + k] if k < 2 else 1 + k % 3, "about %d" % k if k % 2 else None, "stored")
        e.only("opening and asking changes nothing", [])
        ctx.cover("end")
    return run


def add(way, fail, full):
    fn, kind, given = WAYS[way]

    def run(ctx, P):
        w = World(ctx, P, full)
        e = w.e
        taken = full and fail == "none" and ctx.choose(7, note="name: free, of kind")
        n = "p%d" % (taken - 1) if taken else "n"
        if not full and fail == "none":
            if given == "rank":
                n = ("n", "lue_value", "0", "a b")[ctx.choose(4, note="name")]
            else:
                n = ob.any_name(ctx, "name")
                w.kinds[kind].links.absent.append(n)
        plain = fail == "none" and not taken and (given != "rank" or n == "n")
        t = ctx.choose(10, note="type") if plain and not full else 5
        d = text(ctx, "description") if (ctx.choose(2, note="description") if fail == "none" and not taken else 1) else None
        dims = []
        if given == "shape":
            dims = [ctx.fresh("extent_%d" % i, lo=1, hi=2**31) for i in range((1 + ctx.choose(3)) if fail == "none" and not taken else 1)]
        elif given == "rank":
            dims = 1 + ctx.choose(4, note="rank") if plain else 2
        p = w.open()
        args = [p, Str(n), e.native(t)] + ([e.dims("shape", dims)] if given == "shape" else [dims] if given == "rank" else []) + [Str("" if d is None else d)]
        e.mark()
        e.W.fail = fail
        threw, v = e.throws(fn, *args)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("adding fails exactly when the name is taken, or the library fails", threw == bool(taken or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        there = dict(w.there)
        if taken:
            e.only("a name that is taken, by whatever kind, changes nothing", [])
            w.look(p, there, "after a refusal")
            w.look(w.open(), there, "after a refusal, found again")
        elif threw:
            ctx.prove("nothing but the new property changes", all(a == "linked" and b is w.kinds[kind] and ctx.entails(eq(c, n)) for a, b, c in e.changes()))
        else:
            e.only("exactly one property is added, to the collection that fits", [("linked", w.kinds[kind], n)])
            x = e.at(w.kinds[kind], n)
            there[n] = (kind, x)
            if failed is None:
                w.element(v, kind, x, t, t, dims, d, "of a new property")
                for q, what in ((p, "after adding"), (w.open(), "found again")):
                    if full:
                        w.look(q, there, what)
                        w.absent(q, "other", what)
                    else:
                        w.classes(q, n, kind, what)
                    threw, u = e.throws("k%d_get" % kind, e("k%d_of" % kind, q), Str(n))
                    ctx.prove("the new property is found %s" % what, not threw)
                    if not threw:
                        w.element(u, kind, x, t, t, dims, d, "of a property " + what)
                m = (t + 3) % 10
                w.element(e("k%d_element" % kind, e.group(w.kinds[kind]), Str(n)), kind, x, t, t, dims, d, "of a property opened by name")
                w.element(e("k%d_element2" % kind, e.group(w.kinds[kind]), Str(n), e.native(m)), kind, x, t, m, dims, d, "of a property opened with another type in memory")
                e.only("asking changes nothing", [("linked", w.kinds[kind], n)])
        ctx.cover("end")
    return run


def create(fail):
    """The collections of a new property set"""
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        top = e.W.add(e.root, "g")
        y = ob.properties(e, e.W.add(e.root, "near"))
        taken = fail == "none" and ctx.choose(2, note="before: none, some")
        if taken:
            ob.properties(e, top)
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, p = e.throws("properties_create", g)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating fails exactly when there are some, or the library fails", threw == bool(taken or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if taken:
            e.only("nothing changes", [])
        elif not threw:
            e.only("exactly the group of the collections is added", [("linked", top, ob.PROPERTIES)])
            x = e.at(top, ob.PROPERTIES)
            ob.same_tree(e, x, y, "the new collections")
            if failed is None:
                ctx.prove("the handle is of the new group", e.obj(e("properties_hid", p)) is x)
                ctx.prove("the new collections are empty", And(eq(e("properties_size", p), 0), e("properties_empty", p), eq(e("properties_size", e("properties_open", g)), 0)))
        ctx.cover("end")
    return run


PROOFS = [("create", create("none")), ("none", stored(False)), ("one of each kind", stored(True))] + \
    [("add by %s" % WAYS[i][0], add(i, "none", False)) for i in range(len(WAYS))] + \
    [("add by %s to others" % WAYS[i][0], add(i, "none", True)) for i in range(len(WAYS))] + \
    [("create, a call fails", create("one"))] + [("add by %s, a call fails" % WAYS[i][0], add(i, "one", False)) for i in (1, 5, 6, 7, 8, 9)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p17.cpp", [seed, tier], wraps=lib.INJECT)
