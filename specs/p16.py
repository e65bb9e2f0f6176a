"""P16: property sets"""
from vc import h5
from vc.smt import And, Not, eq, simp
from vc.stdlib import Str
from . import hd, lib, md, objects as ob
from .p12 import ASPECTS
from .p13 import Clock

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp", "drv/objects.cpp"]
# overloads: time (none, own, shared), tracker (own, shared), space
OVERLOADS = [("sets_add", None, False, False), ("sets_add_space", None, False, True),
             ("sets_add_time", "own", False, False), ("sets_add_shared", "shared", False, False),
             ("sets_add_time_tracked", "own", True, False), ("sets_add_shared_tracked", "shared", True, False),
             ("sets_add_time_space", "own", False, True), ("sets_add_shared_space", "shared", False, True),
             ("sets_add_shared_tracked_space", "shared", True, True)]
NAME = "n"


class World:
    """A collection with a set that has a domain and a tracker, one that shares these, and a set elsewhere"""

    def __init__(self, ctx, P, small=False, empty=False):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        self.p = e.W.add(e.root, "g")
        self.x = e.W.add(self.p, "sets")
        self.domain = self.tracked = None
        if empty:
            return
        self.owner = ob.property_set(e, self.x, "owner", time="own", space=True)
        self.domain, self.tracked = e.at(self.owner, ob.TIME), e.at(self.owner, ob.TRACKER)
        if small:
            return
        self.sharer = ob.property_set(e, self.x, "sharer", time=self.domain, tracked=self.tracked)
        self.other = ob.property_set(e, e.W.add(e.W.add(e.root, "near"), "sets"), NAME, time="own", space=True)

    def look(self, s, x, time, tracker, space, what, owns_time, owns_tracker):
        """What set s of group x reports"""
        e, ctx = self.e, self.ctx
        ctx.prove("the handle %s is of the set" % what, e.obj(e("set_hid", s)) is x)
        ctx.prove("the presence of domains %s" % what, And(eq(e("set_has_time", s), time is not None), eq(e("set_has_space", s), space is not None)))
        ctx.prove("a set %s owns what was created with it" % what, And(eq(e("set_owns_time", s), owns_time), eq(e("set_owns_tracker", s), owns_tracker)))
        ctx.prove("the tracker %s" % what, e.obj(e("tracker_id", e("set_tracker", s))) is tracker)
        for got, want, fn in ((time, "set_has_time", "time"), (space, "set_has_space", "space")):
            if got is not None and ctx.entails(e(want, s)):
                ctx.prove("the %s domain %s" % (fn, what), e.obj(e(fn + "_hid", e("set_" + fn, s))) is got)
        ctx.prove("the properties %s" % what, e.obj(e("properties_hid", e("set_properties", s))) is e.at(x, ob.PROPERTIES))


def opened(ctx, P):
    """Sets as stored"""
    w = World(ctx, P)
    e = w.e
    time = [None, "own", "shared", "chain"][ctx.choose(4, note="time domain")]
    shared, space = ctx.choose(2, note="tracker"), ctx.choose(2, note="space domain")
    domain = w.domain if time in ("shared", "chain") else None
    x = ob.property_set(e, w.x, NAME, time=domain if domain else time, space=bool(space), tracked=w.tracked if shared else None)
    if time == "chain":
        # the path given leads to the domain by way of another set
        for k in x.links.entries:
            if k[0] == ob.TIME:
                k[1] = h5.Soft(w.sharer.path + "/" + ob.TIME)
    e.mark()
    g = e.group(w.x)
    way = ctx.choose(2, note="opened by itself, in its collection")
    s = e("set_open", g, Str(NAME)) if way == 0 else e("sets_at", e("sets_open", e.group(w.p), Str("sets")), Str(NAME))
    w.look(s, x, domain or (e.at(x, ob.TIME) if time else None), w.tracked if shared else e.at(x, ob.TRACKER), e.at(x, ob.SPACE) if space else None,
           "found", time == "own", not shared)
    e.only("opening changes nothing", [])
    ctx.cover("end")


def create(nr, fail):
    def run(ctx, P):
        fn, time, tracked, space = OVERLOADS[nr]
        w = World(ctx, P, fail != "none", fail != "none" and not tracked)
        e = w.e
        y = ob.property_set(e, e.W.add(e.root, "expected"), "x")
        n = NAME
        taken = fail == "none" and nr in (0, 8) and ctx.choose(2, note="name: free, taken")
        if taken:
            n = "owner"
        c = Clock(e, ctx, units=1, how=3, kinds=1)
        kind = (0 if space else ctx.choose(3, note="items in time")) if time == "own" and fail == "none" else 0
        m = ctx.choose(4, note="items in space") if space and fail == "none" else 0
        k = [9, 8, 3, 7][m]
        r = ctx.fresh("rank", lo=1, hi=2**31)
        sets = e("sets_open", e.group(w.p), Str("sets"))
        via = 0
        if time == "shared" or tracked:
            via = ctx.choose(2, note="shared through its owner, another set") if fail == "none" else 0
        o = e("set_open", e.group(w.x), Str(["owner", "sharer"][via])) if time == "shared" or tracked else None
        args = [sets, Str(n)]
        if time == "own":
            args += [e("time_configuration", kind), c.v]
        if time == "shared":
            args += [e("set_time", o)]
        if tracked:
            args += [e("set_tracker", o)]
        if space:
            args += [e("space_configuration", m // 2, m % 2), e.native(k), r]
        e.mark()
        e.W.fail = fail
        threw, s = e.throws(fn, *args)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating fails exactly when the name is taken, or the library fails", threw == bool(taken or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if taken:
            e.only("the set there stays as it is", [])
        elif threw:
            ctx.prove("nothing but the new set changes", all(a == "linked" and b is w.x and d == n for a, b, d in e.changes()))
        else:
            e.only("exactly one set is added", [("linked", w.x, n)])
            x = e.at(w.x, n)
            want = {ob.TRACKER, ob.PROPERTIES} | ({ob.TIME} if time else set()) | ({ob.SPACE} if space else set())
            ctx.prove("a new set has the parts it was created with", set(map(str, x.links.names())) == want and not x.attrs.entries, got=sorted(map(str, x.links.names())))
            for part in [ob.PROPERTIES] + ([] if tracked else [ob.TRACKER]):
                ob.same_tree(e, e.at(x, part), e.at(y, part), "a new set")
            if time == "own":
                d = e.at(x, ob.TIME)
                ctx.prove("a time domain of the set itself", d is not None and d is not w.domain and d.kind == "group")
                a = e.attr(d, "lue_time_domain_item_type")
                ctx.prove("the kind of items in time is stored", a is not None and eq(a.value, ASPECTS[3][2][kind]))
            if space:
                d = e.at(x, ob.SPACE)
                for i, v in ((4, m // 2), (5, m % 2)):
                    a = e.attr(d, ASPECTS[i][1])
                    ctx.prove("the configuration in space is stored", a is not None and eq(a.value, ASPECTS[i][2][v]))
                md.value_dataset(e, e.at(d, "lue_coordinates"), [0, simp(2 * r) if m % 2 else r], [h5.SIZE_MAX, simp(2 * r) if m % 2 else r], k, "the array of coordinates")
            if failed is None:
                for v, what in ((s, "created"), (e("set_open", e.group(w.x), Str(n)), "found again"), (e("sets_at", sets, Str(n)), "found in its collection")):
                    w.look(v, x, w.domain if time == "shared" else e.at(x, ob.TIME) if time else None, w.tracked if tracked else e.at(x, ob.TRACKER),
                           e.at(x, ob.SPACE) if space else None, what, time == "own", not tracked)
                    if time == "own":
                        ctx.prove("the configuration in time %s" % what, eq(e("tc_item", e("time_config", e("set_time", v))), kind))
                        c.same(e("time_clock", e("set_time", v)), "a set " + what)
                e.only("looking changes nothing", [("linked", w.x, n)])
        ctx.cover("end")
    return run


PROOFS = [("stored sets", opened)] + [("create, %s" % OVERLOADS[i][0], create(i, "none")) for i in range(len(OVERLOADS))] + \
    [("create, %s, a call fails" % OVERLOADS[i][0], create(i, "one")) for i in (2, 5)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p16.cpp", [seed, tier], wraps=lib.INJECT)
