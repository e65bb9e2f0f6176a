"""P18: discretizations"""
from vc import h5
from vc.smt import And, Not, eq
from vc.stdlib import Str
from . import hd, lib, md, objects as ob

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp", "drv/objects.cpp"]
ASPECT = {"time": "lue_time_discretization", "space": "lue_space_discretization"}
LINK = {"time": "lue_time_discretization_property", "space": "lue_space_discretization_property"}
PRESENCE = "lue_presence_discretization_property"
OTHER = {"time": "space", "space": "time"}
TARGETS = ["beside", "of another kind", "in another set", "itself"]


class World:
    """Two sets with a property of each kind"""

    def __init__(self, ctx, P, kind, target, symbolic=False):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        self.file = e.W.add(e.root, "g")
        self.sets = [ob.property_set(e, e.W.add(self.file, n), "set", space=True) for n in ("a", "b")]
        ps = [e.at(s, ob.PROPERTIES) for s in self.sets]
        self.kind = kind
        self.src = self.add(ps[0], kind, "source")
        self.others = [self.add(ps[0], kind, "near"), self.add(ps[1], kind, "source")]
        j = {"beside": kind, "of another kind": (kind + 1) % 6, "in another set": (kind + 4) % 6, "itself": kind}[target]
        if target == "itself":
            self.dst, self.n = self.src, "source"
        else:
            self.n = ob.any_name(ctx, "name") if symbolic else "grid"
            if symbolic:
                # not one that is there
                for x in ("source", "near"):
                    ctx.assume(Not(eq(self.n, x)))
            self.dst = self.add(ps[1] if target == "in another set" else ps[0], j, self.n)
        self.dst_kind = j
        self.decoy = self.add(ps[0], 0 if j else 1, "decoy")

    def add(self, properties, kind, n):
        x = ob.prop(self.e, self.e.at(properties, ob.KINDS[kind]), kind, n)
        for i in ("time", "space"):
            if isinstance(n, str) and kind < 2:
                x.links.absent.append(LINK[i])
        return x

    def element(self, x, kind):
        """The property of group x, as a group"""
        e = self.e
        self.keep = e("k%d_element" % kind, e.group(x.parent), Str(x.name))
        return e("k%d_group" % kind, self.keep)

    def put(self, which, x, target):
        e = self.e
        e.W.add_attr(x, ASPECT[which], "regular_grid")
        ob.link(e, x, LINK[which], target)

    def states(self, g, which, target, what):
        """What property g reports"""
        e, ctx = self.e, self.ctx
        ctx.prove("whether %s is discretized" % what, eq(e("group_" + which, g), target is not None), which=which)
        if target is None:
            ctx.prove("no property for what is not discretized, %s" % what, e.throws("group_%s_property" % which, g)[0] and e.throws("group_%s_type" % which, g)[0], which=which)
        else:
            ctx.prove("the kind of discretization of %s" % what, eq(e("group_%s_type" % which, g), 0), which=which)
            p = e("group_%s_property" % which, g)
            ctx.prove("the discretization of %s is the property set" % what, e.obj(e("group_hid", p)) is target, which=which)
            ctx.prove("the discretization of %s reports its name and description" % what, And(eq(e.text(e("group_name", p)), target.name), eq(e.text(e("group_description", p)), "")))


def run(kind, fail):
    def go(ctx, P):
        target = TARGETS[ctx.choose(4, note="target")]
        symbolic = fail == "none" and (kind < 2 and target == "beside" or kind in (2, 3) and target == "in another set") and ctx.choose(2, note="symbolic name")
        which = ("time", "space")[ctx.choose(2, note="which")]
        w = World(ctx, P, kind, target, symbolic)
        e = w.e
        # before: nothing, the other, the same
        before = ctx.choose(3, note="before") if fail == "none" else 0
        if before:
            w.put(OTHER[which] if before == 1 else which, w.src, w.decoy)
        g, d = w.element(w.src, kind), None
        keep = w.keep
        d = w.element(w.dst, w.dst_kind)
        e.mark()
        w.states(g, which, w.decoy if before == 2 else None, "a property before")
        w.states(g, OTHER[which], w.decoy if before == 1 else None, "a property before, the other way,")
        e.only("asking changes nothing", [])
        e.W.fail = fail
        threw, _ = e.throws("group_set_" + which, g, 0, d)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("setting fails exactly when it was set before, or the library fails", threw == bool(before == 2 or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        set_ = [("attribute added", w.src, ASPECT[which]), ("linked", w.src, LINK[which])]
        if before == 2:
            # the aspect is written again, with the one value there is
            ctx.prove("setting it again changes nothing", all(a == "written" and b is w.src for a, b, c in e.changes()))
            set_ = []
        elif threw:
            ctx.prove("nothing but this discretization changes", all(any(a == x and b is y and ctx.entails(eq(c, z)) for x, y, z in set_) for a, b, c in e.changes()))
            ctx.cover("end")
            return
        else:
            e.only("exactly the discretization is stored", set_)
        if failed is None:
            again = w.element(w.src, kind)
            plain = e("group_open", e.group(w.src.parent), Str("source"))
            for h, what in ((g, "the property"), (again, "the property found again"), (plain, "the group found again")):
                w.states(h, which, w.decoy if before == 2 else w.dst, what)
                w.states(h, OTHER[which], w.decoy if before == 1 else None, what + ", the other way,")
            for x in w.others + ([w.dst] if w.dst is not w.src else []):
                h = e("group_open", e.group(x.parent), Str(x.name))
                for i in ASPECT:
                    w.states(h, i, None, "another property")
            for s in w.sets:
                ctx.prove("the presence of objects is not discretized", Not(e("presence", e("space_open", e.group(s)))))
            if before != 2:
                e.only("asking changes nothing, after setting", set_)
        ctx.cover("end")
    return go


def presence(fail):
    def go(ctx, P):
        target = TARGETS[ctx.choose(3, note="target")]
        kind = ctx.choose(6, note="kind") if fail == "none" else 0
        symbolic = fail == "none" and kind in (2, 3) and target == "in another set" and ctx.choose(2, note="symbolic name")
        w = World(ctx, P, kind, target, symbolic)
        e = w.e
        before = fail == "none" and ctx.choose(2, note="before: none, some")
        x = e.at(w.sets[0], ob.SPACE)
        if before:
            ob.link(e, x, PRESENCE, w.decoy)
        s = e("space_open", e.group(w.sets[0]))
        d = w.element(w.dst, w.dst_kind)
        e.mark()
        ctx.prove("whether the presence is discretized, before", eq(e("presence", s), bool(before)))
        ctx.prove("the property of a presence that is not discretized", e.throws("presence_property", s)[0] == (not before))
        e.W.fail = fail
        threw, _ = e.throws("set_presence", s, d)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("setting the presence fails exactly when it was set before, or the library fails", threw == bool(before or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if failed and threw:
            ctx.prove("nothing but this discretization changes", all((a, b, c) == ("linked", x, PRESENCE) for a, b, c in e.changes()))
        elif threw:
            e.only("nothing changes when it is refused", [])
        else:
            e.only("exactly the discretization of the presence is stored", [("linked", x, PRESENCE)])
        if failed is None:
            want = w.decoy if before else w.dst
            for h in (s, e("space_open", e.group(w.sets[0]))):
                ctx.prove("the presence is discretized", e("presence", h))
                p = e("presence_property", h)
                ctx.prove("the discretization of the presence is the property set", e.obj(e("group_hid", p)) is want and e.ctx.entails(eq(e.text(e("group_name", p)), want.name)))
            ctx.prove("the presence of other objects is not discretized", Not(e("presence", e("space_open", e.group(w.sets[1])))))
        ctx.cover("end")
    return go


PROOFS = [("kind %d" % k, run(k, "none")) for k in range(6)] + [("presence", presence("none"))] + \
    [("kind 0, a call fails", run(0, "one")), ("kind 5, a call fails", run(5, "one")), ("presence, a call fails", presence("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p18.cpp", [seed, tier], wraps=lib.INJECT)
