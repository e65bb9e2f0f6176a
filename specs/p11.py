"""P11: collections"""
from vc import h5
from vc.interp import Ref
from vc.smt import And, Not, Or, eq, is_sym
from vc.stdlib import Str
from . import hd, lib, md, objects as ob

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/objects.cpp"]
NAMES = ["a", "lue_x y", "\xc3\xa9"]


class C:
    """A collection with some elements, another one of the same kind nearby, and a name: free or taken"""

    def __init__(self, ctx, P, p, n=None):
        self.ctx, self.p = ctx, p
        self.e = e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        self.top = e.W.add(e.root, "g")
        near = e.W.add(e.root, "near")
        self.tag = {"phenomena": "lue_phenomena", "universes": "lue_universes", "sets": "lue_property_sets"}.get(p) or ob.KINDS[int(p[1])]
        self.x = e.W.add(self.top, self.tag)
        if p == "sets":
            e.W.add(self.top, ob.SETS[0])
        self.here = NAMES[:ctx.choose(3, note="elements: 0, 1, 3") if n is None else n]
        if len(self.here) == 2:
            self.here = list(NAMES)
        self.elements = {}
        for i, m in enumerate(self.here):
            self.elements[m] = self.build(self.x, m, [None, "some text", "other text"][i])
        self.build(e.W.add(near, self.tag), "a", None)
        self.g = e.group(self.top)

    def build(self, g, name, d):
        e, p = self.e, self.p
        if p == "phenomena":
            return ob.phenomenon(e, g, name, d)
        if p == "universes":
            return ob.universe(e, g, name)
        if p == "sets":
            return ob.property_set(e, g, name)
        return ob.prop(e, g, int(p[1]), name, d)

    def open(self):
        e = self.e
        return e("sets_open", self.g, Str(self.tag)) if self.p == "sets" else e(self.p + "_open", self.g)

    def add(self, c, name, d):
        e, p = self.e, self.p
        n = Str(name)
        if p == "phenomena":
            return e.throws("phenomena_add", c, n, Str("" if d is None else d)) if d is not None or self.ctx.choose(2) else e.throws("phenomena_add1", c, n)
        if p in ("universes", "sets"):
            return e.throws(p + "_add", c, n)
        t = e.native(3)
        if p in ("k0", "k1"):
            return e.throws(p + "_put_shape", c, n, t, e.dims("shape", [2]), Str("" if d is None else d))
        return e.throws(p + "_put_rank", c, n, t, 2, Str("" if d is None else d))

    def names(self, fn, c):
        return [self.e.text(x) for x in self.e.items(self.e(self.p + fn, c))]

    def look(self, c, elements, what):
        """Everything the collection reports is what is there"""
        e, ctx, p = self.e, self.ctx, self.p
        ctx.prove("the handle %s is of the collection" % what, e.obj(e(p + "_hid", c)) is self.x)
        ctx.prove("the size %s" % what, And(eq(e(p + "_size", c), len(elements)), eq(e(p + "_empty", c), not elements)))
        for fn in ("_names", "_all"):
            got = self.names(fn, c)
            ok = len(got) == len(elements) and all(any(ctx.entails(eq(x, y)) for y in got) for x in elements)
            ctx.prove("the names %s are those of the elements" % what, ok, got=[str(x) for x in got], function=p + fn)
        for n, x in elements.items():
            ctx.prove("the elements are found %s" % what, e(p + "_contains", c, Str(n)), of=str(n))
            for fn in ("_at", "_get"):
                threw, v = e.throws(p + fn, c, Str(n))
                ctx.prove("looking up an element %s succeeds" % what, not threw, of=str(n))
                if not threw:
                    ctx.prove("the element of each name %s is the one stored" % what, e.obj(e(p + "_element_hid", v)) is x, of=str(n))

    def absent(self, c, n, what):
        e, ctx, p = self.e, self.ctx, self.p
        ctx.prove("a name without element is not found %s" % what, Not(e(p + "_contains", c, Str(n))))
        for fn in ("_at", "_get"):
            threw, _ = e.throws(p + fn, c, Str(n))
            ctx.prove("looking up a name without element %s is refused" % what, threw)

    def free(self):
        """Any other name (for the collections of sets and properties, or next to three others: a fixed one)"""
        if self.p not in ("phenomena", "universes") or len(self.here) > 1:
            return "n"
        n = ob.any_name(self.ctx, "name")
        for m in NAMES + ["b"]:
            self.ctx.assume(n != m)
        self.x.links.absent.append(n)
        return n


def stored(p):
    """A collection opened from a file"""
    def run(ctx, P):
        s = C(ctx, P, p)
        e = s.e
        e.mark()
        c = s.open()
        s.look(c, s.elements, "stored")
        s.absent(c, "b", "stored")
        s.absent(c, "", "stored")
        n = s.free()
        s.absent(c, n, "stored")
        e.only("opening and asking changes nothing", [])
        ctx.cover("end")
    return run


def add(p, fail):
    def run(ctx, P):
        s = C(ctx, P, p, None if fail == "none" else 1)
        e = s.e
        taken = bool(s.here) and fail == "none" and ctx.choose(2, note="name: free, taken")
        n = s.here[0] if taken else s.free() if fail == "none" else "n"
        d = ob.text(ctx, "description") if p[0] in "pk" and ctx.choose(2 if fail == "none" else 1) else None
        expected = s.build(e.W.add(e.root, "expected"), "x", d) if p[0] != "k" or int(p[1]) < 2 else None
        c = s.open()
        e.mark()
        e.W.fail = fail
        threw, v = s.add(c, n, d)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("adding fails exactly when the name is taken, or the library fails", threw == bool(taken or failed) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        elements = dict(s.elements)
        if taken:
            e.only("nothing changes in the file", [])
            s.look(c, elements, "after a refusal")
        elif threw:
            # the elements that were there are still those
            ctx.prove("nothing but the new name changes", all(k == "linked" and o is s.x and ctx.entails(eq(m, n)) for k, o, m in e.changes()))
            s.look(c, elements, "after a failure")
        else:
            e.only("exactly one element is added", [("linked", s.x, n)])
            x = elements[n] = e.at(s.x, n)
            ctx.prove("the element returned is the one added", e.obj(e(p + "_element_hid", v)) is x)
            if expected is not None:
                ob.same_tree(e, x, expected, "a new element")
            s.look(c, elements, "after adding")
            if failed is None:
                o = s.open()
                s.look(o, elements, "found again")
                s.absent(o, "b", "found again")
            e.only("asking changes nothing", [("linked", s.x, n)])
        ctx.cover("end")
    return run


def create(p, fail):
    """A new collection"""
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        top = e.W.add(e.root, "g")
        near = e.W.add(e.root, "near")
        tag = {"phenomena": "lue_phenomena", "universes": "lue_universes", "sets": "some sets"}[p]
        e.W.add(near, tag)
        taken = fail == "none" and ctx.choose(2)
        if taken:
            e.W.add(e.W.add(top, tag), "x")
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, c = e.throws(p + "_create", *([g, Str(tag)] if p == "sets" else [g]))
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating fails exactly when there is one, or the library fails", threw == bool(taken or failed) or failed == "H5Lexists", failed=str(failed))
        if taken:
            e.only("nothing changes", [])
        elif not threw:
            e.only("exactly one group is added", [("linked", top, tag)])
            x = e.at(top, tag)
            ctx.prove("a new collection has nothing in it", not x.links.entries and not x.attrs.entries)
            ctx.prove("the collection is the one created, and empty", And(e.obj(e(p + "_hid", c)) is x, eq(e(p + "_size", c), 0), e(p + "_empty", c)))
        ctx.cover("end")
    return run


ALL = ["phenomena", "universes", "sets", "k0", "k1", "k2", "k3", "k4", "k5"]
PROOFS = [("create %s" % p, create(p, "none")) for p in ALL[:3]] + [("stored %s" % p, stored(p)) for p in ALL] + [("add to %s" % p, add(p, "none")) for p in ALL] + \
    [("create %s, a call fails" % p, create(p, "one")) for p in ALL[:3]] + [("add to %s, a call fails" % p, add(p, "one")) for p in ALL]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p11.cpp", [seed, tier], wraps=lib.INJECT)
