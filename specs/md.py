"""Shared by the specifications of the data model: the state of the file before and after"""
import z3

from vc import h5
from vc.interp import Ptr, UNDEF
from vc.smt import And, If, Implies, Not, Or, Unsupported, concrete, eq, is_sym, lift, simp
from vc.stdlib import CArr, Str, Vec, strval
from . import hd, lib

MODULES = ["hdf5", "cxx"]
INST = ["drv/hdf5.cpp", "drv/cxx.cpp"]
# Representative names: opaque to the code, except where it parses or composes names
NAMES = ["a", "lue_x y", "\xc3\xa9"]
IDS = [0, 5, 12, 2**40 + 1, 2**64 - 1]


def chunk_contract(E, this, args, f):
    """Contract of hdf5::chunk_shape (P04)"""
    s, n = args
    b = [x for k, x in s.f.items() if k[0] == "base"][0]
    dims = [E.val(x) for x in b.items]
    E.ctx.prove("chunk_shape is called with extents and an element size of at least one", And(*[x >= 1 for x in dims + [E.val(n)]]))
    out = [E.ctx.fresh("chunk", lo=1, report=False) for _ in range(len(dims) + 1)]
    for x, d in zip(out[1:], dims):
        E.ctx.assume(lift(x) <= lift(d))
    g = E.prog.find("vp::shape")[0]
    return E.invoke(g, None, [Vec(out)])


class Env(hd.Env):
    def __init__(self, ctx, P, fail="none", **kw):
        hd.Env.__init__(self, ctx, P, fail=fail, ns="vx", **kw)
        self.E.contracts["lue::hdf5::chunk_shape"] = chunk_contract
        self.snaps = None

    def h(self, name, *args):
        """A driver function of the hdf5 module"""
        ns, self.ns = self.ns, "vp"
        try:
            return self(name, *args)
        finally:
            self.ns = ns

    def dims(self, kind, values):
        return self.h(kind, Vec(list(values)))

    def group(self, g):
        ns, self.ns = self.ns, "vp"
        try:
            return hd.Env.group(self, g)
        finally:
            self.ns = ns

    def native(self, k):
        return self.h("native", k)

    def dt_value(self, t):
        return self.W.hids[self.h("dt_id", t)].obj

    def text(self, v):
        return strval(self.E, v)

    # ------------------------------------------------------------ state of the files
    def snapshot(self):
        """The state of every object of every file"""
        out = {}

        def walk(g):
            if id(g) in out:
                return
            out[id(g)] = (g, [list(x) for x in g.links.entries] if g.kind == "group" else None,
                          [(n, a, a.value, a.dims, a.dtype.copy()) for n, a in g.attrs.entries],
                          None if g.kind == "group" or g.dims is None else list(g.dims))
            if g.kind == "group":
                for _, x in g.links.entries:
                    if isinstance(x, h5.G):
                        walk(x)

        for f in list(self.W.fs.values()) + self.W.memory:
            walk(f.root)
        return out

    def mark(self):
        self.W.log.clear()
        self.W.io.clear()
        self.W.contents.clear()
        self.before = self.snapshot()

    def changes(self):
        """What differs from the state marked: [(what, object or its owner, name)]. Objects added are those that can be reached
        now; whatever happened to those is not listed."""
        now, was, out = self.snapshot(), self.before, []
        ent = self.ctx.entails
        for i, (g, links, attrs, dims) in was.items():
            if i not in now:
                out.append(("lost", g, g.name))
                continue
            _, links2, attrs2, dims2 = now[i]
            if links is not None:
                for n, x in links:
                    if not any(m is n and y is x for m, y in links2):
                        out.append(("unlinked", g, n))
                for n, x in links2:
                    if not any(m is n and y is x for m, y in links):
                        out.append(("linked", g, n))
            for n, a, v, d, t in attrs:
                m = [x for x in attrs2 if x[1] is a]
                if not m:
                    o = [x for x in attrs2 if ent(eq(x[0], n))]
                    out.append(("attribute" if o else "attribute lost", g, n))
                elif not (m[0][2] is v or (type(v) == type(m[0][2]) and not isinstance(v, (list, tuple)) and ent(eq(m[0][2], v)))) or not m[0][4].same(t):
                    out.append(("attribute", g, n))
            for n, a, v, d, t in attrs2:
                if not any(x[1] is a for x in attrs) and not any(ent(eq(x[0], n)) for x in attrs):
                    out.append(("attribute added", g, n))
            if dims is not None and not (len(dims) == len(dims2) and all(ent(eq(x, y)) for x, y in zip(dims, dims2))):
                out.append(("resized", g, g.name))
        for x in self.W.log:
            if x[0] == "write" and id(x[1]) in was:
                out.append(("written", x[1], x[1].name))
        return out

    def only(self, what, expected):
        """The changes since the mark are exactly the expected ones: [(kind, object, name)]"""
        got = self.changes()

        def match(a, b):
            return a[0] == b[0] and a[1] is b[1] and (a[2] is b[2] or self.ctx.entails(eq(a[2], b[2])))

        ok = len(got) == len(expected) and all(any(match(a, b) for b in expected) for a in got) and \
            all(any(match(a, b) for a in got) for b in expected)
        self.ctx.prove(what, ok, changes=["%s %s %s" % (a, getattr(b, "path", b), c) for a, b, c in got],
                       expected=["%s %s %s" % (a, getattr(b, "path", b), c) for a, b, c in expected])
        return ok

    def at(self, g, *names):
        """Object reached by names from g, or None"""
        for n in names:
            if g is None or g.kind != "group":
                return None
            m = [x for k, x in g.links.entries if k is n or self.ctx.entails(eq(k, n))]
            g = m[0] if len(m) == 1 else None
            if g is not None and g.kind == "soft":
                g = self.W.resolve(self.E, self.file.root, g.target)
        return g

    def attr(self, g, n):
        m = [a for k, a in g.attrs.entries if k is n or self.ctx.entails(eq(k, n))]
        return m[0] if len(m) == 1 else None

    def tree(self, g, prefix=""):
        """Names of all objects below g"""
        out = {}
        for n, x in g.links.entries:
            out[prefix + str(n)] = x
            if isinstance(x, h5.G) and x.kind == "group":
                out.update(self.tree(x, prefix + str(n) + "/"))
        return out


def value_dataset(e, x, dims, maxdims, k, what="the array"):
    """x is a dataset as created for a constant shape value"""
    ctx = e.ctx
    ok = x is not None and x.kind == "dataset"
    ctx.prove("%s is created" % what, ok)
    if not ok:
        return False
    ctx.prove("the extents of %s" % what, e.eqs(x.dims, dims), got=str(x.dims), want=str(dims))
    ctx.prove("the largest extents of %s" % what, e.eqs(x.maxdims or x.dims, maxdims))
    ctx.prove("the element type of %s" % what, x.dtype.same(hd.dt(k)))
    return True


def entry(e, n, at, other):
    """An array of n values: that of the arbitrary iteration is a given one, those of the others are others"""
    def fn(k):
        i = getattr(e.E, "iteration", None)
        return at if i is not None and e.ctx.entails(eq(k, i)) else other
    return Ptr(CArr(None, None, n, fn), 0)


def counts(e, n, name, hi=2**40):
    """An array of n numbers: (pointer, function)"""
    f = z3.Function(e.ctx.name(name), z3.IntSort(), z3.IntSort())

    def fn(k):
        v = f(lift(k))
        e.ctx.assume(v >= 0)
        e.ctx.assume(v <= hi)
        return v
    return Ptr(CArr(None, None, n, fn), 0), lambda k: f(lift(k))


def shapes(e, n, rank):
    """An array of n shapes: (pointer, function)"""
    f = [z3.Function(e.ctx.name("extent_%d" % d), z3.IntSort(), z3.IntSort()) for d in range(rank)]

    def fn(k):
        v = [x(lift(k)) for x in f]
        for x in v:
            e.ctx.assume(x >= 1)
            e.ctx.assume(x <= 2**40)
        return e.dims("shape", v)
    return Ptr(CArr(None, None, n, fn), 0), lambda k: [x(lift(k)) for x in f]
