"""P03: transfer of the cells of datasets"""
from vc import h5
from vc.interp import Ptr, UNDEF
from vc.smt import And, If, Implies, Not, Or, concrete, eq, lift, simp
from vc.stdlib import CArr, Str
from . import hd, lib

MODULES = ["hdf5", "cxx"]
INST = ["drv/hdf5.cpp", "drv/cxx.cpp"]


def vec(ctx, n, r, lo=0, hi=2**40):
    return [ctx.fresh("%s_%d" % (n, d), lo=lo, hi=hi) for d in range(r)]


class S:
    def __init__(self, ctx, P, fail="none", rank=None, k=None):
        self.ctx = ctx
        self.e = e = hd.Env(ctx, P, fail=fail)
        self.r = r = 1 + ctx.choose(32, note="rank") if rank is None else rank
        self.k = k = ctx.choose(10, note="element type") if k is None else k
        self.dims = vec(ctx, "extent", r, 1)
        mx = [h5.SIZE_MAX] + self.dims[1:]
        self.g = e.W.add_dataset(e.root, "d", hd.dt(k), list(self.dims))
        self.g.maxdims = mx
        self.g.dcpl["chunk"] = [1] * r
        self.other = e.W.add_dataset(e.root, "other", hd.dt((k + 1) % 10), list(self.dims))
        self.buf = Ptr(CArr([UNDEF] * 4), 0)

    def mem(self, k):
        """A native datatype, as the library knows it"""
        return self.e("native", k)

    def slab(self):
        e, r = self.e, self.r
        o, s, c = vec(self.ctx, "offset", r), vec(self.ctx, "stride", r, 1), vec(self.ctx, "count", r)
        return (o, s, c), e("hyperslab3", e.dims("offset", o), e.dims("stride", s), e.dims("count", c))


def selection(space):
    """(offset, stride, count) of the cells selected in a dataspace"""
    if space.sel is None:
        n = len(space.dims)
        return [0] * n, [1] * n, list(space.dims)
    o, s, c, b = space.sel
    return o, s, c


def one(s, what, k, sel, mdims, plist=None):
    """Exactly one transfer took place, of the selection, from or to the buffer"""
    ctx, e = s.ctx, s.e
    io = e.W.io
    ok = len(io) == 1 and io[0][0] == what
    ctx.prove("exactly one transfer takes place", ok, transfers=[x[0] for x in io])
    if not ok:
        return
    _, d, t, ms, fs, buf, pl = io[0]
    ctx.prove("the cells of the dataset itself are transferred", d is s.g)
    ctx.prove("the memory datatype is the one asked for", t.same(hd.dt(k)))
    ctx.prove("the buffer given is used", isinstance(buf, Ptr) and buf.t is s.buf.t and eq(buf.i, s.buf.i))
    ctx.prove("the file dataspace is that of the dataset", e.eqs(fs.dims, s.dims))
    o, st, c = selection(fs)
    ctx.prove("the offset of the selection", e.eqs(o, sel[0]))
    ctx.prove("the stride of the selection", And(*[Or(eq(x, y), And(c[i] <= 1)) for i, (x, y) in enumerate(zip(st, sel[1]))]))
    ctx.prove("the counts of the selection", e.eqs(c, sel[2]))
    if fs.sel is not None:
        ctx.prove("blocks of one cell are selected", e.eqs(fs.sel[3], [1] * s.r))
    if mdims is not None:
        ctx.prove("the memory block has the extents of the selection, densely",
                  e.eqs(ms.dims, mdims) and (ms.sel is None or e.eqs(ms.sel[2], mdims)))
    if plist is not None:
        ctx.prove("the transfer properties given are used", eq(pl, plist))
    want = [] if what == "H5Dread" else ["write"]
    ctx.prove("nothing else changes", [x[0] for x in e.W.log] == want, log=[x[0] for x in e.W.log])


def run_case(s, variant, api):
    e, ctx = s.e, s.ctx
    what = "H5Dread" if "read" in variant else "H5Dwrite"
    n = int(variant[-1])
    full = ([0] * s.r, [1] * s.r, s.dims)
    m = (s.k + ctx.choose(2)) % 10  # memory datatype: that of the elements or another
    if api == "dataset":
        d = e.dataset(s.g)
        v, ns = variant, "vp"
        # (datatype, hyperslab, plist | dataspace)
        kinds = {1: "t", 2: "th", 3: "thp", 4: "ts", 5: "tsh", 6: "tshp"}[n]
    else:
        own = ctx.choose(2)
        g = e.group(e.root)
        e.ns = "vx"
        d = e("array2", g, Str("d"), s_native(e, m)) if own else e("array1", g, Str("d"))
        mt = e("memory_type_of", d)
        if not own:
            m = s.k
        ft = e("file_type_of", d)
        e.ns = "vp"
        ctx.prove("the memory datatype of an array is the one given, or that of the elements stored",
                  value(e, mt).same(hd.dt(m)))
        ctx.prove("the file datatype of an array is that of the elements stored", value(e, ft).same(hd.dt(s.k)))
        v, ns = "a" + variant, "vx"
        kinds = ({1: "", 2: "h", 3: "th", 4: "thp", 5: "s"} if what == "H5Dread" else
                 {1: "", 2: "h", 3: "hp", 4: "s", 5: "sh", 6: "shp"})[n]
    args, sel, mdims, pl = [], full, list(s.dims), None
    for c in kinds:
        if c == "t":
            if api == "array":
                m = (s.k + 2) % 10
            args.append(s_native(e, m))
        elif c == "h":
            sel, h = s.slab()
            if mdims is not None and "s" not in kinds:
                mdims = list(sel[2])
            args.append(h)
        elif c == "p":
            p = e("transfer_plist")
            pl = e("plist_id", p)
            args.append(p)
        elif c == "s":
            md = vec(ctx, "memory_extent", 2)
            args.append(e("dataspace1", e.dims("shape", md)))
            mdims = md
    e.W.log.clear()
    e.ns = ns
    e(v, d, *args, s.buf)
    e.ns = "vp"
    one(s, what, m, sel, mdims, pl)
    ctx.cover("end")


def s_native(e, m):
    old, e.ns = e.ns, "vp"
    r = e("native", m)
    e.ns = old
    return r


def value(e, o):
    old, e.ns = e.ns, "vp"
    r = e.W.hids[e("dt_id", o)].obj
    e.ns = old
    return r


def case(variant, api):
    def run(ctx, P):
        # element type and rank vary independently
        s = S(ctx, P, k=0 if ctx.choose(2) else None, rank=None) if False else pick(ctx, P)
        run_case(s, variant, api)
    return run


def pick(ctx, P):
    c = ctx.choose(32 + 9, note="rank and element type")
    return S(ctx, P, rank=c + 1, k=3) if c < 32 else S(ctx, P, rank=2, k=[x for x in range(10) if x != 3][c - 32])


def report(ctx, P):
    s = pick(ctx, P)
    e = s.e
    d = e.dataset(s.g)
    ctx.prove("the shape reported is that of the dataset", e.eqs(e.items(e("shape_of", d)), s.dims))
    ctx.prove("the datatype reported is that of the elements stored", value(e, e("datatype_of", d)).same(hd.dt(s.k)))
    sp = e("dataspace_of", d)
    ctx.prove("the dataspace reported has the extents of the dataset", e.eqs(e.items(e("extents", sp)), s.dims))
    ctx.prove("the number of dimensions is that of the dataset", eq(e("ndims", sp), s.r))
    if s.r <= 4:
        p = 1
        for x in s.dims:
            p = p * x
        ctx.prove("the number of elements is the product of the extents", eq(e("npoints", sp), p))
    ctx.prove("reporting changes nothing", not e.W.log and not e.W.io)
    ctx.cover("end")


def resize(ctx, P):
    s = pick(ctx, P)
    e = s.e
    d = e.dataset(s.g)
    new = [ctx.fresh("new_extent", lo=0, hi=2**40)] + s.dims[1:]
    e("resize", d, e.dims("shape", new))
    ctx.prove("resizing sets the extents asked for", e.eqs(s.g.dims, new))
    ctx.prove("resizing changes nothing else", [x[0] for x in e.W.log] == ["resize"] and e.W.log[0][1] is s.g)
    ctx.prove("the extents reported are the new ones", e.eqs(e.items(e("shape_of", d)), new))
    ctx.cover("end")


def fill(ctx, P):
    s = pick(ctx, P)
    e = s.e
    e.E.induct = True
    d = e.dataset(s.g)
    m = s.k if s.r != 2 else (s.k + 3 * ctx.choose(3)) % 10
    z = hd.SIZES[m]
    value = [ctx.fresh("byte_%d" % i, lo=0, hi=255) for i in range(z)]
    sel, h = s.slab()
    nel = e("nr_elements", h)
    src = CArr(list(value))
    e("fill", d, s_native(e, m), h, Ptr(src, 0))
    io = e.W.io
    ok = len(io) == 1 and io[0][0] == "H5Dwrite"
    ctx.prove("exactly one transfer takes place", ok)
    _, g, t, ms, fs, buf, pl = io[0]
    ctx.prove("the cells of the dataset itself are filled", g is s.g)
    ctx.prove("the memory datatype is the one asked for", t.same(hd.dt(m)))
    o, st, c = selection(fs)
    ctx.prove("the cells selected are filled", And(e.eqs(fs.dims, s.dims), e.eqs(o, sel[0]), e.eqs(st, sel[1]), e.eqs(c, sel[2])))
    n = 1
    for x in ms.dims:
        n = n * x
    ctx.prove("the memory block has a value for each cell", And(ms.sel is None, eq(n, nel)))
    mem = e.W.contents[0]
    ctx.prove("the memory block is as large as needed", And(eq(buf.i, 0), eq(mem.size, nel * z)))
    if concrete(nel) and nel == 0:
        ctx.cover("empty")
        return
    j = ctx.fresh("cell", lo=0)
    ctx.assume(j < nel)
    for b in range(z):
        ctx.prove("each cell gets the fill value", eq(mem.get_at(simp(j * z + b)), value[b]))
    ctx.prove("the fill value is left as it is", e.eqs(src.items, value))
    ctx.cover("end")


def fails(ctx, P):
    """Failures of the library are reported"""
    s = S(ctx, P, fail="one", rank=2, k=3)
    e = s.e
    t = e("native", 3)
    h = e("hyperslab2", e.dims("offset", [0, 0]), e.dims("count", [2, 3]))
    op = ["read1", "write1", "read2", "write2", "shape_of", "resize", "fill", "ndims", "dcpl_of", "open", "npoints"][ctx.choose(11, note="operation")]
    if op == "open":
        threw, d = e.throws("open2", e.ident(e.file), Str("d"))
        ctx.prove("a failure of the library is reported", threw == (e.W.failed is not None))
        ctx.cover("end")
        return
    e.W.fail = "none"
    d = e.dataset(s.g)
    sp = e("dataspace_of", d)
    e.W.fail = "one"
    a = {"read1": [d, t, s.buf], "write1": [d, t, s.buf], "read2": [d, t, h, s.buf], "write2": [d, t, h, s.buf],
         "shape_of": [d], "resize": [d, e.dims("shape", [7, s.dims[1]])],
         "fill": [d, t, h, Ptr(CArr([1, 2, 3, 4, 5, 6, 7, 8]), 0)], "ndims": [sp], "npoints": [sp], "dcpl_of": [d]}[op]
    e.E.check_asserts = "refuse"
    e.W.log.clear()
    threw, r = e.throws(op, *a)
    ctx.prove("a failure of the library is reported", threw == (e.W.failed is not None), failed=str(e.W.failed), operation=op)
    ctx.cover("end")


PROOFS = [("dataset " + v, case(v, "dataset")) for v in ("read1", "read2", "read3", "read4", "read5", "read6",
                                                       "write1", "write2", "write3", "write4", "write5", "write6")] + \
         [("array " + v, case(v, "array")) for v in ("read1", "read2", "read3", "read4", "read5",
                                                    "write1", "write2", "write3", "write4", "write5", "write6")] + \
         [("report", report), ("resize", resize), ("fill", fill), ("failures", fails)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p03.cpp", [seed, tier], wraps=["H5Dread", "H5Dwrite", "H5Sselect_hyperslab", "H5Dset_extent"])
