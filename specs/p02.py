"""P02: hyperslabs"""
from vc.interp import CppThrow
from vc.smt import And, Or, Not, eq, lift, simp

from . import hd, lib

MODULES = []
FILES = ["data_model/hdf5/source/hyperslab.cpp", "data_model/hdf5/source/shape.cpp"]
INST = hd.INST
MAXRANK = 32  # H5S_MAX_RANK


def vec(ctx, name, r, lo=0):
    return [ctx.fresh("%s_%d" % (name, d), lo=lo, hi=hd.HSIZE_MAX) for d in range(r)]


def prod(xs):
    p = 1
    for x in xs:
        p = simp(lift(p) * lift(x))
    return p


def setup(ctx, P):
    e = hd.Env(ctx, P)
    r = ctx.choose(MAXRANK + 1, note="rank")
    return e, r


def parts(e, h):
    return (e.items(e("start_of", h)), e.items(e("stride_of", h)), e.items(e("count_of", h)))


def same(ctx, e, h, o, s, c):
    a, b, d = parts(e, h)
    ctx.prove("the offset is the one given", e.eqs(a, o))
    ctx.prove("the stride is the one given", e.eqs(b, s))
    ctx.prove("the count is the one given", e.eqs(d, c))
    ctx.prove("the rank is that of the vectors", eq(e("rank_of", h), len(o)))


def from_shape(ctx, P):
    e, r = setup(ctx, P)
    s = vec(ctx, "extent", r)
    h = e("hyperslab1", e.dims("shape", s))
    same(ctx, e, h, [0] * r, [1] * r, s)
    ctx.cover("end")


def from_offset_count(ctx, P):
    e, r = setup(ctx, P)
    o, c = vec(ctx, "offset", r), vec(ctx, "count", r)
    h = e("hyperslab2", e.dims("offset", o), e.dims("count", c))
    same(ctx, e, h, o, [1] * r, c)
    k = e("hyperslab_copy", h)
    same(ctx, e, k, o, [1] * r, c)
    ctx.cover("end")


def from_all(ctx, P):
    e, r = setup(ctx, P)
    o, s, c = vec(ctx, "offset", r), vec(ctx, "stride", r), vec(ctx, "count", r)
    h = e("hyperslab3", e.dims("offset", o), e.dims("stride", s), e.dims("count", c))
    same(ctx, e, h, o, s, c)
    o, s, c = vec(ctx, "new_offset", r), vec(ctx, "new_stride", r), vec(ctx, "new_count", r)
    e("set_hyperslab", h, e.dims("offset", o), e.dims("stride", s), e.dims("count", c))
    same(ctx, e, h, o, s, c)
    ctx.cover("end")


def elements(ctx, P):
    """The number of cells selected is the product of the counts; products are mathematical"""
    e, r = setup(ctx, P)
    o, s, c = vec(ctx, "offset", r), vec(ctx, "stride", r, 1), vec(ctx, "count", r)
    h = e("hyperslab3", e.dims("offset", o), e.dims("stride", s), e.dims("count", c))
    em = e.E.istrue(e("empty", h))
    ctx.prove("a selection is empty exactly when it has no cells",
              Or(r == 0, *[eq(x, 0) for x in c]) if em else And(r > 0, *[Not(eq(x, 0)) for x in c]))
    if r <= 12:
        n = e("nr_elements", h)
        ctx.prove("the number of elements is the product of the counts", eq(n, 0 if em else product(ctx, c)))
    ctx.cover("end")


def product(ctx, c):
    return prod(c)


def large_rank(ctx, P):
    """Counts of higher ranks"""
    e = hd.Env(ctx, P)
    r = 13 + ctx.choose(MAXRANK - 12)
    c = [1] * r
    for k in range(3):
        c[(r // 3) * k] = ctx.fresh("count_%d" % k, lo=1, hi=2**20)
    s = [2] * r
    h = e("hyperslab3", e.dims("offset", [0] * r), e.dims("stride", s), e.dims("count", c))
    ctx.prove("the number of elements is the product of the counts", eq(e("nr_elements", h), prod(c)))
    ctx.cover("end")


def default(ctx, P):
    e = hd.Env(ctx, P)
    h = e("hyperslab0")
    ctx.prove("a default selection has no cells", And(eq(e("nr_elements", h), 0), e.E.istrue(e("empty", h))))
    ctx.cover("end")


def around(ctx, P):
    """A selection centred on a cell"""
    e = hd.Env(ctx, P)
    a = [ctx.fresh("array_extent_%d" % d, lo=1, hi=2**62) for d in (0, 1)]
    s = [ctx.fresh("extent_%d" % d, lo=1, hi=2**62) for d in (0, 1)]
    m = [ctx.fresh("centre_%d" % d, lo=0, hi=2**62) for d in (0, 1)]
    off = []
    for d in (0, 1):
        half = simp(s[d] / 2)
        ctx.assume(m[d] >= half)
        ctx.assume(m[d] - half + s[d] <= a[d])
        off.append(simp(m[d] - half))
    h = e("hyperslab_around", e.dims("offset", m), e.dims("shape", s), e.dims("shape", a))
    same(ctx, e, h, off, [1, 1], s)
    for d in (0, 1):
        ctx.prove("the centre is selected", And(off[d] <= m[d], m[d] < off[d] + s[d]))
    ctx.cover("end")


def sizes(ctx, P):
    """The size of a shape is the product of its extents and the element size"""
    e = hd.Env(ctx, P)
    r = ctx.choose(9)
    c = vec(ctx, "extent", r)
    z = ctx.fresh("element_size", lo=1, hi=2**20)
    p = prod([z] + c)
    ctx.assume(p <= hd.HSIZE_MAX)
    ctx.prove("size of a shape in bytes", eq(e("size_of_shape2", e.dims("shape", c), z), p))
    p1 = prod(c)
    ctx.prove("number of elements of a shape", eq(e("size_of_shape1", e.dims("shape", c)), p1))
    ctx.cover("end")


PROOFS = [("from shape", from_shape), ("offset and count", from_offset_count), ("all", from_all),
          ("elements", elements), ("large rank", large_rank), ("default", default), ("around", around),
          ("sizes", sizes)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p02.cpp", [seed, tier], only=["hyperslab.cpp", "shape.cpp"])
