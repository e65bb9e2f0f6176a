"""P24: comparing rasters"""
from vc import gdalm
from vc.smt import And, Implies, Not, Or, eq, simp
from vc.stdlib import FV, Str, elem
from . import gd, lib

MODULES = ["gdal"]
INST = ["drv/gdal.cpp"]
NAMES = ["a.tif", "b.tif"]
GEO = [10, 2, 0, 50, 0, -2]
RANK = {n: i for i, n in enumerate(["Byte", "Int8", "UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float32", "Float64"])}


def exact(a, b):
    """Values of type a are all values of type b"""
    if a == b:
        return True
    lo, hi = {}, {}
    for k, (n, size, signed) in gd.TYPES.items():
        bits = {"f32": 24, "f64": 53}.get(k, 8 * size - signed)
        lo[gdalm.GDT[n]] = -2**bits if signed else 0
        hi[gdalm.GDT[n]] = 2**bits
    f = (gdalm.GDT["Float32"], gdalm.GDT["Float64"])
    if a in f:
        return b == f[1]
    return a in lo and b in lo and lo[b] <= lo[a] and hi[a] <= hi[b]


class World(gdalm.World):
    def fill(self, E, o, kind, y, x, p, ny=None, nx=None, by=None, bx=None, t=None, rest=None):
        ctx = self.ctx
        rows, cols = o.ds.shape
        if kind == "block":
            y0, x0, ny, nx, t = simp(y * o.block[0]), simp(x * o.block[1]), o.block[0], o.block[1], o.dtype
            inside = And(y >= 0, x >= 0, y0 < rows, x0 < cols)
            by, bx = ny, nx
        else:
            y0, x0 = y, x
            inside = And(y0 >= 0, x0 >= 0, ny >= 1, nx >= 1, y0 + ny <= rows, x0 + nx <= cols, eq(by, ny), eq(bx, nx))
        ctx.prove("what is read is inside the raster", inside, at=E.where())
        for i in range(ny):
            for j in range(nx):
                if y0 + i < rows and x0 + j < cols:
                    v = o.cells[y0 + i][x0 + j] if exact(o.dtype, t) else ctx.fresh("converted")
                else:
                    v = ctx.fresh("outside")
                    v = FV(ctx.fresh("nan", sort="bool"), ctx.fresh("v", sort="real")) if t in (6, 7) else v
                elem(E, p.t, simp((p.i or 0) + i * nx + j)).set(v)


def value(ctx, k, what):
    n, size, signed = gd.TYPES[k]
    if k[0] == "f":
        return FV(ctx.fresh(what + "_is_nan", sort="bool"), ctx.fresh(what, sort="real"))
    lo, hi = (-2**(8 * size - 1), 2**(8 * size - 1) - 1) if signed else (0, 2**(8 * size) - 1)
    return ctx.fresh(what, lo=lo, hi=hi)


def same(a, b, nan):
    if isinstance(a, FV):
        return Or(And(nan, a.nan, b.nan), And(Not(a.nan), Not(b.nan), eq(a.v, b.v)))
    return eq(a, b)


class Rasters:
    def __init__(self, ctx, P, k, shape, blocks, nodata, bands=1, types=None):
        self.ctx = ctx
        self.e = e = gd.Env(ctx, P)
        e.W = World(ctx)
        e.E.world = e.W
        self.ds = []
        nd = {}
        for r in range(2):
            t = gdalm.GDT[gd.TYPES[k][0]]
            d = gdalm.Dataset(NAMES[r], shape, 0, t, list(GEO))
            d.bands = []
            d.count = bands
            for b in range(bands):
                kb = k if types is None else types[b]
                v = gdalm.Band(d, b + 1, gdalm.GDT[gd.TYPES[kb][0]], blocks[r])
                v.k = kb
                v.cells = [[value(ctx, kb, "cell_%d_%d_%d_%d" % (r + 1, b + 1, y, x)) for x in range(shape[1])] for y in range(shape[0])]
                if nodata[r] is not None:
                    if nodata == ("x", "x"):
                        if b not in nd:
                            nd[b] = value(ctx, kb, "no_data")
                        v.nodata = (True, nd[b])
                    else:
                        v.nodata = (True, value(ctx, kb, "no_data_%d" % r))
                d.bands.append(v)
            e.W.files[NAMES[r]] = lambda d=d: d
            self.ds.append(d)

    def run(self):
        threw, r = self.e.throws("compare", Str(NAMES[0]), Str(NAMES[1]))
        self.ctx.prove("comparing does not fail", not threw)
        r = self.e.E.val(r)
        self.e.closed()
        self.ctx.cover("end")
        return eq(r.size, 0)

    def agree(self):
        out = []
        for a, b in zip(self.ds[0].bands, self.ds[1].bands):
            na, nb = a.nodata, b.nodata
            if (na is None) != (nb is None):
                return False
            nan = False
            if na is not None:
                out.append(same(na[1], nb[1], True))
                nan = na[1].nan if isinstance(na[1], FV) else False
            for ra, rb in zip(a.cells, b.cells):
                out += [same(x, y, nan) for x, y in zip(ra, rb)]
        return And(*out)


def shapes(limit):
    return [(r, c) for r in range(1, limit + 1) for c in range(1, limit + 1)]


def cells(k, which):
    """Rasters up to 3 x 3 (floating point: 3 x 2) in every block shape, blocks that are larger than the raster included"""
    def run(ctx, P):
        S = shapes(3)
        s = S[which * 3 + ctx.choose(3 if k[0] != "f" or which < 2 else 2, note="shape")]
        b1 = [(y, x) for y in range(1, s[0] + 2) for x in range(1, s[1] + 2)]
        if k[0] == "f":
            b1 = sorted({(1, 1), (1, s[1]), (2, 2), (s[0] + 1, 1)} if which else set(b1))
        b = b1[ctx.choose(len(b1), note="blocks of the first")]
        b2 = [b, (s[0], s[1]), (1, s[1] + 1)]
        b2 = b2[ctx.choose(3, note="blocks of the second")] if not which or k[0] != "f" else b2[b[0] % 2]
        R = Rasters(ctx, P, k, s, (b, b2), ("x", "x") if k[0] == "f" else (None, None))
        ctx.prove("rasters are equal exactly when all cells agree", eq(R.run(), R.agree()))
    return run


def types(ctx, P):
    """Every data type, with and without no-data values"""
    k = list(gd.TYPES)[ctx.choose(len(gd.TYPES), note="type")]
    nd = [(None, None), ("x", None), (None, "x"), ("x", "x"), ("x", "y")][ctx.choose(5, note="no-data values")]
    R = Rasters(ctx, P, k, (2, 3), ((2, 2), (1, 3)), nd)
    ctx.prove("rasters are equal exactly when all cells and no-data values agree", eq(R.run(), R.agree()))


def bands(ctx, P):
    """Bands of different types"""
    T = [("u8", "f64"), ("f64", "u8"), ("i64", "i8")]
    t = T[ctx.choose(len(T), note="types")]
    nd = [(None, None), ("x", "x")][ctx.choose(2, note="no-data values")]
    R = Rasters(ctx, P, t[0], (2, 2), ((2, 2), (2, 1)), nd, 2, t)
    ctx.prove("rasters are equal exactly when all bands agree", eq(R.run(), R.agree()))


def different(ctx, P):
    """Rasters that differ in anything else are never equal"""
    w = ctx.choose(6, note="difference")
    R = Rasters(ctx, P, "i32", (2, 2), ((1, 2), (1, 2)), (None, None))
    d = R.ds[1]
    if w == 0:
        d.shape = [[2, 1], [1, 2], [3, 2], [2, 3], [4, 1], [1, 4]][ctx.choose(6)]
    elif w == 1:
        d.bands[0].dtype = [1, 2, 3, 4, 6, 7, 12, 13, 14, 8, 9, 10, 11][ctx.choose(13)]
    elif w == 2:
        d.bands.append(d.bands[0])
        d.count = 2
    elif w == 3:
        i = [0, 3, 1][ctx.choose(3, note="coefficient")]
        d.geo[i] += 1
        if i == 1:
            d.geo[5] -= 1
    elif w == 4:
        n = NAMES[ctx.choose(2)]
        R.e.W.files.pop(n)
    else:
        t = [8, 9, 10, 11][ctx.choose(4, note="type that is not supported")]
        for x in R.ds:
            x.bands[0].dtype = t
    for x in R.ds:
        for b in x.bands:
            b.cells = [[0] * 4] * 4
    if ctx.choose(2, note="swapped"):
        f = R.e.W.files
        a, b = f.pop(NAMES[0], None), f.pop(NAMES[1], None)
        if a:
            f[NAMES[1]] = a
        if b:
            f[NAMES[0]] = b
    ctx.prove("rasters that differ, or cannot be compared, are not equal", Not(R.run()))


PROOFS = [("cells of integers %d" % i, cells("i32", i)) for i in range(3)] + [("cells of floating points %d" % i, cells("f64", i)) for i in range(3)] + \
    [("types and no-data values", types), ("bands", bands), ("other differences", different)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["gdal"], "p24.cpp", [seed, tier])
