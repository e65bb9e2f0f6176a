"""P23: access to rasters through GDAL"""
from vc import gdalm
from vc.interp import UNDEF, Ptr
from vc.smt import And, Implies, Not, Or, eq, simp
from vc.stdlib import CArr, Map, Str
from . import gd, lib
from .gd import arr

MODULES = ["gdal"]
INST = ["drv/gdal.cpp"]
OPTIONS = [[], [("COMPRESS", "LZW")], [("TILED", "YES"), ("A", ""), ("BLOCKXSIZE", "16")], [("", "x=y")]]


def shape(ctx, what="raster"):
    return [ctx.fresh("%s_%s" % (what, n), lo=0, hi=gd.IMAX) for n in ("rows", "cols")]


def file(ctx, e, name="f.tif", types=None, nodata=None):
    """A raster in a file: of any shape, number of bands, data type, block shape and georeference"""
    s = shape(ctx)
    nb = ctx.fresh("bands", lo=0, hi=gd.IMAX)
    t = ctx.fresh("type", lo=0, hi=14) if types is None else types
    block = shape(ctx, "block")

    def mk():
        d = gdalm.Dataset(name, s, 0, t)
        d.count = nb
        d.made = {}

        def make(n):
            for k, b in d.made.items():
                if eq(k, n) is True:
                    return b
            b = d.made[n] = gdalm.Band(d, n, t, block, nodata)
            return b

        d.make = make
        return d

    e.W.files[name] = mk
    return s, nb, t, block, mk


def names(e):
    return [x[0] for x in e.W.log]


def opening(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        file(ctx, e)
        name = ["f.tif", "none.tif", "", "f.tif.aux"][ctx.choose(4, note="name")]
        mode = ctx.choose(2, note="access")
        fn = ["open", "try_open", "name_type"][ctx.choose(3)] if mode == 0 else ["open", "try_open"][ctx.choose(2)]
        e.W.fail = fail
        threw, d = e.throws(fn, Str(name), mode) if fn != "name_type" else e.throws(fn, Str(name))
        failed, e.W.fail = e.W.failed, "none"
        there = name == "f.tif" and failed is None
        if fn == "try_open":
            ctx.prove("trying to open does not throw", not threw)
            ctx.prove("a dataset that cannot be opened is no dataset", e("is_open", d) is there)
        elif fn == "open":
            ctx.prove("opening fails exactly when the library does", threw == (not there))
        if fn == "name_type":
            nb = e.W.datasets[0].count if e.W.datasets else 0
            ctx.prove("the type of a file that cannot be opened, or has no band, is refused", Implies(threw, Not(And(there, nb >= 1))) if threw else And(there, nb >= 1))
            if not threw:
                ctx.prove("the type is that of the first band", eq(d, e.W.datasets[0].dtype))
        if there:
            ctx.prove("one dataset is opened, with the access asked for", And(len(e.W.datasets) == 1, eq(e.W.datasets[0].access, mode)))
        if fn != "name_type" and not threw:
            if there:
                g = e.E.val(e("get", d))
                ctx.prove("the dataset is the one opened", g.t is e.W.datasets[0] and g.t.closed == 0)
            e.end(d)
        e.closed()
        ctx.cover("end")
    return run


def creating(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        s = shape(ctx)
        nb = ctx.fresh("bands", lo=0, hi=gd.IMAX)
        t = ctx.fresh("type", lo=0, hi=14)
        o = OPTIONS[ctx.choose(len(OPTIONS), note="options")]
        om = lambda: Map([[Str(k), Str(v)] for k, v in o], None, None, False)
        way = ctx.choose(4, note="way")
        g = ["GTiff", "HFA"][ctx.choose(2, note="driver")] if way != 3 else "GTiff"
        src = None
        if way == 3:
            src = gdalm.Dataset("src", s, 0, t)
        unknown = way in (1, 2) and ctx.choose(2, note="driver is not there") == 1
        dn = "no such" if unknown else g
        e.W.fail = fail
        D = e.W.drivers[g]
        if way == 0:
            threw, d = e.throws("create3", D, Str("x"), arr(*s), nb, t, om())
        elif way == 1:
            threw, d = e.throws("create3s", Str(dn), Str("x"), arr(*s), nb, t, om())
        elif way == 2:
            threw, d = e.throws("create0", Str(dn), Str("x"), om())
        else:
            threw, d = e.throws("copy", Str("x"), src, om())
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating fails exactly when the library does", threw == (failed is not None or unknown))
        log = [x for x in e.W.log if x[0] in ("create", "copy")]
        if not unknown and failed != "GetDriverByName":
            ctx.prove("one dataset is created", len(log) == 1)
            x = log[0]
            if way == 3:
                ctx.prove("the copy is of the dataset given, by GeoTIFF's driver", x[1] == "GTiff" and x[3] is src)
                ctx.prove("the name of the dataset", x[2] == "x")
                ctx.prove("the copy may differ where the driver has to", eq(x[4], 0))
                op = x[5]
            else:
                if way == 2:
                    s, nb, t = [0, 0], 0, 0
                ctx.prove("the driver is the one asked for", x[1] == g)
                ctx.prove("the name of the dataset", x[2] == "x")
                ctx.prove("columns and rows", And(eq(x[3], s[1]), eq(x[4], s[0])))
                ctx.prove("the number of bands", eq(x[5], nb))
                ctx.prove("the data type", eq(x[6], t))
                op = x[7]
            ctx.prove("the creation options", (op or []) == ["%s=%s" % kv for kv in sorted(o)])
        else:
            ctx.prove("nothing is created without a driver", not log)
        if not threw:
            g = e.E.val(e("get", d))
            ctx.prove("the dataset is the one created", g.t is e.W.datasets[0] and g.t.closed == 0)
            ctx.prove("nothing is closed before its time", "close" not in names(e))
            e.end(d)
        if src is not None:
            ctx.prove("the dataset copied stays open", src.closed == 0)
        e.closed()
        ctx.cover("end")
    return run


def deleting(ctx, P):
    e = gd.Env(ctx, P, fail="one")
    threw, _ = e.throws("remove", e.W.drivers["HFA"], Str("x"))
    ctx.prove("deleting fails exactly when the library does", threw == (e.W.failed is not None))
    ctx.prove("the dataset named is deleted, by the driver given", e.W.log == [("delete", "HFA", "x")])
    ctx.cover("end")


def dataset(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        s, nb, t, block, mk = file(ctx, e)
        via = ctx.choose(2, note="Raster")
        d = None
        if via:
            d = e("open", Str("f.tif"), 0)
            r = e("raster", d)
            D = e.W.datasets[0]
            arg = r
        else:
            D = mk()
            arg = D
        pick = lambda a, b: e.throws(b if via else a, arg)
        e.W.fail = fail
        ctx.prove("the shape is that of the file: rows, columns", e.eqs(e.pair(pick("ds_shape", "r_shape")[1]), s))
        ctx.prove("the number of bands is that of the file", eq(pick("nr_bands", "r_nr")[1], nb))
        threw, r1 = pick("ds_type", "r_type")
        failed, e.W.failed = e.W.failed, None
        ctx.prove("the type is refused exactly when there is no first band", Implies(failed is None, nb < 1) if threw else And(nb >= 1, failed is None))
        if not threw:
            ctx.prove("the type is that of the first band", And(eq(r1, t), len(D.made) == 1, *[eq(k, 1) for k in D.made]))
        D.made.clear()
        n = ctx.fresh("band", lo=-gd.IMAX, hi=gd.IMAX)
        threw, b = e.throws("r_band", arg, n) if via else e.throws("band", arg, n)
        failed, e.W.failed = e.W.failed, None
        inside = And(n >= 1, n <= nb)
        ctx.prove("a band is refused exactly when its number is not one of the file's, from 1", Implies(failed is None, Not(inside)) if threw else And(inside, failed is None))
        if not threw:
            ctx.prove("the band is the one asked for", And(len(D.made) == 1, *[eq(k, n) for k in D.made]))
            if not via:
                ctx.prove("the band is not another", b.t is list(D.made.values())[0])
        if via:
            e.end(r)
            ctx.prove("a dataset in use stays open", D.closed == 0)
            e.end(d)
            e.closed()
        ctx.cover("end")
    return run


def geo(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        D = gdalm.Dataset("f.tif", [3, 4], 1, 1)
        e.W.datasets.append(D)
        D.geo = [ctx.fresh("g%d" % i, sort="real") for i in range(6)] if ctx.choose(2, note="georeference") else None
        old = D.geo
        way = ctx.choose(3, note="get, set, through Raster")
        g = [ctx.fresh("n%d" % i, sort="real") for i in range(6)]
        if way == 2:
            e.W.files["f.tif"] = lambda: D
            e.W.datasets.clear()
            h = e("open", Str("f.tif"), 1)
            r = e("raster", h)
        e.W.fail = fail
        which = 0 if way == 0 else 1 if way == 1 else ctx.choose(2, note="get, set")
        if which == 0:
            threw, x = e.throws("ds_geo", D) if way == 0 else e.throws("r_geo", r)
            failed = e.W.failed
            fine = And(eq(old[2], 0), eq(old[4], 0), old[5] < 0, eq(old[1], -old[5])) if old is not None and failed is None else False
            ctx.prove("the georeference is refused exactly when there is none, or it is not north up with square cells", Not(fine) if threw else fine)
            if not threw:
                ctx.prove("the georeference is that of the file", e.eqs(e.pair(x, 6), old))
            ctx.prove("reading changes nothing", D.geo is old)
        else:
            threw, _ = e.throws("ds_set_geo", D, arr(*g)) if way == 1 else e.throws("r_set_geo", r, arr(*g))
            failed = e.W.failed
            ctx.prove("setting the georeference fails exactly when the library does", threw == (failed is not None))
            if not threw:
                ctx.prove("the georeference set is the one given", e.eqs(D.geo, g))
        e.W.fail = "none"
        if way == 2:
            e.end(r)
            e.end(h)
            e.closed()
        ctx.cover("end")
    return run


def band(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        s, block = shape(ctx), shape(ctx, "block")
        t = ctx.fresh("type", lo=1, hi=14)
        D = gdalm.Dataset("f", s, 0, t)
        B = gdalm.Band(D, 2, t, block)
        via = ctx.choose(2, note="Raster::Band")
        arg = e("m_band", Ptr(B)) if via else B
        p = "m_" if via else "b_"
        ctx.prove("the type of the band", eq(e(p + "type", arg), t))
        ctx.prove("the shape of the band: rows, columns", e.eqs(e.pair(e(p + "shape", arg)), s))
        ctx.prove("the shape of its blocks: rows, columns", e.eqs(e.pair(e(p + "block_shape", arg)), block))
        ctx.prove("asking transfers nothing", not e.W.log)
        buf = Ptr(CArr([UNDEF] * 4), 0)
        o, w = shape(ctx, "offset"), shape(ctx, "window")
        m = ctx.fresh("memory_type", lo=1, hi=14)
        ops = ["read_block", "write_block", "write4", "write3"] + (["read1", "write1"] if via else ["read4", "read3"])
        k = ops[ctx.choose(len(ops), note="transfer")]
        e.W.fail = fail
        args = {"read_block": [arr(*o), buf], "write_block": [arr(*o), buf], "write4": [arr(*o), arr(*w), m, buf], "read4": [arr(*o), arr(*w), m, buf],
                "write3": [arr(*w), m, buf], "read3": [arr(*w), m, buf], "read1": [buf], "write1": [buf]}[k]
        threw, _ = e.throws(p + k, arg, *args)
        failed = e.W.failed
        ctx.prove("a transfer fails exactly when the library does", threw == (failed is not None))
        ctx.prove("one transfer takes place", len(e.W.log) == 1)
        x = e.W.log[0]
        if k.endswith("block"):
            ctx.prove("the direction, the band and the buffer", x[0] == k.replace("_", " ") and x[1] is B and x[4] == buf)
            ctx.prove("the position of the block: row, column", And(eq(x[2], o[0]), eq(x[3], o[1])))
        else:
            if not k.endswith("4"):
                o = [0, 0]
            if k.endswith("1"):
                w, m = s, t
            ctx.prove("the direction, the band and the buffer", x[0] == k[:-1] and x[1] is B and x[6] == buf)
            ctx.prove("the position of the window: row, column", And(eq(x[2], o[0]), eq(x[3], o[1])))
            ctx.prove("the shape of the window: rows, columns", And(eq(x[4], w[0]), eq(x[5], w[1])))
            ctx.prove("cells are not resampled", And(eq(x[7], w[0]), eq(x[8], w[1])))
            ctx.prove("the data type in memory", eq(x[9], m))
            ctx.prove("cells are contiguous in memory", all(v is None or eq(v, 0) is True for v in x[10]))
        ctx.cover("end")
    return run


def nodata(fail):
    def run(ctx, P):
        e = gd.Env(ctx, P)
        k = list(gd.TYPES)[ctx.choose(len(gd.TYPES), note="element type")]
        n, size, signed = gd.TYPES[k]
        flt = k[0] == "f"
        lo, hi = (-2**(8 * size - 1), 2**(8 * size - 1) - 1) if signed else (0, 2**(8 * size) - 1)
        val = lambda w: ctx.fresh(w, sort="real") if flt else ctx.fresh(w, lo=lo, hi=hi)
        v = val("no_data")
        d = ctx.fresh("defined", sort="bool")
        D = gdalm.Dataset("f", [3, 4], 0, gdalm.GDT[n])
        B = gdalm.Band(D, 1, gdalm.GDT[n], (1, 4), (d, v))
        via = ctx.choose(2, note="Raster::Band")
        arg = e("m_band", Ptr(B)) if via else B
        p = "m_" if via else ""
        r = e(p + "has_no_data_" + k, arg)
        ctx.prove("there is a no-data value exactly when the file defines one", eq(r, d))
        if ctx.feasible(d):
            ctx.assume(d)
            ctx.prove("the no-data value is that of the file", eq(e(p + "no_data_" + k, arg), v))
        ctx.prove("asking changes nothing", not e.W.log)
        w = val("new_no_data")
        e.W.fail = fail
        threw, ok = e.throws(p + "set_no_data_" + k, arg, w)
        failed = e.W.failed
        ctx.prove("setting a no-data value does not throw", not threw)
        if not via:
            ctx.prove("it reports whether the library accepted it", eq(ok, failed is None))
        ctx.prove("the value set is the one given", And(len(e.W.log) == 1, e.W.log[0][1] is B, eq(e.W.log[0][2], w)))
        if failed is None:
            ctx.prove("and found again", And(e(p + "has_no_data_" + k, arg), eq(e(p + "no_data_" + k, arg), w)))
        ctx.cover("end")
    return run


PROOFS = [("open", opening("none")), ("open, a call fails", opening("one")), ("create", creating("none")), ("create, a call fails", creating("one")),
          ("delete", deleting), ("dataset", dataset("none")), ("dataset, a call fails", dataset("one")), ("georeference", geo("none")),
          ("georeference, a call fails", geo("one")), ("band", band("none")), ("band, a call fails", band("one")), ("no data", nodata("none")),
          ("no data, a call fails", nodata("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["gdal"], "p23.cpp", [seed, tier], wraps=["GDALOpen", "GDALClose"])
