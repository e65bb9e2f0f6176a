"""P25: GDAL data types and drivers"""
from vc import gdalm
from vc.smt import And, eq
from vc.stdlib import Str
from . import gd, lib

MODULES = ["gdal"]
INST = ["drv/gdal.cpp"]
NAMES = {v: "GDT_" + k for k, v in gdalm.GDT.items()}
EXT = {".tif": "GTiff", ".hdf4": "HDF4", ".h4": "HDF4", ".hdf5": "HDF5", ".h5": "HDF5", ".nc": "netCDF", ".map": "PCRaster",
       ".csf": "PCRaster", ".img": "HFA"}
STEMS = ["", "a", "dir.tif/a", "/x/y.h5/b.c", "a.map", "A b", "../a", "\xc3\xa9", ".", "a."]
UNKNOWN = ["", ".", ".tiff", ".ti", ".t", "tif", ".tif2", ".txt", ".hdf", ".h", ".maps", ".tif/b", ".tif.bak", ".tif ", ". tif", ".imgx", ".nc4", ".\xc3\xa9"]


def types(ctx, P):
    e = gd.Env(ctx, P)
    k = list(gd.TYPES)[ctx.choose(len(gd.TYPES), note="element type")]
    n = gd.TYPES[k][0]
    ctx.prove("the type of the library for an element type", And(eq(e("type_" + k), gdalm.GDT[n]), eq(e("type_v_" + k), gdalm.GDT[n])))
    ctx.prove("element types are supported", e("supports_" + k) is True)
    threw, _ = e.throws("verify_" + k)
    ctx.prove("supported types are not refused", not threw)
    ctx.prove("the name of the type", eq(e.text(e("type_name", gdalm.GDT[n])), "GDT_" + n))
    ctx.cover("end")


def names(ctx, P):
    e = gd.Env(ctx, P)
    t = ctx.fresh("type", lo=0, hi=14)
    r = e.text(e("type_name", t))
    for v, n in NAMES.items():
        if v != 15 and ctx.feasible(t == v):
            ctx.prove("the name of a type is that of its enumerator", eq(r, n))
    ctx.cover("end")


def cases(s, bits):
    return "".join(c.upper() if bits >> i & 1 else c for i, c in enumerate(s))


def drivers(ctx, P):
    e = gd.Env(ctx, P)
    x = list(EXT)[ctx.choose(len(EXT), note="extension")]
    bits = ctx.choose(1 << len(x.strip("."))) << 1
    stems = [s for s in STEMS if s and not s.endswith(("/", ))]
    s = stems[ctx.choose(len(stems), note="stem")] if bits in (0, 2) else stems[0]
    r = e.text(e("name_of_driver", Str(s + cases(x, bits))))
    ctx.prove("the driver depends on the extension, in any case", r == EXT[x], file=s + cases(x, bits))
    ctx.prove("the driver is that of its name", e("find_driver", Str(r)).t is e.W.drivers[r])
    ctx.cover("end")


def unknown(ctx, P):
    e = gd.Env(ctx, P)
    x = UNKNOWN[ctx.choose(len(UNKNOWN), note="extension")]
    s = ["a", "dir.nc/b", ""][ctx.choose(3)]
    r = e.text(e("name_of_driver", Str(s + x)))
    ctx.prove("a file of another kind has no driver", r not in e.W.drivers, file=s + x, driver=r)
    threw, _ = e.throws("find_driver", Str(r))
    ctx.prove("a driver that is not there is refused", threw)
    ctx.cover("end")


def dotfile(ctx, P):
    """A name that starts with a dot has no extension"""
    e = gd.Env(ctx, P)
    x = list(EXT)[ctx.choose(len(EXT))]
    r = e.text(e("name_of_driver", Str(["", "d/", "a.tif/"][ctx.choose(3)] + x)))
    ctx.prove("a name that is all dot and letters has no driver", r not in e.W.drivers)
    ctx.cover("end")


PROOFS = [("element types", types), ("names of types", names), ("drivers", drivers), ("unknown extensions", unknown), ("dot files", dotfile)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["gdal"], "p25.cpp", [seed, tier])
