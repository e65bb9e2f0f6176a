"""A ghost model of the GDAL library: drivers, datasets, bands, and the calls that reach it"""
from . import stdlib
from .interp import Cell, Obj, Ptr, Ref, Intrinsic
from .smt import And, Not, Or, Unsupported, concrete, eq, is_sym, simp
from .stdlib import FV, CStr, Str, to_float

GDT = {"Unknown": 0, "Byte": 1, "UInt16": 2, "Int16": 3, "UInt32": 4, "Int32": 5, "Float32": 6, "Float64": 7, "CInt16": 8,
       "CInt32": 9, "CFloat32": 10, "CFloat64": 11, "UInt64": 12, "Int64": 13, "Int8": 14, "TypeCount": 15}
WIDE = {12: "UInt64", 13: "Int64"}  # types whose no-data value does not fit in a double


class Thing(Intrinsic):
    def copy(self, E):
        raise Unsupported("copy of an object of GDAL")

    move = copy

    def destroy(self, E):
        pass


class Driver(Thing):
    def __init__(self, name):
        self.name = name


class Dataset(Thing):
    def __init__(self, name, shape=(0, 0), bands=0, dtype=0, geo=None, access=0):
        self.name = name
        self.shape = list(shape)
        self.bands = [Band(self, i + 1, dtype) for i in range(bands)] if not is_sym(bands) else bands
        self.count = bands
        self.dtype = dtype
        self.geo = geo
        self.access = access
        self.opened = 1
        self.closed = 0
        self.options = None
        self.statistics = True


class Band(Thing):
    def __init__(self, ds, nr, dtype, block=(1, 1), nodata=None):
        self.ds, self.nr, self.dtype = ds, nr, dtype
        self.block = list(block)
        self.nodata = nodata  # (defined, value)
        self.cells = None


class World:
    construct = {}

    def __init__(self, ctx, fail="none"):
        self.ctx, self.fail = ctx, fail
        self.failed = None
        self.log = []
        self.files = {}  # name -> function making the dataset of an open file
        self.drivers = {n: Driver(n) for n in ("GTiff", "HDF4", "HDF5", "netCDF", "PCRaster", "HFA", "MEM")}
        self.datasets = []

    def mayfail(self, what):
        if self.fail == "none" or self.failed is not None:
            return False
        if self.ctx.choose(2, note="%s fails" % what):
            self.failed = what
            return True
        return False

    def global_var(self, E, q):
        return None

    # ------------------------------------------------------------------ dispatch
    def fn(self, q):
        h = getattr(self, "f_" + q.split("::")[-1], None) if "::" not in q else None
        if h is None:
            return None
        return lambda E, o, args, fn, e: h(E, [E.val(x) if isinstance(x, Ref) else x for x in args])

    def method(self, q):
        p = q.split("::")
        if len(p) != 2 or not p[0].startswith("GDAL"):
            return None
        h = getattr(self, "m_" + p[1], None)
        if h is None:
            return None

        def run(E, o, args, fn, e):
            o = E.val(o) if isinstance(o, Ref) else o
            if isinstance(o, Ptr):
                o = o.t
            if isinstance(o, Dataset) or isinstance(o, Band):
                d = o if isinstance(o, Dataset) else o.ds
                self.ctx.prove("only open datasets are used", d.closed == 0, at=E.where())
            return h(E, o, [E.val(x) if isinstance(x, Ref) else x for x in args])

        return run

    def text(self, E, v):
        v = E.val(v) if isinstance(v, Ref) else v
        if isinstance(v, CStr):
            return v.v
        if isinstance(v, Str):
            return v.v
        if isinstance(v, str):
            return v
        if isinstance(v, Ptr):
            return E.std.strval(E, v)
        raise Unsupported("text %r" % (v,))

    # ------------------------------------------------------------------ library
    def f_GDALAllRegister(self, E, a):
        self.log.append(("register",))

    def f_GetGDALDriverManager(self, E, a):
        return Ptr(Driver("manager"))

    def m_GetDriverByName(self, E, o, a):
        n = self.text(E, a[0])
        if not concrete(n):
            raise Unsupported("symbolic driver name")
        d = self.drivers.get(n)
        return None if d is None or self.mayfail("GetDriverByName") else Ptr(d)

    def f_GDALOpen(self, E, a):
        n = self.text(E, a[0])
        mk = self.files.get(n)
        if mk is None or self.mayfail("GDALOpen"):
            self.log.append(("not opened", n, a[1]))
            return None
        d = mk()
        d.access = a[1]
        self.datasets.append(d)
        self.log.append(("open", n, a[1]))
        return Ptr(d)

    def f_GDALClose(self, E, a):
        d = a[0].t
        self.ctx.prove("a dataset is closed once", d.closed == 0, at=E.where())
        d.closed += 1
        self.log.append(("close", d.name))
        return 0

    def at(self, E, p, i):
        return stdlib.elem(E, p.t, simp((p.i or 0) + i))

    def options(self, E, p):
        """The NULL-terminated list of creation options"""
        if p is None:
            return None
        out = []
        i = 0
        while True:
            v = E.val(self.at(E, p, i))
            if v is None:
                return out
            out.append(self.text(E, v))
            i += 1
            if i > 50:
                raise Unsupported("option list without end")

    def m_Create(self, E, o, a):
        name, xs, ys, nb, t, op = a[:6]
        name = self.text(E, name)
        op = self.options(E, op)
        self.log.append(("create", o.name, name, xs, ys, nb, t, op))
        if self.mayfail("Create"):
            return None
        d = Dataset(name, (ys, xs), 0, t)
        d.count, d.dtype, d.options = nb, t, op
        self.datasets.append(d)
        return Ptr(d)

    def m_CreateCopy(self, E, o, a):
        name, src, strict, op = self.text(E, a[0]), a[1].t, a[2], self.options(E, a[3])
        self.log.append(("copy", o.name, name, src, strict, op))
        if self.mayfail("CreateCopy"):
            return None
        d = Dataset(name, src.shape, 0, 0)
        d.source = src
        self.datasets.append(d)
        return Ptr(d)

    def m_ClearStatistics(self, E, o, a):
        o.statistics = False

    def m_Delete(self, E, o, a):
        n = self.text(E, a[0])
        self.log.append(("delete", o.name, n))
        return 3 if self.mayfail("Delete") else 0

    # ------------------------------------------------------------------ datasets
    def m_GetRasterCount(self, E, o, a):
        return o.count

    def m_GetRasterXSize(self, E, o, a):
        return o.shape[1]

    def m_GetRasterYSize(self, E, o, a):
        return o.shape[0]

    def m_GetRasterBand(self, E, o, a):
        n = a[0]
        if not E.ctx.branch(And(n >= 1, n <= o.count)):
            return None
        if self.mayfail("GetRasterBand"):
            return None
        if concrete(n) and isinstance(o.bands, list) and n <= len(o.bands):
            return Ptr(o.bands[n - 1])
        return Ptr(o.make(n))

    def m_GetGeoTransform(self, E, o, a):
        if o.geo is None or self.mayfail("GetGeoTransform"):
            v = [0, 1, 0, 0, 0, 1]  # the library's default
        else:
            v = o.geo
        for i in range(6):
            self.at(E, a[0], i).set(v[i])
        return 3 if o.geo is None or self.failed == "GetGeoTransform" else 0

    def m_SetGeoTransform(self, E, o, a):
        if self.mayfail("SetGeoTransform"):
            return 3
        o.geo = [E.val(self.at(E, a[0], i)) for i in range(6)]
        self.log.append(("geo", o))
        return 0

    # ------------------------------------------------------------------ bands
    def m_GetRasterDataType(self, E, o, a):
        return o.dtype

    def m_GetXSize(self, E, o, a):
        return o.ds.shape[1]

    def m_GetYSize(self, E, o, a):
        return o.ds.shape[0]

    def m_GetBlockSize(self, E, o, a):
        for p, v in zip(a, (o.block[1], o.block[0])):
            E.deref(p).set(v)

    def m_ReadBlock(self, E, o, a):
        x, y, p = a
        self.log.append(("read block", o, y, x, p))
        if self.mayfail("ReadBlock"):
            return 3
        self.fill(E, o, "block", y, x, p)
        return 0

    def m_WriteBlock(self, E, o, a):
        x, y, p = a
        self.log.append(("write block", o, y, x, p))
        return 3 if self.mayfail("WriteBlock") else 0

    def m_RasterIO(self, E, o, a):
        rw, x, y, nx, ny, p, bx, by, t = a[:9]
        rest = [simp(v) if not isinstance(v, Ptr) else v for v in a[9:]]
        if not concrete(rw):
            raise Unsupported("symbolic direction")
        self.log.append(("write" if rw == 1 else "read", o, y, x, ny, nx, p, by, bx, t, rest))
        if self.mayfail("RasterIO"):
            return 3
        if rw == 0:
            self.fill(E, o, "window", y, x, p, ny, nx, by, bx, t, rest)
        return 0

    def fill(self, E, o, *what):
        """Data read: for specifications that look at cells"""

    def nodata(self, E, o, a, wide):
        d, v = o.nodata if o.nodata is not None else (False, None)
        kind = WIDE.get(simp(o.dtype))
        ok = kind == wide
        if v is None or not ok:
            v = E.ctx.fresh("not_the_no_data_value", sort="int" if wide else "real")
        if not wide and not isinstance(v, FV):
            v = to_float(E, v) if concrete(v) or v.is_int() else v
        if not ok and wide:
            d = False  # refused by the library
        if a[0] is not None:
            r = E.deref(a[0])
            r.set(1 if E.ctx.branch(d) else 0)
        return v

    def m_GetNoDataValue(self, E, o, a):
        return self.nodata(E, o, a, None)

    def m_GetNoDataValueAsInt64(self, E, o, a):
        return self.nodata(E, o, a, "Int64")

    def m_GetNoDataValueAsUInt64(self, E, o, a):
        return self.nodata(E, o, a, "UInt64")

    def setnodata(self, E, o, v, wide):
        self.log.append(("no data", o, v, wide))
        kind = WIDE.get(simp(o.dtype))
        if self.mayfail("SetNoDataValue") or kind != wide:
            return 3
        o.nodata = (True, v)
        return 0

    def m_SetNoDataValue(self, E, o, a):
        return self.setnodata(E, o, a[0], None)

    def m_SetNoDataValueAsInt64(self, E, o, a):
        return self.setnodata(E, o, a[0], "Int64")

    def m_SetNoDataValueAsUInt64(self, E, o, a):
        return self.setnodata(E, o, a[0], "UInt64")
