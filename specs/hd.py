"""Shared by the specifications of code that uses HDF5"""
from vc import h5
from vc.interp import CppThrow, Interp, Ptr, Ref
from vc.smt import And, Implies, Infeasible, Not, Or, Unsupported, concrete, eq, is_sym, lift, simp
from vc.stdlib import CArr, FnObj, Seq, Str, Vec

HSIZE_MAX = 2**64 - 1
NATIVE = ["INT8", "INT16", "INT32", "INT64", "UINT8", "UINT16", "UINT32", "UINT64", "FLOAT", "DOUBLE"]
SIZES = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8]
CTYPES = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"]
INST = ["drv/hdf5.cpp"]


def dt(k):
    """Datatype value k as the library knows it"""
    n = NATIVE[k]
    return h5.NATIVE["H5T_NATIVE_%s_g" % n].copy()


class Env:
    def __init__(self, ctx, P, fail="none", ns="vp", filename="f.lue"):
        self.ctx = ctx
        self.W = W = h5.World(ctx, fail)
        self.E = Interp(ctx, P, W)
        self.P = P
        self.ns = ns
        self.file = W.file(filename)
        self.root = self.file.root

    def __call__(self, name, *args):
        fs = self.P.find(self.ns + "::" + name)
        if len(fs) != 1:
            raise Unsupported("driver %s: %d candidates" % (name, len(fs)))
        r = self.E.invoke(fs[0], None, list(args))
        return self.E.val(r) if isinstance(r, Ref) else r

    def throws(self, name, *args):
        """(threw, result)"""
        try:
            return False, self(name, *args)
        except CppThrow as e:
            self.exc = e
            return True, None

    def dims(self, kind, values):
        return self(kind, Vec(list(values)))

    def items(self, v):
        """Elements of a vector object"""
        E = self.E
        if not isinstance(v, Seq):
            b = [x for k, x in v.f.items() if k[0] == "base"]
            v = b[0]
        if v.items is None:
            raise Unsupported("vector of symbolic length")
        return [E.val(x) for x in v.items]

    CLOSE = {h5.K_FILE: "H5Fclose", h5.K_GROUP: "H5Gclose", h5.K_DATASET: "H5Dclose", h5.K_SPACE: "H5Sclose",
             h5.K_TYPE: "H5Tclose", h5.K_ATTR: "H5Aclose", h5.K_PLIST: "H5Pclose"}

    def ident(self, g):
        """A handle of a new library identifier of object g"""
        W = self.W
        if isinstance(g, h5.File):
            hid, kind = W.open_file(g), h5.K_FILE
        else:
            kind = {"group": h5.K_GROUP, "dataset": h5.K_DATASET}[g.kind]
            hid = W.new(kind, g)
        close = getattr(W, self.CLOSE[kind])
        return self.E.construct("lue::hdf5::Identifier::Identifier",
                                [hid, FnObj(lambda E, a: close(E, [E.val(a[0])], None))], n=2)

    def obj(self, hid):
        """Library object of an open identifier"""
        x = self.W.hids.get(simp(hid))
        return x.obj if x is not None and (is_sym(x.rc) or x.rc > 0) else None

    def group(self, g):
        if g.parent is None:
            # the root group through its file, as File does
            return self.E.construct("lue::hdf5::Group::Group", [self.ident(g.file)], n=1, pred=rvalue_id(self.E))
        i = self.ident(self.file)
        r = self("group", i, Str(g.path))
        self.E.destroy(i)
        return r

    def dataset(self, g):
        i = self.ident(self.file)
        r = self("open2", i, Str(g.path))
        self.E.destroy(i)
        return r

    def predef(self, k):
        return self.W.predef["H5T_NATIVE_%s_g" % NATIVE[k]]

    def eqs(self, a, b):
        if len(a) != len(b):
            return False
        return And(*[eq(x, y) for x, y in zip(a, b)])


def rvalue_id(E):
    def p(f):
        t = f["_tu"].type(f["params"][0]["t"])
        return t.k == "ref" and "Identifier" in t.name
    return p
