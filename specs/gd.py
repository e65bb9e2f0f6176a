"""Shared by the specifications of raster access"""
from vc import gdalm
from vc.interp import CppThrow, Interp, Ptr, Ref
from vc.smt import And, Unsupported, eq
from vc.stdlib import Arr, Str

from . import hd

TYPES = {"u8": ("Byte", 1, False), "i8": ("Int8", 1, True), "u16": ("UInt16", 2, False), "i16": ("Int16", 2, True),
         "u32": ("UInt32", 4, False), "i32": ("Int32", 4, True), "u64": ("UInt64", 8, False), "i64": ("Int64", 8, True),
         "f32": ("Float32", 4, True), "f64": ("Float64", 8, True)}
IMAX = 2**31 - 1


class Env:
    ns = "vg"

    def __init__(self, ctx, P, fail="none"):
        self.ctx, self.P = ctx, P
        self.W = gdalm.World(ctx, fail)
        self.E = Interp(ctx, P, self.W)
        self.E.check_overflow = True

    __call__ = hd.Env.__call__
    throws = hd.Env.throws
    eqs = hd.Env.eqs

    def pair(self, v, n=2):
        v = self.E.val(v)
        return [self.E.val(v.get_at(i)) for i in range(n)]

    def text(self, v):
        v = self.E.val(v)
        return v.v

    def end(self, x):
        """The life of an object ends"""
        self.E.destroy(x)

    def closed(self, what="every dataset opened is closed once"):
        self.ctx.prove(what, all(d.closed == 1 for d in self.W.datasets))


def arr(*v):
    return Arr(list(v))
