"""P22: natural blocks partition a raster"""
from vc import build
from vc.interp import Interp
from vc.smt import And, Implies, Not, Or, eq
from vc.stdlib import Arr

from . import lib

MODULES = []
FILES = ["data_model/gdal/source/blocks.cpp"]
IMAX = 2**31 - 1
Q = "lue::gdal::Blocks::"


def setup(ctx, P, zero=False):
    E = Interp(ctx, P, lib.World())
    E.check_overflow = True
    full = [ctx.fresh("raster_extent_%d" % d, lo=1) for d in (0, 1)]
    block = [ctx.fresh("block_extent_%d" % d, lo=1) for d in (0, 1)]
    for f, b in zip(full, block):
        ctx.assume(b <= f)
        ctx.assume(f + b <= IMAX)  # requires: extents for which int arithmetic is exact
    o = E.construct(Q + "Blocks", [Arr(list(full)), Arr(list(block))])
    return E, o, full, block


def pair(E, v):
    v = E.val(v)
    return [E.val(v.get_at(0)), E.val(v.get_at(1))]


def accessors(ctx, P):
    E, o, full, block = setup(ctx, P)
    r = pair(E, E.method(o, "raster_shape"))
    b = pair(E, E.method(o, "block_shape"))
    for d in (0, 1):
        ctx.prove("raster shape reported is the one given", eq(r[d], full[d]))
        ctx.prove("block shape reported is the one given", eq(b[d], block[d]))
    ctx.cover("end")


def cover_all(ctx, P):
    E, o, full, block = setup(ctx, P)
    nb = pair(E, E.method(o, "shape_in_blocks"))
    for d in (0, 1):
        ctx.prove("the blocks along an axis cover it", nb[d] * block[d] >= full[d])
        ctx.prove("no block along an axis is superfluous", (nb[d] - 1) * block[d] < full[d])
    ctx.cover("end")


def valid(ctx, P):
    E, o, full, block = setup(ctx, P)
    off = [ctx.fresh("block_offset_%d" % d, lo=0) for d in (0, 1)]
    for d in (0, 1):
        # off[d] < ceil(full / block), as shown for shape_in_blocks
        ctx.assume(off[d] * block[d] < full[d])
    v = pair(E, E.method(o, "shape_in_valid_cells", [Arr(list(off))]))
    for d in (0, 1):
        end = off[d] * block[d] + v[d]
        ctx.prove("a block has at least one valid cell", v[d] >= 1)
        ctx.prove("a block has no more valid cells than its shape", v[d] <= block[d])
        ctx.prove("valid cells end at the end of the block or of the raster",
                  Or(And(eq(v[d], block[d]), end <= full[d]), And(eq(end, full[d]), v[d] <= block[d])))
    ctx.cover("end")


def empty(ctx, P):
    """A block extent of zero is accepted and yields no block along that axis"""
    E = Interp(ctx, P, lib.World())
    full = [ctx.fresh("raster_extent_%d" % d, lo=0, hi=2**30) for d in (0, 1)]
    z = ctx.choose(2)
    block = [0, 0]
    block[1 - z] = ctx.fresh("block_extent", lo=1)
    ctx.assume(block[1 - z] <= full[1 - z])
    o = E.construct(Q + "Blocks", [Arr(list(full)), Arr(list(block))])
    nb = pair(E, E.method(o, "shape_in_blocks"))
    ctx.prove("no blocks along an axis with empty blocks", eq(nb[z], 0))
    ctx.cover("end")


PROOFS = [("accessors", accessors), ("cover", cover_all), ("valid", valid), ("empty", empty)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["gdal"], "p22.cpp", [seed, tier], only=["blocks.cpp"])
