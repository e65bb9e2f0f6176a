"""P04: chunk shapes"""
import z3
from vc.smt import And, Implies, Or, eq, simp, lift
from . import hd, lib

MODULES = ["hdf5"]
INST = hd.INST
LIMIT = 1024 * 1024


def prod(xs):
    r = 1
    for x in xs:
        r = simp(lift(r) * lift(x))
    return r


def run(ctx, P, r, order):
    e = hd.Env(ctx, P)
    lim = e("upper_limit")
    ctx.prove("the upper limit is 1 MiB", eq(lim, LIMIT))
    z = ctx.fresh("element_size", lo=1, hi=2**32)
    s = [ctx.fresh("extent_%d" % d, lo=1, hi=2**62) for d in range(r)]
    if order:
        # symmetric in the dimensions: shapes in order of extent stand for all
        for a, b in zip(s, s[1:]):
            ctx.assume(a <= b)
    size = prod([z] + s)
    c = e.items(e("chunk_shape_", e.dims("shape", s), z))
    ctx.prove("a chunk has one more dimension than a value", len(c) == r + 1)
    if len(c) != r + 1:
        return
    for x in c:
        ctx.prove("extents of a chunk are at least one", x >= 1)
    for x, y in zip(c[1:], s, strict=True):
        ctx.prove("a chunk is not larger than a value along any dimension", x <= y)
    fits = size <= LIMIT
    if e.E.istrue(fits):
        for x, y in zip(c[1:], s, strict=True):
            ctx.prove("whole values are chunked when a value fits", eq(x, y))
        ctx.prove("the largest number of values that fits is in a chunk",
                  And(c[0] * size <= LIMIT, (c[0] + 1) * size > LIMIT))
    else:
        ctx.prove("a chunk is part of a single value otherwise", eq(c[0], 1))
        # lemma steps from the divisions made by the code: a budget that is divided by each extent in turn
        d = e.E.divs[-r - 1:] if r else []
        suffix = 1
        for a, b, q in reversed(d):
            ctx.lemma("a quotient times its divisor is not larger than the dividend",
                      lambda a, b, q, s: (z3.And(b >= 1, q >= 0, q == a / b, s <= q, s >= 1), z3.And(s * b <= a, s * b >= 1)),
                      [a, b, q, suffix])
            suffix = simp(lift(suffix) * b)
        p = prod([z] + c)
        ctx.prove("a chunk is not larger than the limit, unless an element is",
                  Or(p <= LIMIT, And(z > LIMIT, *[eq(x, 1) for x in c])))
    ctx.cover("end")


def rank(r, order):
    return lambda ctx, P: run(ctx, P, r, order)


PROOFS = [("rank %d" % r, rank(r, False)) for r in range(0, 4)] + \
         [("rank %d in order of extent" % r, rank(r, True)) for r in (4, 5, 6, 8)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p04.cpp", [seed, tier], only=["chunk.cpp", "shape.cpp"])
