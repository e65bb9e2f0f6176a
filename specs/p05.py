"""P05: mapping between file and memory datatypes"""
from vc import h5
from vc.interp import CppThrow
from vc.smt import And, Implies, Or, eq
from vc.stdlib import FnObj
from . import hd, lib

MODULES = ["hdf5"]
INST = hd.INST
STDN = ["I8LE", "I16LE", "I32LE", "I64LE", "U8LE", "U16LE", "U32LE", "U64LE", "F32LE", "F64LE"]


def std_name(k):
    return ("H5T_IEEE_" if k >= 8 else "H5T_STD_") + STDN[k]


def value(e, o):
    return e.W.hids[e("dt_id", o)].obj


def is_type(e, o, k):
    """o is an open datatype of element type k"""
    x = e.obj(e("dt_id", o))
    return x is not None and x.same(hd.dt(k))


def own(e, dt):
    """A handle of a new datatype in the library"""
    i = e.E.construct("lue::hdf5::Identifier::Identifier",
                      [e.W.new(h5.K_TYPE, dt), FnObj(lambda E, a: e.W.H5Tclose(E, [E.val(a[0])], None))], n=2)
    r = e("datatype_owning", i)
    e.E.destroy(i)
    return r


def sname(e, n, *a):
    from vc.stdlib import strval
    return strval(e.E, e(n, *a))


def elements(ctx, P):
    """All element types, given by the objects, the types and the traits, as the library's own or as copies of it"""
    e = hd.Env(ctx, P)
    k = ctx.choose(10, note="element type")
    src = ctx.choose(4, note="origin")
    if src == 0:
        n, s = e("native", k), e("standard", k)
    elif src == 1:
        n, s = e("native_by_type", k), e("standard_by_type", k)
    elif src == 2:
        n, s = e("datatype_of_id", e("native_trait_%d" % k)), e("datatype_of_id", e("standard_trait_%d" % k))
    else:
        n = own(e, hd.dt(k))
        s = own(e, hd.dt(k))
    ctx.prove("the native datatype is that of the element type", is_type(e, n, k))
    ctx.prove("the on-disk datatype is the little-endian one of the element type", is_type(e, s, k))
    ctx.prove("a native datatype is native", e.E.istrue(e("is_native", n)))
    ctx.prove("an on-disk datatype is standard", e.E.istrue(e("is_standard", s)))
    ctx.prove("a number is no string", not e.E.istrue(e("is_string", n)) and not e.E.istrue(e("is_string", s)))
    f = e("to_file", n)
    ctx.prove("the file datatype is the on-disk one of the element type", is_type(e, f, k))
    m = e("to_memory", f)
    ctx.prove("and back is the native datatype", is_type(e, m, k))
    ctx.prove("the memory datatype is the native one of the element type", is_type(e, e("to_memory", s), k))
    ctx.prove("size of a datatype", And(eq(e("size", n), hd.SIZES[k]), eq(e("size", s), hd.SIZES[k])))
    ctx.prove("size of the standard type", eq(e("standard_trait_size_%d" % k), hd.SIZES[k]))
    nn = "H5T_NATIVE_" + hd.NATIVE[k]
    ctx.prove("name of a native datatype", sname(e, "native_name", n) == nn and sname(e, "native_name", m) == nn and
              sname(e, "native_trait_name_%d" % k) == nn)
    sn = std_name(k)
    ctx.prove("name of an on-disk datatype", sname(e, "standard_name", s) == sn and sname(e, "standard_name", f) == sn and
              sname(e, "standard_trait_name_%d" % k) == sn)
    ctx.prove("class", eq(e("class_of", n), 1 if k >= 8 else 0))
    ctx.cover("end")


def equality(ctx, P):
    e = hd.Env(ctx, P)
    j, k = ctx.choose(10), ctx.choose(10)
    a, b = e("native", j), own(e, hd.dt(k))
    ctx.prove("datatypes are equal exactly when they describe the same type", e.E.istrue(e("equal", a, b)) == (j == k))
    ctx.prove("datatypes are different exactly when they are not equal", e.E.istrue(e("unequal", a, b)) == (j != k))
    ctx.cover("end")


def strings(ctx, P):
    e = hd.Env(ctx, P)
    kind = ctx.choose(4)
    n = ctx.fresh("string_size", lo=1, hi=2**32)
    if kind == 0:
        t, cset = e("string_type", n), 1
    elif kind == 1:
        t, cset, n = e("vlen_string_type"), 1, h5.SIZE_MAX
    elif kind == 2:
        cset = ctx.choose(2)
        t = own(e, h5.DT(h5.T_STRING, n, cset=cset))
    else:
        t, cset, n = e("native_string") if ctx.choose(2) else e("standard_string"), 1, h5.SIZE_MAX
    want = h5.DT(h5.T_STRING, n, cset=cset)
    ctx.prove("a string datatype is a string of the size asked for", value(e, t).same(want))
    ctx.prove("a string datatype is a string", e.E.istrue(e("is_string", t)))
    ctx.prove("a string is no number", not e.E.istrue(e("is_native", t)) and not e.E.istrue(e("is_standard", t)))
    ctx.prove("encoding of strings", eq(e("encoding", t), cset))
    for f in ("to_file", "to_memory"):
        u = e(f, t)
        ctx.prove("strings keep size and encoding", value(e, u).same(want))
    ctx.prove("name of a string datatype", sname(e, "native_name", t) == "string" and sname(e, "standard_name", t) == "string"
              and sname(e, "native_string_name") == "string" and sname(e, "standard_string_name") == "string")
    u = e("recode", t)
    ctx.prove("encoding and decoding a datatype gives an equal one", value(e, u).same(want))
    ctx.cover("end")


OTHERS = [h5.DT(h5.T_COMPOUND, 8), h5.DT(0, 4, "BE", True), h5.DT(0, 8, "BE", False), h5.DT(1, 4, "BE"), h5.DT(1, 8, "BE"),
          h5.DT(0, 3, "LE", True), h5.DT(0, 16, "LE", False), h5.DT(1, 16), h5.DT(1, 2), h5.DT(4, 1), h5.DT(5, 8),
          h5.DT(7, 8), h5.DT(8, 4), h5.DT(9, 16), h5.DT(10, 8)]


def unsupported(ctx, P):
    e = hd.Env(ctx, P)
    x = OTHERS[ctx.choose(len(OTHERS), note="datatype")].copy()
    fn = ["to_file", "to_memory", "native_name", "standard_name", "encoding"][ctx.choose(5, note="function")]
    t = own(e, x)
    e.E.check_asserts = "refuse"
    try:
        e(fn, t)
        ok = False
    except CppThrow:
        ok = True
    ctx.prove("an unsupported datatype is refused", ok, datatype=repr(x), function=fn)
    ctx.cover("end")


def recode(ctx, P):
    e = hd.Env(ctx, P)
    k = ctx.choose(10 + len(OTHERS))
    x = hd.dt(k) if k < 10 else OTHERS[k - 10].copy()
    t = own(e, x.copy())
    ctx.prove("encoding and decoding a datatype gives an equal one", value(e, e("recode", t)).same(x))
    ctx.cover("end")


def compound(ctx, P):
    e = hd.Env(ctx, P)
    j, k = ctx.choose(10), ctx.choose(10)
    n = ctx.fresh("size", lo=16, hi=2**20)
    t = e("compound", n)
    from vc.stdlib import Str
    e("insert", t, Str("first"), 0, e("native", j))
    e("insert", t, Str("second"), 8, e("native", k))
    want = h5.DT(h5.T_COMPOUND, n, members=[("first", 0, hd.dt(j)), ("second", 8, hd.dt(k))])
    ctx.prove("a compound datatype has the members inserted", value(e, t).same(want))
    ctx.prove("a compound datatype has the size asked for", eq(e("size", t), n))
    ctx.cover("end")


def failures(ctx, P):
    """Failures of the library become exceptions"""
    e = hd.Env(ctx, P, fail="any")
    k = ctx.choose(5)
    t = e("native", 3)
    threw, r = e.throws(["string_type", "vlen_string_type", "compound", "recode", "recode"][k], *[[8], [], [8], [t], [t]][k])
    ctx.prove("a failure of the library is reported", threw == (e.W.failed is not None))
    ctx.cover("end")


PROOFS = [("elements", elements), ("equality", equality), ("strings", strings), ("unsupported", unsupported),
          ("recode", recode), ("compound", compound), ("failures", failures)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p05.cpp", [seed, tier])
