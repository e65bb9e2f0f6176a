"""Ghost model of the HDF5 C library: assumed contracts on the functions the repository calls.

Objects are records with identity; identifiers (hid_t) are concrete integers with a kind and a reference count.
Every change to a file is appended to `log`, so a specification can state the complete effect of an operation.
"""
import z3

from .interp import Cell, CStr, Intrinsic, Obj, Ptr, Ref, UNDEF, FnRef, Closure
from .smt import And, If, Infeasible, Not, Or, Unsupported, concrete, eq, is_sym, lift, simp
from . import stdlib
from .stdlib import Seq, Str, Vec

K_FILE, K_GROUP, K_TYPE, K_SPACE, K_DATASET, K_ATTR = 1, 2, 3, 4, 5, 6  # H5I_type_t of HDF5 1.10
K_PLIST = 10
SIZE_MAX = (1 << 64) - 1
T_INTEGER, T_FLOAT, T_STRING, T_COMPOUND, T_VLEN = 0, 1, 3, 6, 9


class DT:
    """Datatype value: class, size, detail"""

    def __init__(self, cls, size, order="LE", signed=None, cset=None, members=()):
        self.cls, self.size, self.order, self.signed, self.cset = cls, size, order, signed, cset
        self.members = list(members)

    def copy(self):
        return DT(self.cls, self.size, self.order, self.signed, self.cset, self.members)

    def same(self, o):
        if (self.cls, self.order if self.cls < 2 else None, self.signed, self.cset) != (
                o.cls, o.order if o.cls < 2 else None, o.signed, o.cset):
            return False
        if len(self.members) != len(o.members):
            return False
        r = eq(self.size, o.size)
        for (a, b, c), (d, e, f) in zip(self.members, o.members):
            r = And(r, eq(a, d), eq(b, e), c.same(f))
        return r

    def __repr__(self):
        return "DT(%s,%s,%s,%s)" % (self.cls, self.size, self.signed, self.cset)


def _int(bits, signed, order="LE"):
    return DT(T_INTEGER, bits // 8, order, signed)


NATIVE = {}
STD = {}
for b in (8, 16, 32, 64):
    for s in (True, False):
        NATIVE["H5T_NATIVE_%sINT%d_g" % ("" if s else "U", b)] = _int(b, s)
        for o in ("LE", "BE"):
            STD["H5T_STD_%s%d%s_g" % ("I" if s else "U", b, o)] = _int(b, s, o)
for n, sz, s in (("SCHAR", 8, True), ("UCHAR", 8, False), ("SHORT", 16, True), ("USHORT", 16, False), ("INT", 32, True),
                 ("UINT", 32, False), ("LONG", 64, True), ("ULONG", 64, False), ("LLONG", 64, True),
                 ("ULLONG", 64, False), ("HSIZE", 64, False), ("HSSIZE", 64, True), ("HBOOL", 8, False),
                 ("B8", 8, False)):
    NATIVE["H5T_NATIVE_%s_g" % n] = _int(sz, s)
NATIVE["H5T_NATIVE_FLOAT_g"] = DT(T_FLOAT, 4)
NATIVE["H5T_NATIVE_DOUBLE_g"] = DT(T_FLOAT, 8)
for o in ("LE", "BE"):
    STD["H5T_IEEE_F32%s_g" % o] = DT(T_FLOAT, 4, o)
    STD["H5T_IEEE_F64%s_g" % o] = DT(T_FLOAT, 8, o)
STD["H5T_C_S1_g"] = DT(T_STRING, 1, cset=0)
PREDEF = dict(NATIVE)
PREDEF.update(STD)

PLIST_CLASS = {"H5P_CLS_DATASET_CREATE_ID_g": 901, "H5P_CLS_DATASET_ACCESS_ID_g": 902,
               "H5P_CLS_DATASET_XFER_ID_g": 903, "H5P_CLS_FILE_ACCESS_ID_g": 904, "H5P_CLS_FILE_CREATE_ID_g": 905,
               "H5P_CLS_LINK_CREATE_ID_g": 906}


class NameMap:
    """Name -> entry. With `unknown`, names not yet seen may or may not exist."""

    def __init__(self, maker=None):
        self.entries = []  # [name, entry]
        self.absent = []
        self.maker = maker

    def find(self, ctx, name):
        for i, (n, v) in enumerate(self.entries):
            c = eq(n, name)
            if (c if concrete(c) else ctx.branch(c)):
                return i
        if self.maker is not None:
            for n in self.absent:
                c = eq(n, name)
                if (c if concrete(c) else ctx.branch(c)):
                    return None
            k = self.maker(name)
            if k is None:
                self.absent.append(name)
                return None
            self.entries.append([name, k])
            return len(self.entries) - 1
        return None

    def get(self, ctx, name):
        i = self.find(ctx, name)
        return None if i is None else self.entries[i][1]

    def names(self):
        return [n for n, _ in self.entries]


class G:
    """A file object: group, dataset, attribute or named type"""

    count = 0

    def __init__(self, w, kind, path, file, **kw):
        self.w = w
        self.kind = kind
        self.path = path
        self.file = file
        w.nobj += 1
        self.addr = 1000 + w.nobj
        self.links = NameMap() if kind == "group" else None
        self.attrs = NameMap()
        self.parent = None
        self.name = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.path)


class File:
    def __init__(self, name):
        self.name = name
        self.root = None
        self.hid = None
        self.writable = True
        self.fileno = 0


class Soft:
    kind = "soft"

    def __init__(self, target):
        self.target = target


class Attr:
    kind = "attr"

    def __init__(self, dtype, dims, value=None):
        self.dtype = dtype
        self.dims = dims  # None: scalar
        self.value = value
        self.owner = None
        self.name = None


class Space:
    def __init__(self, dims, maxdims=None, null=False):
        self.dims = dims  # None: scalar
        self.maxdims = maxdims
        self.null = null
        self.sel = None  # (start, stride, count, block); None: everything

    def copy(self):
        s = Space(self.dims, self.maxdims, self.null)
        s.sel = self.sel
        return s


class PList:
    def __init__(self, cls):
        self.cls = cls
        self.props = {}


class H:
    def __init__(self, kind, obj, rc=1, lib=False):
        self.kind = kind
        self.obj = obj
        self.rc = rc
        self.lib = lib  # owned by the library: not valid in the sense of H5Iis_valid
        self.closed = 0


class CStruct(Intrinsic):
    def __init__(self, name):
        self.name = name
        self.f = {}

    def field(self, E, n):
        if n not in self.f:
            self.f[n] = CStruct(n) if n in ("u", "rc", "hdr") else UNDEF
        v = self.f[n]
        if isinstance(v, CStruct):
            return v
        return StructRef(self, n)

    def copy(self, E):
        c = CStruct(self.name)
        for k, v in self.f.items():
            c.f[k] = v.copy(E) if isinstance(v, CStruct) else v
        return c

    def assign(self, E, o, move=False):
        self.f = o.copy(E).f

    def set(self, **kw):
        self.f.update(kw)


class StructRef(Ref):
    __slots__ = ("o", "n")

    def __init__(self, o, n):
        self.o, self.n = o, n

    def get(self):
        return self.o.f[self.n]

    def set(self, v):
        self.o.f[self.n] = v


def ctype(e, i):
    """C++ type pointed to by argument i, looking through implicit conversions to void*"""
    a = e["args"][i]
    while a["k"] in ("cast",) and "e" in a:
        a = a["e"]
    return a.get("t")


class World:
    """fail: 'none' - calls fail only when the library's rules say so; 'any' - any call may fail;
    'one' - at most one call fails beyond those."""

    def __init__(self, ctx, fail="none"):
        self.ctx = ctx
        self.fail = fail
        self.failed = None
        self.nfail = 0
        self.hids = {}
        self.nbytes = {}
        self.next = 72057594037927936
        self.nobj = 0
        self.log = []
        self.io = []
        self.contents = []  # the memory of each transfer, as it was at the time
        self.fs = {}  # file name -> File
        self.nfiles = 0
        self.memory = []  # files without a name
        self.special = {}  # names of what is not a file of the library: regular, directory
        self.unknown_files = False
        self.paths = {}
        self.construct = {n: (lambda E, t, a, fn, e, n=n: a[0].copy(E) if a else CStruct(n))
                          for n in ("H5O_info_t", "H5L_info_t", "H5O_info1_t", "H5O_info2_t", "H5L_info1_t",
                                    "H5E_error2_t")}
        self.cstructs = set(self.construct)
        self.calls = 0
        self.predef = {}
        for k, (n, dt) in enumerate(sorted(PREDEF.items())):
            h = 216172782113783808 + 1 + k
            self.predef[n] = h
            self.hids[h] = H(K_TYPE, dt, 1, True)
        self.handlers = {}
        for n in dir(self):
            if n.startswith("H5"):
                self.handlers[n] = getattr(self, n)
        self.nodes = {}
        self.file_mode = "exists"
        self.may_fail_calls = None

    # ---------------------------------------------------------------- world interface
    def global_var(self, E, q):
        if q in self.predef:
            return Cell(self.predef[q])
        if q in PLIST_CLASS:
            return Cell(PLIST_CLASS[q])
        return None

    def fn(self, q):
        h = self.handlers.get(q)
        if h is None:
            return None

        def run(E, o, args, fn, e):
            self.calls += 1
            a = [E.val(x) if isinstance(x, Ref) else x for x in args]
            return h(E, a, e)

        return run

    # ---------------------------------------------------------------- helpers
    def mayfail(self, what):
        """Injected failure"""
        if self.fail == "none" or (self.fail == "one" and self.nfail):
            return False
        if self.may_fail_calls is not None and what not in self.may_fail_calls:
            return False
        if self.ctx.choose(2, note="%s fails" % what):
            self.nfail += 1
            self.failed = self.failed or what
            return True
        return False

    def error(self, what):
        """Failure required by the library's rules"""
        self.ctx.trace.append("%s is refused" % what)
        return -1

    def new(self, kind, obj):
        self.next += 1
        self.hids[self.next] = H(kind, obj)
        return self.next

    def h(self, E, hid, kinds=None, what=""):
        hid = simp(hid)
        if not concrete(hid):
            raise Unsupported("symbolic identifier")
        x = self.hids.get(hid)
        if x is None or not self.alive(x):
            return None
        if kinds is not None and x.kind not in kinds:
            return None
        return x

    def alive(self, x):
        c = simp(lift(x.rc) > 0) if is_sym(x.rc) else x.rc > 0
        return c if concrete(c) else self.ctx.branch(c)

    def need(self, E, hid, kinds, what):
        """Identifier the call requires; using another is a failed call"""
        return self.h(E, hid, kinds, what)

    def loc(self, E, hid):
        x = self.h(E, hid)
        if x is None:
            return None
        if x.kind == K_FILE:
            return x.obj.root
        if x.kind in (K_GROUP, K_DATASET):
            return x.obj
        if x.kind == K_ATTR:
            return x.obj.owner
        return None

    def file(self, name="f.lue"):
        f = File(name)
        f.root = G(self, "group", "/", f)
        self.fs[name] = f
        self.nfiles += 1
        f.fileno = 70 + self.nfiles
        return f

    def fs_kind(self, name):
        return "regular" if name in self.fs else self.special.get(name, "none")

    def fs_remove(self, name):
        """Files, and empty directories"""
        there = self.fs_kind(name) != "none"
        self.fs.pop(name, None)
        self.special.pop(name, None)
        return there

    def open_file(self, f):
        if f.hid is not None and self.alive(self.hids[f.hid]):
            self.hids[f.hid].rc += 1
        else:
            f.hid = self.new(K_FILE, f)
        return f.hid

    def join(self, path, name):
        if path == "/":
            return stdlib.concat("/", name)
        return stdlib.concat(stdlib.concat(path, "/"), name)

    def child(self, group, name, kind, **kw):
        g = G(self, kind, self.join(group.path, name), group.file, **kw)
        g.parent = group
        g.name = name
        return g

    def add(self, group, name, kind="group", **kw):
        """Builds initial state: no log entry"""
        g = self.child(group, name, kind, **kw)
        group.links.entries.append([name, g])
        return g

    def add_dataset(self, group, name, dtype, dims, **kw):
        return self.add(group, name, "dataset", dtype=dtype, dims=list(dims), maxdims=kw.get("maxdims"),
                        dcpl=kw.get("dcpl", {}))

    def add_attr(self, obj, name, value, dtype=None, dims=None):
        if dtype is None:
            dtype = DT(T_STRING, z3.Length(value) if is_sym(value) else len(value), cset=1)
        a = Attr(dtype, dims, value)
        a.owner, a.name = obj, name
        obj.attrs.entries.append([name, a])
        return a

    def resolve(self, E, g, name, follow=True):
        """Object or link named by a path, relative to group g"""
        if isinstance(name, str):
            if name.startswith("/"):
                g = g.file.root
            parts = [p for p in name.split("/") if p and p != "."]
            if not parts:
                return g
            for i, p in enumerate(parts):
                if g is None or g.kind != "group":
                    return None
                x = g.links.get(self.ctx, p)
                if x is not None and x.kind == "soft" and (follow or i + 1 < len(parts)):
                    x = self.resolve(E, g, x.target)
                g = x
            return g
        # symbolic: a path built from known objects, else one component
        for o in self.nodes_of(g.file):
            if is_sym(o.path) and z3.eq(simp(o.path), simp(name)):
                return o
        if g.kind != "group":
            return None
        x = g.links.get(self.ctx, name)
        if x is not None and x.kind == "soft" and follow:
            x = self.resolve(E, g, x.target)
        return x

    def nodes_of(self, f):
        out = []

        def walk(g):
            out.append(g)
            if g.kind == "group":
                for _, x in g.links.entries:
                    if isinstance(x, G) and x not in out:
                        walk(x)

        walk(f.root)
        return out

    def put(self, event, *a):
        self.log.append((event,) + a)

    def ints(self, E, p, n, what):
        """n values read from pointer p; reading past the end fails"""
        if p is None:
            return None
        if not isinstance(p, Ptr):
            raise Unsupported("%s: pointer %r" % (what, p))
        if p.i is None:
            if n == 0:
                return []
            self.ctx.prove("HDF5 reads no further than the buffer", n == 1, call=what)
            return [E.val(p.t)]
        size = p.t.size
        ok = simp(lift(p.i) + n <= lift(size)) if is_sym(p.i) or is_sym(size) else p.i + n <= size
        self.ctx.prove("HDF5 reads no further than the buffer", ok, call=what)
        self.ctx.assume(ok)
        out = []
        for k in range(n):
            v = p.t.get_at(p.i + k if concrete(p.i) else simp(lift(p.i) + k))
            if v is UNDEF:
                self.ctx.prove("no uninitialised value is passed to HDF5", False, call=what)
                raise Infeasible()
            out.append(E.val(v))
        return out

    def store(self, E, p, i, v):
        if p.i is None:
            E.deref(p).set(v)
        else:
            p.t.set_at(p.i + i, v)

    def rank(self, n):
        return self.ctx.concretize(n, 0, 32) if is_sym(n) else n

    # ---------------------------------------------------------------- H5I
    def H5open(self, E, a, e):
        return 0

    def H5check_version(self, E, a, e):
        return 0

    def H5get_libversion(self, E, a, e):
        for p, v in zip(a, (1, 10, 10)):
            E.deref(p).set(v)
        return 0

    def H5Iis_valid(self, E, a, e):
        x = self.h(E, a[0])
        return 1 if x is not None and not x.lib else 0

    def H5Iget_type(self, E, a, e):
        x = self.h(E, a[0])
        return x.kind if x is not None else -1

    def H5Iget_ref(self, E, a, e):
        x = self.h(E, a[0])
        if x is None:
            return -1
        return 0 if x.lib else x.rc

    def H5Iinc_ref(self, E, a, e):
        x = self.h(E, a[0])
        if x is None or self.mayfail("H5Iinc_ref"):
            return -1
        x.rc = simp(x.rc + 1)
        return x.rc

    def H5Idec_ref(self, E, a, e):
        x = self.h(E, a[0])
        if x is None:
            return -1
        x.rc = simp(x.rc - 1)
        return x.rc

    def H5Iobject_verify(self, E, a, e):
        x = self.h(E, a[0])
        if x is None or x.kind != a[1] or self.mayfail("H5Iobject_verify"):
            return None
        return Ptr(Cell(0))

    def H5Iget_file_id(self, E, a, e):
        x = self.h(E, a[0])
        if x is None or self.mayfail("H5Iget_file_id"):
            return -1
        g = self.loc(E, a[0])
        if g is None:
            return -1
        return self.open_file(g.file)

    def _name(self, E, s, p, size, what):
        n = len(s) if concrete(s) else simp(z3.Length(s))
        if p is None:
            return n
        if not isinstance(p, Ptr) or not isinstance(p.t, Str):
            raise Unsupported("%s buffer" % what)
        st = p.t
        cap = simp(lift(size) - 1) if is_sym(size) else size - 1
        ok = simp(lift(cap) <= lift(st.size)) if is_sym(cap) or is_sym(st.size) else cap <= st.size
        self.ctx.prove("HDF5 writes no further than the buffer", ok, call=what)
        if concrete(s) and concrete(cap) and concrete(st.v):
            w = s[:max(cap, 0)]
            st.v = (w + "\0" + st.v[len(w) + 1:])[:max(len(st.v), 0)] if len(w) < len(st.v) else w
        elif eq(cap, n) is True or self.ctx.entails(eq(cap, n)):
            if eq(st.size, n) is True or self.ctx.entails(eq(st.size, n)):
                st.v = s
            else:
                raise Unsupported("name buffer")
        elif self.ctx.entails(eq(simp(lift(cap) + 1), st.size)) and self.ctx.entails(eq(st.size, n)):
            # one too small: the last character is lost
            st.v = stdlib.concat(z3.SubString(lift(s), 0, lift(cap)), "\0")
        else:
            raise Unsupported("name buffer")
        return n

    def H5Iget_name(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Iget_name"):
            return -1
        p = getattr(self.hids[a[0]], "path", None)
        if p is None:
            p = g.path
        return self._name(E, p, a[1], a[2], "H5Iget_name")

    def close(self, kinds, name):
        def run(E, a, e):
            x = self.h(E, a[0], kinds)
            ok = x is not None and not x.lib
            self.ctx.prove("only an open identifier of the right kind is closed", ok, call=name)
            if not ok:
                return -1
            x.rc = simp(x.rc - 1)
            x.closed += 1
            return 0

        return run

    def H5Oclose(self, E, a, e):
        return self.close((K_GROUP, K_DATASET, K_TYPE), "H5Oclose")(E, a, e)

    def H5Gclose(self, E, a, e):
        return self.close((K_GROUP,), "H5Gclose")(E, a, e)

    def H5Fclose(self, E, a, e):
        return self.close((K_FILE,), "H5Fclose")(E, a, e)

    def H5Dclose(self, E, a, e):
        return self.close((K_DATASET,), "H5Dclose")(E, a, e)

    def H5Aclose(self, E, a, e):
        return self.close((K_ATTR,), "H5Aclose")(E, a, e)

    def H5Sclose(self, E, a, e):
        return self.close((K_SPACE,), "H5Sclose")(E, a, e)

    def H5Tclose(self, E, a, e):
        return self.close((K_TYPE,), "H5Tclose")(E, a, e)

    def H5Pclose(self, E, a, e):
        return self.close((K_PLIST,), "H5Pclose")(E, a, e)

    # ---------------------------------------------------------------- H5T
    def dt(self, E, hid):
        x = self.h(E, hid, (K_TYPE,))
        return None if x is None else x.obj

    def H5Tequal(self, E, a, e):
        x, y = self.dt(E, a[0]), self.dt(E, a[1])
        if x is None or y is None:
            return -1
        r = x.same(y)
        return If(r, 1, 0) if not concrete(r) else int(bool(r))

    def H5Tget_class(self, E, a, e):
        x = self.dt(E, a[0])
        return -1 if x is None else x.cls

    def H5Tget_size(self, E, a, e):
        x = self.dt(E, a[0])
        if x is None:
            return 0
        return 8 if concrete(x.size) and x.size == SIZE_MAX and x.cls == T_STRING else x.size

    def H5Tis_variable_str(self, E, a, e):
        x = self.dt(E, a[0])
        return -1 if x is None else int(concrete(x.size) and x.size == SIZE_MAX)

    def H5Tget_cset(self, E, a, e):
        x = self.dt(E, a[0])
        return -1 if x is None or x.cls != T_STRING else x.cset

    def H5Tcopy(self, E, a, e):
        x = self.dt(E, a[0])
        if x is None or self.mayfail("H5Tcopy"):
            return -1
        return self.new(K_TYPE, x.copy())

    def H5Tcreate(self, E, a, e):
        if self.mayfail("H5Tcreate"):
            return -1
        return self.new(K_TYPE, DT(a[0], a[1], cset=0 if a[0] == T_STRING else None))

    def modifiable(self, E, hid):
        x = self.h(E, hid, (K_TYPE,))
        return None if x is None or x.lib else x.obj

    def H5Tset_size(self, E, a, e):
        x = self.modifiable(E, a[0])
        if x is None or self.mayfail("H5Tset_size"):
            return -1
        z = eq(a[1], 0)
        if z if concrete(z) else self.ctx.branch(z):
            return self.error("H5Tset_size(0)")
        x.size = a[1]
        return 0

    def H5Tset_cset(self, E, a, e):
        x = self.modifiable(E, a[0])
        if x is None or x.cls != T_STRING or self.mayfail("H5Tset_cset"):
            return -1
        x.cset = a[1]
        return 0

    def H5Tset_strpad(self, E, a, e):
        x = self.modifiable(E, a[0])
        return -1 if x is None or x.cls != T_STRING else 0

    def H5Tinsert(self, E, a, e):
        x, y = self.modifiable(E, a[0]), self.dt(E, a[3])
        if x is None or y is None or x.cls != T_COMPOUND or self.mayfail("H5Tinsert"):
            return -1
        x.members.append((stdlib.strval(E, a[1]), a[2], y.copy()))
        return 0

    def H5Tencode(self, E, a, e):
        x = self.dt(E, a[0])
        if x is None or self.mayfail("H5Tencode"):
            return -1
        if id(x) not in self.nbytes:
            self.nbytes[id(x)] = self.ctx.fresh("encoded_size", lo=1, hi=1 << 20), x
        nbytes = self.nbytes[id(x)][0]
        n = E.deref(a[2])
        if a[1] is not None:
            self.ctx.prove("HDF5 writes no further than the buffer",
                           And(eq(E.val(n), nbytes), eq(a[1].t.size, nbytes)), call="H5Tencode")
            a[1].t.encoded = x
        n.set(nbytes)
        return 0

    def H5Tdecode(self, E, a, e):
        b = a[0].t
        x = getattr(b, "encoded", None)
        if x is None or self.mayfail("H5Tdecode"):
            return -1
        return self.new(K_TYPE, x.copy())

    # ---------------------------------------------------------------- H5S
    def space(self, E, hid):
        x = self.h(E, hid, (K_SPACE,))
        return None if x is None else x.obj

    def H5Screate(self, E, a, e):
        if self.mayfail("H5Screate"):
            return -1
        if a[0] == 0:
            return self.new(K_SPACE, Space(None))
        if a[0] == 2:
            return self.new(K_SPACE, Space(None, null=True))
        if a[0] == 1:
            return self.new(K_SPACE, Space([]))
        return -1

    def H5Screate_simple(self, E, a, e):
        if self.mayfail("H5Screate_simple"):
            return -1
        n = self.rank(a[0])
        dims = self.ints(E, a[1], n, "H5Screate_simple")
        m = self.ints(E, a[2], n, "H5Screate_simple") if a[2] is not None else None
        if m is not None:
            for d, x in zip(dims, m):
                c = Or(eq(x, SIZE_MAX), simp(lift(d) <= lift(x)) if is_sym(d) or is_sym(x) else d <= x)
                if not (c if concrete(c) else self.ctx.branch(c)):
                    return self.error("H5Screate_simple: extent beyond maximum")
        return self.new(K_SPACE, Space(dims, m))

    def H5Sget_simple_extent_ndims(self, E, a, e):
        s = self.space(E, a[0])
        if s is None or self.mayfail("H5Sget_simple_extent_ndims"):
            return -1
        return 0 if s.dims is None else len(s.dims)

    def H5Sget_simple_extent_dims(self, E, a, e):
        s = self.space(E, a[0])
        if s is None or self.mayfail("H5Sget_simple_extent_dims"):
            return -1
        d = s.dims or []
        for p, vals in ((a[1], d), (a[2], s.maxdims or d)):
            if p is None:
                continue
            if d:
                ok = p.i is not None and (p.t.size - p.i if concrete(p.t.size) and concrete(p.i) else 0) >= len(d)
                self.ctx.prove("HDF5 writes no further than the buffer", ok, call="H5Sget_simple_extent_dims")
                if not ok:
                    raise Infeasible()
            for i, v in enumerate(vals):
                self.store(E, p, i, v)
        return len(d)

    def npoints(self, s):
        if s.null:
            return 0
        r = 1
        for d in s.dims or []:
            r = simp(lift(r) * lift(d)) if is_sym(r) or is_sym(d) else r * d
        return r

    def H5Sget_simple_extent_npoints(self, E, a, e):
        s = self.space(E, a[0])
        if s is None or self.mayfail("H5Sget_simple_extent_npoints"):
            return -1
        return self.npoints(s)

    def H5Sget_simple_extent_type(self, E, a, e):
        s = self.space(E, a[0])
        return -1 if s is None else 2 if s.null else 0 if s.dims is None else 1

    def H5Sselect_all(self, E, a, e):
        s = self.space(E, a[0])
        if s is None:
            return -1
        s.sel = None
        return 0

    def H5Sselect_hyperslab(self, E, a, e):
        s = self.space(E, a[0])
        if s is None or s.dims is None or self.mayfail("H5Sselect_hyperslab"):
            return -1
        n = len(s.dims)
        start = self.ints(E, a[2], n, "H5Sselect_hyperslab")
        stride = self.ints(E, a[3], n, "H5Sselect_hyperslab") if a[3] is not None else [1] * n
        count = self.ints(E, a[4], n, "H5Sselect_hyperslab")
        block = self.ints(E, a[5], n, "H5Sselect_hyperslab") if a[5] is not None else [1] * n
        self.ctx.prove("hyperslab selections replace the selection", eq(a[1], 0))
        for x in stride:
            z = eq(x, 0)
            if z if concrete(z) else self.ctx.branch(z):
                return self.error("H5Sselect_hyperslab: stride 0")
        s.sel = (start, stride, count, block)
        return 0

    # ---------------------------------------------------------------- H5P
    def H5Pcreate(self, E, a, e):
        if self.mayfail("H5Pcreate"):
            return -1
        return self.new(K_PLIST, PList(a[0]))

    def plist(self, E, hid, cls=None):
        x = self.h(E, hid, (K_PLIST,))
        if x is None or (cls is not None and x.obj.cls != cls):
            return None
        return x.obj

    def H5Pset_chunk(self, E, a, e):
        p = self.plist(E, a[0], 901)
        if p is None or self.mayfail("H5Pset_chunk"):
            return -1
        n = self.rank(a[1])
        if n <= 0:
            return self.error("H5Pset_chunk: rank 0")
        c = self.ints(E, a[2], n, "H5Pset_chunk")
        for x in c:
            z = eq(x, 0)
            if z if concrete(z) else self.ctx.branch(z):
                return self.error("H5Pset_chunk: extent 0")
        p.props["chunk"] = c
        return 0

    def setter(self, name, key):
        pass

    def H5Pset_fill_time(self, E, a, e):
        p = self.plist(E, a[0], 901)
        if p is None or self.mayfail("H5Pset_fill_time"):
            return -1
        p.props["fill_time"] = a[1]
        return 0

    def H5Pset_fill_value(self, E, a, e):
        p = self.plist(E, a[0], 901)
        if p is None or self.mayfail("H5Pset_fill_value"):
            return -1
        if a[2] is None:
            p.props["fill"] = None
            return 0
        t = self.dt(E, a[1])
        if t is None:
            return -1
        v = E.deref(a[2]) if isinstance(a[2], Ptr) else a[2]
        p.props["fill"] = (t.copy(), E.val(v) if isinstance(v, Ref) else v)
        return 0

    def H5Pget_fill_value(self, E, a, e):
        p = self.plist(E, a[0], 901)
        t = self.dt(E, a[1])
        if p is None or t is None or self.mayfail("H5Pget_fill_value"):
            return -1
        f = p.props.get("fill", 0)
        if f is None:
            return self.error("H5Pget_fill_value: undefined")
        E.deref(a[2]).set(f[1] if f != 0 else 0)
        return 0

    def H5Pfill_value_defined(self, E, a, e):
        p = self.plist(E, a[0], 901)
        if p is None or self.mayfail("H5Pfill_value_defined"):
            return -1
        f = p.props.get("fill", 0)
        E.deref(a[1]).set(0 if f is None else 1 if f == 0 else 2)
        return 0

    def H5Pset_fapl_core(self, E, a, e):
        p = self.plist(E, a[0], 904)
        if p is None or self.mayfail("H5Pset_fapl_core"):
            return -1
        p.props["core"] = (a[1], E.tobool(a[2]))
        return 0

    def H5Pset_libver_bounds(self, E, a, e):
        p = self.plist(E, a[0], 904)
        if p is None or self.mayfail("H5Pset_libver_bounds"):
            return -1
        p.props["libver"] = (a[1], a[2])
        return 0

    def H5Pset_fclose_degree(self, E, a, e):
        p = self.plist(E, a[0], 904)
        if p is None or self.mayfail("H5Pset_fclose_degree"):
            return -1
        p.props["close_degree"] = a[1]
        return 0

    # ---------------------------------------------------------------- H5F
    def H5Fcreate(self, E, a, e):
        name = stdlib.strval(E, a[0])
        if self.plist_or_default(E, a[3], 904) is None or self.mayfail("H5Fcreate"):
            return -1
        old = self.fs.get(name)
        core = self.plist_or_default(E, a[3], 904).props.get("core")
        kind = self.fs_kind(name)
        if core is not None and core[1] is not True and core[1] != 1:
            # in memory, without a file
            f = self.file(name)
            self.memory.append(f)
            self.fs.pop(name)
            if old is not None:
                self.fs[name] = old
            old = None
        else:
            if kind == "directory" or kind == "regular" and a[1] & 4:  # H5F_ACC_EXCL
                return self.error("H5Fcreate: exists")
            f = self.file(name)
            self.special.pop(name, None)
        f.writable = True
        f.replaced = old
        f.fapl = self.plist_or_default(E, a[3], 904).props
        self.put("create file", f, a[1])
        return self.open_file(f)

    def plist_or_default(self, E, hid, cls):
        if simp(hid) == 0:
            return PList(cls)
        return self.plist(E, hid, cls)

    def H5Fopen(self, E, a, e):
        name = stdlib.strval(E, a[0])
        p = self.plist_or_default(E, a[2], 904)
        if p is None or self.mayfail("H5Fopen"):
            return -1
        f = self.fs.get(name)
        if f is None:
            return self.error("H5Fopen: no such file")
        f.writable = bool(a[1] & 1)
        f.flags = a[1]
        f.fapl = p.props
        return self.open_file(f)

    def H5Fget_intent(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Fget_intent"):
            return -1
        E.deref(a[1]).set(1 if g.file.writable else 0)
        return 0

    def H5Fflush(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Fflush"):
            return -1
        self.io.append(("flush", g.file))
        return 0

    def H5Fget_name(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Fget_name"):
            return -1
        return self._name(E, g.file.name, a[1], a[2], "H5Fget_name")

    def H5Fget_obj_count(self, E, a, e):
        if self.loc(E, a[0]) is None or self.mayfail("H5Fget_obj_count"):
            return -1
        if not hasattr(self, "obj_count"):
            self.obj_count = self.ctx.fresh("object_count", lo=0)
            self.obj_count_types = a[1]
        return self.obj_count

    # ---------------------------------------------------------------- H5G, H5L, H5O
    def writable(self, g):
        return g.file.writable

    def insert_link(self, E, loc, name, what, make):
        g = self.loc(E, loc)
        if g is None or g.kind != "group" or self.mayfail(what):
            return None
        if not self.writable(g):
            self.error(what + ": read-only file")
            return None
        if isinstance(name, str) and "/" in name.strip("/"):
            d, b = name.rsplit("/", 1)
            g = self.resolve(E, g, d)
            name = b
            if g is None or g.kind != "group":
                self.error(what + ": no such location")
                return None
        z = eq(name, "")
        if z if concrete(z) else self.ctx.branch(z):
            self.error(what + ": empty name")
            return None
        if g.links.get(self.ctx, name) is not None:
            self.error(what + ": name exists")
            return None
        x = make(g, name)
        g.links.entries.append([name, x])
        g.links.absent = []
        self.put("link", g, name, x)
        return x

    def H5Gcreate2(self, E, a, e):
        n = stdlib.strval(E, a[1])
        x = self.insert_link(E, a[0], n, "H5Gcreate", lambda g, n: self.child(g, n, "group"))
        return -1 if x is None else self.new(K_GROUP, x)

    def _open(self, E, a, kind, k, what):
        g = self.loc(E, a[0])
        if g is None or self.mayfail(what):
            return -1
        n = stdlib.strval(E, a[1])
        x = self.resolve(E, g, n)
        if x is None or x.kind != kind:
            return self.error(what + ": absent")
        h = self.new(k, x)
        # the path with which the object was opened
        if isinstance(n, str) and n.startswith("/"):
            self.hids[h].path = n
        elif isinstance(n, str) and n != ".":
            base = self.hids[a[0]]
            bp = getattr(base, "path", None)
            if bp is None:
                bp = g.path
            self.hids[h].path = self.join(bp, n)
        elif is_sym(n) and x.parent is not g:
            self.hids[h].path = n if x.path is n else x.path
        return h

    def H5Gopen2(self, E, a, e):
        return self._open(E, a, "group", K_GROUP, "H5Gopen")

    def H5Oopen(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Oopen"):
            return -1
        x = self.resolve(E, g, stdlib.strval(E, a[1]))
        if x is None or x.kind not in ("group", "dataset"):
            return self.error("H5Oopen: absent")
        return self.new(K_GROUP if x.kind == "group" else K_DATASET, x)

    def H5Lexists(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or g.kind != "group" or self.mayfail("H5Lexists"):
            return -1
        return 1 if self.resolve(E, g, stdlib.strval(E, a[1]), follow=False) is not None else 0

    def ltype(self, x):
        return 1 if x.kind == "soft" else 0

    def H5Lget_info(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or g.kind != "group" or self.mayfail("H5Lget_info"):
            return -1
        x = self.resolve(E, g, stdlib.strval(E, a[1]), follow=False)
        if x is None:
            return self.error("H5Lget_info: absent")
        s = E.deref(a[2])
        s.set(type=self.ltype(x))
        u = CStruct("u")
        if x.kind == "soft":
            u.set(val_size=simp(lift(len(x.target) if concrete(x.target) else z3.Length(x.target)) + 1))
        s.set(u=u)
        return 0

    def H5Lget_val(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or g.kind != "group" or self.mayfail("H5Lget_val"):
            return -1
        x = self.resolve(E, g, stdlib.strval(E, a[1]), follow=False)
        if x is None or x.kind != "soft":
            return self.error("H5Lget_val: no soft link")
        st = a[2].t
        if not isinstance(st, Str):
            raise Unsupported("H5Lget_val buffer")
        self.ctx.prove("HDF5 writes no further than the buffer", simp(lift(a[3]) <= lift(st.size) + 1), call="H5Lget_val")
        full = stdlib.concat(x.target, "\0")
        n = len(full) if concrete(full) else z3.Length(full)
        if concrete(full) and concrete(a[3]) and concrete(st.v):
            w = full[:a[3]]
            st.v = (w + st.v[len(w):])[:len(st.v)]
        elif self.ctx.entails(And(eq(a[3], n), eq(st.size, n))):
            st.v = full
        else:
            raise Unsupported("H5Lget_val buffer")
        return 0

    def H5Lcreate_soft(self, E, a, e):
        t = stdlib.strval(E, a[0])
        x = self.insert_link(E, a[1], stdlib.strval(E, a[2]), "H5Lcreate_soft", lambda g, n: Soft(t))
        return -1 if x is None else 0

    def H5Lcreate_hard(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None:
            return -1
        src = self.resolve(E, g, stdlib.strval(E, a[1]))
        if src is None:
            return self.error("H5Lcreate_hard: no source")
        x = self.insert_link(E, a[2], stdlib.strval(E, a[3]), "H5Lcreate_hard", lambda g, n: src)
        return -1 if x is None else 0

    def H5Ldelete(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or g.kind != "group" or self.mayfail("H5Ldelete"):
            return -1
        i = g.links.find(self.ctx, stdlib.strval(E, a[1]))
        if i is None or not self.writable(g):
            return self.error("H5Ldelete")
        n, x = g.links.entries.pop(i)
        g.links.absent.append(n)
        self.put("unlink", g, n, x)
        return 0

    def otype(self, x):
        return 0 if x.kind == "group" else 1 if x.kind == "dataset" else 2

    def _oinfo(self, E, x, p):
        s = E.deref(p)
        s.set(type=self.otype(x), fileno=x.file.fileno, addr=x.addr)
        return 0

    def H5Oget_info1(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Oget_info"):
            return -1
        return self._oinfo(E, g, a[1])

    H5Oget_info = H5Oget_info1
    H5Oget_info2 = H5Oget_info1

    def H5Oget_info_by_name1(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Oget_info_by_name"):
            return -1
        x = self.resolve(E, g, stdlib.strval(E, a[1]))
        if x is None or x.kind == "soft":
            return self.error("H5Oget_info_by_name: absent")
        return self._oinfo(E, x, a[2])

    H5Oget_info_by_name = H5Oget_info_by_name1
    H5Oget_info_by_name2 = H5Oget_info_by_name1

    def H5Literate1(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or g.kind != "group" or self.mayfail("H5Literate"):
            return -1
        if g.links.maker is not None:
            raise Unsupported("iteration over an unknown group")
        self.ctx.prove("links are iterated from the first one", a[3] is None or eq(E.val(E.deref(a[3])), 0))
        self.iterated = (a[1], a[2])
        for n, x in list(g.links.entries):
            info = CStruct("H5L_info_t")
            info.set(type=self.ltype(x))
            r = E.call_callable(a[4], [a[0], CStr(n), Ptr(info), a[5]])
            r = E.val(r)
            if not concrete(r):
                raise Unsupported("iteration result")
            if r < 0:
                return -1
            if r > 0:
                return r
        return 0

    H5Literate = H5Literate1

    # ---------------------------------------------------------------- H5D
    def H5Dcreate2(self, E, a, e):
        t, s, p = self.dt(E, a[2]), self.space(E, a[3]), self.plist_or_default(E, a[5], 901)
        if t is None or s is None or p is None:
            return -1
        c = p.props.get("chunk")
        if c is not None and (s.dims is None or len(c) != len(s.dims)):
            if not self.mayfail("H5Dcreate"):
                return self.error("H5Dcreate: rank of chunk differs from rank of dataset")
            return -1
        if c is not None:
            for x, d, m in zip(c, s.dims, s.maxdims or s.dims):
                # fixed-size dimension: chunk must not be larger
                over = And(Not(eq(m, SIZE_MAX)), simp(lift(x) > lift(m)))
                if over if concrete(over) else self.ctx.branch(over):
                    return self.error("H5Dcreate: chunk larger than maximum extent")
        elif s.dims is not None and s.maxdims is not None:
            for d, m in zip(s.dims, s.maxdims):
                c2 = eq(d, m)
                if not (c2 if concrete(c2) else self.ctx.branch(c2)):
                    return self.error("H5Dcreate: extendible dataset without chunks")
        n = stdlib.strval(E, a[1])
        x = self.insert_link(E, a[0], n, "H5Dcreate", lambda g, n: self.child(
            g, n, "dataset", dtype=t.copy(), dims=None if s.dims is None else list(s.dims),
            maxdims=None if s.maxdims is None else list(s.maxdims), dcpl=dict(p.props)))
        return -1 if x is None else self.new(K_DATASET, x)

    def H5Dopen2(self, E, a, e):
        if self.plist_or_default(E, a[2], 902) is None:
            return -1
        return self._open(E, a, "dataset", K_DATASET, "H5Dopen")

    def ds(self, E, hid):
        x = self.h(E, hid, (K_DATASET,))
        return None if x is None else x.obj

    def H5Dget_type(self, E, a, e):
        d = self.ds(E, a[0])
        if d is None or self.mayfail("H5Dget_type"):
            return -1
        return self.new(K_TYPE, d.dtype.copy())

    def H5Dget_space(self, E, a, e):
        d = self.ds(E, a[0])
        if d is None or self.mayfail("H5Dget_space"):
            return -1
        return self.new(K_SPACE, Space(None if d.dims is None else list(d.dims), d.maxdims))

    def H5Dset_extent(self, E, a, e):
        d = self.ds(E, a[0])
        if d is None or self.mayfail("H5Dset_extent"):
            return -1
        if not self.writable(d):
            return self.error("H5Dset_extent: read-only file")
        n = len(d.dims)
        new = self.ints(E, a[1], n, "H5Dset_extent")
        if "chunk" not in d.dcpl:
            same = And(*[eq(x, y) for x, y in zip(new, d.dims)])
            if not (same if concrete(same) else self.ctx.branch(same)):
                return self.error("H5Dset_extent: not chunked")
        for x, m in zip(new, d.maxdims or d.dims):
            c = Or(eq(m, SIZE_MAX), simp(lift(x) <= lift(m)))
            if not (c if concrete(c) else self.ctx.branch(c)):
                return self.error("H5Dset_extent: beyond maximum")
        self.put("resize", d, list(d.dims), list(new))
        d.dims = list(new)
        return 0

    def transfer(self, E, a, write):
        what = "H5Dwrite" if write else "H5Dread"
        d, t = self.ds(E, a[0]), self.dt(E, a[1])
        if d is None or t is None:
            return -1
        if self.plist_or_default(E, a[4], 903) is None:
            return -1
        if self.mayfail(what):
            return -1
        if write and not self.writable(d):
            return self.error(what + ": read-only file")
        fs = Space(d.dims) if simp(a[3]) == 0 else self.space(E, a[3])
        ms = Space(d.dims) if simp(a[2]) == 0 and simp(a[3]) == 0 else fs if simp(a[2]) == 0 else self.space(E, a[2])
        if fs is None or ms is None:
            return -1
        ev = (what, d, t.copy(), ms.copy(), fs.copy(), a[5], a[4])
        self.io.append(ev)
        m = getattr(a[5], "t", None)
        self.contents.append(stdlib.CArr(list(m.items) if m.items is not None else None, m.et, m.n, m.fn)
                             if isinstance(m, stdlib.Seq) else None)
        if write:
            self.put("write", d, t.copy(), ms.copy(), fs.copy(), a[5])
        return 0

    def H5Dread(self, E, a, e):
        return self.transfer(E, a, False)

    def H5Dwrite(self, E, a, e):
        return self.transfer(E, a, True)

    def H5Dget_create_plist(self, E, a, e):
        d = self.ds(E, a[0])
        if d is None or self.mayfail("H5Dget_create_plist"):
            return -1
        p = PList(901)
        p.props = dict(d.dcpl)
        return self.new(K_PLIST, p)

    def H5Dvlen_reclaim(self, E, a, e):
        self.io.append(("reclaim", self.dt(E, a[0]), self.space(E, a[1]), a[3]))
        return 0

    # ---------------------------------------------------------------- H5A
    def H5Aexists(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Aexists"):
            return -1
        return 1 if g.attrs.get(self.ctx, stdlib.strval(E, a[1])) is not None else 0

    def H5Acreate2(self, E, a, e):
        g, t, s = self.loc(E, a[0]), self.dt(E, a[2]), self.space(E, a[3])
        if g is None or t is None or s is None or self.mayfail("H5Acreate"):
            return -1
        n = stdlib.strval(E, a[1])
        if not self.writable(g):
            return self.error("H5Acreate: read-only file")
        z = eq(n, "")
        if z if concrete(z) else self.ctx.branch(z):
            return self.error("H5Acreate: empty name")
        if g.attrs.get(self.ctx, n) is not None:
            return self.error("H5Acreate: exists")
        x = Attr(t.copy(), None if s.dims is None else list(s.dims))
        x.owner, x.name = g, n
        x.null = s.null
        g.attrs.entries.append([n, x])
        g.attrs.absent = []
        self.put("create attribute", g, n, x)
        return self.new(K_ATTR, x)

    def H5Aopen(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Aopen"):
            return -1
        x = g.attrs.get(self.ctx, stdlib.strval(E, a[1]))
        if x is None:
            return self.error("H5Aopen: absent")
        return self.new(K_ATTR, x)

    def H5Adelete(self, E, a, e):
        g = self.loc(E, a[0])
        if g is None or self.mayfail("H5Adelete"):
            return -1
        if not self.writable(g):
            return self.error("H5Adelete: read-only file")
        i = g.attrs.find(self.ctx, stdlib.strval(E, a[1]))
        if i is None:
            return self.error("H5Adelete: absent")
        n, x = g.attrs.entries.pop(i)
        g.attrs.absent.append(n)
        self.put("delete attribute", g, n, x)
        return 0

    def attr(self, E, hid):
        x = self.h(E, hid, (K_ATTR,))
        return None if x is None else x.obj

    def H5Aget_type(self, E, a, e):
        x = self.attr(E, a[0])
        if x is None or self.mayfail("H5Aget_type"):
            return -1
        return self.new(K_TYPE, x.dtype.copy())

    def H5Aget_space(self, E, a, e):
        x = self.attr(E, a[0])
        if x is None or self.mayfail("H5Aget_space"):
            return -1
        return self.new(K_SPACE, Space(x.dims, null=getattr(x, "null", False)))

    def H5Aget_storage_size(self, E, a, e):
        x = self.attr(E, a[0])
        if x is None:
            return 0
        return simp(lift(self.npoints(Space(x.dims, null=getattr(x, "null", False)))) * lift(x.dtype.size))

    def match(self, E, t, e, i, what):
        """The buffer's C++ element type has the layout of memory datatype t"""
        ti = ctype(e, i)
        if ti is None:
            return
        T = E.ty(ti)
        if T.k in ("ptr", "arr"):
            T = T.e
        if T.k == "int" or T.k == "bool" or T.k == "enum":
            if T.k == "int" and T.w == 8 and t.cls == T_STRING:
                return
            w = T.w if T.k == "int" else 8 if T.k == "bool" else None
            if w is not None:
                sg = T.s if T.k == "int" else False
                self.ctx.prove("memory datatype agrees with the type of the buffer",
                               And(t.cls == T_INTEGER, eq(t.size, w // 8), t.signed == sg), call=what)
        elif T.k == "float":
            self.ctx.prove("memory datatype agrees with the type of the buffer",
                           And(t.cls == T_FLOAT, eq(t.size, T.w // 8)), call=what)

    def empty(self, v):
        """A vector without elements has no buffer"""
        z = simp(eq(v.size, 0))
        return z if concrete(z) else self.ctx.branch(z)

    def H5Awrite(self, E, a, e):
        x, t = self.attr(E, a[0]), self.dt(E, a[1])
        if x is None or t is None or self.mayfail("H5Awrite"):
            return -1
        if not self.writable(x.owner):
            return self.error("H5Awrite: read-only file")
        if (t.cls == T_STRING) != (x.dtype.cls == T_STRING):
            return self.error("H5Awrite: no conversion")
        p = a[2]
        if getattr(x, "null", False):
            return 0
        n = self.npoints(Space(x.dims))
        if t.cls == T_STRING:
            if x.dims is not None:
                raise Unsupported("array of strings")
            s = stdlib.strval(E, p)
            ln = len(s) if concrete(s) else z3.Length(s)
            # the memory holds the characters and one terminating zero
            ok = simp(lift(t.size) <= lift(ln) + 1)
            self.ctx.prove("HDF5 reads no further than the buffer", ok, call="H5Awrite")
            if not self.ctx.entails(ok):
                self.ctx.assume(ok)
            z = stdlib.concat(s, "\0")
            v = z if eq(simp(lift(ln) + 1), t.size) is True else \
                s if (eq(ln, t.size) is True or self.ctx.entails(eq(ln, t.size))) else \
                (z[:t.size] if concrete(z) and concrete(t.size) else z3.SubString(lift(z), 0, lift(t.size)))
            if not (eq(t.size, x.dtype.size) is True or self.ctx.entails(eq(t.size, x.dtype.size))):
                raise Unsupported("string conversion between sizes")
            val = simp(v) if is_sym(v) else v
        elif x.dims is None:
            self.match(E, t, e, 2, "H5Awrite")
            q = E.deref(p) if isinstance(p, Ptr) else p
            val = E.val(q) if isinstance(q, Ref) else q
        else:
            sq = p.t
            if isinstance(sq, stdlib.Vec) and self.empty(sq):
                return self.error("H5Awrite: no buffer")
            self.match(E, t, e, 2, "H5Awrite")
            if not concrete(n) and p.i is None:
                self.ctx.prove("HDF5 reads no further than the buffer", eq(n, 1), call="H5Awrite")
                n = 1
            if concrete(n):
                val = self.ints(E, p, n, "H5Awrite")
            else:
                ok = And(eq(p.i, 0), simp(lift(n) <= lift(sq.size)))
                self.ctx.prove("HDF5 reads no further than the buffer", ok, call="H5Awrite")
                val = ("seq", sq.size, sq.fn if sq.items is None else None,
                       stdlib.CArr(list(sq.items) if sq.items is not None else None, sq.et, sq.n, sq.fn))
                if hasattr(sq, "encoded"):
                    val[3].encoded = sq.encoded
        old = x.value
        x.value = val
        x.value_type = t.copy()
        self.put("write attribute", x.owner, x.name, val, old)
        return 0

    def H5Aread(self, E, a, e):
        x, t = self.attr(E, a[0]), self.dt(E, a[1])
        if x is None or t is None or self.mayfail("H5Aread"):
            return -1
        if (t.cls == T_STRING) != (x.dtype.cls == T_STRING):
            return self.error("H5Aread: no conversion")
        p = a[2]
        if getattr(x, "null", False):
            return 0
        if x.value is None:
            raise Unsupported("attribute without value")
        if t.cls == T_STRING:
            st = p.t
            ok = simp(lift(t.size) <= lift(st.size) + 1)
            self.ctx.prove("HDF5 writes no further than the buffer", ok, call="H5Aread")
            v = x.value
            if not (eq(t.size, x.dtype.size) is True or self.ctx.entails(eq(t.size, x.dtype.size))):
                raise Unsupported("string conversion between sizes")
            if not (eq(t.size, st.size) is True or self.ctx.entails(eq(t.size, st.size))):
                raise Unsupported("string buffer size")
            st.v = v
            return 0
        self.match(E, t, e, 2, "H5Aread")
        if x.dims is None:
            r = E.deref(p) if isinstance(p, Ptr) else p
            r.set(x.value)
            return 0
        n = self.npoints(Space(x.dims))
        sq = p.t
        if isinstance(sq, stdlib.Vec) and self.empty(sq):
            return self.error("H5Aread: no buffer")
        if p.i is None:
            self.ctx.prove("HDF5 writes no further than the buffer", eq(n, 1), call="H5Aread")
            sq.set(x.value[0] if isinstance(x.value, list) else x.value[3].get_at(0))
            return 0
        if concrete(n) and isinstance(x.value, list):
            ok = simp(lift(p.i) + n <= lift(sq.size))
            self.ctx.prove("HDF5 writes no further than the buffer", ok, call="H5Aread")
            for i, v in enumerate(x.value):
                self.store(E, p, i, v)
            return 0
        ok = And(eq(p.i, 0), simp(lift(n) <= lift(sq.size)))
        self.ctx.prove("HDF5 writes no further than the buffer", ok, call="H5Aread")
        src = x.value[3]
        sq.n, sq.fn, sq.items = sq.size, src.get_at, None
        if hasattr(src, "encoded"):
            sq.encoded = src.encoded
        return 0

    # ---------------------------------------------------------------- H5E
    def H5Eget_auto2(self, E, a, e):
        return 0

    def H5Eset_auto2(self, E, a, e):
        return 0

    def H5Eclear2(self, E, a, e):
        return 0

    # ---------------------------------------------------------------- checks for specifications
    def open_hids(self):
        return {i: x.rc for i, x in self.hids.items() if not x.lib and (is_sym(x.rc) or x.rc > 0)}

    def balanced(self, before, extra=None):
        """Every identifier opened since `before` has been closed, the others have their old count"""
        now = self.open_hids()
        want = dict(before)
        for k, v in (extra or {}).items():
            want[k] = want.get(k, 0) + v
        want = {k: v for k, v in want.items() if v}
        return now == want
