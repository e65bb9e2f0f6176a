"""P01: reference counting of identifiers"""
from vc import h5
from vc.interp import CppThrow, Interp
from vc.smt import And, eq, simp
from vc.stdlib import FnObj

from vc.smt import Unsupported
from vc.stdlib import Str

from . import hd, lib

MODULES = ["hdf5"]
FILES = []
Q = "lue::hdf5::Identifier"
INST = ["drv/hdf5.cpp"]


class S:
    """Two handles, possibly of one library object, and any number of further owners elsewhere"""

    def __init__(self, ctx, P, fail="none"):
        self.ctx = ctx
        self.W = W = h5.World(ctx, fail)
        self.E = E = Interp(ctx, P, W)
        f = W.file()
        self.kinds = [(h5.K_GROUP, "H5Gclose", W.H5Gclose), (h5.K_DATASET, "H5Dclose", W.H5Dclose)]
        self.ids = []
        self.extra = []
        self.closes = {}
        for i, (k, n, c) in enumerate(self.kinds):
            g = W.add(f.root, "o%d" % i, "group" if k == h5.K_GROUP else "dataset", dtype=None, dims=None, dcpl={})
            hid = W.new(k, g)
            ex = ctx.fresh("other_owners", lo=0)
            W.hids[hid].rc = ex  # one more per handle below
            self.ids.append(hid)
            self.extra.append(ex)
            self.closes[hid] = n

        self.handles = []

    def close(self, i):
        """The close function of library object i"""
        W, (k, n, c) = self.W, self.kinds[i]
        hid = self.ids[i]

        def run(E, args):
            a = [E.val(args[0])]
            self.ctx.prove("the close function is called with its own identifier", eq(a[0], hid))
            return c(E, a, None)

        return run

    def handle(self, i):
        """A handle owning object i (None: not open)"""
        E = self.E
        if i is None:
            o = E.construct(Q + "::Identifier", [])
        else:
            hid = self.ids[i]
            self.W.hids[hid].rc = simp(self.W.hids[hid].rc + 1)
            o = E.construct(Q + "::Identifier", [hid, FnObj(self.close(i))], n=2)
        self.handles.append(o)
        return o

    def owned(self, o):
        """Library object a handle refers to"""
        return self.hid(o)

    def hid(self, o):
        f = [f for f in self.E.prog.find(Q + "::operator hid_t", 0)] or \
            [f for f in self.E.prog.fns.values() if f["q"].startswith(Q + "::operator") and "long" in f["q"]]
        return self.E.val(self.E.call(f[0], o))

    def valid(self, o):
        return self.E.istrue(self.E.method(o, "is_valid"))

    def check(self, live, closed=()):
        """The invariant: each count is the number of owners"""
        ctx = self.ctx
        for i, hid in enumerate(self.ids):
            n = sum(1 for o in live if self.hid(o) == hid)
            rc = self.W.hids[hid].rc
            ctx.prove("the reference count is the number of owners", eq(rc, simp(self.extra[i] + n)),
                      rc=rc, owners=n)


def pick(ctx, s):
    k = ctx.choose(3, note="handle")
    return None if k == 0 else k - 1


def scenario(op):
    def run(ctx, P):
        s = S(ctx, P)
        a, b = pick(ctx, s), pick(ctx, s)
        A, B = s.handle(a), s.handle(b)
        s.check([A, B])
        op(ctx, s, A, B, a, b)
        ctx.cover("end")

    return run


def state(s, o):
    return s.hid(o) if s.valid(o) else None


def want(s, i):
    return None if i is None else s.ids[i]


def op_copy(ctx, s, A, B, a, b):
    C = s.E.copy_value(A)
    ctx.prove("a copy refers to the same object", state(s, C) == want(s, a))
    ctx.prove("the source of a copy is unchanged", state(s, A) == want(s, a))
    s.check([A, B, C])
    s.E.destroy(C)
    s.check([A, B])
    s.E.destroy(A)
    s.check([B])
    s.E.destroy(B)
    s.check([])


def op_copy_outlives(ctx, s, A, B, a, b):
    C = s.E.copy_value(A)
    s.E.destroy(A)
    ctx.prove("a copy stays open when the original goes away", state(s, C) == want(s, a))
    s.check([B, C])
    s.E.destroy(C)
    s.check([B])


def op_move(ctx, s, A, B, a, b):
    C = s.E.move_value(A)
    ctx.prove("the target of a move refers to the object", state(s, C) == want(s, a))
    ctx.prove("the source of a move is empty", state(s, A) is None)
    s.check([A, B, C])
    s.E.destroy(A)
    s.check([B, C])
    s.E.destroy(C)
    s.check([B])


def op_copy_assign(ctx, s, A, B, a, b):
    s.E.method(A, "operator=", [B], pred=lambda f: f.get("copyassign"))
    ctx.prove("assignment makes the target refer to the object of the source", state(s, A) == want(s, b))
    ctx.prove("the source of an assignment is unchanged", state(s, B) == want(s, b))
    s.check([A, B])
    s.E.destroy(B)
    ctx.prove("the target of an assignment stays open when the source goes away", state(s, A) == want(s, b))
    s.check([A])
    s.E.destroy(A)
    s.check([])


def op_move_assign(ctx, s, A, B, a, b):
    s.E.method(A, "operator=", [B], pred=lambda f: f.get("moveassign"))
    ctx.prove("move assignment makes the target refer to the object of the source", state(s, A) == want(s, b))
    ctx.prove("the source of a move assignment is empty", state(s, B) is None)
    s.check([A, B])
    s.E.destroy(B)
    ctx.prove("the target of a move assignment stays open when the source goes away", state(s, A) == want(s, b))
    s.check([A])
    s.E.destroy(A)
    s.check([])


def op_self_assign(ctx, s, A, B, a, b):
    s.E.method(A, "operator=", [A], pred=lambda f: f.get("copyassign"))
    ctx.prove("assigning a handle to itself changes nothing", state(s, A) == want(s, a))
    s.check([A, B])
    s.E.destroy(A)
    s.check([B])


def op_self_move(ctx, s, A, B, a, b):
    s.E.method(A, "operator=", [A], pred=lambda f: f.get("moveassign"))
    s.check([A, B])
    s.E.destroy(A)
    s.check([B])


def op_queries(ctx, s, A, B, a, b):
    """Queries leave every count as it is"""
    E = s.E
    before = s.W.open_hids()
    for name in ("is_valid", "type", "reference_count", "pathname", "name", "info"):
        if a is None and name != "is_valid" and name not in ("type", "reference_count"):
            continue
        try:
            r = E.method(A, name)
            if name == "type" and a is not None:
                ctx.prove("the type reported is that of the object", eq(E.val(r), s.kinds[a][0]))
            if name == "reference_count" and a is not None:
                ctx.prove("the count reported is the library's", eq(E.val(r), s.W.hids[s.ids[a]].rc))
            if name in ("type", "reference_count"):
                ctx.prove("a handle that is not open has no type and no count", a is not None)
            if name == "pathname":
                ctx.prove("the path is that of the object", r.v == "/o%d" % a)
            if name == "name":
                ctx.prove("the name is the last part of the path", r.v == "o%d" % a)
        except CppThrow:
            ctx.prove("only a handle that is not open has no type and no count",
                      a is None and name in ("type", "reference_count"))
    s.check([A, B])
    ctx.prove("queries open and close nothing", same(ctx, s.W.open_hids(), before))


def op_file(ctx, s, A, B, a, b):
    if a is None:
        return
    before = s.W.open_hids()
    F = s.E.method(A, "file_id")
    f = s.W.fs["f.lue"]
    ctx.prove("the file identifier is that of the file of the object", s.hid(F) == f.hid and s.W.hids[f.hid].rc == 1)
    s.check([A, B])
    s.E.destroy(F)
    ctx.prove("the file identifier is given up with its handle", s.W.hids[f.hid].rc == 0)
    s.check([A, B])


def same(ctx, x, y):
    if set(x) != set(y):
        return False
    return And(*[eq(x[k], y[k]) for k in x])


def fallible(ctx, P):
    """Failures of the library are reported by exceptions and change nothing"""
    s = S(ctx, P, fail="any")
    k = ctx.choose(7)
    i = ctx.choose(2)
    A = s.handle(i)
    E = s.E
    if k == 0:
        try:
            C = E.copy_value(A)
            ctx.prove("a failure to count a copy is reported", s.W.failed is None)
            s.check([A, C])
        except CppThrow:
            ctx.prove("copying throws only when the library fails", s.W.failed is not None)
            s.check([A])
    elif k == 6:
        B = s.handle(pick(ctx, s))
        try:
            E.method(B, "operator=", [A], pred=lambda f: f.get("copyassign"))
            ctx.prove("a failure to count a copy is reported", s.W.failed is None)
        except CppThrow:
            ctx.prove("copying throws only when the library fails", s.W.failed is not None)
        s.W.failed = None
        s.W.fail = "none"
        live = [A] + ([B] if s.valid(B) else [])
        s.check(live)
        E.destroy(B)
        s.check([A])
    else:
        name = ("pathname", "name", "info", "object", "file_id")[k - 1]
        try:
            r = E.method(A, name)
            fl = s.W.failed
            # an error reading the path a second time cannot be told from the first
            ctx.prove("a failure of the library is reported", fl is None or (name in ("pathname", "name") and s.W.calls > 2))
            E.destroy(r)
        except CppThrow:
            ctx.prove("a query throws only when the library fails", s.W.failed is not None)
        s.check([A])
    ctx.cover("end")




# Every class of handles gives back what it opens: operation, arguments, may the result be absent
def wrappers(e):
    W = e.W
    g = W.add(e.root, "g")
    W.add(g, "sub")
    d = W.add_dataset(e.root, "d", hd.dt(2), [3, 4], maxdims=[2**64 - 1, 4], dcpl={"chunk": [3, 4]})
    W.add_attr(g, "a", 7, dtype=hd.dt(2))
    W.add_attr(g, "s", "text")
    g.links.entries.append(["soft", h5.Soft("/g/sub")])
    gh, dh = e.group(g), e.dataset(d)
    fid = e.ident(e.file)
    return W, g, d, gh, dh, fid


def op_list():
    N = lambda s: Str(s)  # noqa: E731
    return [
        ("group", lambda e, g, d, i: e("group", i, N("/g"))),
        ("group_in", lambda e, g, d, i: e("group_in", g, N("sub"))),
        ("make_group", lambda e, g, d, i: e("make_group", g, N("new"))),
        ("parent", lambda e, g, d, i: e("parent", g)),
        ("open1", lambda e, g, d, i: e("open2", i, N("/d"))),
        ("datatype_of", lambda e, g, d, i: e("datatype_of", d)),
        ("dataspace_of", lambda e, g, d, i: e("dataspace_of", d)),
        ("shape_of", lambda e, g, d, i: e("shape_of", d)),
        ("dcpl_of", lambda e, g, d, i: e("dcpl_of", d)),
        ("attributes", lambda e, g, d, i: e("attributes_of", i)),
        ("attribute", lambda e, g, d, i: e("attribute", e("attributes_of", e("id_of", g)), N("a"))),
        ("attribute_type", lambda e, g, d, i: e("attribute_type", e("attributes_of", e("id_of", g)), N("s"))),
        ("get_i32", lambda e, g, d, i: e("get_i32", e("attributes_of", e("id_of", g)), N("a"))),
        ("get_str", lambda e, g, d, i: e("get_str", e("attributes_of", e("id_of", g)), N("s"))),
        ("put_i32", lambda e, g, d, i: e("put_i32", e("attributes_of", e("id_of", g)), N("b"), 5)),
        ("put_str", lambda e, g, d, i: e("put_str", e("attributes_of", e("id_of", g)), N("t"), N("abc"))),
        ("dataspace1", lambda e, g, d, i: e("dataspace1", e.dims("shape", [2, 3]))),
        ("dataspace2", lambda e, g, d, i: e("dataspace2", e.dims("shape", [2, 3]), e.dims("shape", [2, 3]))),
        ("scalar_space", lambda e, g, d, i: e("scalar_space")),
        ("string_type", lambda e, g, d, i: e("string_type", 5)),
        ("vlen_string_type", lambda e, g, d, i: e("vlen_string_type")),
        ("native", lambda e, g, d, i: e("native", 2)),
        ("to_file", lambda e, g, d, i: e("to_file", e("native", 2))),
        ("compound", lambda e, g, d, i: e("compound", 8)),
        ("recode", lambda e, g, d, i: e("recode", e("native", 2))),
        ("transfer_plist", lambda e, g, d, i: e("transfer_plist")),
        ("dcpl", lambda e, g, d, i: e("dcpl")),
        ("create", lambda e, g, d, i: e("create", e("id_of", g), N("new"), e("native", 2), e("dataspace1", e.dims("shape", [2])), e("dcpl"))),
        ("make_soft_link", lambda e, g, d, i: e("make_soft_link", g, e("id_of", d), N("l"))),
        ("make_hard_link", lambda e, g, d, i: e("make_hard_link", g, e("id_of", d), N("l"))),
        ("soft_link", lambda e, g, d, i: e("soft_link", g, N("soft"))),
        ("has_group", lambda e, g, d, i: e("has_group", g, N("sub"))),
        ("contains_dataset", lambda e, g, d, i: e("contains_dataset", g, N("sub"))),
        ("open_file", lambda e, g, d, i: e("open_file", N("f.lue"))),
        ("make_file", lambda e, g, d, i: e("make_file", N("new.lue"))),
        ("make_memory_file", lambda e, g, d, i: e("make_memory_file", N("mem.lue"))),
        ("read", lambda e, g, d, i: e("read1", d, e("native", 2), None)),
        ("resize", lambda e, g, d, i: e("resize", d, e.dims("shape", [5, 4]))),
    ]


OPS = op_list()


def balanced(part):
    names = OPS[part::6]

    def run(ctx, P):
        k = ctx.choose(len(names), note="operation")
        e = hd.Env(ctx, P)
        W, g, d, gh, dh, fid = wrappers(e)
        W.fail = "one"
        before = dict(W.open_hids())
        objs = []
        real = e.__class__.__call__

        class Rec:
            """Keeps the intermediate handles, to destroy them afterwards"""

            def __init__(self, e):
                self.e = e

            def __getattr__(self, a):
                return getattr(self.e, a)

            def __call__(self, *a):
                r = real(self.e, *a)
                objs.append(r)
                return r

            def dims(self, *a):
                return self.e.dims(*a)

        try:
            names[k][1](Rec(e), gh, dh, fid)
        except CppThrow:
            ctx.prove("an exception means that the library failed", W.failed is not None, operation=names[k][0])
        for r in reversed(objs):
            e.E.destroy(r)
        now = W.open_hids()
        ctx.prove("every handle opened has been closed once, and no other", same(ctx, now, before),
                  operation=names[k][0], failed=W.failed)
        e.E.destroy(dh)
        e.E.destroy(gh)
        e.E.destroy(fid)
        ctx.prove("no handle is left open", not W.open_hids(), operation=names[k][0])
        ctx.cover("end")

    return run


PROOFS = [("copy", scenario(op_copy)), ("copy outlives", scenario(op_copy_outlives)), ("move", scenario(op_move)),
          ("copy assignment", scenario(op_copy_assign)), ("move assignment", scenario(op_move_assign)),
          ("self assignment", scenario(op_self_assign)), ("self move", scenario(op_self_move)),
          ("queries", scenario(op_queries)), ("file", scenario(op_file)), ("failures", fallible)] + \
         [("wrappers %d" % i, balanced(i)) for i in range(6)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p01.cpp", [seed, tier], extra_link=["-Wl,--wrap=H5Iinc_ref"])
