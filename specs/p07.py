"""P07: groups, datasets, files and links"""
import z3

from vc import h5
from vc.interp import CppThrow
from vc.smt import And, Implies, Not, Or, concrete, eq, is_sym, lift, simp
from vc.stdlib import Str, Vec, concat, strval
from . import hd, lib

MODULES = ["hdf5"]
INST = ["drv/hdf5.cpp"]
KINDS = ["group", "dataset", "soft link to a group", "soft link to a dataset", "hard link to a group", "hard link to a dataset"]

# The names of the existing links: of different lengths, one the start of another, with a space, beyond ASCII
NAMES = ["g", "g d", "s" * 40, "sd", "\xc3\xa9", "h" * 300]


def name(ctx, n):
    """Any name of a link"""
    s = z3.String(n)
    ctx.segments = {**getattr(ctx, "segments", {}), s.get_id(): s}
    ctx.assume(z3.Length(s) >= 1)
    for c in ("\0", "/"):
        ctx.assume(Not(z3.Contains(s, z3.StringVal(c))))
    for c in (".", ".."):
        ctx.assume(s != z3.StringVal(c))
    return s


class S:
    """A location with one link of each kind, and a name that is free or that of one of them"""

    def __init__(self, ctx, P, fail="none", at=None, which=None):
        self.ctx = ctx
        self.e = e = hd.Env(ctx, P)
        W = e.W
        at = ctx.choose(2, note="location: the root group, another group") if at is None else at
        self.g = e.root if at == 0 else W.add(e.root, "location")
        # things to link to
        self.tg = W.add(e.root, "target group")
        self.td = W.add_dataset(e.root, "target dataset", hd.dt(2), [4, 5])
        W.add(self.tg, "inner")
        self.names = NAMES
        self.n = name(ctx, "name")
        self.objects = [W.add(self.g, self.names[0]), W.add_dataset(self.g, self.names[1], hd.dt(3), [7]), self.tg, self.td, self.tg, self.td]
        for i, o in ((2, self.tg), (3, self.td)):
            self.g.links.entries.append([self.names[i], h5.Soft(o.path)])
        for i, o in ((4, self.tg), (5, self.td)):
            self.g.links.entries.append([self.names[i], o])
        self.which = ctx.choose(7, note="name: that of link i, or a free one") if which is None else which
        if self.which < 6:
            self.n = self.names[self.which]
        else:
            for a in self.names:
                ctx.assume(self.n != z3.StringVal(a))
            if at == 0:
                for x in ("target group", "target dataset"):
                    ctx.assume(self.n != z3.StringVal(x))
            self.g.links.absent.append(self.n)
        self.L = e.group(self.g)
        self.i = e.ident(self.g)
        self.entries = list(self.g.links.entries)
        W.log.clear()
        W.fail = fail

    @property
    def free(self):
        return self.which == 6

    @property
    def kind(self):
        return None if self.free else "group" if self.which % 2 == 0 else "dataset"

    def target(self):
        return None if self.free else self.objects[self.which]

    def threw(self, threw, expected, what):
        """An exception exactly when expected, or when the library failed to do what was asked"""
        e, ctx = self.e, self.ctx
        f = e.W.failed
        if f is None:
            ctx.prove(what, threw == expected, exception=str(getattr(e, "exc", None) and e.exc.msg)[:200])
        elif f != "H5Lexists":
            ctx.prove("a failure of the library is reported", threw, failed=str(f))
        elif expected:
            ctx.prove("a failure of the library is reported", threw, failed=str(f))
        e.W.fail = "none"

    def unchanged(self, what="nothing changes", created=False):
        es = self.g.links.entries
        if self.e.W.failed is not None and len(self.e.W.log) == 1 and self.free and created:
            # created, but then not opened
            return self.added(None)
        self.ctx.prove(what, not self.e.W.log and len(es) == len(self.entries) and all(a is b for a, b in zip(es, self.entries)),
                       log=[x[0] for x in self.e.W.log])

    def added(self, kind):
        """Exactly the name asked for has been added to the location; returns what it links to"""
        ctx, log, es = self.ctx, self.e.W.log, self.g.links.entries
        ok = len(log) == 1 and log[0][0] == "link" and log[0][1] is self.g and len(es) == len(self.entries) + 1
        ctx.prove("exactly one name is added to the location", ok, log=[x[0] for x in log])
        ctx.prove("the others stay as they are", all(any(a is b for b in es) for a in self.entries))
        new = [x for x in es if not any(x is y for y in self.entries)]
        ctx.prove("the name is the one asked for", len(new) == 1 and eq(new[0][0], self.n))
        ctx.prove("the new object is of the kind asked for", kind is None or new[0][1].kind == kind)
        return new[0][1]


def make_group(fail):
    def run(ctx, P):
        s = S(ctx, P, fail=fail)
        e = s.e
        threw, g = e.throws("make_group", s.L, Str(s.n))
        s.threw(threw, not s.free, "creating a group fails exactly when the name is taken")
        if threw:
            s.unchanged(created=True)
        else:
            x = s.added("group")
            ctx.prove("the group returned is the one created", e.obj(e("hid_of", g)) is x)
            ctx.prove("the new group is empty", not x.links.entries and not x.attrs.entries)
            path = e.W.join(s.g.path, s.n)
            ctx.prove("the path of the group is that of the location and its name", eq(strval(e.E, e("pathname", e("id_of", g))), path))
            ctx.prove("the path of the parent is that of the location", eq(strval(e.E, e("parent_pathname", g)), s.g.path))
            ctx.prove("the parent is the location", e.obj(e("hid_of", e("parent", g))) is s.g)
            ctx.prove("the new group is found", And(e("has_group", s.L, Str(s.n)), e("contains_group", s.L, Str(s.n)),
                                                   Not(e("contains_dataset", s.L, Str(s.n)))))
        ctx.cover("end")
    return run


def make_dataset(fail):
    def run(ctx, P):
        s = S(ctx, P, fail="none")
        e = s.e
        k = ctx.choose(10)
        r = ctx.choose(3)
        chunked = r > 0 and ctx.choose(2)
        dims = [ctx.fresh("extent_%d" % i, lo=1, hi=2**40) for i in range(r)]
        mx = [h5.SIZE_MAX if i == 0 and chunked else d for i, d in enumerate(dims)]
        t = e("file_of_native" if False else "to_file", e("native", k))
        sp = e("dataspace2", e.dims("shape", dims), e.dims("shape", mx))
        p = e("dcpl")
        if chunked:
            e("set_chunk", p, e.dims("shape", dims))
        e.W.log.clear()
        e.W.fail = fail
        threw, d = e.throws("create", s.i, Str(s.n), t, sp, p)
        s.threw(threw, not s.free, "creating a dataset fails exactly when the name is taken")
        if threw:
            s.unchanged(created=True)
        else:
            x = s.added("dataset")
            ctx.prove("the dataset returned is the one created", e.obj(e("ds_id", d)) is x)
            ctx.prove("the extents are the ones asked for", e.eqs(x.dims, dims))
            ctx.prove("the largest extents are the ones asked for", e.eqs(x.maxdims or x.dims, mx))
            ctx.prove("the element type is the one asked for", x.dtype.same(e.W.hids[e("dt_id", t)].obj))
            c = x.dcpl.get("chunk")
            ctx.prove("the chunk shape is the one asked for", c is not None and e.eqs(c, dims) if chunked else c is None)
            ctx.prove("the new dataset is found", And(e("contains_dataset", s.L, Str(s.n)), Not(e("contains_group", s.L, Str(s.n)))))
        ctx.cover("end")
    return run


def make_link(soft, fail):
    def run(ctx, P):
        s = S(ctx, P, fail="none")
        e, W = s.e, s.e.W
        t = [s.tg, s.td, s.objects[0], s.objects[1]][ctx.choose(4, note="linked to")]
        h = e.group(t) if t.kind == "group" else e.dataset(t)
        i = e("id_of", h)
        W.log.clear()
        W.fail = fail
        threw, l = e.throws("make_soft_link" if soft else "make_hard_link", s.L, i, Str(s.n))
        s.threw(threw, not s.free, "creating a link fails exactly when the name is taken")
        if threw:
            s.unchanged(created=True)
        else:
            x = s.added("soft" if soft else t.kind)
            ctx.prove("the link leads to the object asked for", eq(x.target, t.path) if soft else x is t)
            ctx.prove("the name of the link is the one asked for", eq(strval(e.E, e("link_name", l)), s.n))
            if soft:
                ctx.prove("the path of the link is that of the object", eq(strval(e.E, e("soft_path", l)), t.path))
            o = e("group_in", s.L, Str(s.n)) if t.kind == "group" else e("open1", s.L, Str(s.n))
            ctx.prove("opening the link opens the object", e.obj(e("hid_of", o)) is t)
            ctx.prove("the object opened is equal to the object", And(e("same_object", o, h), Not(e("other_object", o, h))))
            ctx.prove("the link is found, as the kind it is", And(eq(e("contains_soft_link", s.L, Str(s.n)), soft),
                                                                  eq(e("contains_hard_link", s.L, Str(s.n)), not soft)))
        ctx.cover("end")
    return run


def opening(fail):
    def run(ctx, P):
        s = S(ctx, P, fail=fail)
        e = s.e
        what = ctx.choose(4, note="open as group, group in group, dataset, object")
        fn, kind, args = [("group", "group", [s.i]), ("group_in", "group", [s.L]), ("open2", "dataset", [s.i]), ("primary", None, [s.i])][what]
        threw, o = e.throws(fn, *args, Str(s.n))
        s.threw(threw, s.free or (kind is not None and s.kind != kind), "opening fails exactly when there is no such object")
        s.unchanged("opening changes nothing")
        if not threw:
            ctx.prove("the object opened is the one of that name", e.obj(e("hid_of", o)) is s.target())
            path = e.W.join(s.g.path, s.n)
            if what != 3:
                ctx.prove("the path of the object is that of the location and its name", eq(strval(e.E, e("pathname", e("id_of", o))), path))
                ctx.prove("the name of the object is the one asked for", eq(strval(e.E, e("name", e("id_of", o))), s.n))
            if kind == "group":
                ctx.prove("the path of the parent is that of the location", eq(strval(e.E, e("parent_pathname", o)), s.g.path))
                ctx.prove("the group has a parent", e("has_parent", o))
                ctx.prove("the parent is the location", e.obj(e("hid_of", e("parent", o))) is s.g)
        ctx.cover("end")
    return run


def queries(ctx, P):
    s = S(ctx, P)
    e = s.e
    n = Str(s.n)
    ctx.prove("a group is reported exactly when there is one", And(eq(e("has_group", s.L, n), s.kind == "group"), eq(e("contains_group", s.L, n), s.kind == "group")))
    ctx.prove("a dataset is reported exactly when there is one", And(eq(e("contains_dataset", s.L, n), s.kind == "dataset"), eq(e("dataset_exists_", s.i, n), s.kind == "dataset")))
    ctx.prove("a soft link is reported exactly when there is one", eq(e("contains_soft_link", s.L, n), s.which in (2, 3)))
    ctx.prove("a hard link is reported exactly when there is one", eq(e("contains_hard_link", s.L, n), s.which in (0, 1, 4, 5)))
    e.W.add_attr(s.g, s.n, z3.StringVal("x"))
    other = name(ctx, "other")
    ctx.assume(other != s.n)
    ctx.prove("an attribute is reported exactly when there is one", And(e("contains_attribute", s.L, n), Not(e("contains_attribute", s.L, Str(other)))))
    s.unchanged("queries change nothing")
    ctx.cover("end")


def listing(fail):
    def run(ctx, P):
        s = S(ctx, P, fail=fail, which=6)
        e = s.e
        which = ctx.choose(2)
        threw, r = e.throws(["group_names", "object_names"][which], s.L)
        ctx.prove("a failure of the library is reported", threw == (e.W.failed is not None))
        if not threw:
            got = [strval(e.E, e.E.val(x)) for x in r.items]
            want = []
            for m, x in s.g.links.entries:
                o = x
                if x.kind == "soft":
                    o = s.tg if x.target == s.tg.path else s.td
                if which or o.kind == "group":
                    want.append(m)
            ctx.prove("as many names as there are objects of the kind are listed", len(got) == len(want), got=[str(x) for x in got], want=[str(x) for x in want])
            ctx.prove("exactly the names of the objects of the kind are listed",
                      len(got) == len(want) and And(*[Or(*[eq(a, b) for b in want]) for a in got]) and And(*[Or(*[eq(a, b) for b in got]) for a in want]))
        s.unchanged("listing changes nothing")
        ctx.cover("end")
    return run


def paths(fail):
    """Objects opened by a path of several names"""
    def run(ctx, P):
        s = S(ctx, P, which=6, fail="none")
        e = s.e
        a = e.W.add(s.objects[0], "a")
        b = e.W.add(a, "b")
        d = e.W.add_dataset(a, "d", hd.dt(1), [2])
        first = s.names[[0, 2, 4][ctx.choose(3, note="through a group, a soft link, a hard link")]]
        c = ctx.choose(3)
        if first == s.names[0]:
            kind, path, x, parent = [("group", first + "/a", a, s.objects[0]), ("group", first + "/a/b", b, a), ("dataset", first + "/a/d", d, a)][c]
        else:
            inner = s.tg.links.get(ctx, "inner")
            if c == 2:
                return
            kind, path, x, parent = "group", first + "/inner", inner, s.tg
        if ctx.choose(2, note="relative, absolute"):
            path = e.W.join(s.g.path, path)
        e.W.log.clear()
        e.W.fail = fail
        threw, o = e.throws("group_in" if kind == "group" else "open2", s.L if kind == "group" else s.i, Str(path))
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("opening fails only when the library does", threw == (failed is not None))
        if not threw:
            ctx.prove("the object opened is the one at that path", e.obj(e("hid_of", o)) is x)
            ctx.prove("the name is the last of the path", eq(strval(e.E, e("name", e("id_of", o))), path.split("/")[-1]))
            if kind == "group":
                ctx.prove("the group has a parent", e("has_parent", o))
                ctx.prove("the parent is the group that contains it", e.obj(e("hid_of", e("parent", o))) is parent)
        s.unchanged()
        ctx.cover("end")
    return run


def equality(ctx, P):
    s = S(ctx, P, which=6)
    e = s.e
    if ctx.choose(2, note="in one file, in two files"):
        # an object of another file, at the same address or another
        f = e.W.file("other.lue")
        o = s.objects[ctx.choose(6)]
        y = e.W.add(f.root, "x") if o.kind == "group" else e.W.add_dataset(f.root, "x", hd.dt(2), [3])
        z = e.W.add(f.root, "z")
        if ctx.choose(2):
            y.addr = o.addr
        a = e("primary", s.i, Str(s.names[s.objects.index(o)]))
        b = e("primary", e.ident(f.root), Str("x"))
        ctx.prove("objects of two files are not equal", And(Not(e("same_object", a, b)), e("other_object", a, b)))
        ctx.prove("identifiers of objects of two files are not equal", And(Not(e("same_id", e("id_of", a), e("id_of", b))), e("other_id", e("id_of", a), e("id_of", b))))
        ctx.cover("end")
        return
    j = ctx.choose(6)
    k = ctx.choose(6)
    a = e("primary", s.i, Str(s.names[j]))
    b = e("primary", s.i, Str(s.names[k]))
    same = s.objects[j] is s.objects[k]
    ctx.prove("two handles are equal exactly when they are of the same object", And(eq(e("same_object", a, b), same), eq(e("other_object", a, b), not same)))
    ctx.prove("two identifiers are equal exactly when they are of the same object",
              And(eq(e("same_id", e("id_of", a), e("id_of", b)), same), eq(e("other_id", e("id_of", a), e("id_of", b)), not same)))
    ctx.cover("end")


def files(fail):
    def run(ctx, P):
        e = hd.Env(ctx, P, filename="other.lue")
        W = e.W
        op = ctx.choose(5, note="create, create in memory, open, open with flags, open absent")
        old = W.file("a.lue") if ctx.choose(2) or op in (2, 3) else None
        if old is not None:
            W.add(old.root, "kept")
        W.log.clear()
        W.fail = fail
        flags = [0, 1][ctx.choose(2)] if op == 3 else 0
        fn, args = [("make_file", []), ("make_memory_file", []), ("open_file", []), ("open_file_flags", [flags]), ("open_file", [])][op]
        threw, f = e.throws(fn, Str("absent.lue" if op == 4 else "a.lue"), *args)
        failed = W.failed
        W.fail = "none"
        ctx.prove("a failure is reported, and nothing else is", threw == (failed is not None or op == 4), failed=str(failed),
                  exception=str(getattr(e, "exc", None) and e.exc.msg)[:200])
        if op < 2:
            if not threw:
                g = e.obj(e("hid_of", f))
                x = g.root
                names = [a[0] for a in x.attrs.entries]
                ctx.prove("a new file is empty but for the version of the library", not x.links.entries and names == ["hdf5_version"])
                ctx.prove("the version is that of the library", eq(strval(e.E, e("file_version", f)), "1.10.10"))
                ctx.prove("one file is created", [l[0] for l in W.log] == ["create file", "create attribute", "write attribute"] and W.log[0][1] is g)
                ctx.prove("an in-memory file is one, and another file is not", ("core" in str(g.fapl)) == (op == 1), fapl=str(g.fapl))
                ctx.prove("the name of the file is the one asked for", eq(strval(e.E, e("file_pathname", f)), "a.lue"))
                ctx.prove("a new file can be written", eq(e("file_intent", f), 1))
        else:
            ctx.prove("opening a file changes nothing", not W.log)
            if not threw:
                g = e.obj(e("hid_of", f))
                ctx.prove("the file opened is the one asked for", g is old)
                ctx.prove("the file is opened as asked for", eq(e("file_intent", f), flags) and g.writable == bool(flags))
                ctx.prove("the name of the file is the one asked for", eq(strval(e.E, e("file_pathname", f)), "a.lue"))
                if flags:
                    W.fail = fail
                    threw, _ = e.throws("file_flush", f)
                    ctx.prove("a failure of the library is reported", threw == (W.failed is not None))
        ctx.cover("end")
    return run


def fileinfo(ctx, P):
    """Failures while a file or object is asked about"""
    s = S(ctx, P, fail="none", which=6, at=1)
    e = s.e
    f = e("open_file", Str("f.lue"))
    l = e("soft_link", s.L, Str(s.names[2]))
    c = ctx.choose(6)
    fn, args = [("file_pathname", [f]), ("file_intent", [f]), ("file_objects", [f, 0x1f]), ("soft_path", [l]), ("pathname", [s.i]), ("same_object", [s.L, s.L])][c]
    e.W.fail = "one"
    threw, r = e.throws(fn, *args)
    ctx.prove("a failure of the library is reported", threw == (e.W.failed is not None), failed=str(e.W.failed), function=fn)
    if not threw:
        if c == 2:
            ctx.prove("the number of open objects is that of the library", And(eq(r, e.W.obj_count), eq(e.W.obj_count_types, 0x1f)))
    s.unchanged()
    ctx.cover("end")


PROOFS = [("create group", make_group("none")), ("create dataset", make_dataset("none")), ("create soft link", make_link(True, "none")),
          ("create hard link", make_link(False, "none")), ("open", opening("none")), ("queries", queries), ("list", listing("none")),
          ("equality", equality), ("paths", paths("none")), ("paths, a call fails", paths("one")), ("files", files("none")),
          ("create group, a call fails", make_group("one")), ("create dataset, a call fails", make_dataset("one")),
          ("create soft link, a call fails", make_link(True, "one")), ("create hard link, a call fails", make_link(False, "one")),
          ("open, a call fails", opening("one")), ("list, a call fails", listing("one")), ("files, a call fails", files("one")),
          ("information, a call fails", fileinfo)]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5"], "p07.cpp", [seed, tier],
                          wraps=lib.INJECT)
