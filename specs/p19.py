"""P19: datasets"""
from vc import h5
from vc.smt import And, Not, eq
from vc.stdlib import Str
from . import hd, lib, md, objects as ob
from .p06 import text

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/objects.cpp"]
BEFORE = ["nothing", "a dataset", "no universes", "no phenomena", "an array for a collection", "a file of another kind", "a directory", "no version"]
PARTS = {"lue_universes": 1, "lue_phenomena": 2}


class World:
    """A name, what is there before, and another dataset nearby"""

    def __init__(self, ctx, P, before, name="d.lue", description=None):
        self.ctx, self.name = ctx, name
        self.e = e = md.Env(ctx, P, filename="near.lue")
        e.E.check_asserts = "refuse"
        self.fill(e.file, 3)
        self.old = None
        self.before = before
        if before in ("a file of another kind", "a directory"):
            e.W.special[name] = "directory" if before == "a directory" else "regular"
        elif before != "nothing":
            self.old = f = e.W.file(name)
            self.fill(f, {"no universes": 2, "no phenomena": 1, "an array for a collection": 1}.get(before, 3), before != "no version", description)
            if before == "an array for a collection":
                e.W.add_dataset(f.root, "lue_phenomena", hd.dt(7), [3])
        e.W.log.clear()

    def fill(self, f, parts, version=True, description=None):
        e = self.e
        e.W.add_attr(f.root, "hdf5_version", "1.10.10")
        if version:
            e.W.add_attr(f.root, "lue_version", "0.0.1")
        else:
            f.root.attrs.absent.append("lue_version")
        ob.describe(e, f.root, description)
        for n, b in PARTS.items():
            if parts & b:
                x = e.W.add(f.root, n)
                (ob.universe if b == 1 else ob.phenomenon)(e, x, "old")

    def others(self, what):
        e = self.e
        ctx = self.ctx
        names = [n for n in e.W.fs if n is not self.name and n != self.name]
        ctx.prove("other files stay %s" % what, names == ["near.lue"] and e.W.fs["near.lue"] is e.file)

    def sizes(self, d, n, what):
        e, ctx = self.e, self.ctx
        ctx.prove("the collections %s" % what, And(eq(e("universes_size", e("dataset_universes", d)), n), eq(e("phenomena_size", e("dataset_phenomena", d)), n)))

    def additions(self, d, root, what, old=0):
        """Elements added are in the file"""
        e, ctx = self.e, self.ctx
        e.mark()
        threw, u = e.throws("dataset_add_universe", d, Str("u"))
        threw2, p = e.throws("dataset_add_phenomenon", d, Str("p"), Str("about p"))
        ctx.prove("elements can be added %s" % what, not threw and not threw2)
        e.only("exactly the elements are added %s" % what, [("linked", e.at(root, "lue_universes"), "u"), ("linked", e.at(root, "lue_phenomena"), "p")])
        self.sizes(d, old + 1, "after adding, " + what)


NAMES = ["d.lue", "some where/d", "", "\xc3\xa9.lue"]


def create(fail):
    def run(ctx, P):
        before = BEFORE[[0, 1, 5, 6][ctx.choose(4, note="before")]]
        name = "d.lue" if fail != "none" or before == "a directory" else NAMES[ctx.choose(4, note="name")]
        fn = ("dataset_create", "dataset_create1", "dataset_memory", "dataset_memory1")[ctx.choose(4, note="way")]
        d = text(ctx, "description") if not fn.endswith("1") and (fail != "none" or ctx.choose(2, note="description")) else None
        w = World(ctx, P, before, name)
        e = w.e
        memory = fn.startswith("dataset_memory")
        args = [Str(name)] + ([] if fn.endswith("1") else [Str("" if d is None else d)])
        there = dict(e.W.fs), dict(e.W.special)
        e.mark()
        e.W.fail = fail
        threw, x = e.throws(fn, *args)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("creating fails exactly when a directory is in the way, or the library fails", threw == bool(failed or before == "a directory" and not memory) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        w.others("after creating")
        if memory or threw and not failed:
            ctx.prove("the files stay when a dataset is created in memory, or it is refused", (e.W.fs, e.W.special) == there)
            e.only("no file changes", [])
        else:
            e.only("no other file changes", [("lost", g, g.name) for g in ([w.old.root] + [y for y in e.W.nodes_of(w.old) if y is not w.old.root] if w.old and e.W.fs.get(name) is not w.old else [])])
        if not threw and failed is None:
            f = e.obj(e("dataset_hid", x))
            ctx.prove("the dataset is in the file of the name given, or in memory", f.name is name and (e.W.fs.get(name) is f) == (not memory))
            root = f.root
            a = dict(map(tuple, root.attrs.entries))
            ctx.prove("a new dataset carries versions, and the description if there is one", sorted(a) == sorted(["hdf5_version", "lue_version"] + ["lue_description"] * (d is not None)))
            ctx.prove("the versions are those of the libraries", And(eq(a["hdf5_version"].value, "1.10.10"), eq(a["lue_version"].value, e.text(e("library_version")))))
            if d is not None:
                ctx.prove("the description stored is the one given", eq(a["lue_description"].value, d))
            ctx.prove("a new dataset has the two collections, empty", sorted(n for n, _ in root.links.entries) == sorted(PARTS) and
                      all(y.kind == "group" and not y.links.entries and not y.attrs.entries for _, y in root.links.entries))
            ctx.prove("a new dataset can be changed", eq(e("dataset_intent", x), 1))
            for y, what in ((x, "of a new dataset"),) + (() if memory else ((e("dataset_open", Str(name), 1), "of the dataset opened again"),)):
                ctx.prove("the path %s" % what, eq(e.text(e("dataset_path", y)), name))
                ctx.prove("the description %s" % what, eq(e.text(e("dataset_description", y)), "" if d is None else d))
                ctx.prove("the version %s" % what, eq(e.text(e("dataset_version", y)), e.text(e("library_version"))))
                w.sizes(y, 0, what)
            w.additions(x, root, "to a new dataset")
            if not memory:
                z = e("dataset_open0", Str(name))
                w.sizes(z, 1, "of the dataset found again")
                ctx.prove("the collections found again", e("universes_contains", e("dataset_universes", z), Str("u")) is True and e("phenomena_contains", e("dataset_phenomena", z), Str("p")) is True)
        ctx.cover("end")
    return run


def opening(fail):
    def run(ctx, P):
        before = BEFORE[ctx.choose(8, note="before")] if fail == "none" else "a dataset"
        name = NAMES[ctx.choose(4, note="name")] if before == "a dataset" and fail == "none" else "d.lue"
        d = text(ctx, "description") if before == "a dataset" and (fail != "none" or ctx.choose(2, note="description")) else None
        fn, flags = [("dataset_open", 0), ("dataset_open", 1), ("dataset_open0", None), ("dataset_open1", 0), ("dataset_open1", 1), ("dataset_open2", None)][ctx.choose(6, note="way")]
        w = World(ctx, P, before, name, d)
        e = w.e
        e.mark()
        there = dict(e.W.fs), dict(e.W.special)
        e.W.fail = fail
        threw, x = e.throws(fn, Str(name), *([] if flags is None else [flags]))
        failed, e.W.fail = e.W.failed, "none"
        good = before in ("a dataset", "no version")
        ctx.prove("opening fails exactly when there is no dataset, or the library fails", threw == bool(failed or not good) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        ctx.prove("the files stay when one is opened", (e.W.fs, e.W.special) == there)
        e.only("opening changes nothing", [])
        if not threw and failed is None:
            ctx.prove("the dataset opened is that of the name", e.obj(e("dataset_hid", x)) is w.old)
            ctx.prove("the access is as asked for", eq(e("dataset_intent", x), 1 if flags else 0))
            ctx.prove("the path is the one opened", eq(e.text(e("dataset_path", x)), name))
            ctx.prove("the description is the one stored", eq(e.text(e("dataset_description", x)), "" if d is None else d))
            threw, v = e.throws("dataset_version", x)
            ctx.prove("the version is the one stored", threw if before == "no version" else not threw and eq(e.text(v), "0.0.1"))
            w.sizes(x, 1, "of a stored dataset")
            for c, n in (("universes", "lue_universes"), ("phenomena", "lue_phenomena")):
                ctx.prove("the collections are those stored", e.obj(e(c + "_hid", e("dataset_" + c, x))) is e.at(w.old.root, n))
            e.only("asking changes nothing", [])
            if flags:
                w.additions(x, w.old.root, "to a stored dataset", 1)
                w.sizes(e("dataset_open0", Str(name)), 2, "found again")
            else:
                ctx.prove("a dataset opened for reading is not changed", e.throws("dataset_add_universe", x, Str("u"))[0] and e.throws("dataset_add_phenomenon", x, Str("p"), Str("about"))[0])
                e.only("no change of a dataset opened for reading", [])
        ctx.cover("end")
    return run


def presence(ctx, P):
    before = BEFORE[ctx.choose(8, note="before")]
    name = NAMES[ctx.choose(4, note="name")]
    w = World(ctx, P, before, name)
    e = w.e
    e.mark()
    there = dict(e.W.fs), dict(e.W.special)
    regular = before not in ("nothing", "a directory")
    ctx.prove("whether there is a file", eq(e("dataset_there", Str(name)), regular))
    ctx.prove("the other file is there", e("dataset_there", Str("near.lue")))
    ctx.prove("the files stay when asked for", (e.W.fs, e.W.special) == there)
    e.only("asking changes nothing", [])
    if regular:
        fail = ctx.choose(2, note="removing fails")
        e.W.fail = "one" if fail else "none"
        threw, _ = e.throws("dataset_remove", Str(name))
        e.W.fail, failed = "none", e.W.failed
        ctx.prove("removing fails exactly when the library fails", threw == (failed is not None))
        w.others("after removing")
        ctx.prove("exactly the file of the name is removed", (e.W.fs_kind(name) == "none") == (not threw))
        if not threw:
            ctx.prove("a removed file is not there", Not(e("dataset_there", Str(name))))
            ctx.prove("a removed file is not opened", e.throws("dataset_open0", Str(name))[0])
    ctx.cover("end")


PROOFS = [("create", create("none")), ("open", opening("none")), ("presence", presence),
          ("create, a call fails", create("one")), ("open, a call fails", opening("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p19.cpp", [seed, tier], wraps=lib.INJECT)
