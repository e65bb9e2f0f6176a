"""P12: configurations"""
import z3

from vc import h5
from vc.interp import Ref
from vc.smt import And, Not, Or, eq, lift
from vc.stdlib import Str
from . import hd, lib, md

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp"]

# What is stored: the name of each attribute, and the text of each value, in the order of the values
ASPECTS = [
    ("shape_per_object", "lue_shape_per_object", ["same_shape", "different_shape"]),
    ("value_variability", "lue_value_variability", ["constant", "variable"]),
    ("shape_variability", "lue_shape_variability", ["constant_shape", "variable_shape"]),
    ("time_domain_item_type", "lue_time_domain_item_type", ["point", "box", "cell"]),
    ("mobility", "lue_mobility", ["stationary", "mobile"]),
    ("space_domain_item_type", "lue_space_domain_item_type", ["point", "box"]),
    ("space_discretization", "lue_space_discretization", ["regular_grid"]),
    ("time_discretization", "lue_time_discretization", ["regular_grid"]),
    ("unit", "lue_time_unit", ["nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year"]),
    ("calendar", "lue_epoch_calendar", ["gregorian"]),
    ("epoch_kind", "lue_epoch_kind", ["common_era", "formation_of_earth"]),
]
CONFIGS = {"pc": [0, 1, 2], "tc": [3], "sc": [4, 5]}


def text(ctx, n):
    s = z3.String(n)
    ctx.assume(z3.Length(s) >= 1)
    ctx.assume(z3.Length(s) <= 2**20)
    return s


def names(ctx, P):
    e = md.Env(ctx, P)
    n, tag, values = ASPECTS[ctx.choose(len(ASPECTS), note="aspect")]
    ctx.prove("the name of the attribute", eq(e.text(e("tag_" + n)), tag), aspect=n)
    for v, s in enumerate(values):
        ctx.prove("the text of each value", eq(e.text(e("to_" + n, v)), s), aspect=n, value=v)
        ctx.prove("the value of each text", eq(e("from_" + n, Str(s)), v), aspect=n, value=v)
        for w in range(len(values)):
            ctx.prove("aspects are equal when their values are", eq(e("same_" + n, v, w), v == w), aspect=n)
    s = text(ctx, "text")
    threw, v = e.throws("from_" + n, Str(s))
    if threw:
        ctx.prove("a text that is refused is that of no value", And(*[s != z3.StringVal(x) for x in values]), aspect=n)
    else:
        ctx.prove("a text that is accepted is that of the value", Or(*[And(s == z3.StringVal(x), eq(v, i)) for i, x in enumerate(values)]), aspect=n)
    ctx.cover("end")


class S:
    """A group with the attributes of every aspect, but those listed"""

    def __init__(self, ctx, P, but=(), others=True):
        self.ctx = ctx
        self.e = e = md.Env(ctx, P)
        self.top = e.W.add(e.root, "g")
        near = e.W.add(e.root, "near")
        for i, (n, tag, values) in enumerate(ASPECTS):
            e.W.add_attr(near, tag, values[0])
            if i not in but and others:
                e.W.add_attr(self.top, tag, text(ctx, "other_" + n))
            elif i not in but:
                self.top.attrs.absent.append(tag)
        self.g = e.group(self.top)
        self.a = e("attributes", self.g)

    def before(self, i, v, short=False):
        """The attribute before: absent, with the same value, with any text"""
        n, tag, values = ASPECTS[i]
        c = self.ctx.choose(2 if short else 3, note="before: absent, any text, that of the value")
        if c == 0:
            self.top.attrs.absent.append(tag)
            return "attribute added"
        x = self.e.W.add_attr(self.top, tag, values[v] if c == 2 else text(self.ctx, "before"))
        if c == 1:
            self.ctx.assume(x.value != z3.StringVal(values[v]))
        return None if c == 2 else "attribute"


def check_saved(s, which, values, kinds):
    e, ctx = s.e, s.ctx
    got = [c for c in e.changes()]
    for i, v, k in zip(which, values, kinds):
        n, tag, texts = ASPECTS[i]
        a = e.attr(s.top, tag)
        ctx.prove("the attribute exists", a is not None, aspect=n)
        if a is not None:
            ctx.prove("the text stored is that of the value", eq(a.value, texts[v]), aspect=n)
    tags = [ASPECTS[i][1] for i in which]
    ctx.prove("no other attribute changes", all(c[0] in ("attribute", "attribute added") and c[1] is s.top and c[2] in tags for c in got),
              changes=["%s %s" % (c[0], c[2]) for c in got])
    ctx.prove("attributes that were absent are added", all(any(c[2] == t and c[0] == k for c in got) for t, k in zip(tags, kinds) if k == "attribute added"))


def one(fail):
    def run(ctx, P):
        i = ctx.choose(len(ASPECTS), note="aspect")
        n, tag, values = ASPECTS[i]
        v = ctx.choose(len(values), note="value") if fail == "none" else len(values) - 1
        s = S(ctx, P, [i], bool(fail != "none" or ctx.choose(2, note="other attributes: absent, present")))
        e = s.e
        k = s.before(i, v)
        e.mark()
        e.W.fail = fail
        threw, _ = e.throws("save_" + n, s.a, v)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("saving fails only when the library does", threw == (failed is not None) or failed == "H5Aexists", failed=str(failed))
        if not threw:
            check_saved(s, [i], [v], [k])
            e.mark()
            e.W.fail, e.W.failed = ("none" if failed else fail), None
            threw, w = e.throws("load_" + n, s.a)
            failed, e.W.fail = e.W.failed, "none"
            ctx.prove("loading fails only when the library does", threw == (failed is not None))
            if not threw:
                ctx.prove("the value loaded is the one saved", eq(w, v), aspect=n)
            e.only("loading changes nothing", [])
        ctx.cover("end")
    return run


def stored(ctx, P):
    """Any stored text"""
    i = ctx.choose(len(ASPECTS), note="aspect")
    n, tag, values = ASPECTS[i]
    s = S(ctx, P, [i])
    e = s.e
    e.E.check_asserts = "refuse"
    t = text(ctx, "stored")
    absent = ctx.choose(2)
    if absent:
        s.top.attrs.absent.append(tag)
    else:
        e.W.add_attr(s.top, tag, t)
    e.mark()
    threw, v = e.throws("load_" + n, s.a)
    if absent:
        ctx.prove("what is not stored is refused", threw)
    elif threw:
        ctx.prove("a text that is refused is that of no value", And(*[t != z3.StringVal(x) for x in values]), aspect=n)
    else:
        ctx.prove("a text that is accepted is that of the value", Or(*[And(t == z3.StringVal(x), eq(v, j)) for j, x in enumerate(values)]), aspect=n)
    e.only("loading changes nothing", [])
    ctx.cover("end")


def make(e, p, v):
    return e({"tc": "time_configuration", "sc": "space_configuration", "pc": "property_configuration"}[p], *v)


def configuration(p, fail):
    which = CONFIGS[p]

    def run(ctx, P):
        v = [ctx.choose(len(ASPECTS[i][2]) if fail == "none" else 1, note=ASPECTS[i][0]) for i in which]
        s = S(ctx, P, which)
        e = s.e
        kinds = [s.before(i, x, j > 0 or fail != "none") for j, (i, x) in enumerate(zip(which, v))]
        c = make(e, p, v)
        e.mark()
        e.W.fail = fail
        threw, _ = e.throws(p + "_save", c, s.a)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("saving fails only when the library does", threw == (failed is not None) or failed == "H5Aexists", failed=str(failed))
        if not threw:
            check_saved(s, which, v, kinds)
            e.mark()
            d = e(p + "_load", s.a)
            for j, f in enumerate({"pc": ["pc_0", "pc_1", "pc_2"], "tc": ["tc_item"], "sc": ["sc_mobility", "sc_item"]}[p]):
                ctx.prove("the configuration loaded is the one saved", eq(e(f, d), v[j]), aspect=ASPECTS[which[j]][0])
                ctx.prove("the configuration saved has the values given", eq(e(f, c), v[j]))
            ctx.prove("they compare equal", And(eq(e(p + "_same", c, d), True), eq(e(p + "_other", c, d), False)))
            e.only("loading changes nothing", [])
        ctx.cover("end")
    return run


def compare(ctx, P):
    e = md.Env(ctx, P)
    p = ["pc", "tc", "sc"][ctx.choose(3, note="configuration of: properties, time, space")]
    v, w = [[ctx.choose(len(ASPECTS[i][2]), note=ASPECTS[i][0]) for i in CONFIGS[p]] for _ in (0, 1)]
    c, d = make(e, p, v), make(e, p, w)
    ctx.prove("configurations are equal exactly when all their values are", And(eq(e(p + "_same", c, d), v == w), eq(e(p + "_other", c, d), v != w)))
    ctx.cover("end")


PROOFS = [("comparison", compare), ("names", names), ("one aspect", one("none")), ("any stored text", stored)] + \
    [("configuration of %s" % n, configuration(p, "none")) for p, n in (("tc", "time"), ("sc", "space"), ("pc", "properties"))] + \
    [("one aspect, a call fails", one("one"))] + \
    [("configuration of %s, a call fails" % n, configuration(p, "one")) for p, n in (("tc", "time"), ("sc", "space"), ("pc", "properties"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p12.cpp", [seed, tier], wraps=lib.INJECT)
