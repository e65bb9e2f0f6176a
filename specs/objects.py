"""Objects of the data model as they are stored"""
from vc import h5
from vc.interp import CppThrow
from vc.smt import And, Implies, Not, Or, eq, is_sym, lift, simp
from vc.stdlib import Str
from . import hd, lib, md
from .p06 import text
from .p07 import name as any_name

U64 = 7
FREE = h5.SIZE_MAX
TRACKER, TIME, SPACE, PROPERTIES = "lue_object_tracker", "lue_time_domain", "lue_space_domain", "lue_properties"
IDS = ["lue_active_object_id", "lue_active_object_index", "lue_active_set_index"]
KINDS = ["lue_same_shape", "lue_same_shape_constant_shape", "lue_same_shape_variable_shape",
         "lue_different_shape", "lue_different_shape_constant_shape", "lue_different_shape_variable_shape"]
SETS = ["lue_collection_property_sets", "lue_property_sets"]


def numbers(e, g, name, n=0, dims=(), k=U64):
    d = list(dims)
    return e.W.add_dataset(g, name, hd.dt(k), [n] + d, maxdims=[FREE] + d, dcpl={"chunk": [1] * (1 + len(d))})


def describe(e, x, description):
    if description is not None:
        e.W.add_attr(x, "lue_description", description)
    else:
        x.attrs.absent.append("lue_description")


def tracker(e, g, n=0):
    t = e.W.add(g, TRACKER)
    for i in IDS:
        numbers(e, t, i, n)
    return t


def properties(e, g):
    x = e.W.add(g, PROPERTIES)
    for k in KINDS:
        e.W.add(x, k)
    return x


def prop(e, g, kind, name, description=None, k=3, dims=(2,), rank=2, n=0):
    """A property of one of the six kinds, in its collection g"""
    if kind > 1:
        # the element type is stored in a form of the library: by the code itself
        c = e("k%d_open" % kind, e.group(g.parent))
        e("k%d_put_rank" % kind, c, Str(name), e.native(k), rank, Str(description or ""))
        return e.at(g, name)
    x = e.W.add(g, name)
    describe(e, x, description)
    for a in ("lue_time_discretization", "lue_space_discretization"):
        x.attrs.absent.append(a)
    numbers(e, x, "lue_value", n, dims, k)
    return x


def own_time(e, g, item="point"):
    x = e.W.add(g, TIME)
    for n, v in (("lue_time_domain_item_type", item), ("lue_epoch_kind", "common_era"), ("lue_time_unit", "day")):
        e.W.add_attr(x, n, v)
    for n in ("lue_epoch_origin", "lue_epoch_calendar"):
        x.attrs.absent.append(n)
    e.W.add_attr(x, "lue_nr_time_units", 1, hd.dt(U64))
    numbers(e, x, "lue_coordinates", 0, [2 if item == "box" else 1])
    return x


def own_space(e, g, k=9, width=2):
    x = e.W.add(g, SPACE)
    e.W.add_attr(x, "lue_mobility", "stationary")
    e.W.add_attr(x, "lue_space_domain_item_type", "point")
    numbers(e, x, "lue_coordinates", 0, [width], k)
    return x


def link(e, g, name, target):
    g.links.entries.append([name, h5.Soft(target.path)])


def property_set(e, g, name, time=None, space=False, tracked=None):
    x = e.W.add(g, name)
    tracker(e, x) if tracked is None else link(e, x, TRACKER, tracked)
    if time == "own":
        own_time(e, x)
    elif time is not None:
        link(e, x, TIME, time)
    if space:
        own_space(e, x)
    properties(e, x)
    return x


def phenomenon(e, g, name, description=None):
    x = e.W.add(g, name)
    describe(e, x, description)
    numbers(e, x, "lue_object_id")
    for s in SETS:
        e.W.add(x, s)
    return x


def universe(e, g, name):
    x = e.W.add(g, name)
    e.W.add(x, "lue_phenomena")
    return x


def same_tree(e, x, y, what, path=""):
    """What is stored in x is what is stored in y"""
    ctx = e.ctx
    if x is None or x.kind != y.kind:
        ctx.prove("%s has the parts it should" % what, False, at=path or "/", kind=str(x and x.kind))
        return False
    a, b = dict(map(tuple, x.attrs.entries)), dict(map(tuple, y.attrs.entries))
    ok = ctx.prove("%s has the attributes it should" % what, sorted(map(str, a)) == sorted(map(str, b)), at=path or "/", got=sorted(map(str, a)))
    for n in a:
        if n in b and not isinstance(b[n].value, tuple):
            ok &= ctx.prove("%s has the attribute values it should" % what, eq(a[n].value, b[n].value), at=path or "/", attribute=str(n))
    if x.kind == "dataset":
        return ok & ctx.prove("%s has the arrays it should" % what, And(e.eqs(x.dims, y.dims), e.eqs(x.maxdims or x.dims, y.maxdims or y.dims)) and x.dtype.same(y.dtype), at=path)
    m, n = {str(k): v for k, v in x.links.entries}, {str(k): v for k, v in y.links.entries}
    ok &= ctx.prove("%s has the parts it should" % what, sorted(m) == sorted(n), at=path or "/", got=sorted(m), want=sorted(n))
    for k in n:
        if k in m:
            if isinstance(n[k], h5.Soft) or isinstance(m[k], h5.Soft):
                same = isinstance(n[k], h5.Soft) and isinstance(m[k], h5.Soft) and ctx.entails(eq(n[k].target, m[k].target))
                ok &= ctx.prove("%s links to what it should" % what, same, at=path + "/" + k)
            else:
                ok &= same_tree(e, m[k], n[k], what, path + "/" + k)
    return ok
