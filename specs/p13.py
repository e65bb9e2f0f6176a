"""P13: clocks, epochs and durations"""
import z3

from vc import h5
from vc.interp import Ref
from vc.smt import And, Implies, Not, Or, eq, lift
from vc.stdlib import Str
from . import hd, lib, md
from .p12 import ASPECTS, text

MODULES = md.MODULES
INST = ["drv/hdf5.cpp", "drv/info.cpp"]
U64 = 7
UNITS = ASPECTS[8][2]
KINDS = ASPECTS[10][2]


def count(ctx, n):
    return ctx.fresh(n, lo=0, hi=2**64 - 1)


class Clock:
    """Any epoch, unit and number of units"""

    def __init__(self, e, ctx, n="", units=len(UNITS), how=None, kinds=2):
        self.e, self.ctx = e, ctx
        how = ctx.choose(4, note="epoch: default, kind, with origin, with calendar") if how is None else how
        self.kind = ctx.choose(kinds, note="kind") if how else 0
        self.origin = text(ctx, "origin" + n) if how > 1 else "1970-01-01T00:00:00+00:00" if how == 0 else None
        self.calendar = 0 if how in (0, 3) else None
        self.unit = ctx.choose(units, note="unit")
        self.units = count(ctx, "units" + n)
        if how == 0:
            self.epoch = e("epoch0")
            self.v = e("clock2", self.unit, self.units)
        else:
            self.epoch = e("epoch1", self.kind) if how == 1 else e("epoch2", self.kind, Str(self.origin)) if how == 2 else e("epoch3", self.kind, Str(self.origin), 0)
            self.v = e("clock3", self.epoch, self.unit, self.units)

    def epoch_is(self, p, what):
        e, ctx = self.e, self.ctx
        ctx.prove("the kind of the epoch of %s" % what, eq(e("epoch_kind", p), self.kind))
        o = e("epoch_has_origin", p)
        ctx.prove("the epoch of %s has an origin exactly when one was given" % what, eq(o, self.origin is not None))
        if self.origin is not None and ctx.entails(o):
            ctx.prove("the origin of %s" % what, eq(e.text(e("epoch_origin", p)), self.origin))
        c = e("epoch_has_calendar", p)
        ctx.prove("the epoch of %s has a calendar exactly when one was given" % what, eq(c, self.calendar is not None))
        if self.calendar is not None and ctx.entails(c):
            ctx.prove("the calendar of %s" % what, eq(e("epoch_calendar", p), self.calendar))

    def same(self, v, what):
        e, ctx = self.e, self.ctx
        self.epoch_is(e("clock_epoch", v), what)
        ctx.prove("the unit of %s" % what, eq(e("clock_unit", v), self.unit))
        ctx.prove("the number of units of %s" % what, eq(e("clock_units", v), self.units))

    def stored(self, g, what="the group"):
        """Attributes that stand for the clock"""
        e, ctx = self.e, self.ctx
        want = {"lue_epoch_kind": KINDS[self.kind], "lue_time_unit": UNITS[self.unit], "lue_nr_time_units": self.units}
        if self.origin is not None:
            want["lue_epoch_origin"] = self.origin
        if self.calendar is not None:
            want["lue_epoch_calendar"] = "gregorian"
        for n, v in want.items():
            a = e.attr(g, n)
            ctx.prove("the clock is stored with %s" % what, a is not None and eq(a.value, v), attribute=n)
        return set(want)


def make(ctx, P):
    e = md.Env(ctx, P)
    c = Clock(e, ctx)
    c.epoch_is(c.epoch, "the epoch")
    c.same(c.v, "the clock")
    ctx.cover("end")


def equal(ctx, P):
    e = md.Env(ctx, P)
    way = ctx.choose(2, note="units, epochs")
    if way == 0:
        c = Clock(e, ctx, how=1, kinds=1)
        d = Clock(e, ctx, "_other", how=3, kinds=1)
    else:
        c = Clock(e, ctx, how=[1, 3][ctx.choose(2)], kinds=1, units=1)
        d = Clock(e, ctx, "_other", how=[2, 3][ctx.choose(2)], units=2)
    same = And(c.unit == d.unit, eq(c.units, d.units))
    ctx.prove("clocks are equal exactly when unit and number of units are", And(eq(e("clock_same", c.v, d.v), same), eq(e("clock_other", c.v, d.v), Not(same))))
    if way and ctx.choose(2, note="assigned"):
        e("clock_assign", c.v, d.v)
        d.same(c.v, "a clock assigned")
        d.same(d.v, "a clock assigned from")
    ctx.cover("end")


def durations(ctx, P):
    e = md.Env(ctx, P)
    n, m = count(ctx, "n"), count(ctx, "m")
    p = e("period1", n)
    ctx.prove("the number of units of a tick", eq(e("period_units", p), n))
    ctx.prove("a tick is one unit unless given", eq(e("period_units", e("period0")), 1))
    a, b = e("duration", n), e("duration", m)
    ctx.prove("the number of ticks of a duration", And(eq(e("duration_ticks", a), n), eq(e("duration_ticks", b), m)))
    ctx.prove("durations are equal exactly when they have as many ticks", eq(e("duration_same", a, b), eq(n, m)))
    c = Clock(e, ctx, units=1)
    k = e("ticks", c.epoch, e("period1", n))
    ctx.prove("the tick of a clock", eq(e("ticks_units", k), n))
    c.epoch_is(e("ticks_epoch", k), "a clock of ticks")
    t = e("point", a)
    ctx.prove("a point in time is the duration since the start of its clock", And(eq(e("point_ticks", t), n), eq(e("duration_ticks", e("point_duration", t)), n)))
    ctx.cover("end")


def stored(fail):
    def run(ctx, P):
        e = md.Env(ctx, P)
        e.E.check_asserts = "refuse"
        top = e.W.add(e.root, "g")
        # another domain, with all parts of a clock
        near = e.W.add(e.W.add(e.root, "near"), "lue_time_domain")
        for i in (3, 8, 9, 10):
            e.W.add_attr(near, ASPECTS[i][1], ASPECTS[i][2][0])
        e.W.add_attr(near, "lue_epoch_origin", text(ctx, "near_origin"))
        e.W.add_attr(near, "lue_nr_time_units", count(ctx, "near_units"), hd.dt(U64))
        c = Clock(e, ctx) if fail == "none" else Clock(e, ctx, units=1, how=3, kinds=1)
        kind = 0 if fail != "none" else ctx.choose(3, note="items")
        g = e.group(top)
        e.mark()
        e.W.fail = fail
        threw, d = e.throws("time_create", g, e("time_configuration", kind), c.v)
        failed, e.W.fail = e.W.failed, "none"
        ctx.prove("it fails only when the library does", threw == (failed is not None) or failed in ("H5Lexists", "H5Aexists"), failed=str(failed))
        if not threw:
            e.only("only a time domain is added", [("linked", top, "lue_time_domain")])
            x = e.at(top, "lue_time_domain")
            want = c.stored(x, "the time domain")
            ctx.prove("nothing else is stored with the time domain", {n for n, _ in x.attrs.entries} == want | {"lue_time_domain_item_type"})
            if failed is None:
                c.same(e("time_clock", d), "the clock of a new domain")
            e.W.fail, e.W.failed = ("none" if failed else fail), None
            e.mark()
            threw, o = e.throws("time_open", g)
            failed, e.W.fail = e.W.failed, "none"
            ctx.prove("opening fails only when the library does", threw == (failed is not None) or failed == "H5Aexists", failed=str(failed))
            if not threw and failed is None:
                c.same(e("time_clock", o), "the clock found again")
                ctx.prove("the clock found again is equal", e("clock_same", e("time_clock", o), c.v))
            e.only("opening changes nothing", [])
        ctx.cover("end")
    return run


PROOFS = [("epochs and clocks", make), ("equality", equal), ("durations", durations), ("clock of a time domain", stored("none")),
          ("clock of a time domain, a call fails", stored("one"))]


def BATTERY(failures, seed, tier):
    return lib.run_native(["hdf5", "cxx"], "p13.cpp", [seed, tier], wraps=lib.INJECT)
