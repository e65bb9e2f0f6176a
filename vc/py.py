"""Deductive verification of Python functions.

The module's own source is read on every run and executed as it is, with symbolic numbers: its syntax tree is changed
only where a loop or a comprehension ranges over something symbolic.  A loop is cut by an invariant: it holds on entry,
an arbitrary iteration preserves it and decreases a variant, and execution goes on from it and the negated condition.
The invariants are the candidates of a fixed template (relations between the variables the loop changes, their values
on entry, and the sequences the specification names) that turn out to be inductive; every one of them is an obligation.
"""
import ast
import builtins
import fractions
import functools
import math as real_math
import os

import z3

from . import smt
from .smt import And, Implies, Not, Or, Stop, Unsupported, concrete, lift, simp

CTX = None  # of the current path
MODE = "prove"  # or "infer"
DROPPED = set()
EXTRA = None
SEQS = None


def val(x):
    return x.v if isinstance(x, (N, B)) else x


def wrap(v):
    v = simp(v)
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v):
            return B(v)
        if z3.is_rational_value(v):
            return N(v)
        return N(v)
    return v


def num(x):
    if isinstance(x, (N, B)):
        return x.v
    if isinstance(x, bool) or isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return z3.RealVal(fractions.Fraction(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(x)
    raise TypeError("not a number: %r" % (x,))


def isreal(x):
    return isinstance(x, float) or isinstance(x, N) and x.v.sort() == z3.RealSort()


def real(v):
    v = lift(v)
    return z3.ToReal(v) if v.sort() == z3.IntSort() else v


class B:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return CTX.branch(self.v)

    def __and__(self, o):
        return wrap(And(self.v, val(o)))

    def __or__(self, o):
        return wrap(Or(self.v, val(o)))


def arith(op):
    def f(a, b):
        try:
            x, y = num(a), num(b)
        except TypeError:
            return NotImplemented
        if isreal(a) or isreal(b):
            x, y = real(x), real(y)
        return wrap(op(lift(x), lift(y)))
    return f


def cmp(op):
    def f(a, b):
        try:
            x, y = num(a), num(b)
        except TypeError:
            return NotImplemented
        if isreal(a) or isreal(b):
            x, y = real(x), real(y)
        return wrap(op(lift(x), lift(y)))
    return f


def divmod_(a, b):
    if isreal(a) or isreal(b):
        raise Unsupported("// or % of reals")
    x, y = lift(num(a)), lift(num(b))
    if CTX.branch(y == 0):
        raise ZeroDivisionError()
    if not CTX.branch(y > 0):
        raise Unsupported("division by a negative number")
    memo = CTX.__dict__.setdefault("pydiv", {})
    k = (x.get_id(), y.get_id())
    if k not in memo:
        if z3.is_int_value(y):
            memo[k] = (x / y, x % y, x, y)
        else:
            q, r = CTX.fresh("quotient", report=False), CTX.fresh("remainder", report=False)
            CTX.assume(And(x == q * y + r, 0 <= r, r < y))
            memo[k] = (q, r, x, y)
    return memo[k][:2]


def truediv(a, b):
    x, y = real(num(a)), real(num(b))
    if CTX.branch(y == 0):
        raise ZeroDivisionError()
    if not isinstance(b, N):
        return wrap(x / y)
    q = CTX.fresh("ratio", "real", report=False)
    CTX.assume(q * y == x)
    return wrap(q)


def power(a, b):
    if not isinstance(b, N):
        if isinstance(b, float) and not b.is_integer():
            n = round(1 / b)
            if n > 0 and 1.0 / n == b:
                return root(a, n)
        elif b == int(b) and 0 <= b <= 6:
            x = num(a)
            x = real(x) if isreal(a) or isinstance(b, float) else lift(x)
            r = x
            for _ in builtins.range(int(b) - 1):
                r = r * x
            return wrap(r) if b else 1
        raise Unsupported("power %s" % b)
    if isreal(a) or isreal(b):
        raise Unsupported("power of reals")
    if not CTX.branch(b.v >= 0):
        raise Unsupported("negative power")
    for s in CTX.__dict__.get("pyseqs", []):
        if s.kind == "mul" and smt.eq(lift(num(a)), lift(s.step)) is True:
            p = CTX.fresh("power", report=False)
            CTX.assume(s.term(b.v) == lift(s.first) * p)
            CTX.assume(p >= 1)
            return wrap(p)
    raise Unsupported("symbolic power")


def root(a, n):
    """The real n-th root of a number that is not negative"""
    x = real(num(a))
    if not CTX.branch(x >= 0):
        raise Unsupported("root of a negative number")
    memo = CTX.__dict__.setdefault("pyroot", {})
    if (x.get_id(), n) not in memo:
        r = CTX.fresh("root", "real", report=False)
        p = r
        for _ in builtins.range(n - 1):
            p = p * r
        CTX.assume(And(r >= 0, p == x))
        memo[x.get_id(), n] = (r, x)
    return wrap(memo[x.get_id(), n][0])


def swap(f):
    return lambda a, b: f(b, a)


class N:
    """A symbolic number"""

    def __init__(self, v):
        self.v = v

    __add__ = arith(lambda a, b: a + b)
    __radd__ = swap(__add__)
    __sub__ = arith(lambda a, b: a - b)
    __rsub__ = swap(__sub__)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("repetition a symbolic number of times")
        return arith(lambda a, b: a * b)(self, o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return wrap(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.v >= 0, self.v, -self.v))

    def __floordiv__(self, o):
        return wrap(divmod_(self, o)[0])

    def __rfloordiv__(self, o):
        return wrap(divmod_(o, self)[0])

    def __mod__(self, o):
        return wrap(divmod_(self, o)[1])

    def __rmod__(self, o):
        return wrap(divmod_(o, self)[1])

    def __divmod__(self, o):
        return builtins.tuple(wrap(x) for x in divmod_(self, o))

    __truediv__ = truediv
    __rtruediv__ = swap(truediv)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    __lt__ = cmp(lambda a, b: a < b)
    __le__ = cmp(lambda a, b: a <= b)
    __gt__ = cmp(lambda a, b: a > b)
    __ge__ = cmp(lambda a, b: a >= b)
    __eq__ = cmp(lambda a, b: a == b)
    __ne__ = cmp(lambda a, b: a != b)
    __hash__ = None

    def __bool__(self):
        return CTX.branch(self.v != 0)

    def __index__(self):
        raise Unsupported("a symbolic number where Python needs a concrete one")

    __int__ = __float__ = __index__

    def __round__(self, digits=None):
        if digits is not None:
            raise Unsupported("round to digits")
        return round_(self)


def floor(x):
    if not isinstance(x, N):
        return real_math.floor(x)
    return wrap(z3.ToInt(x.v)) if isreal(x) else x


def int_(x=0, *a):
    if isinstance(x, B):
        return wrap(z3.If(x.v, 1, 0))
    if not isinstance(x, N):
        return builtins.int(x, *a)
    return wrap(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v))) if isreal(x) else x


def float_(x=0.0):
    if not isinstance(x, N):
        return builtins.float(x)
    return wrap(real(x.v))


def round_(x, *a):
    if not isinstance(x, N) or a:
        return builtins.round(x, *a)
    if not isreal(x):
        return x
    n = CTX.fresh("rounded", report=False)
    CTX.assume(And(2 * (real(n) - x.v) <= 1, 2 * (x.v - real(n)) <= 1))
    return wrap(n)


class Seq:
    """The sequence that starts with `first` and goes on by multiplication with, or addition of, `step`"""

    def __init__(self, kind, first, step, name="S"):
        self.kind, self.first, self.step = kind, val(first), val(step)
        self.f = z3.Function(CTX.name(name), z3.IntSort(), z3.IntSort())
        self.terms = []
        CTX.__dict__.setdefault("pyseqs", []).append(self)
        a, b = lift(self.first), lift(self.step)
        # the laws of the sequence, each by induction from the next element
        x, y, k = z3.Int("elem"), z3.Int("elem2"), z3.Int("k")
        nxt = x * b if kind == "mul" else x + b
        if MODE == "prove":
            CTX.prove("lemma: the sequence grows by one or more at each step",
                      Implies(And(a >= 1, b >= (2 if kind == "mul" else 1), x >= a + k, k >= 0), And(nxt > x, nxt >= a + k + 1)))
        self.ok = And(a >= 1, b >= (2 if kind == "mul" else 1))
        self.term(0)

    def next(self, v):
        b = lift(self.step)
        return v * b if self.kind == "mul" else v + b

    def term(self, t, deep=True):
        t = lift(simp(lift(val(t))))
        f = self.f
        if any(z3.eq(t, u) for u in self.terms):
            return f(t) if not z3.eq(t, z3.IntVal(0)) else lift(self.first)
        laws = [z3.Implies(t == 0, f(t) == lift(self.first)),
                z3.Implies(z3.And(self.ok, t >= 0), z3.And(f(t) >= lift(self.first) + t, f(lift(simp(t + 1))) == self.next(f(t))))]
        if self.kind == "inc":
            laws.append(z3.Implies(t >= 0, f(t) == lift(self.first) + t * lift(self.step)))
        for u in self.terms:
            laws += [z3.Implies(z3.And(self.ok, 0 <= t, t < u), f(t) < f(u)), z3.Implies(z3.And(self.ok, 0 <= u, u < t), f(u) < f(t))]
        CTX.pc.append(z3.And(*laws))
        CTX.solver.add(CTX.pc[-1])
        self.terms.append(t)
        if deep:
            self.term(t + 1, False)
            self.term(t - 1, False)
        return f(t) if not z3.eq(t, z3.IntVal(0)) else lift(self.first)


class Many:
    """A sequence of symbolic length: an element for every index"""

    def __init__(self, n, at):
        self.n, self.get = n, at
        self.memo = []

    def at(self, k):
        k = wrap(val(k)) if isinstance(k, (N, z3.ExprRef)) else k
        key = lift(num(k))
        for x, v in self.memo:
            if z3.eq(x, key):
                return v
        v = self.get(k)
        self.memo.append((key, v))
        return v

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a sequence of symbolic length")
        n = self.n
        if CTX.branch(lift(num(i)) < 0):
            i = i + n
        if not CTX.branch(And(0 <= lift(num(i)), lift(num(i)) < lift(num(n)))):
            raise IndexError()
        return self.at(i)

    def __len__(self):
        raise Unsupported("length of a symbolic sequence")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence")

    def append(self, v):
        n, old = self.n, self.get
        memo = list(self.memo)
        x = lift(num(v))

        def get(k):
            o = old(k)
            return wrap(z3.If(lift(num(k)) == lift(num(n)), x, lift(num(o))))

        self.n, self.get, self.memo = n + 1, get, []

    def __bool__(self):
        return bool(self.n > 0)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic sequences")


class Range(Many):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        a, b, s = (lift(num(x)) for x in (start, stop, step))
        if CTX.branch(s == 0):
            raise ValueError()
        n = CTX.fresh("range_length", report=False)
        if CTX.branch(s > 0):
            CTX.assume(z3.If(a < b, And(a + (n - 1) * s < b, b <= a + n * s), n == 0))
        else:
            CTX.assume(z3.If(a > b, And(a + (n - 1) * s > b, b >= a + n * s), n == 0))
        CTX.assume(n >= 0)
        Many.__init__(self, wrap(n), lambda k: start + k * step)

    def __contains__(self, x):
        a, b, s, v = (lift(num(y)) for y in (self.start, self.stop, self.step, x))
        if z3.is_int_value(s) and abs(s.as_long()) == 1:
            return CTX.branch(And(a <= v, v < b) if s.as_long() == 1 else And(a >= v, v > b))
        raise Unsupported("membership of a range with steps")


def range_(*a):
    if not any(isinstance(x, N) for x in a):
        return builtins.range(*a)
    a = list(a)
    if len(a) == 1:
        a = [0] + a
    if len(a) == 2:
        a = a + [1]
    if any(isreal(x) for x in a):
        raise TypeError("a float is not a number of a range")
    return Range(*a)


def len_(x):
    return x.n if isinstance(x, Many) else builtins.len(x)


def minimum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = wrap(z3.If(lift(num(x)) < lift(num(r)), lift(num(x)), lift(num(r))))
    return r


def maximum(xs):
    r = xs[0]
    for x in xs[1:]:
        a, b = lift(num(x)), lift(num(r))
        if isreal(x) or isreal(r):
            a, b = real(a), real(b)
        r = wrap(z3.If(a > b, a, b))
    return r


def min_(*a, **k):
    xs = builtins.list(a[0]) if len(a) == 1 else builtins.list(a)
    if k or not any(isinstance(x, N) for x in xs):
        return builtins.min(*a, **k)
    return minimum(xs)


def max_(*a, **k):
    xs = builtins.list(a[0]) if len(a) == 1 else builtins.list(a)
    if k or not any(isinstance(x, N) for x in xs):
        return builtins.max(*a, **k)
    return maximum(xs)


def zip_(*xs, **k):
    if not any(isinstance(x, Many) for x in xs) or k:
        return builtins.zip(*xs, **k)
    return Many(minimum([len_(x) for x in xs]), lambda i: builtins.tuple(x.at(i) if isinstance(x, Many) else x[i] for x in xs))


def all_(xs):
    if isinstance(xs, Many):
        raise Unsupported("all of a symbolic sequence")
    xs = builtins.list(xs)
    if any(not isinstance(x, (B, bool)) for x in xs):
        return builtins.all(xs)
    return wrap(And(*[val(x) for x in xs]))


def any_(xs):
    if isinstance(xs, Many):
        raise Unsupported("any of a symbolic sequence")
    xs = builtins.list(xs)
    if any(not isinstance(x, (B, bool)) for x in xs):
        return builtins.any(xs)
    return wrap(Or(*[val(x) for x in xs]))


def isinstance_(x, t):
    if isinstance(x, N):
        ts = t if isinstance(t, tuple) else (t,)
        ts = [{int_: int, float_: float, list_: list, tuple_: tuple}.get(y, y) for y in ts]
        return (float if isreal(x) else int) in ts
    if isinstance(t, tuple):
        t = tuple(BACK.get(y, y) for y in t)
    else:
        t = BACK.get(t, t)
    return builtins.isinstance(x, t)


def list_(x=()):
    return Many(x.n, x.get) if isinstance(x, Many) else builtins.list(x)


def tuple_(x=()):
    return Many(x.n, x.get) if isinstance(x, Many) else builtins.tuple(x)


def prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


BACK = {int_: int, float_: float, list_: list, tuple_: tuple}
del_ = None


class Math:
    floor = staticmethod(floor)
    pow = staticmethod(lambda a, b: power(a, b) if isinstance(a, N) or isinstance(b, N) else real_math.pow(a, b))
    sqrt = staticmethod(lambda a: root(a, 2) if isinstance(a, N) else real_math.sqrt(a))
    prod = staticmethod(lambda xs, start=1: reduce_(lambda a, b: a * b, xs) if not isinstance(xs, Many) and start == 1 and len(builtins.list(xs)) > 1 else prod(xs, start))

    @staticmethod
    def ceil(x):
        return -floor(-x)

    def __getattr__(self, n):
        raise Unsupported("math." + n)


class Missing:
    def __init__(self, n):
        self.__dict__["n"] = n

    def __getattr__(self, a):
        raise Unsupported("import %s" % self.n)

    def __call__(self, *a, **k):
        raise Unsupported("import %s" % self.n)


def reduce_(f, xs, *start):
    """A product of symbolic numbers is a number by itself: how it follows from them is not needed, except where the
    specification says so"""
    if isinstance(xs, Many):
        raise Unsupported("reduce of a symbolic sequence")
    xs = builtins.list(xs)
    r = functools.reduce(f, xs, *start)
    if not start and len(xs) > 1 and isinstance(r, N) and not isreal(r):
        p = lift(num(xs[0]))
        for x in xs[1:]:
            p = p * lift(num(x))
        if z3.eq(lift(simp(p)), r.v):
            return product(xs)
    return r


def product(xs):
    if len(xs) == 1:
        return xs[0]
    memo = CTX.__dict__.setdefault("pyproducts", [])
    vs = [lift(num(x)) for x in xs]
    for ws, p, _ in memo:
        if len(ws) == len(vs) and all(z3.eq(a, b) for a, b in zip(vs, ws)):
            return p
    p = N(CTX.fresh("product", report=False))
    memo.append((vs, p, xs))
    if len(vs) in POSITIVE:
        CTX.theorem("products of %d positive numbers are positive" % len(vs), POSITIVE[len(vs)], BARE[len(vs)](*vs, p.v))
    if getattr(CTX, "on_product", None):
        CTX.on_product(xs, p)
    return p


POSITIVE = {2: lambda a, b, p: (z3.And(a >= 1, b >= 1, p == a * b), p >= 1),
            3: lambda a, b, c, p: (z3.And(a >= 1, b >= 1, c >= 1, p == a * b * c), p >= 1)}
BARE = {2: lambda a, b, p: z3.Implies(z3.And(a >= 1, b >= 1), p >= 1), 3: lambda a, b, c, p: z3.Implies(z3.And(a >= 1, b >= 1, c >= 1), p >= 1)}


def reveal():
    """What the products are"""
    for vs, p, _ in CTX.__dict__.get("pyproducts", []):
        q = vs[0]
        for x in vs[1:]:
            q = q * x
        CTX.assume(p.v == q)


class Functools:
    reduce = staticmethod(reduce_)
    partial = staticmethod(functools.partial)


class Operator:
    mul = staticmethod(lambda a, b: a * b)
    add = staticmethod(lambda a, b: a + b)


STUBS = {"math": Math(), "functools": Functools(), "operator": Operator()}


def comp(fn, it, conds):
    if not isinstance(it, Many):
        return [fn(x) for x in it if all(c(x) for c in conds)]
    if conds:
        raise Unsupported("a filter on a symbolic sequence")
    r = Many(it.n, lambda k: fn(it.at(k)))
    k = CTX.fresh("index", lo=0, report=False)
    if CTX.branch(k < lift(num(it.n))):
        r.at(k)  # whatever an arbitrary element does
    return r


# -- loops ---------------------------------------------------------------

MONOMIALS = {}
FLAT = {}


def flat(f):
    """The formula with each product of symbolic numbers as a number by itself"""
    if not isinstance(f, z3.ExprRef):
        return f
    return abstract(z3.simplify(f, som=True))


def abstract(t):
    k = t.get_id()
    if k in FLAT:
        return FLAT[k][0]
    if z3.is_app(t) and t.num_args():
        kind = t.decl().kind()
        if kind == z3.Z3_OP_MUL:
            cs = [c for c in t.children() if z3.is_int_value(c) or z3.is_rational_value(c)]
            xs = sorted((abstract(c) for c in t.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))), key=lambda c: c.get_id())
            if len(xs) > 1:
                key = tuple(x.get_id() for x in xs)
                if key not in MONOMIALS:
                    MONOMIALS[key] = (z3.Const("monomial!%d" % len(MONOMIALS), t.sort()), xs)
                r = MONOMIALS[key][0]
                for c in cs:
                    r = c * r
            else:
                r = t.decl()(*[abstract(c) for c in t.children()])
        else:
            r = t.decl()(*[abstract(c) for c in t.children()])
    else:
        r = t
    FLAT[k] = (r, t)
    return r


class Solver:
    """A solver, and one to which products of symbolic numbers are just numbers"""

    def __init__(self, full):
        self.full, self.linear = full, z3.Solver()
        for f in full.assertions():
            self.linear.add(flat(f))

    def add(self, *fs):
        self.full.add(*fs)
        self.linear.add(*[flat(f) for f in fs])

    def check(self, *fs):
        return self.full.check(*fs)

    def model(self):
        return self.full.model()

    def set(self, *a):
        self.full.set(*a)


def quick(f, ms=1500):
    CTX.hurry = ms
    g = z3.Not(lift(simp(f)))
    CTX.nl[g.get_id()] = g
    try:
        return CTX.entails(f)
    finally:
        CTX.hurry = False


class Loop:
    def __init__(self, site, loc, names, lists):
        self.site = site
        self.names = [n for n in names if n in loc]
        self.lists = [n for n in lists if n in loc and isinstance(loc[n], (list, Many))]
        self.entry = {n: loc[n] for n in self.names}
        self.loc = dict(loc)
        for n in self.names:
            if not isinstance(loc[n], (int, N)) or isinstance(loc[n], bool):
                raise Unsupported("a loop changes %s" % n)
        for n in self.lists:
            if isinstance(loc[n], list) and not all(isinstance(x, (int, N)) for x in loc[n]):
                raise Unsupported("a loop changes %s" % n)
        self.entry_len = {n: len_(loc[n]) for n in self.lists}
        CTX.pyloop = True
        self.seqs = SEQS(loc) if SEQS else []
        self.hold(loc, "holds on entry")
        new = {}
        for n in self.names:
            new[n] = N(CTX.fresh(n, "real" if isreal(loc[n]) else "int"))
        for n in self.lists:
            f = z3.Function(CTX.name(n), z3.IntSort(), z3.IntSort())
            k = None
            for v in self.names:  # a variable that counts the elements
                if MODE == "prove" and not isreal(loc[v]) and v < "len(%s)" % n and (site, "%s - len(%s) as on entry" % (v, n)) not in DROPPED:
                    k = lift(simp(new[v].v - (lift(num(self.entry[v])) - lift(num(self.entry_len[n])))))
                    CTX.assume(k >= 0)
                    break
            if k is None:
                k = CTX.fresh("len_" + n, lo=0)
            elem = [c for c in self.elements(n) if (site, c[0]) not in DROPPED]

            def get(i, f=f, elem=elem, k=k):
                i = lift(simp(lift(num(i))))
                for _, law in elem[:1]:
                    if quick(And(0 <= i, i < k)):
                        return wrap(law(i))
                for _, law in elem:
                    CTX.assume(Implies(And(0 <= i, i < k), f(i) == law(i)))
                return N(f(i))

            old = loc[n]
            if isinstance(old, list):
                old[:] = []
            new[n] = Many(wrap(k), get)
        self.new = new
        for c, f in self.candidates(new):
            if (site, c) not in DROPPED:
                CTX.assume(f() if callable(f) else f)
        self.before = dict(self.measures(new))

    def numbers(self, st):
        out = {n: lift(num(st[n])) for n in self.names if not isreal(st[n])}
        out.update({"len(%s)" % n: lift(num(len_(st[n]))) for n in self.lists})
        return out

    def entries(self):
        out = {n: lift(num(self.entry[n])) for n in self.names if not isreal(self.entry[n])}
        out.update({"len(%s)" % n: lift(num(self.entry_len[n])) for n in self.lists})
        return out

    def bounds(self):
        out = {}
        for n, v in self.loc.items():
            if n not in self.names and isinstance(v, (int, N)) and not isinstance(v, bool) and not isreal(v) and not n.startswith("__"):
                out[n] = lift(num(v))
        s = self.loc.get("self")
        for n, v in (s.__dict__.items() if s is not None else ()):
            if isinstance(v, (int, N)) and not isinstance(v, bool) and not isreal(v):
                out["self." + n] = lift(num(v))
        return out

    def elements(self, n):
        return [("%s[k] = %s(k%s)" % (n, s.f.name().split("!")[0], "+%d" % d if d else ""), lambda i, s=s, d=d: s.term(i + d))
                for s in self.seqs for d in (0, 1)]

    def candidates(self, st):
        now, ent, bnd = self.numbers(st), self.entries(), self.bounds()
        out = []
        for v, x in now.items():
            for c in (-1, 0, 1):
                out.append(("%s >= %d" % (v, c), x >= c))
            out.append(("%s >= entry" % v, x >= ent[v]))
            out.append(("%s <= entry" % v, x <= ent[v]))
            for b, y in bnd.items():
                out.append(("%s <= %s" % (v, b), x <= y))
                out.append(("%s < %s" % (v, b), x < y))
            for s in self.seqs:
                for b, y in bnd.items():
                    out.append(("S(%s - 1) <= %s" % (v, b), (lambda x=x, y=y, s=s: Implies(x >= 1, s.term(x - 1) <= y))))
            for w, y in now.items():
                if w != v:
                    if w > v:
                        out.append(("%s - %s as on entry" % (v, w), x - y == ent[v] - ent[w]))
                        out.append(("%s + %s as on entry" % (v, w), x + y == ent[v] + ent[w]))
                    for s in self.seqs:
                        for what, t in (("w", y), ("w - 1", y - 1), ("w + 1", y + 1), ("w - entry", y - ent[w]), ("entry - w", ent[w] - y)):
                            out.append(("%s = S(%s) of %s" % (v, what, w), (lambda x=x, s=s, t=t: And(t >= 0, x == s.term(t)))))
        if EXTRA:
            out += EXTRA(self.site, {n: lift(num(st[n])) for n in self.names}, self.loc)
        return out

    def hold(self, st, when):
        todo = [(c, f) for c, f in self.candidates(st)]
        for n in self.lists:
            for c, law in self.elements(n):
                k = CTX.fresh("k", lo=0, report=False)
                seq = st[n]
                if (self.site, c) in DROPPED:
                    continue
                if isinstance(seq, list):
                    f = And(*[lift(num(x)) == law(z3.IntVal(i)) for i, x in enumerate(seq)])
                else:
                    f = Implies(k < lift(num(len_(seq))), lift(num(seq.at(N(k)))) == law(k))
                todo.append((c, f))
        for c, f in todo:
            if (self.site, c) in DROPPED:
                continue
            f = f() if callable(f) else f
            if MODE == "infer":
                if not quick(f):
                    DROPPED.add((self.site, c))
            else:
                CTX.prove("loop invariant %s (%s) %s" % (c, self.site, when), f)

    def measures(self, st):
        now, bnd = self.numbers(st), self.bounds()
        out = [("%s" % v, x) for v, x in now.items()] + [("%s - %s" % (b, v), y - x) for v, x in now.items() for b, y in bnd.items()]
        return out

    def end(self, loc):
        self.hold(loc, "is preserved")
        before = self.before
        left = []
        for n, m in self.measures(loc):
            if (self.site, "variant " + n) in DROPPED:
                continue
            f = And(before[n] >= 0, m < before[n])
            if MODE == "infer":
                if not quick(f, 3000):
                    DROPPED.add((self.site, "variant " + n))
                else:
                    left.append(n)
            else:
                left.append(n)
                if len(left) == 1:
                    CTX.prove("loop variant %s (%s) decreases" % (n, self.site), f)
        if MODE == "prove" and not left:
            raise Unsupported("no variant found: %s" % self.site)
        raise Stop()


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.where = []
        self.n = 0
        self.loops = 0

    def scope(self, node):
        self.where.append(node.name)
        outer, self.loops = self.loops, 0
        self.generic_visit(node)
        if isinstance(node, ast.FunctionDef):
            call = ast.parse("vp_enter(%r)" % ".".join(self.where)).body
            node.body = call + node.body
        self.loops = outer
        self.where.pop()
        return node

    visit_FunctionDef = visit_ClassDef = scope

    def visit_Import(self, node):
        out = []
        for a in node.names:
            out += ast.parse("%s = vp_import(%r)" % (a.asname or a.name.split(".")[0], a.name)).body
        return out

    def visit_ImportFrom(self, node):
        out = []
        for a in node.names:
            m = "." * node.level + (node.module or "")
            out += ast.parse("%s = vp_import(%r, %r)" % (a.asname or a.name, m, a.name)).body
        return out

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            args = g.target.id
            fn = lambda e: ast.Lambda(args=ast.parse("lambda %s: 0" % args).body[0].value.args, body=e)  # noqa: E731
        else:
            return node
        return ast.Call(func=ast.Name(id="vp_comp", ctx=ast.Load()),
                        args=[fn(node.elt), g.iter, ast.List(elts=[fn(c) for c in g.ifs], ctx=ast.Load())], keywords=[])

    visit_GeneratorExp = visit_ListComp

    def cut(self, node, test, body):
        self.n += 1
        me = "_loop_%d" % self.n
        site = "%s, loop %d" % (".".join(self.where), self.loops)
        self.loops += 1
        names, lists = [], []
        for b in list(body) + [test]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names:
                    names.append(x.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                        x.func.attr in ("append", "extend", "insert", "pop", "clear", "sort", "reverse", "remove") and x.func.value.id not in lists:
                    lists.append(x.func.value.id)
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    return None
        lists = [n for n in lists if n not in names]

        class Cont(ast.NodeTransformer):
            def visit_While(s, n):
                return n

            visit_For = visit_FunctionDef = visit_Lambda = visit_While

            def visit_Continue(s, n):
                return ast.parse("%s.end(locals())" % me).body[0]

        body = [Cont().visit(b) for b in body]
        known = "[n for n in %r if n in locals()]" % (names + lists)
        pre = ast.parse("%s = vp_loop(%r, locals(), %r, %r)" % (me, site, names, lists)).body
        out = pre
        # only the names bound before the loop have a value to go on with
        for n in names + lists:
            out += ast.parse("if %r in %s.new: %s = %s.new[%r]" % (n, me, n, me, n)).body
        loop = ast.parse("while True:\n    if not (0): break\n").body[0]
        loop.body[0].test.operand = test
        loop.body += body + ast.parse("%s.end(locals())" % me).body
        return out + [loop]

    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        r = self.cut(node, node.test, node.body)
        return r if r is not None else node

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        self.n += 1
        it, k = "_it_%d" % self.n, "_k_%d" % self.n
        test = ast.parse("%s < len(%s)" % (k, it)).body[0].value
        import copy

        body = [ast.Assign(targets=[copy.deepcopy(node.target)], value=ast.parse("%s.at(%s)" % (it, k)).body[0].value)]
        body += ast.parse("%s += 1" % k).body + copy.deepcopy(node.body)
        r = self.cut(node, test, body)
        if r is None:
            return node
        head = ast.parse("%s = 0\n%s = 0" % (it, k)).body
        head[0].value = node.iter
        node.iter = ast.Name(id=it, ctx=ast.Load())
        choice = ast.parse("if vp_symbolic(%s): pass\nelse: pass" % it).body[0]
        choice.body, choice.orelse = r, [node]
        return head + [choice]


def entered(path):
    def f(name):
        if CTX is not None:
            CTX.rec.functions["%s:%s" % (path, name)] = "%s: %s" % (os.path.basename(path), name)
    return f


class Module:
    """The functions of a Python file, to be run on symbolic numbers"""

    def __init__(self, path, only=None, stubs=None):
        self.path = path
        self.only = only
        self.stubs = dict(STUBS, **(stubs or {}))
        tree = ast.parse(open(path).read())
        if only is not None:
            tree.body = [x for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom)) or getattr(x, "name", None) in only]
        tree = ast.fix_missing_locations(Transform().visit(tree))
        self.code = compile(tree, path, "exec")

    def load(self):
        """A fresh namespace with the module executed in it"""

        def imp(m, name=None):
            if name is None:
                return self.stubs.get(m, Missing(m))
            if m in self.stubs:
                return getattr(self.stubs[m], name)
            if m == "." and name in self.stubs:
                return self.stubs[name]
            return Missing("%s.%s" % (m, name))

        ns = {"__name__": "verified", "vp_enter": entered(self.path), "vp_import": imp, "vp_comp": comp, "vp_loop": Loop,
              "vp_symbolic": lambda x: isinstance(x, Many), "range": range_, "len": len_, "int": int_, "float": float_, "round": round_,
              "all": all_, "any": any_, "zip": zip_, "max": max_, "min": min_, "isinstance": isinstance_, "list": list_,
              "tuple": tuple_, "sum": lambda xs, s=0: functools.reduce(lambda a, b: a + b, xs, s)}
        exec(self.code, ns)
        return ns


INFERRED = {}


def proof(name, run, seqs=None, extra=None):
    """run(ctx) with the loop invariants found for it"""

    def start(ctx, mode):
        global CTX, MODE, SEQS, EXTRA
        check, feasible = ctx.check, ctx.feasible
        ctx.hurry = False
        ctx.nl = {}
        ctx.solver = Solver(ctx.solver)

        def two(*fs):
            """Products of symbolic numbers as numbers by themselves at first, which often suffices"""
            s = ctx.solver
            s.linear.set("timeout", 300 if ctx.hurry else 5000)
            r = s.linear.check(*[flat(f) for f in fs])
            if r == z3.unsat or ctx.hurry and mode == "infer" and not fs[0].get_id() in ctx.nl:
                return r
            if ctx.hurry:
                s.set("timeout", max(300, int(ctx.hurry)))
            else:
                s.set("timeout", 20000)
            r = check(*fs)
            s.set("timeout", 20000)
            return r

        def soon(f):
            was, ctx.hurry = ctx.hurry, True
            try:
                return feasible(f)
            finally:
                ctx.hurry = was

        def cover(name):
            was, ctx.hurry = ctx.hurry, True
            try:
                if mode == "prove":
                    type(ctx).cover(ctx, name)
            finally:
                ctx.hurry = was

        ctx.check, ctx.feasible, ctx.cover = two, soon, cover
        CTX, MODE, SEQS, EXTRA = ctx, mode, seqs, extra

    def fn(ctx, P):
        global DROPPED
        if name not in INFERRED:
            DROPPED = set()
            fork, smt.FORK = smt.FORK, False
            try:
                while True:
                    n = len(DROPPED)

                    def infer(c):
                        start(c, "infer")
                        c.quiet = 1
                        run(c)

                    r = smt.explore(infer, smt.Record(), max_s=120)
                    if len(DROPPED) == n:
                        break
            finally:
                smt.FORK = fork
            INFERRED[name] = DROPPED
        DROPPED = INFERRED[name]
        start(ctx, "prove")
        fail = ctx.fail

        def weak(what, f, model, info, r):
            # past a loop, what fails may be due to an invariant that is too weak: the replay decides
            if getattr(ctx, "pyloop", False):
                ctx.rec.undecided.append((what, "fails past a loop"))
            else:
                fail(what, f, model, info, r)

        ctx.fail = weak
        run(ctx)
    return fn
