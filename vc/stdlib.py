"""Models of the C++ standard library (and Boost) facilities the code uses."""
from fractions import Fraction

import z3

from .prog import strip_targs
from .smt import (And, If, Implies, Infeasible, Not, Or, Unsupported, concrete, eq, is_sym, lift, simp)

INTR = {}


def intr(*names):
    def deco(f):
        for n in names:
            INTR[n] = f
        return f

    return deco


from .interp import (UNDEF, Cell, Closure, CppThrow, CStr, ElemRef, FieldRef, FnRef, Intrinsic, Obj, Ptr, Ref,
                     RefHolder)


class FV:
    """Floating point value that may be NaN: (isnan, real)"""

    def __init__(self, nan, v):
        self.nan = nan
        self.v = v


def to_float(E, v):
    if isinstance(v, bool):
        v = int(v)
    if concrete(v):
        return Fraction(v)
    if v.sort() == z3.BoolSort():
        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return simp_real(z3.ToReal(v))


def simp_real(v):
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def to_int(E, v, t):
    """Truncation toward zero"""
    if isinstance(v, FV):
        v = v.v
    if concrete(v):
        f = Fraction(v)
        q = abs(f.numerator) // f.denominator
        return E.wrap(q if f >= 0 else -q, t)
    E.ctx.rec.assumptions.add("floating point arithmetic treated as real arithmetic")
    return E.wrap(simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))), t)


def float_arith(E, op, a, b):
    E.ctx.rec.assumptions.add("floating point arithmetic treated as real arithmetic")
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        a, b = Fraction(a), Fraction(b)
        if op == "/":
            if b == 0:
                raise Unsupported("floating point division by zero")
            return a / b
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    if isinstance(a, FV) or isinstance(b, FV):
        raise Unsupported("arithmetic on values that may be NaN")

    def r(x):
        x = lift(Fraction(x)) if isinstance(x, (int, Fraction)) else x
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    a, b = r(a), r(b)
    if op == "/":
        if not E.ctx.entails(b != 0):
            E.ctx.prove("no floating point division by zero", b != 0)
            E.ctx.assume(b != 0)
        return simp_real(a / b)
    return simp_real({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]())


def float_compare(E, op, a, b):
    def parts(x):
        if isinstance(x, FV):
            return x.nan, lift(x.v)
        return False, lift(Fraction(x)) if isinstance(x, (int, Fraction)) else x

    na, va = parts(a)
    nb, vb = parts(b)
    ok = And(Not(na), Not(nb))
    c = {"==": lambda: va == vb, "<": lambda: va < vb, "<=": lambda: va <= vb, ">": lambda: va > vb,
         ">=": lambda: va >= vb}[op]()
    return simp(And(ok, c))


class StrLit(Intrinsic):
    def __init__(self, v):
        self.v = v

    def get_at(self, i):
        s = self.v + "\0"
        return ord(s[i])

    @property
    def size(self):
        return len(self.v) + 1


class Exc(Intrinsic):
    def __init__(self, tname, msg=None):
        self.tname = tname
        self.msg = msg

    def copy(self, E):
        return Exc(self.tname, self.msg)


class TypeId(Intrinsic):
    def __init__(self, n):
        self.n = n


class Opaque(Intrinsic):
    """A library object whose contents do not matter"""

    def __init__(self, q):
        self.q = q

    def copy(self, E):
        return Opaque(self.q)

    def assign(self, E, o, move=False):
        pass


class Seq(Intrinsic):
    log = None  # writes, recorded while a loop is summarised
    """items: list of values (raw scalars or objects); or n + fn for a symbolic length"""

    def __init__(self, items=None, et=None, n=None, fn=None):
        self.items = items
        self.et = et
        self.n = n
        self.fn = fn

    @property
    def size(self):
        return len(self.items) if self.items is not None else self.n

    def get_at(self, i):
        if self.items is not None:
            if concrete(i):
                return self.items[i]
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = If(simp(i == k), self.items[k], r)
            return r
        return self.fn(i)

    def set_at(self, i, v):
        if hasattr(self, "encoded"):
            del self.encoded
        if Seq.log is not None:
            Seq.log.append((self, i, v))
        if self.items is not None:
            if concrete(i):
                self.items[i] = v
            else:
                for k in range(len(self.items)):
                    self.items[k] = If(simp(i == k), v, self.items[k])
            return
        old = self.fn
        self.fn = lambda j: If(eq(j, i), v, old(j))

    def clone_items(self, E):
        n = type(self).__new__(type(self))
        Seq.__init__(n, None, self.et)
        if self.items is not None:
            n.items = [E.copy_value(x) for x in self.items]
        else:
            n.n, n.fn = self.n, self.fn
        if hasattr(self, "encoded"):
            n.encoded = self.encoded
        return n

    def copy(self, E):
        return self.clone_items(E)

    def move(self, E):
        n = type(self).__new__(type(self))
        Seq.__init__(n, self.items, self.et, self.n, self.fn)
        if hasattr(self, "encoded"):
            n.encoded = self.encoded
        if isinstance(self, Vec):
            self.items, self.n, self.fn = [], None, None
        return n

    def destroy(self, E):
        if self.items is not None:
            for x in self.items:
                if isinstance(x, (Obj, Intrinsic)):
                    E.destroy(x)

    def assign(self, E, o, move=False):
        if o is self:
            return
        old = self.items or []
        c = o.move(E) if move else o.copy(E)
        self.items, self.n, self.fn = c.items, c.n, c.fn
        for x in old:
            if isinstance(x, (Obj, Intrinsic)):
                E.destroy(x)

    def __repr__(self):
        if self.items is not None:
            return "%s%r" % (type(self).__name__, self.items)
        return "%s(n=%s)" % (type(self).__name__, self.n)


class Vec(Seq):
    pass


class CArr(Seq):
    pass


class Arr(Seq):
    pass


class Buf(Seq):
    """Heap buffer of a symbolic or concrete number of elements"""

    def __init__(self, n, et):
        Seq.__init__(self, None, et, n, lambda i: UNDEF)


class InitList(Seq):
    def __init__(self, items, et=None):
        if isinstance(items, Seq):
            items = items.items
        Seq.__init__(self, items, et)

    def copy(self, E):
        return self


class It(Intrinsic):
    """Random access iterator"""

    def __init__(self, seq, i, rev=False):
        self.seq = seq
        self.i = i

    def copy(self, E):
        return It(self.seq, self.i)

    def assign(self, E, o, move=False):
        self.seq, self.i = o.seq, o.i

    def deref(self, E):
        return elem(E, self.seq, self.i)


class Str(Intrinsic):
    def __init__(self, v):
        self.v = v

    def copy(self, E):
        return Str(self.v)

    def move(self, E):
        return Str(self.v)

    def assign(self, E, o, move=False):
        self.v = strval(E, o)

    def get_at(self, i):
        if concrete(self.v) and concrete(i):
            return ord(self.v[i]) if i < len(self.v) else 0
        return z3.StrToCode(z3.SubString(lift(self.v), lift(i), 1))

    def set_at(self, i, c):
        if concrete(self.v) and concrete(i) and concrete(c):
            self.v = self.v[:i] + chr(c) + self.v[i + 1:]
        else:
            raise Unsupported("character assignment")

    @property
    def size(self):
        return len(self.v) if concrete(self.v) else z3.Length(self.v)

    def __repr__(self):
        return "Str(%r)" % (self.v,)


def strval(E, x):
    if isinstance(x, Ref):
        x = E.val(x)
    if isinstance(x, (Str, CStr, StrLit)):
        return x.v
    if isinstance(x, (str, z3.ExprRef)):
        return x
    if isinstance(x, Ptr) and isinstance(x.t, Str):
        return x.t.v
    if isinstance(x, Ptr) and isinstance(x.t, StrLit):
        return x.t.v
    if isinstance(x, Path):
        return x.v
    if x is None:
        E.ctx.prove("no string from null pointer", False)
        raise Infeasible()
    if isinstance(x, Ptr) and isinstance(x.t, Seq) and x.t.items is not None and x.i == 0:
        if getattr(x.t, "freed", False):
            E.ctx.prove("no string from memory released", False, at=E.where())
            raise Infeasible()
        out = ""
        for c in x.t.items:
            if not concrete(c):
                raise Unsupported("symbolic characters")
            if c == 0:
                return out
            out += chr(c)
    raise Unsupported("string from %r" % (x,))


def concat(a, b):
    if concrete(a) and concrete(b):
        return a + b
    return simp(z3.Concat(lift(a), lift(b)))


class Tup(Intrinsic):
    def __init__(self, items):
        self.items = items

    def copy(self, E):
        return Tup([E.copy_value(x) for x in self.items])

    def move(self, E):
        return Tup([E.move_value(x) for x in self.items])

    def destroy(self, E):
        for x in self.items:
            if isinstance(x, (Obj, Intrinsic)):
                E.destroy(x)

    def assign(self, E, o, move=False):
        if o is self:
            return
        for i, x in enumerate(o.items):
            d = self.items[i]
            if isinstance(d, RefHolder):
                lv = d.lv
                if isinstance(lv, Ref):
                    lv.set(E.val(x if not isinstance(x, RefHolder) else x.lv))
                else:
                    assign(E, lv, x, move)
            elif isinstance(d, (Obj, Intrinsic)):
                assign(E, d, x, move)
            else:
                self.items[i] = E.val(x)

    def field(self, E, name):
        i = {"first": 0, "second": 1}[name]
        return self.at(i)

    def at(self, i):
        v = self.items[i]
        if isinstance(v, RefHolder):
            return v.lv
        if isinstance(v, (Obj, Intrinsic)):
            return v
        return ListRef(self.items, i)


class ListRef(Ref):
    __slots__ = ("l", "i")

    def __init__(self, l, i):
        self.l = l
        self.i = i

    def get(self):
        return self.l[self.i]

    def set(self, v):
        self.l[self.i] = v


class Opt(Intrinsic):
    """std::optional / boost::optional; has may be symbolic"""

    def __init__(self, has, v=None):
        self.has = has
        self.v = v

    def copy(self, E):
        return Opt(self.has, E.copy_value(self.v) if self.v is not None else None)

    def move(self, E):
        return Opt(self.has, E.move_value(self.v) if self.v is not None else None)

    def destroy(self, E):
        if isinstance(self.v, (Obj, Intrinsic)) and self.has is not False:
            E.destroy(self.v)

    def assign(self, E, o, move=False):
        if isinstance(o, Opt):
            if o is self:
                return
            n = o.move(E) if move else o.copy(E)
            old = self.v
            self.has, self.v = n.has, n.v
        else:
            if isinstance(o, Ref):
                o = E.val(o)
            old = self.v
            self.has, self.v = True, (E.move_value(o) if move else E.copy_value(o))
        if isinstance(old, (Obj, Intrinsic)):
            E.destroy(old)

    def tobool(self, E):
        return self.has

    def deref(self, E):
        if self.has is not True:
            E.ctx.prove("optional has a value", self.has, at=E.where())
            E.ctx.assume(self.has)
        if isinstance(self.v, (Obj, Intrinsic)):
            return self.v
        return OptRef(self)


class OptRef(Ref):
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def get(self):
        return self.o.v

    def set(self, v):
        self.o.v = v


class OPtr(Intrinsic):
    """unique_ptr / shared_ptr"""

    def __init__(self, p=None, shared=None, deleter=None):
        self.p = p  # Ptr or None or world handle
        self.shared = shared  # [count]
        self.deleter = deleter

    def copy(self, E):
        if self.shared is None and self.p is None:
            return OPtr(None)
        if self.shared is None:
            raise Unsupported("copy of unique_ptr")
        self.shared[0] += 1
        return OPtr(self.p, self.shared, self.deleter)

    def move(self, E):
        n = OPtr(self.p, self.shared, self.deleter)
        self.p = None
        if self.shared is not None:
            self.shared = None
        return n

    def destroy(self, E):
        self.reset(E, None)

    def reset(self, E, p):
        old, sh, d = self.p, self.shared, self.deleter
        self.p = p
        self.shared = None
        if old is None:
            return
        if sh is not None:
            sh[0] -= 1
            if sh[0] > 0:
                return
        if d is not None:
            d(E, old)
        elif isinstance(old, Ptr) and isinstance(old.t, (Obj, Intrinsic)):
            E.destroy(old.t)

    def assign(self, E, o, move=False):
        if o is self:
            return
        if o is None:
            self.reset(E, None)
            return
        n = o.move(E) if move else o.copy(E)
        self.reset(E, None)
        self.p, self.shared, self.deleter = n.p, n.shared, n.deleter or self.deleter

    def tobool(self, E):
        if self.p is None:
            return False
        if hasattr(self.p, "isnull"):
            return Not(self.p.isnull(E))
        return True

    def deref(self, E):
        return E.deref(self.p)


class FnObj(Intrinsic):
    def __init__(self, c=None):
        self.c = c

    def copy(self, E):
        return FnObj(self.c)

    def move(self, E):
        n = FnObj(self.c)
        self.c = None
        return n

    def assign(self, E, o, move=False):
        if isinstance(o, FnObj):
            self.c = o.c
            if move and o is not self:
                o.c = None
        elif o is None:
            self.c = None
        else:
            self.c = o

    def tobool(self, E):
        return self.c is not None


class Map(Intrinsic):
    """std::map / std::set / bimap views: list of [key, value-or-None] (insertion order)"""

    def __init__(self, items=None, kt=None, vt=None, isset=False):
        self.items = items or []
        self.kt = kt
        self.vt = vt
        self.isset = isset

    def copy(self, E):
        return Map([[E.copy_value(k), E.copy_value(v)] for k, v in self.items], self.kt, self.vt, self.isset)

    def move(self, E):
        n = Map(self.items, self.kt, self.vt, self.isset)
        self.items = []
        return n

    def destroy(self, E):
        for k, v in self.items:
            if isinstance(v, (Obj, Intrinsic)):
                E.destroy(v)

    def assign(self, E, o, move=False):
        if o is self:
            return
        n = o.move(E) if move else o.copy(E)
        old = self.items
        self.items = n.items
        for k, v in old:
            if isinstance(v, (Obj, Intrinsic)):
                E.destroy(v)

    def find(self, E, key):
        for i, (k, v) in enumerate(self.items):
            if E.istrue(key_eq(E, k, key)):
                return i
        return None

    def ordered(self, E):
        try:
            return sorted(self.items, key=lambda kv: sortkey(kv[0]))
        except TypeError:
            pass
        # keys without a known order: any order is possible
        known, rest = [], []
        for kv in self.items:
            k = kv[0].v if isinstance(kv[0], Str) else kv[0]
            (rest if is_sym(k) or not isinstance(k, (str, int)) else known).append(kv)
        known.sort(key=lambda kv: sortkey(kv[0]))
        for kv in rest:
            places = E.ctx.__dict__.setdefault("places", {})
            key = (str(kv[0].v if isinstance(kv[0], Str) else kv[0]), tuple(str(sortkey(x[0])) for x in known) if len(rest) == 1 else object())
            if key not in places:
                places[key] = E.ctx.choose(len(known) + 1, note="place of a key")
            known.insert(places[key], kv)
        return known


def sortkey(k):
    if isinstance(k, Str):
        if is_sym(k.v):
            raise TypeError
        return k.v
    if is_sym(k):
        raise TypeError
    return k


def key_eq(E, a, b):
    return value_eq(E, a, b)


class MapIt(Intrinsic):
    def __init__(self, m, i):
        self.m = m
        self.i = i  # None: end

    def copy(self, E):
        return MapIt(self.m, self.i)

    def deref(self, E):
        if self.i is None or self.i >= len(self.m.items):
            E.ctx.prove("no end() dereference", False, at=E.where())
            raise Infeasible()
        if self.m.isset:
            return lvof(self.m.items[self.i], 0)
        return MapEntry(self.m.items[self.i])

    def assign(self, E, o, move=False):
        self.m, self.i = o.m, o.i


class MapEntry(Tup):
    def __init__(self, l):
        self.items = l

    def copy(self, E):
        return Tup([E.copy_value(x) for x in self.items])

    def destroy(self, E):
        pass


def lvof(l, i):
    v = l[i]
    return v if isinstance(v, (Obj, Intrinsic)) else ListRef(l, i)


class Path(Intrinsic):
    def __init__(self, v):
        self.v = v

    def copy(self, E):
        return Path(self.v)

    def assign(self, E, o, move=False):
        self.v = strval(E, o)


def assign(E, d, s, move=False):
    """d = s for class types"""
    if isinstance(s, RefHolder):
        s = s.lv
    if isinstance(d, Obj):
        E.assign_part(d, s, d.rec, move)
    elif isinstance(d, Intrinsic):
        d.assign(E, s, move)
    elif isinstance(d, Ref):
        d.set(E.val(s))
    else:
        raise Unsupported("assign to %r" % (d,))


def value_eq(E, a, b):
    if isinstance(a, Ref):
        a = E.val(a)
    if isinstance(b, Ref):
        b = E.val(b)
    if isinstance(a, (Str, CStr, StrLit, Path)) or isinstance(b, (Str, CStr, StrLit, Path)):
        return eq(strval(E, a), strval(E, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            r = True
            for x, y in zip(a.items, b.items):
                r = And(r, value_eq(E, x, y))
            return simp(r)
        raise Unsupported("comparison of symbolic sequences")
    if isinstance(a, Tup) and isinstance(b, Tup):
        r = True
        for x, y in zip(a.items, b.items):
            r = And(r, value_eq(E, x, y))
        return simp(r)
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt):
            a, b = b, a
        if isinstance(b, Opt):
            ha, hb = a.has, b.has
            if ha is False or hb is False:
                return simp(And(Not(ha), Not(hb)))
            return simp(And(eq(ha, hb), Implies(ha, value_eq(E, a.v, b.v))))
        if a.has is False:
            return False
        return simp(And(a.has, value_eq(E, a.v, b)))
    if isinstance(a, Obj) and isinstance(b, Obj):
        tu, r = E.prog.records[a.rec]
        fs = [f for f in E.prog.byq.get(strip_targs(r["q"]) + "::operator==", []) if f.get("body") or f.get("defaulted")]
        for f in fs:
            return E.tobool(E.invoke(f, a, [b]))
        ns = strip_targs(r["q"]).rsplit("::", 1)[0]
        fs = [f for f in E.prog.byq.get(ns + "::operator==", []) if len(f["params"]) == 2 and
              all(f["_tu"].type(p["t"]).noref().id == a.rec for p in f["params"])]
        for f in fs:
            return E.tobool(E.invoke(f, None, [a, b]))
        raise Unsupported("no operator== for %s" % a.rec)
    return E.equal(a, b)


def elem(E, seq, i):
    """lvalue of element i, with a bounds obligation"""
    if isinstance(seq, Ref):
        if eq(i, 0) is True:
            return seq
        raise Unsupported("array access through a scalar pointer")
    if isinstance(seq, StrLit):
        return Cell(seq.get_at(i))
    if isinstance(seq, (Obj,)):
        if eq(i, 0) is True:
            return seq
        raise Unsupported("index into object")
    n = seq.size
    i = simp(i)
    if isinstance(seq, Str):
        ok = And(lift(i) >= 0, lift(i) <= lift(n))
    elif concrete(i) and concrete(n):
        ok = 0 <= i < n
    else:
        ok = And(lift(i) >= 0, lift(i) < lift(n))
    if ok is not True:
        E.ctx.prove("index within bounds", ok, at=E.where(), index=i, size=n)
        E.ctx.assume(ok)
    if getattr(seq, "items", None) is not None:
        if not concrete(i):
            if not seq.items or isinstance(seq.items[0], (Obj, Intrinsic)) or not all(
                    isinstance(x, (int, z3.ExprRef)) for x in seq.items):
                i = E.ctx.concretize(i, 0, len(seq.items) - 1)
        if concrete(i):
            v = seq.items[i]
            if isinstance(v, (Obj, Intrinsic)):
                return v
    elif getattr(seq, "et", None) is not None and getattr(seq.et, "k", None) == "rec":
        v = seq.fn(i)
        return v
    elif getattr(seq, "et", None) is None and getattr(seq, "fn", None) is not None and isinstance(v := seq.fn(i), (Obj, Intrinsic)):
        return v
    return ElemRef(seq, i)


def iterate(E, rng):
    if isinstance(rng, Ref):
        rng = E.val(rng)
    if isinstance(rng, Seq):
        if rng.items is not None:
            k = 0
            while k < len(rng.items):
                v = rng.items[k]
                yield v if isinstance(v, (Obj, Intrinsic)) else ElemRef(rng, k)
                k += 1
            return
        n = rng.n
        k = 0
        while True:
            c = simp(lift(n) > k)
            if concrete(c):
                if not c:
                    return
            else:
                if k >= E.loop_bound and not E.ctx.entails(c):
                    E.ctx.rec.bounded.append("%s: range loop unrolled %d times" % (E.where(), k))
                    E.ctx.assume(z3.Not(c))
                    return
                if not E.ctx.branch(c):
                    return
            yield elem(E, rng, k)
            k += 1
        return
    if isinstance(rng, Map):
        for kv in rng.ordered(E):
            if rng.isset:
                yield lvof(kv, 0)
            else:
                yield MapEntry(kv)
        return
    if isinstance(rng, Str):
        if not concrete(rng.v):
            raise Unsupported("iteration over a symbolic string")
        for i in range(len(rng.v)):
            yield ElemRef(rng, i)
        return
    if isinstance(rng, Obj):
        # class derived from a container
        for k, v in rng.f.items():
            if k[0] == "base" and isinstance(v, Seq):
                yield from iterate(E, v)
                return
        ends = []
        for m in ("begin", "end"):
            try:
                f = E.find_method(rng.rec, m, 0)
            except Unsupported:
                f = E.find_method(rng.rec, m, 0, lambda f: f.get("const"))
            ends.append(E.invoke(f, rng, []))
        for x in rng2(E, *[v.get() if isinstance(v, Ref) else v for v in ends]):
            yield x
        return
    raise Unsupported("range over %r" % (rng,))


def value_ne(E, a, b):
    return simp(Not(value_eq(E, a, b)))


# ---------------------------------------------------------------------- construction
def vec_items(E, args, t):
    pass


def elem_type(t):
    a = t.args()
    return a[0] if a and not isinstance(a[0], dict) else None


EXCS = {"std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument", "std::domain_error",
        "std::length_error", "std::exception"}


def construct(E, t, e, args):
    """Construction of a library object of type t by constructor expression e (or default construction)"""
    q = strip_targs(t.q)
    if args is None:
        args = E.eval_args(e["args"])
    fn = e["fn"] if e is not None and "fn" in e else {}
    c = CONSTRUCT.get(q)
    if c is None and E.world is not None:
        c = E.world.construct.get(q) if hasattr(E.world, "construct") else None
    if c is None:
        raise Unsupported("library class %s" % q)
    return c(E, t, args, fn, e)


def construct_initlist(E, t, e):
    q = strip_targs(t.q)
    if q == "std::array":
        if not e["args"]:
            return c_array(E, t, [], {}, e)
        a = e["args"][0]
        et = t.args()[0]
        n = int(t.args()[1]["v"])
        if a["k"] == "initlist" or len(e["args"]) == 1 and a["k"] == "zeroinit" and E.ty(a["t"]).k == "arr":
            v = E.ev(a)
            items = v.items
        else:
            items = [E.init_elem(et, x) for x in e["args"]]
        while len(items) < n:
            items.append(E.default_value(et))
        return Arr(items, et)
    if E.world is not None and q in getattr(E.world, "cstructs", ()):
        return E.world.construct[q](E, t, [], {}, e)  # C structure: fields are set by the library
    if E.world is not None and hasattr(E.world, "construct") and q in E.world.construct:
        return E.world.construct[q](E, t, [E.ev(a) for a in e["args"]], {}, e)
    if q.endswith("__unspec") or q.startswith("std::allocator") or q in ("std::identity", "std::less", "std::ranges::less"):
        return Opaque(q)
    if q in CONSTRUCT and len(e["args"]) <= 1:
        return CONSTRUCT[q](E, t, [E.ev(a) for a in e["args"]], {}, e)
    raise Unsupported("initialiser list for %s" % q)


CONSTRUCT = {}


def ctor(*names):
    def deco(f):
        for n in names:
            CONSTRUCT[n] = f
        return f

    return deco


def nondefault(args):
    return [a for a in args if not (isinstance(a, Opaque) and a.q.startswith("std::allocator"))]


@ctor("std::filesystem::file_status")
def c_fstatus(E, t, args, fn, e):
    return args[0].copy(E) if args and isinstance(args[0], FileStatus) else FileStatus("none")


@ctor("std::allocator", "std::basic_format_string", "__gnu_cxx::__normal_iterator_dummy", "std::integer_sequence",
      "std::__cmp_cat::__unspec", "boost::bimaps::relation::mutant_relation_dummy",
      "std::random_access_iterator_tag", "std::integral_constant", "std::less", "std::hash")
def c_opaque(E, t, args, fn, e):
    o = Opaque(strip_targs(t.q))
    if o.q == "std::basic_format_string" and args:
        o.v = strval(E, args[0])
    return o


@ctor("std::vector")
def c_vector(E, t, args, fn, e):
    args = nondefault(args)
    et = elem_type(t)
    if not args:
        return Vec([], et)
    a = args[0]
    if isinstance(a, Vec) and len(args) == 1:
        return a.move(E) if fn.get("move") else vec_copy(E, a)
    if isinstance(a, (InitList, CArr)) and len(args) == 1:
        return Vec([E.copy_value(x) for x in a.items], et)
    if (isinstance(a, (It, Ptr, MapIt))) and len(args) == 2:
        return Vec(range_values(E, a, args[1]), et) if not sym_range(E, a, args[1]) else sym_copy(E, a, args[1], et)
    n = E.val(a)
    if isinstance(n, (int, z3.ExprRef)):
        n = simp(n)
        if len(args) == 1:
            mk = lambda: E.default_value(et)
        else:
            v = args[1]
            v = E.val(v) if isinstance(v, Ref) else v
            mk = lambda: E.copy_value(v)
        if concrete(n):
            if n > 10000:
                raise Unsupported("large vector")
            return Vec([mk() for _ in range(n)], et)
        if et is not None and et.k == "rec":
            raise Unsupported("symbolic number of objects")
        d = mk()
        return Vec(None, et, n, lambda i: d)
    raise Unsupported("vector constructor from %s" % [type(x).__name__ + str(getattr(x, "q", "")) for x in args])


def vec_copy(E, v):
    n = Vec(None, v.et)
    if v.items is not None:
        n.items = [E.copy_value(x) for x in v.items]
    else:
        n.n, n.fn = v.n, v.fn
    return n


def sym_range(E, a, b):
    s, i = seqpos(a)
    _, j = seqpos(b)
    return is_sym(i) or is_sym(j) or (isinstance(s, Seq) and s.items is None)


def sym_copy(E, a, b, et):
    s, i = seqpos(a)
    _, j = seqpos(b)
    n = simp(lift(j) - lift(i))
    old = s.fn if s.items is None else s.get_at
    if concrete(n) and n < 100:
        return Vec([old(simp(lift(i) + k)) for k in range(n)], et)
    return Vec(None, et, n, lambda k: old(simp(lift(k) + lift(i))))


def seqpos(a):
    if isinstance(a, It):
        return a.seq, a.i
    if isinstance(a, Ptr):
        return a.t, (a.i if a.i is not None else 0)
    if isinstance(a, Ref):
        return seqpos(a.get())
    if isinstance(a, CStr):
        return Str(a.v), 0
    raise Unsupported("iterator %r" % (a,))


def range_values(E, a, b):
    if isinstance(a, MapIt):
        m = a.m
        items = m.ordered(E)
        return [E.copy_value(k[0]) if m.isset else Tup([E.copy_value(x) for x in k]) for k in items]
    s, i = seqpos(a)
    s2, j = seqpos(b)
    if isinstance(s, Seq) and s.items is not None:
        j = simp(j)
        i = simp(i)
        if not concrete(i) or not concrete(j):
            raise Unsupported("symbolic iterator range")
        return [E.copy_value(s.items[k]) for k in range(i, j)]
    if isinstance(s, Str) and concrete(s.v):
        return [ord(c) for c in s.v[i:j]]
    raise Unsupported("iterator range")


@ctor("std::array")
def c_array(E, t, args, fn, e):
    a = t.args()
    n = int(a[1]["v"])
    if args and isinstance(args[0], Arr):
        return args[0].copy(E)
    return Arr([E.undef_value(a[0]) if not (e and e.get("zero")) else E.default_value(a[0]) for _ in range(n)], a[0])


@ctor("std::basic_string")
def c_string(E, t, args, fn, e):
    args = nondefault(args)
    if not args:
        return Str("")
    a = args[0]
    if len(args) == 1:
        if isinstance(a, Str):
            return Str(a.v)
        return Str(strval(E, a))
    if len(args) == 2:
        b = args[1]
        x = E.val(a)
        y = E.val(b) if isinstance(b, Ref) else b
        if isinstance(x, (int, z3.ExprRef)) and isinstance(y, int):
            if concrete(x):
                if x > 2**62:
                    E.throw("std::length_error", "basic_string::_M_create")
                return Str(chr(y) * x)
            s = E.ctx.fresh("string", "str", report=False)
            E.ctx.assume(z3.Length(s) == x)
            return Str(s)
        if isinstance(x, (It, Ptr)) and isinstance(y, (It, Ptr)):
            s, i = seqpos(x)
            _, j = seqpos(y)
            if isinstance(s, Str) and concrete(s.v) and concrete(i) and concrete(j):
                return Str(s.v[i:j])
            if isinstance(s, Str) and i == 0 and eq(j, s.size) is True:
                return Str(s.v)
            if isinstance(s, (Str, StrLit)) :
                return Str(simp(z3.SubString(lift(s.v), lift(i), lift(j) - lift(i))))
        if isinstance(y, (int, z3.ExprRef)) and isinstance(x, (CStr, Ptr)):
            s = strval(E, x)
            if concrete(s) and concrete(y):
                return Str(s[:y])
            return Str(simp(z3.SubString(lift(s), 0, lift(y))))
        if isinstance(a, Str) and isinstance(y, (int, z3.ExprRef)):
            return str_sub(E, a.v, y, None)
    if len(args) == 3 and isinstance(a, Str):
        return str_sub(E, a.v, E.val(args[1]), E.val(args[2]))
    raise Unsupported("string constructor")


def str_sub(E, v, i, n):
    NPOS = (1 << 64) - 1
    if concrete(v) and concrete(i) and (n is None or concrete(n)):
        if i > len(v):
            E.throw("std::out_of_range")
        return Str(v[i:] if n is None or n == NPOS else v[i:i + n])
    ln = z3.Length(lift(v))
    if n is None or (concrete(n) and n == NPOS):
        return Str(simp(z3.SubString(lift(v), lift(i), ln - lift(i))))
    return Str(simp(z3.SubString(lift(v), lift(i), lift(n))))


@ctor("std::pair", "std::tuple")
def c_tuple(E, t, args, fn, e):
    ts = [x for x in t.args() if not isinstance(x, dict)]
    if len(ts) == 1 and hasattr(ts[0], "k") is False:
        pass
    if len(args) == 1 and isinstance(args[0], Tup) and (len(ts) != 1 or fn.get("copy") or fn.get("move")):
        return args[0].move(E) if fn.get("move") else args[0].copy(E)
    if not args:
        return Tup([E.default_value(x) for x in tuple_types(t)])
    out = []
    tt = tuple_types(t)
    for a, x in zip(args, tt if len(tt) == len(args) else [None] * len(args)):
        if x is not None and x.k == "ref":
            out.append(RefHolder(a if isinstance(a, (Ref, Obj, Intrinsic)) else Cell(a)))
        else:
            out.append(E.copy_value(conv(E, a, x)))
    return Tup(out)


def tuple_types(t):
    out = []
    for x in t.d.get("args", []):
        if isinstance(x, int):
            out.append(t.tu.type(x))
        elif isinstance(x, dict) and "pack" in x:
            for y in x["pack"]:
                if isinstance(y, int):
                    out.append(t.tu.type(y))
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, int):
                    out.append(t.tu.type(y))
    return out


def conv(E, a, t):
    """Implicit conversion of an argument to type t inside library code"""
    if t is None:
        return a
    if t.k == "rec" and strip_targs(t.q) == "std::basic_string" and not isinstance(E.val(a) if isinstance(a, Ref) else a, Str):
        return Str(strval(E, a))
    if t.k == "int" and isinstance(a, (Ref, int, z3.ExprRef)):
        return E.wrap(E.val(a), t)
    return a


@ctor("std::optional", "boost::optional")
def c_optional(E, t, args, fn, e):
    if not args:
        return Opt(False)
    a = args[0]
    if isinstance(a, Opt):
        return a.move(E) if fn.get("move") else a.copy(E)
    if isinstance(a, Opaque) and "nullopt" in a.q or isinstance(a, Opaque) and "none" in a.q:
        return Opt(False)
    et = elem_type(t)
    a = conv(E, a, et)
    return Opt(True, E.copy_value(a))


@ctor("std::nullopt_t", "boost::none_t")
def c_nullopt(E, t, args, fn, e):
    return Opaque("nullopt")


@ctor("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument", "std::domain_error",
      "std::length_error", "std::exception")
def c_exc(E, t, args, fn, e):
    q = strip_targs(t.q)
    if args and isinstance(args[0], Exc):
        return Exc(q, args[0].msg)
    return Exc(q, safe_str(E, args[0]) if args else None)


def safe_str(E, a):
    try:
        return strval(E, a)
    except Unsupported:
        return "?"


@ctor("std::unique_ptr", "std::shared_ptr")
def c_ptr(E, t, args, fn, e):
    q = strip_targs(t.q)
    a = None
    if args:
        a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    if isinstance(a, OPtr):
        if fn.get("copy"):
            return a.copy(E)
        n = a.move(E)
        if q == "std::shared_ptr" and n.shared is None and n.p is not None:
            n.shared = [1]
        return n
    o = OPtr(a)
    if q == "std::shared_ptr" and a is not None:
        o.shared = [1]
    if q == "std::unique_ptr" or len(args) > 1:
        ta = t.args() if q == "std::unique_ptr" else ()
        d = None
        if len(args) > 1:
            d = args[1]
        elif len(ta) > 1 and not isinstance(ta[1], dict) and ta[1].k == "rec" and E.is_repo_rec(ta[1]):
            d = E.default_construct(ta[1])
        if d is not None:
            if isinstance(d, Ref):
                d = E.val(d)

            def deleter(E, p, d=d):
                E.call_callable(d, [p])

            o.deleter = deleter
    return o


@ctor("std::function")
def c_function(E, t, args, fn, e):
    if not args:
        return FnObj(None)
    a = args[0]
    if isinstance(a, Ref):
        a = E.val(a)
    if isinstance(a, FnObj):
        return a.move(E) if fn.get("move") else a.copy(E)
    return FnObj(a)


@ctor("std::map", "std::set", "std::unordered_map", "std::unordered_set")
def c_map(E, t, args, fn, e):
    q = strip_targs(t.q)
    isset = "set" in q
    args = nondefault(args)
    args = [a for a in args if not (isinstance(a, Opaque))]
    ta = t.args()
    m = Map([], ta[0], None if isset else ta[1], isset)
    if not args:
        return m
    a = args[0]
    if isinstance(a, Map):
        return a.move(E) if fn.get("move") else a.copy(E)
    if isinstance(a, Seq):
        for x in a.items:
            map_insert(E, m, x)
        return m
    if len(args) >= 2:
        for x in range_values(E, args[0], args[1]):
            map_insert(E, m, x)
        return m
    raise Unsupported("map constructor")


def map_insert(E, m, x):
    if m.isset:
        k = E.val(x) if isinstance(x, Ref) else x
        if m.find(E, k) is None:
            m.items.append([E.copy_value(k), None])
            return len(m.items) - 1, True
        return m.find(E, k), False
    k, v = x.items[0], x.items[1]
    if isinstance(k, RefHolder):
        k = k.lv
    if isinstance(k, Ref):
        k = E.val(k)
    i = m.find(E, k)
    if i is None:
        m.items.append([E.copy_value(k), E.copy_value(v)])
        return len(m.items) - 1, True
    return i, False


@ctor("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator")
def c_iter(E, t, args, fn, e):
    if not args:
        return It(None, 0)
    return args[0].copy(E)


@ctor("std::initializer_list")
def c_initlist(E, t, args, fn, e):
    if not args:
        return InitList([])
    return args[0]


@ctor("std::filesystem::path")
def c_path(E, t, args, fn, e):
    if not args:
        return Path("")
    return Path(strval(E, args[0]))


@ctor("std::basic_ostringstream", "std::basic_stringstream")
def c_oss(E, t, args, fn, e):
    return Oss("")


class Oss(Intrinsic):
    def __init__(self, v):
        self.v = v


@ctor("boost::bimaps::bimap")
def c_bimap(E, t, args, fn, e):
    ta = t.args()
    if args and isinstance(args[0], Bimap):
        return args[0]
    b = Bimap([], E)
    if len(args) >= 2:
        s, i = seqpos(args[0])
        _, j = seqpos(args[1])
        for x in s.items[i:j]:
            l, r = x.items
            if any(E.istrue(value_eq(E, l, a)) or E.istrue(value_eq(E, r, c)) for a, c in b.pairs):
                continue
            b.pairs.append([l, r])
    return b


class Bimap(Intrinsic):
    def __init__(self, pairs, E):
        self.pairs = pairs

    def field(self, E, name):
        if name == "left":
            return Map([[l, r] for l, r in self.pairs])
        if name == "right":
            return Map([[r, l] for l, r in self.pairs])
        raise Unsupported("bimap field")

    def copy(self, E):
        return Bimap(list(self.pairs), E)


@ctor("boost::bimaps::relation::mutant_relation")
def c_relation(E, t, args, fn, e):
    if len(args) == 1:
        return args[0].copy(E)
    return Tup([E.copy_value(Str(strval(E, a)) if isinstance(a, (StrLit, CStr)) else a) for a in args])


# ---------------------------------------------------------------------- member functions
def seq_of(o):
    if isinstance(o, Obj):
        for k, v in o.f.items():
            if k[0] == "base" and isinstance(v, Seq):
                return v
    return o


@intr("std::vector::size", "std::array::size", "std::initializer_list::size", "std::basic_string::size",
      "std::basic_string::length")
def m_size(E, o, args, fn, e):
    o = seq_of(o)
    return simp(o.size)


@intr("std::vector::empty", "std::array::empty", "std::basic_string::empty")
def m_empty(E, o, args, fn, e):
    return simp(eq(seq_of(o).size, 0))


@intr("std::vector::begin", "std::vector::cbegin", "std::array::begin", "std::array::cbegin", "std::initializer_list::begin",
      "std::basic_string::begin", "std::basic_string::cbegin")
def m_begin(E, o, args, fn, e):
    o = seq_of(o)
    return Ptr(o, 0) if isinstance(o, (InitList, Arr)) else It(o, 0)


@intr("std::vector::end", "std::vector::cend", "std::array::end", "std::array::cend", "std::initializer_list::end",
      "std::basic_string::end", "std::basic_string::cend")
def m_end(E, o, args, fn, e):
    o = seq_of(o)
    return Ptr(o, simp(o.size)) if isinstance(o, (InitList, Arr)) else It(o, simp(o.size))


class RIt(It):
    def copy(self, E):
        return RIt(self.seq, self.i)

    def deref(self, E):
        return elem(E, self.seq, simp(lift(self.i) - 1))


@intr("std::vector::rbegin", "std::array::rbegin", "std::vector::crbegin")
def m_rbegin(E, o, args, fn, e):
    o = seq_of(o)
    return RIt(o, simp(o.size))


@intr("std::vector::rend", "std::array::rend", "std::vector::crend")
def m_rend(E, o, args, fn, e):
    return RIt(seq_of(o), 0)


CONSTRUCT["std::reverse_iterator"] = c_iter


@intr("std::reverse_iterator::operator*")
def m_rderef(E, o, args, fn, e):
    return o.deref(E)


@intr("std::reverse_iterator::operator++")
def m_rinc(E, o, args, fn, e):
    c = o.copy(E)
    o.i = simp(lift(o.i) - 1)
    return c if args else o


@intr("std::vector::data", "std::array::data", "std::basic_string::data")
def m_data(E, o, args, fn, e):
    o = seq_of(o)
    if isinstance(o, Str):
        if fn.get("const"):
            return CStr(o.v)
        return Ptr(o, 0)
    return Ptr(o, 0)


@intr("std::basic_string::c_str")
def m_cstr(E, o, args, fn, e):
    return CStr(o.v)


@intr("std::vector::operator[]", "std::array::operator[]", "std::basic_string::operator[]")
def m_index(E, o, args, fn, e):
    return elem(E, seq_of(o), E.val(args[0]))


@intr("std::vector::at", "std::array::at", "std::basic_string::at")
def m_at(E, o, args, fn, e):
    o = seq_of(o)
    i = E.val(args[0])
    ok = simp(And(lift(i) >= 0, lift(i) < lift(o.size)))
    if not (ok if concrete(ok) else E.ctx.branch(ok)):
        E.throw("std::out_of_range")
    return elem(E, o, i)


def nonempty(E, o):
    ok = simp(Not(eq(o.size, 0)))
    if ok is not True:
        E.ctx.prove("container is not empty", ok, at=E.where())
        E.ctx.assume(ok)


@intr("std::vector::back", "std::array::back", "std::basic_string::back")
def m_back(E, o, args, fn, e):
    o = seq_of(o)
    nonempty(E, o)
    return elem(E, o, simp(lift(o.size) - 1))


@intr("std::vector::front", "std::array::front", "std::basic_string::front")
def m_front(E, o, args, fn, e):
    o = seq_of(o)
    nonempty(E, o)
    return elem(E, o, 0)


@intr("std::vector::push_back")
def m_push(E, o, args, fn, e):
    o = seq_of(o)
    a = args[0]
    rv = e is not None and fn["ptypes"] and E.ty(fn["ptypes"][0]).k == "ref" and E.ty(fn["ptypes"][0]).d.get("rv")
    v = E.val(a) if isinstance(a, Ref) else a
    v = E.move_value(v) if rv else E.copy_value(v)
    if o.items is not None:
        o.items.append(v)
    else:
        n, old = o.n, o.fn
        o.fn = lambda i: If(eq(i, n), v, old(i))
        o.n = simp(lift(n) + 1)


@intr("std::vector::emplace_back")
def m_emplace(E, o, args, fn, e):
    o = seq_of(o)
    et = o.et
    v = build(E, et, args, fn)
    if o.items is None:
        n, old = o.n, o.fn
        o.fn = lambda i: If(eq(i, n), v, old(i))
        o.n = simp(lift(n) + 1)
        return ElemRef(o, n)
    o.items.append(v)
    return elem(E, o, len(o.items) - 1)


def build(E, et, args, fn):
    """T(args...) inside library code"""
    if et is None or et.k in ("int", "bool", "float", "enum", "ptr"):
        if not args:
            return E.default_value(et)
        v = E.val(args[0])
        return E.wrap(v, et) if et is not None and et.k == "int" else v
    if E.is_repo_rec(et):
        if len(args) == 1 and isinstance(args[0], Obj) and derived_from(E, args[0].rec, et.id):
            ta = [x for x in fn.get("targs", [])]
            return E.move_value(args[0]) if is_rvalue_pack(E, fn, 0) else E.copy_value(args[0])
        c = [f for f in E.ctors(et.id) if len(f["params"]) == len(args) and not f.get("copy") and not f.get("move")]
        c = [f for f in c if args_match(E, f, args)]
        if len(c) == 1:
            o = Obj(et.id)
            E.invoke_ctor(c[0], o, args)
            return o
        raise Unsupported("emplace of %s: %d candidates" % (et.id, len(c)))
    if len(args) == 1 and isinstance(args[0], Intrinsic) and is_rvalue_pack(E, fn, 0):
        f = {"move": 1}
    else:
        f = {}
    return CONSTRUCT[strip_targs(et.q)](E, et, args, f, None)


def is_rvalue_pack(E, fn, i):
    try:
        t = E.ty(fn["ptypes"][i])
        return t.k == "ref" and bool(t.d.get("rv"))
    except Exception:
        return False


def derived_from(E, rid, bid):
    if rid == bid:
        return True
    ent = E.prog.records.get(rid)
    if not ent:
        return False
    return any(derived_from(E, ent[0].type(b).id, bid) for b in ent[1].get("bases", []) if ent[0].type(b).k == "rec")


def args_match(E, f, args):
    for p, a in zip(f["params"], args):
        t = f["_tu"].type(p["t"]).noref()
        v = E.val(a) if isinstance(a, Ref) else a
        if t.k == "rec":
            if isinstance(v, Obj):
                if not derived_from(E, v.rec, t.id):
                    return False
            elif isinstance(v, Intrinsic):
                n = strip_targs(t.q)
                ok = {"std::basic_string": (Str, StrLit), "std::vector": (Vec, InitList), "std::array": (Arr,)}.get(n)
                if ok and not isinstance(v, ok):
                    return False
                if not ok:
                    return False
            elif isinstance(v, CStr):
                if strip_targs(t.q) != "std::basic_string":
                    return False
            else:
                return False
        elif t.k in ("int", "bool", "enum", "float"):
            if isinstance(v, (Obj, Intrinsic, Ptr, CStr)):
                return False
    return True


@intr("std::vector::pop_back")
def m_pop(E, o, args, fn, e):
    o = seq_of(o)
    nonempty(E, o)
    if o.items is None:
        o.n = simp(lift(o.n) - 1)
        return
    v = o.items.pop()
    if isinstance(v, (Obj, Intrinsic)):
        E.destroy(v)


@intr("std::vector::clear")
def m_clear(E, o, args, fn, e):
    o = seq_of(o)
    old = o.items or []
    o.items, o.n, o.fn = [], None, None
    for v in old:
        if isinstance(v, (Obj, Intrinsic)):
            E.destroy(v)


@intr("std::vector::reserve", "std::vector::shrink_to_fit", "std::basic_string::reserve")
def m_reserve(E, o, args, fn, e):
    return None


@intr("std::vector::resize")
def m_resize(E, o, args, fn, e):
    o = seq_of(o)
    n = E.val(args[0])
    d = E.copy_value(E.val(args[1]) if isinstance(args[1], Ref) else args[1]) if len(args) > 1 else None
    if concrete(n) and o.items is not None:
        if n > 10000:
            raise Unsupported("large vector")
        while len(o.items) > n:
            v = o.items.pop()
            if isinstance(v, (Obj, Intrinsic)):
                E.destroy(v)
        while len(o.items) < n:
            o.items.append(E.copy_value(d) if d is not None else E.default_value(o.et))
        return
    if o.et is not None and o.et.k == "rec":
        raise Unsupported("symbolic number of objects")
    old, m = (o.get_at if o.items is None or o.items else None), o.size
    if d is None:
        d = E.default_value(o.et)
    if o.items is not None:
        items = list(o.items)

        def f(i, items=items):
            r = d
            for k in range(len(items) - 1, -1, -1):
                r = If(eq(i, k), items[k], r)
            return r
    else:
        oldfn = o.fn

        def f(i, oldfn=oldfn, m=m):
            return If(simp(lift(i) < lift(m)), oldfn(i), d)
    o.items, o.n, o.fn = None, n, f


@intr("std::vector::insert")
def m_insert(E, o, args, fn, e):
    o = seq_of(o)
    pos = args[0]
    s, i = seqpos(pos)
    i = simp(i)
    if o.items is None or not concrete(i):
        raise Unsupported("insert into a symbolic vector")
    if len(args) == 2:
        v = E.val(args[1]) if isinstance(args[1], Ref) else args[1]
        if isinstance(v, InitList):
            o.items[i:i] = [E.copy_value(x) for x in v.items]
        else:
            o.items.insert(i, E.copy_value(v))
    elif len(args) == 3 and isinstance(args[1], (It, Ptr, MapIt)):
        o.items[i:i] = range_values(E, args[1], args[2])
    elif len(args) == 3:
        n = E.val(args[1])
        if not concrete(n):
            raise Unsupported("symbolic insert")
        v = E.val(args[2]) if isinstance(args[2], Ref) else args[2]
        o.items[i:i] = [E.copy_value(v) for _ in range(n)]
    return It(o, i)


@intr("std::vector::erase")
def m_erase(E, o, args, fn, e):
    o = seq_of(o)
    s, i = seqpos(args[0])
    j = seqpos(args[1])[1] if len(args) > 1 else i + 1
    if o.items is None or not concrete(i) or not concrete(j):
        raise Unsupported("erase")
    del o.items[i:j]
    return It(o, i)


@intr("std::vector::assign")
def m_assign(E, o, args, fn, e):
    o = seq_of(o)
    if len(args) == 1:
        o.items = [E.copy_value(x) for x in args[0].items]
        return
    a = args[0]
    if isinstance(a, (It, Ptr)):
        o.items = range_values(E, args[0], args[1])
        return
    n = E.val(a)
    v = E.val(args[1]) if isinstance(args[1], Ref) else args[1]
    if not concrete(n):
        raise Unsupported("assign")
    o.items = [E.copy_value(v) for _ in range(n)]


@intr("std::vector::operator=", "std::map::operator=", "std::set::operator=", "std::basic_string::operator=",
      "std::array::operator=", "std::optional::operator=", "boost::optional::operator=", "std::function::operator=",
      "std::tuple::operator=", "std::pair::operator=", "std::shared_ptr::operator=", "std::unique_ptr::operator=",
      "std::filesystem::path::operator=", "__gnu_cxx::__normal_iterator::operator=")
def m_opassign(E, o, args, fn, e):
    a = args[0]
    if isinstance(a, Ref):
        a = E.val(a)
    mv = bool(fn.get("moveassign")) or (is_rvalue_pack(E, fn, 0) and isinstance(a, Intrinsic))
    if isinstance(o, Str):
        if isinstance(a, (int, z3.ExprRef)) and not isinstance(a, z3.SeqRef):
            o.v = chr(a)
            return o
        o.v = strval(E, a)
        return o
    o = seq_of(o)
    a = seq_of(a)
    if isinstance(o, Vec) and isinstance(a, (InitList,)):
        o.items, o.n, o.fn = [E.copy_value(x) for x in a.items], None, None
        return o
    if isinstance(o, Map) and isinstance(a, InitList):
        o.items = []
        for x in a.items:
            map_insert(E, o, x)
        return o
    if isinstance(o, Opt) and isinstance(a, Opaque):
        o.has, o.v = False, None
        return o
    if isinstance(o, Opt) and not isinstance(a, Opt):
        et = elem_type(E.ty(fn["cls"])) if "cls" in fn else None
        a = conv(E, a, et)
    o.assign(E, a, mv)
    return o


@intr("__gnu_cxx::__normal_iterator::operator*", "std::_Rb_tree_const_iterator::operator*",
      "std::_Rb_tree_iterator::operator*", "std::_Rb_tree_const_iterator::operator->", "std::_Rb_tree_iterator::operator->")
def m_deref(E, o, args, fn, e):
    r = o.deref(E)
    return Ptr(r) if fn["name"] == "operator->" else r


@intr("__gnu_cxx::__normal_iterator::operator->")
def m_arrow(E, o, args, fn, e):
    return Ptr(o.deref(E))


@intr("__gnu_cxx::__normal_iterator::operator+")
def m_itplus(E, o, args, fn, e):
    return It(o.seq, simp(lift(o.i) + lift(E.val(args[0]))))


@intr("__gnu_cxx::__normal_iterator::operator-")
def m_itminus(E, o, args, fn, e):
    return It(o.seq, simp(lift(o.i) - lift(E.val(args[0]))))


@intr("__gnu_cxx::operator-")
def itdiff(E, o, args, fn, e):
    return simp(lift(args[0].i) - lift(args[1].i))


@intr("__gnu_cxx::__normal_iterator::operator++")
def m_itinc(E, o, args, fn, e):
    c = o.copy(E)
    o.i = simp(lift(o.i) + 1)
    return c if args else o


@intr("__gnu_cxx::__normal_iterator::operator--")
def m_itdec(E, o, args, fn, e):
    c = o.copy(E)
    o.i = simp(lift(o.i) - 1)
    return c if args else o


@intr("__gnu_cxx::__normal_iterator::operator+=", "__gnu_cxx::__normal_iterator::operator-=")
def m_itadd(E, o, args, fn, e):
    d = lift(E.val(args[0]))
    o.i = simp(lift(o.i) + d if fn["name"] == "operator+=" else lift(o.i) - d)
    return o


@intr("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "boost::iterators::operator!=", "boost::iterators::operator==",
      "std::operator==", "std::operator!=")
def op_eq(E, o, args, fn, e):
    a, b = args[0], args[1]
    if isinstance(a, Ref):
        a = E.val(a)
    if isinstance(b, Ref):
        b = E.val(b)
    a, b = seq_of(a), seq_of(b)
    ne = fn["name"] == "operator!="
    if isinstance(a, It) and isinstance(b, It):
        r = eq(a.i, b.i)
    elif isinstance(a, MapIt) and isinstance(b, MapIt):
        r = a.i == b.i
    elif isinstance(a, Opt) and isinstance(b, Opaque):
        r = simp(Not(a.has))
    elif isinstance(b, Opt) and isinstance(a, Opaque):
        r = simp(Not(b.has))
    elif isinstance(a, (OPtr, FnObj)) and b is None:
        r = simp(Not(a.tobool(E)))
    elif isinstance(b, (OPtr, FnObj)) and a is None:
        r = simp(Not(b.tobool(E)))
    else:
        r = value_eq(E, a, b)
    return simp(Not(r)) if ne else r


INTR["std::filesystem::__cxx11::operator=="] = op_eq
INTR["std::filesystem::operator=="] = op_eq


@intr("__gnu_cxx::operator<", "__gnu_cxx::operator>", "__gnu_cxx::operator<=", "__gnu_cxx::operator>=")
def it_cmp(E, o, args, fn, e):
    return E.compare(fn["name"][8:], args[0].i, args[1].i)


@intr("std::basic_string::resize")
def m_sresize(E, o, args, fn, e):
    n = E.val(args[0])
    if concrete(n) and concrete(o.v):
        o.v = o.v[:n] + "\0" * (n - len(o.v))
        return
    # contents beyond the old size are zero; below they are kept
    if eq(n, o.size) is True:
        return
    if not concrete(o.v):
        # all but a literal end
        ps = leaves(o.v)
        if len(ps) > 1 and z3.is_string_value(ps[-1]):
            head = ps[-2]
            for y in reversed(ps[:-2]):
                head = z3.Concat(y, head)
            head = simp(head)
            if E.ctx.entails(eq(simp(z3.Length(head)), n)):
                o.v = head
                return
    s = E.ctx.fresh("resized", "str", report=False)
    E.ctx.assume(z3.Length(s) == lift(n))
    E.ctx.assume(z3.Implies(lift(n) <= z3.Length(lift(o.v)), s == z3.SubString(lift(o.v), 0, lift(n))))
    o.v = s


@intr("std::basic_string::substr")
def m_substr(E, o, args, fn, e):
    i = E.val(args[0])
    if (len(args) < 2 or E.val(args[1]) == NPOS) and is_sym(i) and not concrete(o.v):
        # what comes after the last slash
        try:
            head, last = path_split(E, o.v)
        except Unsupported:
            head = None
        if head is not None and z3.eq(simp(z3.Length(lift(head)) + 1), simp(lift(i))):
            return Str(last)
    return str_sub(E, o.v, E.val(args[0]), E.val(args[1]) if len(args) > 1 else None)


NPOS = (1 << 64) - 1


@intr("std::basic_string::find", "std::basic_string::rfind", "std::basic_string::find_last_of",
      "std::basic_string::find_first_of")
def m_find(E, o, args, fn, e):
    a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    s = chr(a) if isinstance(a, int) else strval(E, a)
    n = fn["name"]
    if not (concrete(o.v) and concrete(s)):
        if n == "find" and (len(args) < 2 or E.val(args[1]) == 0):
            r = z3.IndexOf(lift(o.v), lift(s), 0)
            return simp(z3.If(r < 0, z3.IntVal(NPOS), r))
        if n in ("rfind", "find_last_of") and concrete(s) and s == "/" and (len(args) < 2 or E.val(args[1]) == NPOS):
            head, last = path_split(E, o.v)
            return NPOS if head is None else simp(z3.Length(lift(head)))
        raise Unsupported("string search")
    if n == "find":
        r = o.v.find(s, E.val(args[1]) if len(args) > 1 else 0)
    elif n == "rfind":
        r = o.v.rfind(s)
    elif n == "find_last_of":
        r = max((o.v.rfind(c) for c in s), default=-1)
    else:
        r = min((i for i in (o.v.find(c) for c in s) if i >= 0), default=-1)
    return r if r >= 0 else NPOS


@intr("std::basic_string::append", "std::basic_string::operator+=", "std::basic_string::push_back")
def m_append(E, o, args, fn, e):
    a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    if isinstance(a, int):
        a = chr(a)
    o.v = concat(o.v, strval(E, a))
    return o


@intr("std::basic_string::starts_with", "std::basic_string::ends_with", "std::basic_string::contains")
def m_starts(E, o, args, fn, e):
    a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    s = chr(a) if isinstance(a, int) else strval(E, a)
    n = fn["name"]
    if concrete(o.v) and concrete(s):
        return o.v.startswith(s) if n == "starts_with" else o.v.endswith(s) if n == "ends_with" else s in o.v
    f = {"starts_with": lambda: z3.PrefixOf(lift(s), lift(o.v)), "ends_with": lambda: z3.SuffixOf(lift(s), lift(o.v)),
         "contains": lambda: z3.Contains(lift(o.v), lift(s))}[n]
    return simp(f())


@intr("std::basic_string::compare")
def m_compare(E, o, args, fn, e):
    r = eq(o.v, strval(E, args[0]))
    return simp(If(r, 0, 1))


@intr("std::operator+")
def op_plus(E, o, args, fn, e):
    def s(x):
        if isinstance(x, Ref):
            x = E.val(x)
        if isinstance(x, int):
            return chr(x)
        return strval(E, x)

    return Str(concat(s(args[0]), s(args[1])))


@intr("std::map::find", "std::set::find", "boost::bimaps::container_adaptor::associative_container_adaptor::find")
def m_mfind(E, o, args, fn, e):
    k = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    i = o.find(E, k)
    return MapIt(o, i)


@intr("std::map::end", "std::set::end", "boost::bimaps::container_adaptor::container_adaptor::end", "std::map::cend")
def m_mend(E, o, args, fn, e):
    return MapIt(o, None)


@intr("std::map::begin", "std::set::begin", "std::map::cbegin")
def m_mbegin(E, o, args, fn, e):
    return MapIt(o, 0 if o.items else None)


@intr("std::map::size", "std::set::size")
def m_msize(E, o, args, fn, e):
    return len(o.items)


@intr("std::map::empty", "std::set::empty")
def m_mempty(E, o, args, fn, e):
    return not o.items


@intr("std::map::contains", "std::set::contains", "std::map::count", "std::set::count")
def m_contains(E, o, args, fn, e):
    k = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    r = o.find(E, k) is not None
    return r if fn["name"] == "contains" else int(r)


@intr("std::map::insert", "std::set::insert", "std::map::emplace", "std::set::emplace")
def m_minsert(E, o, args, fn, e):
    a = args[0]
    if len(args) == 2:
        a = Tup([E.val(x) if isinstance(x, Ref) else x for x in args])
    i, new = map_insert(E, o, a)
    return Tup([MapIt(o, i), new])


@intr("std::map::at")
def m_mat(E, o, args, fn, e):
    k = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    i = o.find(E, k)
    if i is None:
        E.throw("std::out_of_range")
    return lvof(o.items[i], 1)


INTR["boost::bimaps::detail::non_mutable_data_unique_map_view_access::at"] = m_mat


@intr("std::map::operator[]")
def m_mindex(E, o, args, fn, e):
    k = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    i = o.find(E, k)
    if i is None:
        o.items.append([E.copy_value(k), E.default_value(o.vt)])
        i = len(o.items) - 1
    return lvof(o.items[i], 1)


@intr("boost::bimaps::relation::mutant_relation::operator=")
def _x(E, o, args, fn, e):
    raise Unsupported("relation assignment")


@intr("std::optional::operator bool", "std::optional::has_value", "boost::optional::operator bool",
      "boost::optional::is_initialized", "boost::optional::has_value")
def m_optbool(E, o, args, fn, e):
    return o.has


@intr("boost::optional::operator!")
def m_optnot(E, o, args, fn, e):
    return simp(Not(o.has))


@intr("std::optional::operator*", "boost::optional::operator*", "boost::optional::get")
def m_optderef(E, o, args, fn, e):
    return o.deref(E)


@intr("std::optional::operator->", "boost::optional::operator->")
def m_optarrow(E, o, args, fn, e):
    return Ptr(o.deref(E))


@intr("std::optional::value", "boost::optional::value")
def m_optvalue(E, o, args, fn, e):
    if not E.istrue(o.has):
        E.throw("std::bad_optional_access")
    return o.deref(E)


@intr("std::optional::value_or")
def m_optvalueor(E, o, args, fn, e):
    a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
    if o.has is True or (o.has is not False and E.ctx.branch(o.has)):
        return E.copy_value(o.v)
    return E.copy_value(a)


@intr("std::optional::reset", "boost::optional::reset")
def m_optreset(E, o, args, fn, e):
    o.has, o.v = False, None


@intr("std::optional::emplace")
def m_optemplace(E, o, args, fn, e):
    et = elem_type(E.ty(fn["cls"]))
    o.v = build(E, et, args, fn)
    o.has = True
    return o.deref(E)


@intr("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool", "std::shared_ptr::operator bool",
      "std::function::operator bool")
def m_ptrbool(E, o, args, fn, e):
    return simp(o.tobool(E))


@intr("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*")
def m_ptrderef(E, o, args, fn, e):
    return o.deref(E)


@intr("std::__shared_ptr_access::operator->", "std::unique_ptr::operator->", "std::__shared_ptr::get",
      "std::unique_ptr::get")
def m_ptrarrow(E, o, args, fn, e):
    return o.p


@intr("std::unique_ptr::release")
def m_release(E, o, args, fn, e):
    p = o.p
    o.p = None
    return p


@intr("std::unique_ptr::reset", "std::shared_ptr::reset", "std::__shared_ptr::reset")
def m_reset(E, o, args, fn, e):
    a = E.val(args[0]) if args else None
    o.reset(E, a)


@intr("std::make_shared", "std::make_unique")
def make_ptr(E, o, args, fn, e):
    t = E.ty(fn["ret"])
    et = None
    for a in fn.get("targs", []):
        if isinstance(a, int):
            et = E.ty(a)
            break
    if et is None or isinstance(et, dict):
        et = elem_type(t)
    v = build(E, et, args, dict(fn, ptypes=fn["ptypes"]))
    p = OPtr(Ptr(v if isinstance(v, (Obj, Intrinsic)) else Cell(v)))
    if fn["name"] == "make_shared":
        p.shared = [1]
    return p


@intr("std::function::operator()")
def m_fcall(E, o, args, fn, e):
    return E.call_callable(o, args)


@intr("std::move", "std::forward", "std::as_const")
def std_move(E, o, args, fn, e):
    if len(args) == 3:
        return copy_algo(E, o, args, fn, e)
    return args[0]


@intr("std::get")
def std_get(E, o, args, fn, e):
    t = args[0]
    i = None
    for a in fn.get("targs", []):
        if isinstance(a, dict) and "v" in a:
            i = int(a["v"])
            break
    if i is None:
        ts = [E.fr.tu.type(x) for x in fn.get("targs", []) if isinstance(x, int)]
        m = [k for k in range(len(t.items)) if ts and ts[0].isrec() and isinstance(E.val(t.at(k)), Obj) and E.val(t.at(k)).rec == ts[0].id]
        if len(m) != 1:
            raise Unsupported("std::get by type")
        i = m[0]
    if isinstance(t, Seq):
        return elem(E, t, i)
    return t.at(i)


@intr("std::make_tuple", "std::make_pair")
def make_tuple(E, o, args, fn, e):
    t = E.ty(fn["ret"])
    return Tup([E.copy_value(Str(strval(E, a)) if False else (E.val(a) if isinstance(a, Ref) else a)) for a in args])


@intr("std::tie", "std::forward_as_tuple")
def std_tie(E, o, args, fn, e):
    return Tup([RefHolder(a) for a in args])


@intr("std::swap", "std::exchange")
def std_swap(E, o, args, fn, e):
    a, b = args
    if fn["name"] == "exchange":
        if isinstance(a, Ref):
            old = E.val(a)
            a.set(E.val(b))
            return old
        old = E.move_value(a)
        assign(E, a, b, True)
        return old
    if isinstance(a, Ref):
        x, y = a.get(), b.get()
        a.set(y)
        b.set(x)
        return
    t = E.move_value(a)
    assign(E, a, b, True)
    assign(E, b, t, True)
    E.destroy(t)


@intr("std::begin", "std::cbegin")
def std_begin(E, o, args, fn, e):
    s = seq_of(args[0])
    return Ptr(s, 0) if isinstance(s, (CArr, Arr, InitList)) else (It(s, 0) if isinstance(s, (Seq, Str)) else m_mbegin(E, s, [], fn, e))


@intr("std::end", "std::cend")
def std_end(E, o, args, fn, e):
    s = seq_of(args[0])
    n = simp(s.size) if isinstance(s, (Seq, Str)) else None
    return Ptr(s, n) if isinstance(s, (CArr, Arr, InitList)) else (It(s, n) if isinstance(s, (Seq, Str)) else m_mend(E, s, [], fn, e))


@intr("std::empty")
def std_empty(E, o, args, fn, e):
    a = args[0]
    if isinstance(a, Map):
        return not a.items
    return simp(eq(seq_of(a).size, 0))


@intr("std::size", "std::ssize", "std::ranges::size")
def std_size(E, o, args, fn, e):
    a = args[0]
    if isinstance(a, Map):
        return len(a.items)
    return simp(seq_of(a).size)


@intr("std::min", "std::max")
def std_min(E, o, args, fn, e):
    if len(args) == 1 and isinstance(args[0], InitList):
        vs = [E.val(x) for x in args[0].items]
    else:
        vs = [E.val(a) for a in args[:2]]
    r = vs[0]
    for v in vs[1:]:
        c = E.compare("<", v, r) if fn["name"] == "min" else E.compare("<", r, v)
        r = If(c, v, r)
    return Cell(simp(r) if is_sym(r) else r)


@intr("std::clamp")
def std_clamp(E, o, args, fn, e):
    v, lo, hi = [E.val(a) for a in args]
    r = If(E.compare("<", v, lo), lo, If(E.compare("<", hi, v), hi, v))
    return Cell(r)


@intr("std::abs", "abs", "fabs", "std::fabs")
def std_abs(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        return abs(v)
    return simp(z3.If(v >= 0, v, -v))


@intr("floor", "std::floor")
def std_floor(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        f = Fraction(v)
        return Fraction(f.numerator // f.denominator)
    return z3.ToReal(z3.ToInt(v))


@intr("ceil", "std::ceil")
def std_ceil(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        f = Fraction(v)
        return Fraction(-((-f.numerator) // f.denominator))
    return -z3.ToReal(z3.ToInt(-v))


@intr("std::isnan")
def std_isnan(E, o, args, fn, e):
    v = E.val(args[0])
    if isinstance(v, FV):
        return v.nan
    return False


class Fn1:
    pass


def call_bin(E, f, a, b):
    return E.val(E.call_callable(f, [a, b])) if not isinstance(E.call_callable, type(None)) else None


class StdOp(Intrinsic):
    """std::multiplies and friends"""

    def __init__(self, op):
        self.op = op

    def copy(self, E):
        return self


for _n, _o in {"multiplies": "*", "plus": "+", "minus": "-", "divides": "/", "equal_to": "==", "less": "<",
               "greater": ">", "not_equal_to": "!=", "less_equal": "<=", "greater_equal": ">="}.items():
    CONSTRUCT["std::" + _n] = (lambda op: lambda E, t, args, fn, e: StdOp(op))(_o)
    CONSTRUCT["std::ranges::" + _n] = CONSTRUCT["std::" + _n]
    INTR["std::%s::operator()" % _n] = (lambda op: lambda E, o, args, fn, e: E.binop(
        op, E.val(args[0]), E.val(args[1]), _U64))(_o)


class _U:
    k = "int"
    w = 64
    s = 1
    name = "u"


_U64 = _U()


def apply(E, f, args):
    if isinstance(f, Ref):
        f = E.val(f)
    if isinstance(f, StdOp):
        a = [E.val(x) if isinstance(x, Ref) else x for x in args]
        if f.op in ("==", "!="):
            r = value_eq(E, *a)
            return r if f.op == "==" else simp(Not(r))
        return E.binop(f.op, a[0], a[1], _U64)
    r = E.call_callable(f, args)
    return E.val(r) if isinstance(r, Ref) else r


def elems(E, s, i, j):
    """lvalues of the elements i..j-1"""
    i, j = simp(i), simp(j)
    if isinstance(s, Seq) and s.items is not None and concrete(i) and concrete(j):
        for k in range(i, j):
            v = s.items[k]
            yield v if isinstance(v, (Obj, Intrinsic)) else ElemRef(s, k)
        return
    if isinstance(s, Str) and concrete(s.v) and concrete(i) and concrete(j):
        for k in range(i, j):
            yield ElemRef(s, k)
        return
    if concrete(i) and concrete(j):
        for k in range(i, j):
            yield elem(E, s, k)
        return
    n = simp(lift(j) - lift(i))
    k = 0
    while True:
        c = simp(lift(n) > k)
        if not (c if concrete(c) else (k < E.loop_bound or E.ctx.entails(c)) and E.ctx.branch(c)):
            if not concrete(c):
                E.ctx.rec.bounded.append("%s: algorithm unrolled %d times" % (E.where(), k))
                E.ctx.assume(z3.Not(c))
            return
        yield elem(E, s, simp(lift(i) + k))
        k += 1


def rng2(E, a, b):
    if isinstance(a, MapIt):
        items = a.m.ordered(E)
        return list(MapEntry(x) if not a.m.isset else lvof(x, 0) for x in items)
    s, i = seqpos(a)
    _, j = seqpos(b)
    return elems(E, s, i, j)


def range_or_pair(E, args):
    """Elements of a range argument or of an iterator pair; returns (elements, rest, seq, start)"""
    a = args[0]
    if isinstance(a, Ref):
        a = E.val(a)
    if isinstance(a, (It, Ptr)) and not (isinstance(a, Ptr) and len(args) == 1):
        s, i = seqpos(a)
        return rng2(E, a, args[1]), args[2:], s, i
    if isinstance(a, MapIt):
        return rng2(E, a, args[1]), args[2:], a.m, 0
    s = seq_of(a)
    return iterate(E, s), args[1:], s, 0


def is_functor(x):
    return isinstance(x, (Closure, StdOp, FnObj, FnRef)) or (isinstance(x, Opaque) and x.q in ("std::ranges::less",))


def algo(names):
    return intr(*(["std::" + n for n in names] + ["std::ranges::" + n for n in names] +
                  ["std::ranges::__%s_fn::operator()" % n for n in names] + ["std::ranges::_" + n.title() + "::operator()" for n in names]))


@intr("std::accumulate", "std::reduce")
def std_accumulate(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    rt = E.ty(fn["ret"])
    acc = E.val(rest[0]) if isinstance(rest[0], Ref) else rest[0]
    for x in es:
        if len(rest) > 1:
            acc = apply(E, rest[1], [acc if isinstance(acc, (Obj, Intrinsic)) else Cell(acc), x])
            if rt.k == "int" and concrete(acc):
                acc = E.wrap(acc, rt)
            elif rt.k == "int" and rt.w < 64:
                lo = -(1 << (rt.w - 1)) if rt.s else 0
                ok = And(acc >= lo, acc < lo + (1 << rt.w))
                E.ctx.prove("an accumulated value fits the type it is accumulated in", ok)
                E.ctx.assume(ok)
        elif isinstance(acc, Str):
            acc = Str(concat(acc.v, strval(E, x)))
        else:
            acc = E.arith("+", acc, E.val(x), rt)
    return acc


@algo(["find", "find_if", "find_if_not"])
def std_find(E, o, args, fn, e):
    rangecall = "ranges" in fn["q"]
    es, rest, s, i = range_or_pair(E, args)
    q = fn["q"]
    name = "find_if_not" if "find_if_not" in q else "find_if" if "find_if" in q else "find"
    k = i
    for x in es:
        if name == "find":
            v = E.val(rest[0]) if isinstance(rest[0], Ref) else rest[0]
            c = value_eq(E, x, v)
        else:
            c = E.tobool(apply(E, rest[0], [x]))
            if name == "find_if_not":
                c = Not(c)
        if E.istrue(c):
            break
        k += 1
    if isinstance(s, Map):
        raise Unsupported("find over a map")
    if isinstance(args[0], Ptr) or isinstance(s, (InitList, Arr, CArr)):
        return Ptr(s, k)
    return It(s, k)


@algo(["any_of", "all_of", "none_of"])
def std_anyof(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    q = fn["q"]
    anyq = "any_of" in q
    allq = "all_of" in q
    for x in es:
        c = E.istrue(apply(E, rest[0], [x]))
        if c and not allq:
            return anyq
        if not c and allq:
            return False
    return True if not anyq else False


@algo(["count_if", "count"])
def std_count(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    n = 0
    byif = "count_if" in fn["q"]
    for x in es:
        c = E.tobool(apply(E, rest[0], [x])) if byif else value_eq(E, x, rest[0])
        n = simp(lift(n) + lift(If(c, 1, 0)))
    return n


@algo(["for_each"])
def std_foreach(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    for x in es:
        apply(E, rest[0], [x])
    return rest[0]


@algo(["adjacent_find"])
def std_adjacent(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    es = list(es)
    for k in range(len(es) - 1):
        c = apply(E, rest[0], [es[k], es[k + 1]]) if rest else value_eq(E, es[k], es[k + 1])
        if E.istrue(c):
            return Ptr(s, i + k) if isinstance(args[0], Ptr) else It(s, i + k)
    return Ptr(s, i + len(es)) if isinstance(args[0], Ptr) else It(s, i + len(es))


class Inserter(Intrinsic):
    def __init__(self, c, pos=None, back=False):
        self.c = c
        self.pos = pos
        self.back = back

    def copy(self, E):
        return self

    def put(self, E, v):
        c = self.c
        if isinstance(c, Map):
            map_insert(E, c, v)
        elif self.pos is not None and not self.back:
            c.items.insert(self.pos, v)
            self.pos += 1
        else:
            c.items.append(v)


@intr("std::back_inserter")
def std_back_inserter(E, o, args, fn, e):
    return Inserter(seq_of(args[0]), back=True)


@intr("std::inserter")
def std_inserter(E, o, args, fn, e):
    c = seq_of(args[0])
    return Inserter(c, seqpos(args[1])[1] if not isinstance(c, Map) else None)


for _n in ("std::back_insert_iterator", "std::insert_iterator"):
    CONSTRUCT[_n] = lambda E, t, args, fn, e: args[0]


def put_out(E, out, k, v):
    if isinstance(out, Inserter):
        out.put(E, E.copy_value(v))
        return
    s, i = seqpos(out)
    lv = elem(E, s, simp(lift(i) + k))
    if isinstance(lv, Ref):
        lv.set(E.val(v) if isinstance(v, Ref) else v)
    else:
        assign(E, lv, v)


def out_end(E, out, n):
    if isinstance(out, Inserter):
        return out
    s, i = seqpos(out)
    k = simp(lift(i) + n)
    return Ptr(s, k) if isinstance(out, Ptr) else It(s, k)


def val0(E, x):
    return E.val(x) if isinstance(x, Ref) else x


@algo(["transform"])
def std_transform(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    if len(rest) >= 3 and not isinstance(rest[1], (Closure, FnObj)):
        # binary: [first2,] out, f
        second, out, f = rest[0], rest[1], rest[2]
        s2, j = seqpos(second)
        n = 0
        for x in es:
            y = elem(E, s2, simp(lift(j) + n))
            put_out(E, out, n, apply(E, f, [x, y]))
            n += 1
        return out_end(E, out, n)
    out, f = rest[0], rest[1]
    out = val0(E, out)
    n = 0
    for x in es:
        put_out(E, out, n, apply(E, f, [x]))
        n += 1
    return out_end(E, out, n)


@algo(["copy", "copy_n"])
def copy_algo(E, o, args, fn, e):
    if "copy_n" in fn["q"]:
        s, i = seqpos(args[0])
        n = E.val(args[1])
        es, out = elems(E, s, i, simp(lift(i) + lift(n))), args[2]
    else:
        es, rest, s, i = range_or_pair(E, args)
        out = rest[0]
    k = 0
    for x in es:
        put_out(E, out, k, val0(E, x))
        k += 1
    return out_end(E, out, k)


@algo(["fill", "fill_n"])
def std_fill(E, o, args, fn, e):
    if "fill_n" in fn["q"]:
        s, i = seqpos(args[0])
        n = E.val(args[1])
        es, v = elems(E, s, i, simp(lift(i) + lift(n))), args[2]
    else:
        a0 = args[0]
        if isinstance(a0, It) or isinstance(a0, Ptr):
            s, i = seqpos(args[0])
            _, j = seqpos(args[1])
            if isinstance(s, Seq) and s.items is None and i == 0 and eq(j, s.n) is True:
                x = val0(E, args[2])
                s.fn = lambda k: x
                return None
        es, rest, s, i = range_or_pair(E, args)
        v = rest[0]
    for x in es:
        if isinstance(x, Ref):
            x.set(val0(E, v))
        else:
            assign(E, x, v)


@algo(["equal"])
def std_equal(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    es = list(es)
    if isinstance(rest[0], (It, Ptr)):
        s2, j = seqpos(rest[0])
        if len(rest) > 1 and isinstance(rest[1], (It, Ptr)):
            other = list(rng2(E, rest[0], rest[1]))
            pred = rest[2:]
            if len(other) != len(es):
                return False
        else:
            other = [elem(E, s2, simp(lift(j) + k)) for k in range(len(es))]
            pred = rest[1:]
    else:
        other = list(iterate(E, seq_of(rest[0])))
        pred = rest[1:]
        if len(other) != len(es):
            return False
    r = True
    for x, y in zip(es, other):
        c = apply(E, pred[0], [x, y]) if pred else value_eq(E, x, y)
        r = And(r, E.tobool(c))
    return simp(r)


@algo(["sort", "stable_sort"])
def std_sort(E, o, args, fn, e):
    import functools

    es, rest, s, i = range_or_pair(E, args)
    n = len(list(es))
    part = s.items[i:i + n]

    def less(a, b):
        def w(x):
            return x if isinstance(x, (Obj, Intrinsic)) else Cell(x)

        if rest and is_functor(val0(E, rest[0])) and not isinstance(rest[0], Opaque):
            return E.istrue(apply(E, rest[0], [w(a), w(b)]))
        if isinstance(a, Str):
            if concrete(a.v) and concrete(b.v):
                return a.v < b.v
            return E.istrue(simp(lift(a.v) < lift(b.v)))
        return E.istrue(E.compare("<", a, b))

    # insertion sort (few comparisons on symbolic values)
    out = []
    for x in part:
        k = len(out)
        while k > 0 and less(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    s.items[i:i + n] = out


@algo(["reverse"])
def std_reverse(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    n = len(list(es))
    s.items[i:i + n] = s.items[i:i + n][::-1]


@algo(["iota"])
def std_iota(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    v = E.val(rest[0])
    for k, x in enumerate(es):
        x.set(simp(lift(v) + k))


@algo(["set_difference", "set_union", "set_intersection"])
def std_setdiff(E, o, args, fn, e):
    op = [n for n in ("set_difference", "set_union", "set_intersection") if n in fn["q"]][0]
    if isinstance(args[0], (It, MapIt, Ptr)):
        A = [val0(E, x) for x in rng2(E, args[0], args[1])]
        B = [val0(E, x) for x in rng2(E, args[2], args[3])]
        out = args[4]
    else:
        A = [val0(E, x) for x in iterate(E, args[0])]
        B = [val0(E, x) for x in iterate(E, args[1])]
        out = args[2]

    def isin(x, L):
        return any(E.istrue(value_eq(E, x, y)) for y in L)

    if op == "set_difference":
        r = [x for x in A if not isin(x, B)]
    elif op == "set_intersection":
        r = [x for x in A if isin(x, B)]
    else:
        r = A + [x for x in B if not isin(x, A)]
    for k, x in enumerate(r):
        put_out(E, out, k, x)
    return out


@algo(["contains"])
def std_contains(E, o, args, fn, e):
    es, rest, s, i = range_or_pair(E, args)
    for x in es:
        if E.istrue(value_eq(E, x, rest[0])):
            return True
    return False


@intr("std::distance", "std::ranges::distance")
def std_distance(E, o, args, fn, e):
    if len(args) == 1:
        return simp(seq_of(args[0]).size)
    return simp(lift(seqpos(args[1])[1]) - lift(seqpos(args[0])[1]))


@intr("std::next", "std::prev")
def std_next(E, o, args, fn, e):
    a = args[0]
    n = E.val(args[1]) if len(args) > 1 else 1
    if fn["name"] == "prev":
        n = -n
    if isinstance(a, MapIt):
        raise Unsupported("next on a map iterator")
    s, i = seqpos(a)
    k = simp(lift(i) + lift(n))
    return Ptr(s, k) if isinstance(a, Ptr) else It(s, k)


@intr("std::to_string")
def std_tostring(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        if isinstance(v, bool):
            v = int(v)
        return Str(str(v) if not isinstance(v, Fraction) else "%f" % float(v))
    t = E.ty(fn["ptypes"][0])
    if v.sort() == z3.IntSort():
        return Str(simp(z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v)))))
    raise Unsupported("to_string")


@intr("std::format")
def std_format(E, o, args, fn, e):
    f = getattr(args[0], "v", None)
    if isinstance(args[0], Opaque) and f is None:
        return Str("?")
    if f is None or not concrete(f):
        return Str("?")
    out = ""
    i = 0
    k = 1
    n = len(f)
    try:
        while i < n:
            if f[i] == "{":
                if i + 1 < n and f[i + 1] == "{":
                    out = concat(out, "{")
                    i += 2
                    continue
                j = f.index("}", i)
                a = args[k]
                k += 1
                a = E.val(a) if isinstance(a, Ref) else a
                if isinstance(a, (Str, StrLit, CStr, Path)):
                    out = concat(out, strval(E, a))
                elif isinstance(a, bool):
                    out = concat(out, "true" if a else "false")
                elif isinstance(a, int):
                    out = concat(out, str(a))
                elif is_sym(a) and a.sort() == z3.IntSort():
                    out = concat(out, z3.IntToStr(a))
                else:
                    out = concat(out, "?")
                i = j + 1
            elif f[i] == "}":
                out = concat(out, "}")
                i += 2
            else:
                out = concat(out, f[i])
                i += 1
    except (IndexError, ValueError):
        return Str("?")
    return Str(out)


@intr("memcpy", "std::memcpy")
def memcpy(E, o, args, fn, e):
    d, s, n = args[0], args[1], E.val(args[2])
    n = simp(n)
    if not concrete(n):
        raise Unsupported("memcpy of a symbolic number of bytes")
    if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.i is not None and s.i is not None):
        raise Unsupported("memcpy")
    for q in (d, s):
        ok = simp(And(lift(q.i) >= 0, lift(q.i) + n <= lift(q.t.size)))
        E.ctx.prove("memcpy stays inside its buffers", ok, at=E.where())
        E.ctx.assume(ok)
        if getattr(q.t.et, "w", 8) != 8 if q.t.et is not None else False:
            raise Unsupported("memcpy between types")
    vals = [E.val(s.t.get_at(simp(lift(s.i) + k))) for k in range(n)]
    for k, v in enumerate(vals):
        d.t.set_at(simp(lift(d.i) + k), v)
    return d


# version.cpp, which CMake generates
GENERATED = {
    "lue::version": lambda E, o, a, fn: Str("0.3.11"),
    "lue::gdal::version": lambda E, o, a, fn: Str("3.8.4"),
    "lue::sha1": lambda E, o, a, fn: Str("0" * 40),
    "lue::short_sha1": lambda E, o, a, fn: Str("0" * 8),
    "lue::hdf5_version": lambda E, o, a, fn: Str("1.10.10")}


@intr("__assert_fail")
def assert_fail(E, o, args, fn, e):
    msg = safe_str(E, args[0])
    if E.check_asserts == "refuse":  # ending the process is an accepted way of refusing
        raise CppThrow(None, "assertion", msg)
    if E.check_asserts and getattr(E.world, "failed", None) is None:  # after an injected failure, aborting reports it
        E.ctx.prove("assertion in %s" % E.where().split("::")[-1], False, at=E.where(), assertion=msg)
    raise Infeasible()


@intr("strcpy", "std::strcpy")
def c_strcpy(E, o, args, fn, e):
    """The characters and the terminating null, into a buffer that has room for them"""
    d = E.val(args[0])
    t = strval(E, args[1])
    if not isinstance(d, Ptr) or not isinstance(d.t, Buf) or d.i not in (0, None):
        raise Unsupported("strcpy")
    n = len(t) if concrete(t) else z3.Length(t)
    E.ctx.prove("strcpy stays inside its buffer", lift(d.t.size) >= lift(n) + 1, at=E.where())
    if not concrete(t) or not concrete(d.t.size):
        raise Unsupported("strcpy of symbolic text")
    d.t.items = [ord(c) for c in t] + [0] + [UNDEF] * (d.t.size - len(t) - 1)
    return d


@intr("strlen")
def c_strlen(E, o, args, fn, e):
    s = strval(E, args[0])
    return len(s) if concrete(s) else z3.Length(s)


@intr("tolower", "std::tolower")
def c_tolower(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        return ord(chr(v).lower()) if v < 128 else v
    return simp(z3.If(z3.And(v >= 65, v <= 90), v + 32, v))


@intr("toupper", "std::toupper")
def c_toupper(E, o, args, fn, e):
    v = E.val(args[0])
    if concrete(v):
        return ord(chr(v).upper()) if v < 128 else v
    return simp(z3.If(z3.And(v >= 97, v <= 122), v - 32, v))


@intr("std::basic_ostream::operator<<", "std::operator<<")
def os_out(E, o, args, fn, e):
    if o is None:
        o, args = args[0], args[1:]
    if isinstance(o, Oss):
        a = E.val(args[0]) if isinstance(args[0], Ref) else args[0]
        if isinstance(a, int):
            o.v = concat(o.v, str(a))
        elif is_sym(a) and a.sort() == z3.IntSort():
            o.v = concat(o.v, z3.IntToStr(a))
        else:
            o.v = concat(o.v, safe_str(E, a))
        return o
    raise Unsupported("stream output")


@intr("std::basic_ostringstream::str", "std::basic_stringstream::str")
def oss_str(E, o, args, fn, e):
    return Str(o.v)


@intr("boost::algorithm::split")
def boost_split(E, o, args, fn, e):
    out, s = args[0], args[1]
    v = strval(E, s)
    pred = args[2]
    if not concrete(v):
        out.items = [Str(t) for t in split_leaves(E, v, pred)]
        return out
    toks = [""]
    for c in v:
        if E.istrue(apply_pred(E, pred, ord(c))):
            toks.append("")
        else:
            toks[-1] += c
    out.items = [Str(t) for t in toks]
    return out


def segment(E, x):
    """Whether a symbolic string is known to be a name: not empty, and without slashes"""
    return x.get_id() in getattr(E.ctx, "segments", {})


def split_leaves(E, v, pred):
    """Parts of a concatenation of literals and symbolic strings, none of which has a character that separates"""
    toks = [""]
    for x in leaves(v):
        if z3.is_string_value(x):
            t = x.as_string()
            if "\\u" in t:
                raise Unsupported("split of a symbolic string")
            for c in t:
                if E.istrue(apply_pred(E, pred, ord(c))):
                    toks.append("")
                else:
                    toks[-1] = concat(toks[-1], c)
            continue
        # characters that separate are slashes, and there are none
        x_free = segment(E, x)
        c = E.ctx.fresh("character", lo=0, hi=127, report=False)
        r = apply_pred(E, pred, c)
        if not (E.ctx.entails(Implies(c != 47, Not(r))) and (x_free or E.ctx.entails(Not(z3.Contains(x, z3.StringVal("/")))))):
            raise Unsupported("split of a symbolic string")
        toks[-1] = concat(toks[-1], x)
    return toks


def apply_pred(E, p, c):
    if isinstance(p, IsAny):
        return chr(c) in p.v
    return E.call_callable(p, [Cell(c)])


class IsAny(Intrinsic):
    def __init__(self, v):
        self.v = v


@intr("boost::algorithm::is_any_of", "boost::is_any_of")
def boost_isany(E, o, args, fn, e):
    return IsAny(strval(E, args[0]))


@intr("std::filesystem::path::string", "std::filesystem::path::native", "std::filesystem::path::c_str",
      "std::filesystem::path::generic_string")
def path_string(E, o, args, fn, e):
    return CStr(o.v) if fn["name"] == "c_str" else Str(o.v)


def leaves(v):
    """The strings a string is the concatenation of"""
    parts = []

    def flat(x):
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
            for c in x.children():
                flat(c)
        else:
            parts.append(x)

    flat(lift(simp(lift(v))))
    return parts


def path_split(E, v):
    """Position of the last slash: what is before it, and what comes after it"""
    parts = [x.as_string() if z3.is_string_value(x) else x for x in leaves(v)]
    last = ""
    while parts:
        x = parts.pop()
        if not is_sym(x):
            if "\\u" in x:
                raise Unsupported("path operation on a symbolic string")
            if "/" in x:
                a, b = x.rsplit("/", 1)
                if a.endswith("/"):
                    raise Unsupported("path operation on a symbolic string")
                head = a
                for y in reversed(parts):
                    head = concat(y, head)
                return head, concat(b, last)
        elif not segment(E, x) and not E.ctx.entails(Not(z3.Contains(x, z3.StringVal("/")))):
            raise Unsupported("path operation on a symbolic string")
        last = concat(x, last)
    return None, last


def _cpath(f):
    def h(E, o, args, fn, e):
        if not concrete(o.v):
            if fn["name"] in ("parent_path", "has_parent_path", "filename") and not args:
                head, last = path_split(E, o.v)
                if fn["name"] == "filename":
                    return Path(last)
                if head is not None and is_sym(head) and not E.ctx.entails(Not(eq(head, ""))):
                    raise Unsupported("path operation on a symbolic string")
                head = "" if head is None else "/" if not is_sym(head) and head == "" else head
                return Path(head) if fn["name"] == "parent_path" else is_sym(head) or head != ""
            if fn["name"] == "is_absolute":
                ps = leaves(o.v)
                if z3.is_string_value(ps[0]) and ps[0].as_string():
                    return ps[0].as_string().startswith("/")
                if segment(E, ps[0]):
                    return False
                return simp(z3.PrefixOf(z3.StringVal("/"), o.v))
            if fn["name"] == "empty":
                return simp(eq(o.v, ""))
            raise Unsupported("path operation on a symbolic string")
        return f(o.v, *[strval(E, a) for a in args])

    return h


def _parent(v):
    d = v.rsplit("/", 1)
    if len(d) == 1:
        return ""
    p = d[0]
    while p.endswith("/"):
        p = p[:-1]
    return p if p else "/"


def _ext(v):
    n = v.rsplit("/", 1)[-1]
    if n in (".", "..") or "." not in n[1:]:
        return ""
    return "." + n.rsplit(".", 1)[1]


INTR["std::filesystem::path::parent_path"] = _cpath(lambda v: Path(_parent(v)))
INTR["std::filesystem::path::has_parent_path"] = _cpath(lambda v: bool(_parent(v)))
INTR["std::filesystem::path::filename"] = _cpath(lambda v: Path(v.rsplit("/", 1)[-1]))
INTR["std::filesystem::path::extension"] = _cpath(lambda v: Path(_ext(v)))
INTR["std::filesystem::path::is_absolute"] = _cpath(lambda v: v.startswith("/"))
INTR["std::filesystem::path::empty"] = _cpath(lambda v: v == "")
INTR["std::filesystem::path::stem"] = _cpath(lambda v: Path(v.rsplit("/", 1)[-1][:len(v.rsplit("/", 1)[-1]) - len(_ext(v))]))


def _join(a, b, E=None):
    if E is not None and not (concrete(a) and concrete(b)):
        ps = leaves(b)
        if z3.is_string_value(ps[0]) and ps[0].as_string():
            first = ps[0].as_string().startswith("/")
        else:
            first = False if segment(E, ps[0]) else simp(z3.PrefixOf(z3.StringVal("/"), lift(b)))
        if E.istrue(first):
            return b
        ps = leaves(a)
        if concrete(a):
            return concat(a, b) if not a or a.endswith("/") else concat(a + "/", b)
        if z3.is_string_value(ps[-1]):
            return concat(a, b) if ps[-1].as_string().endswith("/") else concat(concat(a, "/"), b)
        if segment(E, ps[-1]):
            return concat(concat(a, "/"), b)
        slash = simp(z3.SuffixOf(z3.StringVal("/"), lift(a)))
        if E.istrue(And(Not(eq(a, "")), Not(slash))):
            return concat(concat(a, "/"), b)
        return concat(a, b)
    if b.startswith("/"):
        return b
    if a and not a.endswith("/"):
        return a + "/" + b
    return a + b


@intr("std::filesystem::path::operator/=", "std::filesystem::operator/")
def path_join(E, o, args, fn, e):
    if o is None:
        return Path(_join(strval(E, args[0]), strval(E, args[1]), E))
    o.v = _join(o.v, strval(E, args[0]), E)
    return o


class FileStatus(Intrinsic):
    def __init__(self, v):
        self.v = v

    def copy(self, E):
        return FileStatus(self.v)


def fs_kind(E, a):
    """What is at a path: none, regular, directory"""
    a = E.val(a) if isinstance(a, Ref) else a
    if isinstance(a, FileStatus):
        return a.v
    if E.world is None or not hasattr(E.world, "fs_kind"):
        raise Unsupported("file system")
    if E.world.mayfail("stat"):
        raise CppThrow(None, "std::filesystem::filesystem_error", "stat")
    return E.world.fs_kind(strval(E, a))


@intr("std::filesystem::status")
def fs_status(E, o, args, fn, e):
    return FileStatus(fs_kind(E, args[0]))


@intr("std::filesystem::is_regular_file", "std::filesystem::exists", "std::filesystem::is_directory")
def fs_is(E, o, args, fn, e):
    if len(args) != 1:
        raise Unsupported("file system")
    k = fs_kind(E, args[0])
    return {"is_regular_file": k == "regular", "exists": k != "none", "is_directory": k == "directory"}[fn["name"]]


@intr("std::filesystem::remove")
def fs_remove(E, o, args, fn, e):
    if len(args) != 1 or E.world is None or not hasattr(E.world, "fs_remove"):
        raise Unsupported("file system")
    if E.world.mayfail("unlink"):
        raise CppThrow(None, "std::filesystem::filesystem_error", "unlink")
    return E.world.fs_remove(strval(E, args[0]))


def method_fallback(E, q, o, name):
    return None


def global_var(E, q):
    if q.endswith("nullopt") or q.endswith("::none"):
        return Opaque("nullopt")
    if q.startswith("std::ranges::"):
        return Opaque(q)
    return None


def dyncast(E, v, t):
    v = E.val(v) if isinstance(v, Ref) else v
    raise Unsupported("dynamic_cast")


@intr("pow", "std::pow")
def std_pow(E, o, args, fn, e):
    x, p = E.val(args[0]), E.val(args[1])
    if concrete(x) and concrete(p) and Fraction(p).denominator == 1 and abs(p) < 100:
        return Fraction(x) ** int(p)
    if concrete(p) and Fraction(p) == 1:
        return x
    if concrete(p) and Fraction(p) in (2, 3):
        return simp(lift(x) ** int(p)) if False else simp(lift(x) * lift(x) * (lift(x) if p == 3 else 1))
    y = E.ctx.fresh("power", "real", report=False)
    # contract: positive, and between one and the base for exponents between zero and one
    E.ctx.assume(z3.Implies(lift(x) > 0, y > 0))
    E.ctx.assume(z3.Implies(z3.And(lift(x) >= 1, lift(p) >= 0, lift(p) <= 1), z3.And(y >= 1, y <= lift(x))))
    E.ctx.assume(z3.Implies(z3.And(lift(x) >= 1, lift(p) >= 1), y >= lift(x)))
    E.ctx.rec.assumptions.add("std::pow: only sign and monotonicity are assumed")
    return y
