"""Symbolic execution of the exported C++ AST.

Class-type glvalues are Python objects with identity; scalars live in Ref objects (Cell, FieldRef, ElemRef).
"""
from fractions import Fraction

import z3

from .prog import strip_targs
from .smt import (And, If, Implies, Infeasible, Not, Or, Unsupported, concrete, eq, is_sym, lift, simp)


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Ref:
    __slots__ = ()


class Cell(Ref):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FieldRef(Ref):
    __slots__ = ("o", "key")

    def __init__(self, o, key):
        self.o = o
        self.key = key

    def get(self):
        return self.o.f[self.key]

    def set(self, v):
        self.o.f[self.key] = v

    def __eq__(self, b):
        return isinstance(b, FieldRef) and b.o is self.o and b.key == self.key

    def __hash__(self):
        return hash((id(self.o), self.key))


class ElemRef(Ref):
    """Element i (concrete or symbolic) of a sequence object with get_at/set_at"""

    __slots__ = ("seq", "i")

    def __init__(self, seq, i):
        self.seq = seq
        self.i = i

    def get(self):
        return self.seq.get_at(self.i)

    def set(self, v):
        self.seq.set_at(self.i, v)


class RefHolder:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Ptr:
    """Pointer to an object or Ref (idx None) or into a sequence"""

    __slots__ = ("t", "i")

    def __init__(self, t, i=None):
        self.t = t
        self.i = i

    def __repr__(self):
        return "Ptr(%r,%r)" % (self.t, self.i)


class CStr:
    """const char* to constant contents"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "CStr(%r)" % (self.v,)


class FnRef:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class BoundMethod:
    __slots__ = ("fn", "this")

    def __init__(self, fn, this):
        self.fn = fn
        self.this = this


class Obj:
    """Instance of a class of the repository"""

    __slots__ = ("rec", "f", "dead", "ghost")

    def __init__(self, rec):
        self.rec = rec  # record id
        self.f = {}
        self.dead = False
        self.ghost = None

    def __repr__(self):
        return "<%s>" % self.rec


class Intrinsic:
    """Base of modelled library objects"""

    def copy(self, E):
        raise Unsupported("copy of %s" % type(self).__name__)

    def move(self, E):
        return self.copy(E)

    def destroy(self, E):
        pass

    def assign(self, E, o, move=False):
        raise Unsupported("assignment of %s" % type(self).__name__)


class Closure:
    __slots__ = ("fn", "env", "this", "tu")

    def __init__(self, fn, env, this, tu):
        self.fn = fn
        self.env = env
        self.this = this
        self.tu = tu


class CppThrow(Exception):
    def __init__(self, v, tname, msg=None):
        Exception.__init__(self, tname)
        self.v = v
        self.tname = tname
        self.msg = msg


class Frame:
    __slots__ = ("fn", "tu", "env", "this", "scopes", "temps")

    def __init__(self, fn, tu, env, this):
        self.fn = fn
        self.tu = tu
        self.env = env
        self.this = this
        self.scopes = []
        self.temps = []


EXC_BASES = {
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
    "std::domain_error": ["std::logic_error"], "std::length_error": ["std::logic_error"],
    "std::bad_alloc": ["std::exception"], "std::bad_function_call": ["std::exception"],
    "std::bad_optional_access": ["std::exception"], "std::exception": [],
}


def exc_isa(t, target):
    if t == target:
        return True
    return any(exc_isa(b, target) for b in EXC_BASES.get(t, ["std::exception"] if t != "std::exception" else []))


class Interp:
    MAXDEPTH = 120

    def __init__(self, ctx, prog, world=None):
        self.ctx = ctx
        self.prog = prog
        self.world = world
        self.intr = {}
        self.depth = 0
        self.fr = None
        self.loop_bound = 3
        self.induct = True
        self.each = False
        self.loop_specs = {}
        self.statics = {}
        self.globals = {}
        self.trace_calls = None
        self.no_contract = set()
        self.check_asserts = True
        self.check_overflow = False
        self.divs = []  # quotients of symbolic numbers computed so far
        from . import stdlib

        self.std = stdlib
        self.contracts = dict(stdlib.GENERATED)
        self.intr.update(stdlib.INTR)

    # ------------------------------------------------------------------ helpers
    def val(self, x):
        if isinstance(x, Ref):
            v = x.get()
            if v is UNDEF:
                self.ctx.prove("no uninitialised read", False, at=self.where())
                raise Infeasible()
            if isinstance(v, RefHolder):
                return self.val(v.lv)
            return v
        return x

    def where(self):
        fr = self.fr
        return "%s" % (fr.fn["q"] if fr and fr.fn else "?")

    def throw(self, tname, msg=""):
        raise CppThrow(self.std.Exc(tname, msg), tname, msg)

    def contains(self, t, u):
        """Every value of integer type u is a value of integer type t"""
        if t.k != "int" or u.k not in ("int", "bool"):
            return False
        if u.k == "bool":
            return True
        if bool(t.s) == bool(u.s):
            return u.w <= t.w
        return bool(t.s) and u.w < t.w

    def wrap(self, v, t):
        """Conversion of an integer value to integer type t"""
        if isinstance(v, Fraction):
            v = int(v)
        if t.k == "bool":
            return self.tobool(v)
        if t.k == "enum":
            return v
        w, s = t.w, t.s
        lo = -(1 << (w - 1)) if s else 0
        hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        if concrete(v):
            v = int(v)
            if lo <= v <= hi:
                return v
            v &= (1 << w) - 1
            if s and v >= (1 << (w - 1)):
                v -= 1 << w
            return v
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if self.ctx.entails(z3.And(v >= lo, v <= hi)):
            return v
        m = 1 << w
        if s:
            return simp(z3.If(z3.And(v >= lo, v <= hi), v, ((v + (1 << (w - 1))) % m) - (1 << (w - 1))))
        return simp(z3.If(z3.And(v >= lo, v <= hi), v, v % m))

    def tobool(self, v):
        v = self.val(v)
        if concrete(v):
            if v is None:
                return False
            if isinstance(v, (Ptr, CStr, FnRef, Closure, Obj)):
                return True
            if isinstance(v, self.std.OPtr):
                return v.tobool(self)
            return bool(v)
        if v.sort() == z3.BoolSort():
            return v
        return simp(v != 0)

    def istrue(self, v):
        v = self.tobool(v)
        if concrete(v):
            return v
        return self.ctx.branch(v)

    # ------------------------------------------------------------------ objects
    def record(self, rid):
        r = self.prog.records.get(rid)
        return r

    def new_obj(self, rid):
        o = Obj(rid)
        return o

    def is_repo_rec(self, t):
        if t.k != "rec":
            return False
        r = self.prog.records.get(t.id)
        if r is None:
            return False
        return bool(r[1].get("repo"))

    def default_value(self, t):
        """zero/default initialisation"""
        if t.k in ("int", "enum", "float"):
            return 0 if t.k != "float" else Fraction(0)
        if t.k == "bool":
            return False
        if t.k == "ptr":
            return None
        if t.k == "rec":
            return self.default_construct(t)
        if t.k == "arr":
            return self.std.CArr([self.default_value(t.e) for _ in range(t.d["len"])], t.e)
        raise Unsupported("default value of %s" % t.name)

    def undef_value(self, t):
        if t.k == "rec":
            return self.default_construct(t)
        if t.k == "arr":
            return self.std.CArr([self.undef_value(t.e) for _ in range(t.d["len"])], t.e)
        return UNDEF

    def default_construct(self, t):
        if not self.is_repo_rec(t):
            return self.std.construct(self, t, None, [])
        tu, r = self.prog.records[t.id]
        # user or implicit default constructor
        for f in self.ctors(t.id):
            if f.get("default") and (f.get("body") is not None or f.get("inits") is not None) and not f.get("params"):
                o = Obj(t.id)
                self.run_ctor(f, o, [])
                return o
        o = Obj(t.id)
        for b in r.get("bases", []):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                bo = self.default_construct(bt)
                o.f.update(bo.f)
            else:
                o.f[("base", bt.id)] = self.std.construct(self, bt, None, [])
        for fd in r.get("fields", []):
            ft = tu.type(fd["t"])
            key = (t.id, fd["name"])
            if "init" in fd:
                o.f[key] = self.init_in(tu, ft, fd["init"], o)
            else:
                o.f[key] = self.undef_value(ft)
        return o

    def init_in(self, tu, t, e, this):
        old = self.fr
        self.fr = Frame(old.fn if old else {"q": "?"}, tu, {}, this)
        try:
            return self.init_value(t, e)
        finally:
            self.fr = old

    def ctors(self, rid):
        r = getattr(self.prog, "_ctors", None)
        if r is None:
            r = self.prog._ctors = {}
            for f in self.prog.fns.values():
                if f.get("kind") == "ctor":
                    c = f["_tu"].type(f["cls"]).id
                    r.setdefault(c, []).append(f)
        return r.get(rid, [])

    def copy_value(self, v):
        if isinstance(v, Ref):
            return self.val(v)
        if isinstance(v, Intrinsic):
            return v.copy(self)
        if isinstance(v, Obj):
            return self.copy_obj(v)
        if isinstance(v, Closure):
            return v
        return v

    def move_value(self, v):
        if isinstance(v, Intrinsic):
            return v.move(self)
        if isinstance(v, Obj):
            return self.move_obj(v)
        return v

    def copy_obj(self, o, rid=None):
        rid = rid or o.rec
        for f in self.ctors(rid):
            if f.get("copy") and not f.get("deleted") and (f.get("body") is not None or f.get("inits") is not None):
                n = Obj(rid)
                self.invoke_ctor(f, n, [o])
                return n
        return self.memberwise(o, rid, self.copy_value)

    def move_obj(self, o, rid=None):
        rid = rid or o.rec
        for f in self.ctors(rid):
            if f.get("move") and not f.get("deleted") and (f.get("body") is not None or f.get("inits") is not None):
                n = Obj(rid)
                self.invoke_ctor(f, n, [o])
                return n
        return self.memberwise(o, rid, self.move_value)

    def memberwise(self, o, rid, op):
        tu, r = self.prog.records[rid]
        n = Obj(rid)
        for b in r.get("bases", []):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                bo = self.copy_obj(o, bt.id) if op == self.copy_value else self.move_obj(o, bt.id)
                n.f.update(bo.f)
            else:
                n.f[("base", bt.id)] = op(o.f[("base", bt.id)])
        for fd in r.get("fields", []):
            key = (rid, fd["name"])
            v = o.f.get(key, UNDEF)
            n.f[key] = v if isinstance(v, RefHolder) else op(v)
        n.ghost = o.ghost
        return n

    def all_fields(self, rid):
        """(key, T) of all fields including those of bases, in construction order"""
        tu, r = self.prog.records[rid]
        out = []
        for b in r.get("bases", []):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                out += self.all_fields(bt.id)
            else:
                out.append((("base", bt.id), bt))
        for fd in r.get("fields", []):
            out.append(((rid, fd["name"]), tu.type(fd["t"])))
        return out

    def destroy(self, v):
        if isinstance(v, Obj):
            if v.dead:
                return
            v.dead = True
            self.destroy_obj(v, v.rec)
        elif isinstance(v, Intrinsic):
            v.destroy(self)

    def destroy_obj(self, o, rid):
        ent = self.prog.records.get(rid)
        if ent is None:
            return
        tu, r = ent
        c = self.contracts.get(("dtor", rid))
        if c is not None:
            c(self, o)
            return
        if r.get("dtor_user"):
            f = self.prog.fns.get(r.get("dtor"))
            if f is None or f.get("body") is None:
                if f is None or not f.get("defaulted"):
                    raise Unsupported("destructor of %s has no body" % rid)
            else:
                self.run_body(f, o, [])
        for fd in reversed(r.get("fields", [])):
            v = o.f.get((rid, fd["name"]))
            if isinstance(v, (Obj, Intrinsic)):
                ft = tu.type(fd["t"])
                if ft.k not in ("ref", "ptr"):
                    self.destroy(v)
        for b in reversed(r.get("bases", [])):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                self.destroy_obj(o, bt.id)
            else:
                v = o.f.get(("base", bt.id))
                if v is not None:
                    self.destroy(v)

    def base_part(self, o, t):
        """o converted to base type t"""
        if isinstance(o, Obj) and t.k == "rec" and not self.is_repo_rec(t):
            k = ("base", t.id)
            if k in o.f:
                return o.f[k]
        return o

    # ------------------------------------------------------------------ calls
    def call(self, fid, this=None, args=()):
        """Call by id or function dict from a specification"""
        f = fid if isinstance(fid, dict) else self.prog.fns[fid]
        if f.get("kind") == "ctor":
            raise Unsupported("use construct")
        return self.invoke(f, this, list(args))

    def construct(self, q, args, pred=None, n=None):
        fs = self.prog.find(q, n if n is not None else len(args), pred)
        if len(fs) != 1:
            raise Unsupported("constructor %s: %d candidates" % (q, len(fs)))
        f = fs[0]
        o = Obj(f["_tu"].type(f["cls"]).id)
        self.invoke_ctor(f, o, list(args))
        return o

    def method(self, o, name, args=(), pred=None):
        rid = o.rec
        f = self.find_method(rid, name, len(args), pred)
        return self.invoke(f, o, list(args))

    def find_method(self, rid, name, n, pred=None):
        tu, r = self.prog.records[rid]
        c = [f for f in self.prog.byq.get(strip_targs(r["q"]) + "::" + name, [])
             if len(f["params"]) == n and f["_tu"].type(f["cls"]).id == rid and (pred is None or pred(f))]
        if len(c) > 1:
            b = [f for f in c if f.get("body") is not None]
            c = b or c
        if len(c) == 1:
            return c[0]
        if not c:
            for b in r.get("bases", []):
                bt = tu.type(b)
                if self.is_repo_rec(bt):
                    try:
                        return self.find_method(bt.id, name, n, pred)
                    except Unsupported:
                        pass
        raise Unsupported("method %s::%s/%d: %d candidates" % (rid, name, n, len(c)))

    def find_contract(self, f):
        c = self.contracts.get(f["id"])
        if c is None:
            c = self.contracts.get(strip_targs(f["q"]))
            if isinstance(c, list):
                for pred, k in c:
                    if pred(f):
                        return k
                return None
        return c

    def invoke(self, f, this, args):
        c = self.find_contract(f) if f["id"] not in self.no_contract else None
        if c is not None:
            self.ctx.rec.contracts_used.add(strip_targs(f["q"]))
            return c(self, this, args, f)
        return self.run_body(f, this, args)

    def invoke_ctor(self, f, this, args):
        c = self.find_contract(f) if f["id"] not in self.no_contract else None
        if c is not None:
            self.ctx.rec.contracts_used.add(strip_targs(f["q"]))
            return c(self, this, args, f)
        return self.run_ctor(f, this, args)

    def bind_params(self, f, args, fr):
        ps = f["params"]
        if len(args) != len(ps):
            raise Unsupported("argument count of %s" % f["q"])
        for p, a in zip(ps, args):
            t = fr.tu.type(p["t"])
            if t.k == "ref":
                if not isinstance(a, (Ref, Obj, Intrinsic, Closure, CStr, FnRef)) :
                    a = Cell(a)
                elif isinstance(a, (CStr, FnRef)) and t.e.k == "ptr":
                    a = Cell(a)
                fr.env[p["id"]] = a
            elif t.k == "rec":
                fr.env[p["id"]] = a
            else:
                fr.env[p["id"]] = Cell(self.val(a))

    def note_fn(self, f):
        if f["id"] in self.ctx.rec.functions:
            return
        self.ctx.rec.functions[f["id"]] = "%s %s:%s" % (strip_targs(f["q"]), f["file"].split("/source/", 1)[-1], f["line"])

    def run_body(self, f, this, args, env=None):
        if f.get("body") is None:
            if f.get("copyassign") or f.get("moveassign"):
                return self.default_assign(f, this, args)
            raise Unsupported("no body: %s" % f["q"])
        if f.get("defaulted") and (f.get("copyassign") or f.get("moveassign")):
            return self.default_assign(f, this, args)
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        self.note_fn(f)
        fr = Frame(f, f["_tu"], dict(env) if env else {}, this)
        old = self.fr
        self.fr = fr
        self.depth += 1
        if self.trace_calls is not None:
            self.trace_calls.append(strip_targs(f["q"]))
        try:
            self.bind_params(f, args, fr)
            r = self.exec_block_scoped(f["body"], fr)
            if r is not None and r[0] == "ret":
                return r[1]
            rt = fr.tu.type(f["ret"])
            if rt.k != "void" and f.get("kind") not in ("ctor", "dtor") and f.get("name") != "main":
                self.ctx.prove("function returns a value", False, at=f["q"])
                raise Infeasible()
            return None
        finally:
            # by-value class parameters
            self.fr = fr
            try:
                for p in reversed(f["params"]):
                    t = fr.tu.type(p["t"])
                    if t.k == "rec":
                        v = fr.env.get(p["id"])
                        if v is not None:
                            self.destroy(v)
            finally:
                self.fr = old
                self.depth -= 1

    def default_assign(self, f, this, args):
        src = args[0]
        rid = f["_tu"].type(f["cls"]).id
        self.assign_members(this, src, rid, bool(f.get("moveassign")))
        return this

    def assign_members(self, dst, src, rid, move):
        if dst is src:
            return
        tu, r = self.prog.records[rid]
        for b in r.get("bases", []):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                self.assign_part(dst, src, bt.id, move)
            else:
                dst.f[("base", bt.id)].assign(self, src.f[("base", bt.id)], move)
        for fd in r.get("fields", []):
            key = (rid, fd["name"])
            d, s = dst.f.get(key), src.f.get(key, UNDEF)
            if isinstance(d, Obj):
                self.assign_part(d, s, d.rec, move)
            elif isinstance(d, Intrinsic):
                d.assign(self, s, move)
            else:
                dst.f[key] = s

    def assign_part(self, dst, src, rid, move):
        fs = [f for f in self.prog.fns.values() if f.get("moveassign" if move else "copyassign") and
              f["_tu"].type(f["cls"]).id == rid]
        if not fs and move:
            fs = [f for f in self.prog.fns.values() if f.get("copyassign") and f["_tu"].type(f["cls"]).id == rid]
        if fs and not fs[0].get("defaulted"):
            self.invoke(fs[0], dst, [src])
        else:
            self.assign_members(dst, src, rid, move)

    def run_ctor(self, f, this, args):
        if f.get("body") is None and not f.get("inits"):
            if f.get("copy") and f.get("defaulted"):
                n = self.memberwise(args[0], f["_tu"].type(f["cls"]).id, self.copy_value)
                this.f.update(n.f)
                this.ghost = n.ghost
                return
            if f.get("move") and f.get("defaulted"):
                n = self.memberwise(args[0], f["_tu"].type(f["cls"]).id, self.move_value)
                this.f.update(n.f)
                this.ghost = n.ghost
                return
            if not (f.get("default")):
                raise Unsupported("no constructor body: %s" % f["q"])
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        self.note_fn(f)
        fr = Frame(f, f["_tu"], {}, this)
        old = self.fr
        self.fr = fr
        self.depth += 1
        rid = fr.tu.type(f["cls"]).id
        tu, r = self.prog.records[rid]
        done = []
        try:
            self.bind_params(f, args, fr)
            inits = f.get("inits") or []
            deleg = [i for i in inits if i.get("deleg")]
            if deleg:
                self.construct_into(this, deleg[0]["e"])
            else:
                have = set()
                for i in inits:
                    if "base" in i:
                        bt = fr.tu.type(i["base"])
                        have.add(("base", bt.id))
                        if self.is_repo_rec(bt):
                            self.construct_into(this, i["e"])
                            done.append(("base", bt.id))
                        else:
                            this.f[("base", bt.id)] = self.init_value(bt, i["e"])
                    elif "field" in i:
                        ft = fr.tu.type(i["t"])
                        key = (rid, i["field"])
                        have.add(key)
                        this.f[key] = self.init_value(ft, i["e"])
                        done.append(key)
                for fd in r.get("fields", []):
                    key = (rid, fd["name"])
                    if key not in have:
                        ft = tu.type(fd["t"])
                        if ft.k == "rec" and not f.get("copy") and not f.get("move"):
                            this.f[key] = self.default_construct(ft)
                        elif key not in this.f:
                            this.f[key] = self.undef_value(ft)
            if f.get("body") is not None:
                rr = self.exec_block_scoped(f["body"], fr)
        except CppThrow:
            # destroy the members that were constructed
            if not [i for i in (f.get("inits") or []) if i.get("deleg")]:
                for key in reversed(done):
                    if key[0] == "base":
                        self.destroy_obj(this, key[1])
                    else:
                        v = this.f.get(key)
                        if isinstance(v, (Obj, Intrinsic)):
                            self.destroy(v)
            this.dead = True
            raise
        finally:
            self.fr = fr
            try:
                for p in reversed(f["params"]):
                    t = fr.tu.type(p["t"])
                    if t.k == "rec":
                        v = fr.env.get(p["id"])
                        if v is not None:
                            self.destroy(v)
            finally:
                self.fr = old
                self.depth -= 1

    def construct_into(self, this, e):
        """Evaluate a constructor expression with `this` as the object under construction"""
        temps = self.fr.temps
        self.fr.temps = []
        try:
            self._construct_into(this, e)
        finally:
            self.end_temps(temps)

    def _construct_into(self, this, e):
        k = e["k"]
        if k in ("cleanup", "bindtmp"):
            return self._construct_into(this, e["e"])
        if k == "ctor":
            f = self.prog.fns.get(e["fn"]["id"])
            args = self.eval_args(e["args"])
            if f is None:
                # implicit constructor without exported definition
                t = self.ty(e["t"])
                if e["fn"].get("copy") or e["fn"].get("move"):
                    n = self.memberwise(args[0], t.id, self.copy_value if e["fn"].get("copy") else self.move_value)
                    this.f.update(n.f)
                    this.ghost = n.ghost
                    return
                if not args:
                    n = self.default_construct(t)
                    this.f.update(n.f)
                    return
                raise Unsupported("constructor %s" % e["fn"]["q"])
            return self.invoke_ctor(f, this, args)
        if k == "inhctor":
            # inherited constructor: same parameters
            args = [self.fr.env[p["id"]] for p in self.fr.fn["params"]]
            t = self.ty(e["t"])
            f = self.prog.fns.get(e["fn"]["id"])
            if f is None:
                raise Unsupported("inherited constructor")
            return self.invoke_ctor(f, this, args)
        if k == "initlist":
            n = self.ev(e)
            this.f.update(n.f)
            return
        n = self.ev(e)
        if isinstance(n, Obj):
            this.f.update(n.f)
            this.ghost = n.ghost
            return
        raise Unsupported("base initialiser %s" % k)

    # ------------------------------------------------------------------ statements
    def ty(self, i):
        return self.fr.tu.type(i)

    def exec_block_scoped(self, b, fr):
        if b["k"] != "block":
            return self.scoped(lambda: self.stmt(b))
        return self.stmt(b)

    def scoped(self, fn):
        fr = self.fr
        fr.scopes.append([])
        try:
            return fn()
        finally:
            s = fr.scopes.pop()
            cur = self.fr
            self.fr = fr
            for v in reversed(s):
                self.destroy(v)
            self.fr = cur

    def stmt(self, s):
        return getattr(self, "s_" + s["k"])(s)

    def s_block(self, s):
        fr = self.fr
        fr.scopes.append([])
        try:
            for x in s["b"]:
                r = self.stmt(x)
                if r is not None:
                    return r
            return None
        finally:
            sc = fr.scopes.pop()
            if sc:
                cur = self.fr
                self.fr = fr
                for v in reversed(sc):
                    self.destroy(v)
                self.fr = cur

    def s_null(self, s):
        return None

    def s_decl(self, s):
        for v in s["v"]:
            if v.get("k") == "null" or "id" not in v:
                continue
            self.declare(v)
        return None

    def declare(self, v):
        fr = self.fr
        if v.get("static"):
            key = (fr.tu.name, v["id"], v["name"])
            if key in self.statics:
                fr.env[v["id"]] = self.statics[key]
                return
        t = self.ty(v["t"])
        scopes = fr.scopes
        if t.k == "ref":
            lv = self.full(v["init"])
            if not isinstance(lv, (Ref, Obj, Intrinsic, Closure)):
                lv = Cell(lv)
            fr.env[v["id"]] = lv
        else:
            if v.get("init") is not None:
                x = self.init_value(t, v["init"])
            else:
                x = self.undef_value(t)
            if t.k in ("rec", "arr") or isinstance(x, (Obj, Intrinsic)):
                fr.env[v["id"]] = x
                if scopes and not v.get("static"):
                    scopes[-1].append(x)
            else:
                fr.env[v["id"]] = Cell(x)
        if v.get("static"):
            self.statics[key] = fr.env[v["id"]]
        for b in v.get("bindings", []):
            if b.get("hold"):
                h = b["hold"]
                self.declare(h)
                fr.env[b["id"]] = fr.env[h["id"]]
            elif b.get("e") is not None:
                fr.env[b["id"]] = self.ev(b["e"])

    def init_value(self, t, e):
        """Value of type t initialised by expression e (full expression)"""
        if t.k == "ref":
            lv = self.full(e)
            return RefHolder(lv if isinstance(lv, (Ref, Obj, Intrinsic, Closure)) else Cell(lv))
        v = self.full(e)
        if t.k in ("rec", "arr"):
            return v
        return self.val(v)

    def full(self, e):
        """Evaluate a full expression; temporaries die at the end"""
        fr = self.fr
        old = fr.temps
        fr.temps = []
        try:
            return self.ev(e)
        finally:
            self.fr = fr
            self.end_temps(old)

    def end_temps(self, old):
        fr = self.fr
        ts = fr.temps
        fr.temps = old
        for v in reversed(ts):
            self.destroy(v)

    def s_expr(self, s):
        v = self.full_discard(s["e"])
        return None

    def full_discard(self, e):
        fr = self.fr
        old = fr.temps
        fr.temps = []
        try:
            v = self.ev(e)
            if not e.get("lv"):
                x = e
                while x["k"] in ("cleanup",):
                    x = x["e"]
                if not x.get("lv") and isinstance(v, (Obj, Intrinsic)) and x["k"] in ("bindtmp", "call", "mcall", "opcall", "ctor"):
                    y = x["e"] if x["k"] == "bindtmp" else x
                    if not y.get("lv"):
                        self.destroy(v)
            return v
        finally:
            self.fr = fr
            self.end_temps(old)

    def s_if(self, s):
        return self.scoped(lambda: self._if(s)) if (s.get("init") or s.get("var")) else self._if(s)

    def _if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("var"):
            self.declare(s["var"])
        c = self.istrue(self.full(s["c"]))
        if c:
            return self.scoped(lambda: self.stmt(s["t"])) if s["t"]["k"] == "decl" else self.stmt(s["t"])
        if s.get("e"):
            return self.stmt(s["e"])
        return None

    def s_while(self, s):
        return self.loop(s, None, s["c"], None, s["b"])

    def s_for(self, s):
        def run():
            if s.get("init"):
                self.stmt(s["init"])
            return self.loop(s, None, s.get("c"), s.get("inc"), s["b"])

        return self.scoped(run)

    def s_do(self, s):
        n = 0
        while True:
            r = self.stmt(s["b"])
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
            if not self.loopcond(s["c"], n):
                return None
            n += 1

    def loopcond(self, c, n):
        if c is None:
            return True
        v = self.tobool(self.full(c))
        v = simp(v)
        if concrete(v):
            if n > 100000:
                raise Unsupported("loop does not terminate")
            return v
        if n >= self.loop_bound and not self.ctx.entails(z3.Not(v)) :
            if self.ctx.entails(v) and n < 200:
                return True
            self.ctx.rec.bounded.append("%s: loop unrolled %d times" % (self.where(), n))
            self.ctx.assume(z3.Not(v))
            return False
        return self.ctx.branch(v)

    def loop(self, s, var, c, inc, body):
        h = self.loop_specs.get(strip_targs(self.fr.fn["q"]))
        if h is not None:
            r = h(self, s, c, inc, body)
            if r is not NotImplemented:
                return r
        n = 0
        while True:
            if n == 0 and self.induct and c is not None:
                from . import loops

                st = loops.State(self)
                v = simp(self.tobool(self.full(c)))
                st.restore()
                if not concrete(v):
                    if not self.each and loops.affine(self, s, c, inc, body):
                        return None
                    if self.each and loops.each(self, s, c, inc, body):
                        return None
            if not self.loopcond(c, n):
                return None
            r = self.stmt(body)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
            if inc is not None:
                self.full_discard(inc)
            n += 1

    def s_range(self, s):
        def run():
            if s.get("init"):
                self.stmt(s["init"])
            rng = self.full_keep(s["range"])
            rng0 = rng
            h = self.loop_specs.get(strip_targs(self.fr.fn["q"]))
            if h is not None:
                r = h(self, s, rng, None, s["b"])
                if r is not NotImplemented:
                    return r
            for item in self.std.iterate(self, rng):
                r = self.scoped(lambda: self.range_body(s, item))
                if r is not None:
                    if r[0] == "brk":
                        return None
                    if r[0] == "ret":
                        return r
            return None

        return self.scoped(run)

    def full_keep(self, e):
        """The range initialiser: temporaries live until the end of the loop"""
        fr = self.fr
        old = fr.temps
        fr.temps = []
        try:
            v = self.ev(e)
            ts = fr.temps
            fr.scopes[-1].extend(ts)
            if not e.get("lv") and isinstance(v, (Obj, Intrinsic)) and v not in ts and e["k"] not in ("var",):
                x = e
                while x["k"] == "cleanup":
                    x = x["e"]
                if not x.get("lv"):
                    fr.scopes[-1].append(v)
            fr.temps = []
            return v
        finally:
            fr.temps = old

    def range_body(self, s, item):
        v = s["v"]
        t = self.ty(v["t"])
        if t.k == "ref":
            self.fr.env[v["id"]] = item if isinstance(item, (Ref, Obj, Intrinsic)) else Cell(item)
        elif t.k == "rec":
            x = self.copy_value(item)
            self.fr.env[v["id"]] = x
            self.fr.scopes[-1].append(x)
        else:
            self.fr.env[v["id"]] = Cell(self.val(item))
        for b in v.get("bindings", []):
            if b.get("hold"):
                self.declare(b["hold"])
                self.fr.env[b["id"]] = self.fr.env[b["hold"]["id"]]
            elif b.get("e") is not None:
                self.fr.env[b["id"]] = self.ev(b["e"])
        return self.stmt(s["b"])

    def s_return(self, s):
        if s.get("e") is None:
            return ("ret", None)
        rt = self.ty(self.fr.fn["ret"]) if not self.fr.fn.get("kind") in ("ctor", "dtor") else None
        v = self.full(s["e"])
        if rt is not None and rt.k not in ("ref", "rec", "void") and isinstance(v, Ref):
            v = self.val(v)
        return ("ret", v)

    def s_break(self, s):
        return ("brk", None)

    def s_continue(self, s):
        return ("cont", None)

    def s_switch(self, s):
        def run():
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("var"):
                self.declare(s["var"])
            v = self.val(self.full(s["c"]))
            items = []

            def flat(x):
                if x["k"] in ("case", "default"):
                    items.append(("label", x))
                    flat(x["b"])
                else:
                    items.append(("stmt", x))

            body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
            for x in body:
                flat(x)
            start = None
            for i, (k, x) in enumerate(items):
                if k == "label" and x["k"] == "case":
                    if x.get("v") is None:
                        raise Unsupported("case label")
                    c = eq(v, int(x["v"]))
                    if (c if concrete(c) else self.ctx.branch(c)):
                        start = i
                        break
            if start is None:
                for i, (k, x) in enumerate(items):
                    if k == "label" and x["k"] == "default":
                        start = i
            if start is None:
                return None
            for k, x in items[start:]:
                if k == "stmt":
                    r = self.stmt(x)
                    if r is not None:
                        if r[0] == "brk":
                            return None
                        return r
            return None

        return self.scoped(run)

    def s_try(self, s):
        fr = self.fr
        depth = self.depth
        nsc = len(fr.scopes)
        try:
            return self.stmt(s["b"])
        except CppThrow as e:
            self.fr = fr
            self.depth = depth
            for h in s["h"]:
                tn = None
                if h.get("t") is not None:
                    t = self.ty(h["t"]).noref()
                    tn = t.q
                if tn is None or exc_isa(e.tname, tn):
                    def run():
                        if h.get("v"):
                            fr.env[h["v"]["id"]] = e.v
                        self.cur_exc = e
                        return self.stmt(h["b"])

                    return self.scoped(run)
            raise

    def s_unsupported(self, s):
        raise Unsupported("statement %s" % s.get("cls"))

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        cv = e.get("cv")
        if cv is not None:
            t = self.ty(e["t"])
            if t.k == "bool":
                return cv not in ("0", "false")
            try:
                return int(cv)
            except ValueError:
                pass
        h = e.get("_h")
        if h is None:
            h = e["_h"] = getattr(Interp, "e_" + e["k"])
        return h(self, e)

    def rv(self, e):
        return self.val(self.ev(e))

    def eval_args(self, args):
        return [self.ev(a) for a in args]

    def e_lit(self, e):
        if "v" not in e:
            raise Unsupported("literal")
        return int(e["v"])

    def e_blit(self, e):
        return bool(e["v"])

    def e_flit(self, e):
        return Fraction(e["v"])

    def e_str(self, e):
        return self.std.StrLit(e["v"])

    def e_nullptr(self, e):
        return None

    def e_zeroinit(self, e):
        return self.default_value(self.ty(e["t"]))

    def e_fnref(self, e):
        return FnRef(e["fn"])

    def e_unsupported(self, e):
        if e.get("cls") == "SourceLocExpr":
            return 0  # line or file of an assertion
        raise Unsupported("expression %s" % e.get("cls"))

    def e_var(self, e):
        v = self.fr.env.get(e["id"])
        if v is not None:
            return v
        if e.get("global"):
            return self.global_var(e)
        raise Unsupported("unbound variable %s" % e.get("name"))

    def global_var(self, e):
        q = e.get("q") or e["name"]
        if q in self.globals:
            return self.globals[q]
        if self.world is not None:
            g = self.world.global_var(self, q)
            if g is not None:
                self.globals[q] = g
                return g
        if q.startswith("std::"):
            g = self.std.global_var(self, q)
            if g is not None:
                return g
        g = self.fr.tu.globals.get(str(e["id"]))
        if g is not None and g.get("init") is not None:
            t = self.ty(g["t"])
            v = self.init_in(self.fr.tu, t, g["init"], None)
            if t.k not in ("rec", "arr", "ref"):
                v = Cell(v)
            elif isinstance(v, RefHolder):
                v = v.lv
            self.globals[q] = v
            return v
        g = self.std.global_var(self, q)
        if g is not None:
            return g
        raise Unsupported("global %s" % q)

    def e_field(self, e):
        b = self.ev(e["e"])
        if e.get("arrow"):
            b = self.deref(self.val(b))
        own = self.ty(e["own"])
        if isinstance(b, Obj):
            key = (own.id, e["name"])
            if key not in b.f:
                raise Unsupported("field %s of %r" % (e["name"], b))
            v = b.f[key]
            if isinstance(v, RefHolder):
                return v.lv
            if isinstance(v, (Obj, Intrinsic, Closure)):
                return v
            return FieldRef(b, key)
        if isinstance(b, Intrinsic):
            return b.field(self, e["name"])
        raise Unsupported("field %s of %r" % (e["name"], b))

    def e_this(self, e):
        return Ptr(self.fr.this)

    def deref(self, p):
        if p is None:
            self.ctx.prove("no null pointer dereference", False, at=self.where())
            raise Infeasible()
        if isinstance(p, Ptr):
            if p.i is None:
                return p.t
            return self.std.elem(self, p.t, p.i)
        if isinstance(p, Intrinsic):
            return p.deref(self)
        if isinstance(p, CStr):
            if concrete(p.v):
                return Cell(ord(p.v[0]) if p.v else 0)
            return Cell(z3.StrToCode(z3.SubString(p.v, 0, 1)))
        if isinstance(p, FnRef):
            return p
        raise Unsupported("dereference of %r" % (p,))

    def e_cleanup(self, e):
        return self.ev(e["e"])

    def e_bindtmp(self, e):
        return self.ev(e["e"])

    def e_definit(self, e):
        return self.ev(e["e"])

    def e_mat(self, e):
        v = self.ev(e["e"])
        if isinstance(v, (Obj, Intrinsic)):
            if e.get("ext"):
                if self.fr.scopes:
                    self.fr.scopes[-1].append(v)
            else:
                self.fr.temps.append(v)
            return v
        if isinstance(v, (Closure,)):
            return v
        return Cell(self.val(v))

    def e_cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            v = self.ev(e["e"])
            return self.val(v)
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay",
                  "BuiltinFnToFnPtr", "LValueBitCast"):
            return self.ev(e["e"])
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            v = self.ev(e["e"])
            t = self.ty(e["t"])
            if t.k == "ptr":
                v = self.val(v)
                if isinstance(v, Ptr) and v.i is None:
                    return Ptr(self.base_part(v.t, t.e))
                return v
            return self.base_part(v, t.noref())
        if ck == "BaseToDerived":
            return self.ev(e["e"])
        if ck == "ToVoid":
            self.ev(e["e"])
            return None
        if ck == "NullToPointer":
            return None
        t = self.ty(e["t"])
        if ck == "IntegralCast":
            v = self.rv(e["e"])
            if not concrete(v) and self.contains(t, self.ty(e["e"]["t"])):
                return If(v, 1, 0) if v.sort() == z3.BoolSort() else v
            return self.wrap(v, t)
        if ck == "IntegralToBoolean":
            return self.tobool(self.rv(e["e"]))
        if ck == "PointerToBoolean":
            return self.tobool(self.rv(e["e"]))
        if ck == "FloatingToBoolean":
            return self.tobool(self.rv(e["e"]))
        if ck == "IntegralToFloating":
            v = self.rv(e["e"])
            if self.check_overflow and not concrete(v):
                lim = 2 ** (24 if t.w == 32 else 53)
                if self.ty(e["e"]["t"]).w > (24 if t.w == 32 else 53):
                    self.ctx.prove("an integer converted to a floating point number is represented exactly",
                                   And(v >= -lim, v <= lim), at=self.where())
            return self.std.to_float(self, v)
        if ck == "FloatingCast":
            return self.rv(e["e"])
        if ck == "FloatingToIntegral":
            v = self.rv(e["e"])
            return self.std.to_int(self, v, t)
        if ck == "ArrayToPointerDecay":
            v = self.ev(e["e"])
            if isinstance(v, self.std.StrLit):
                return CStr(v.v)
            return Ptr(v, 0)
        if ck == "BitCast":
            return self.rv(e["e"])
        if ck == "Dynamic":
            return self.std.dyncast(self, self.ev(e["e"]), t)
        raise Unsupported("cast %s" % ck)

    def lvalue_of(self, v):
        return v

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = self.ev(e["e"])
            if isinstance(x, ElemRef):
                return Ptr(x.seq, x.i)
            if isinstance(x, FnRef):
                return x
            back = getattr(x, "backing", None)
            return Ptr(x)
        if op == "*":
            p = self.rv(e["e"])
            return self.deref(p)
        if op == "__extension__":
            return self.ev(e["e"])
        if op in ("++", "--"):
            r = self.ev(e["e"])
            old = self.val(r)
            t = self.ty(e["t"])
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                n = Ptr(old.t, simp(lift(old.i) + d) if is_sym(old.i) else old.i + d)
            elif isinstance(old, CStr):
                raise Unsupported("char pointer arithmetic")
            else:
                n = self.arith("+", old, d, t)
            r.set(n)
            return old if e.get("post") else r
        v = self.rv(e["e"])
        t = self.ty(e["t"])
        if op == "!":
            b = self.tobool(v)
            return simp(Not(b))
        if op == "-":
            if t.k == "float":
                return -v
            return self.wrap(-v if concrete(v) else simp(-v), t)
        if op == "+":
            return v
        if op == "~" and concrete(v):
            return self.wrap(~v, t)
        raise Unsupported("unary %s" % op)

    def arith(self, op, a, b, t):
        if t.k == "float":
            return self.std.float_arith(self, op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in ("+", "-", "*"):
            if concrete(a) and concrete(b):
                r = a + b if op == "+" else a - b if op == "-" else a * b
                return self.wrap(r, t)
            la, lb = lift(a), lift(b)
            if la.sort() == z3.BoolSort():
                la = z3.If(la, z3.IntVal(1), z3.IntVal(0))
            if lb.sort() == z3.BoolSort():
                lb = z3.If(lb, z3.IntVal(1), z3.IntVal(0))
            r = simp(la + lb if op == "+" else la - lb if op == "-" else la * lb)
            if concrete(r):
                return self.wrap(r, t)
            if t.k == "int" and not t.s and op == "-":
                return self.wrap(r, t)
            if t.k == "int" and not t.s and t.w < 64:
                ok = r < (1 << t.w)
                self.ctx.prove("a sum or product fits its type", ok, at=self.where())
                self.ctx.assume(ok)
                return r
            if self.check_overflow and t.k == "int" and t.s:
                hi = (1 << (t.w - 1)) - 1
                ok = z3.And(r >= -hi - 1, r <= hi)
                self.ctx.prove("no signed overflow", ok, at=self.where())
                self.ctx.assume(ok)
                return r
            # additions and products are mathematical (listed assumption: no overflow of 64-bit sizes)
            self.ctx.rec.assumptions.add("machine arithmetic: integer + and * (and signed -) do not overflow")
            return r
        if op in ("/", "%"):
            z = eq(b, 0)
            if not concrete(z) or z:
                self.ctx.prove("no division by zero", Not(z), at=self.where())
                self.ctx.assume(Not(z))
            if concrete(a) and concrete(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "/" else a - q * b
            la, lb = lift(a), lift(b)
            if not t.s or self.ctx.entails(And(la >= 0, lb > 0)):
                if op == "/":
                    self.divs.append((la, lb, simp(la / lb)))
                return simp(la / lb if op == "/" else la % lb)
            aa = z3.If(la < 0, -la, la)
            ab = z3.If(lb < 0, -lb, lb)
            q = z3.If((la < 0) != (lb < 0), -(aa / ab), aa / ab)
            return simp(q if op == "/" else la - q * lb)
        if op in ("<<", ">>", "&", "|", "^"):
            if concrete(a) and concrete(b):
                r = {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b,
                     "^": lambda: a ^ b}[op]()
                return self.wrap(r, t)
            if op == "<<" and concrete(b):
                return simp(lift(a) * (1 << b))
            raise Unsupported("bit operation on a symbolic value")
        raise Unsupported("operator %s" % op)

    def compare(self, op, a, b):
        if op in ("==", "!="):
            r = self.equal(a, b)
            return r if op == "==" else simp(Not(r))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.t is b.t:
            a, b = a.i, b.i
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if concrete(a) and concrete(b):
            if not isinstance(a, (int, Fraction)) or not isinstance(b, (int, Fraction)):
                return self.std.float_compare(self, op, a, b)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, self.std.FV) or isinstance(b, self.std.FV):
            return self.std.float_compare(self, op, a, b)
        la, lb = lift(a), lift(b)
        return simp({"<": lambda: la < lb, "<=": lambda: la <= lb, ">": lambda: la > lb,
                     ">=": lambda: la >= lb}[op]())

    def equal(self, a, b):
        if isinstance(a, self.std.FV) or isinstance(b, self.std.FV):
            return self.std.float_compare(self, "==", a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None or isinstance(a, CStr) or isinstance(b, CStr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.t is b.t or (isinstance(a.t, FieldRef) and a.t == b.t):
                    if a.i is None and b.i is None:
                        return True
                    return eq(a.i if a.i is not None else 0, b.i if b.i is not None else 0)
                return False
            if a is None or b is None:
                o = b if a is None else a
                if hasattr(o, "isnull"):
                    return o.isnull(self)
                return a is b
            if isinstance(a, CStr) and isinstance(b, CStr):
                return a is b
            return False
        if isinstance(a, FnRef) or isinstance(b, FnRef):
            return isinstance(a, FnRef) and isinstance(b, FnRef) and a.fn["id"] == b.fn["id"]
        return eq(a, b)

    def e_bin(self, e):
        op = e["op"]
        if op == "=":
            b = self.ev(e["b"])
            a = self.ev(e["a"])
            b = self.val(b)
            if isinstance(a, Ref):
                a.set(b)
                return a
            raise Unsupported("assignment to %r" % (a,))
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op == "&&":
            a = self.tobool(self.ev(e["a"]))
            if concrete(a):
                return self.tobool(self.ev(e["b"])) if a else False
            if self.pure(e["b"]):
                b = self.try_pure(e["b"], a)
                if b is not None:
                    return simp(And(a, b))
            if self.ctx.branch(a):
                return self.tobool(self.ev(e["b"]))
            return False
        if op == "||":
            a = self.tobool(self.ev(e["a"]))
            if concrete(a):
                return True if a else self.tobool(self.ev(e["b"]))
            if self.pure(e["b"]):
                b = self.try_pure(e["b"], Not(a))
                if b is not None:
                    return simp(Or(a, b))
            if self.ctx.branch(a):
                return True
            return self.tobool(self.ev(e["b"]))
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.binop(op, a, b, self.ty(e["t"]), e)

    PURE = {"lit", "blit", "flit", "var", "field", "this", "nullptr"}

    def pure(self, e):
        """Expressions without side effects, branches or definedness conditions"""
        k = e["k"]
        if "cv" in e:
            return True
        if k in self.PURE:
            return k != "field" or (e["e"]["k"] in ("this", "var"))
        if k == "cast":
            return e["ck"] in ("LValueToRValue", "NoOp", "IntegralCast", "IntegralToBoolean") and self.pure(e["e"])
        if k == "bin":
            return e["op"] in ("==", "!=", "<", "<=", ">", ">=", "+", "*", "&&", "||") and self.pure(e["a"]) and self.pure(e["b"])
        if k == "un":
            return e["op"] in ("!",) and self.pure(e["e"])
        return False

    def try_pure(self, e, cond):
        return self.tobool(self.ev(e))

    def binop(self, op, a, b, t, e=None):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, a, b)
        if op == "<=>":
            raise Unsupported("three-way comparison")
        if isinstance(a, Ptr) and not isinstance(b, Ptr):
            i = a.i if a.i is not None else 0
            if a.i is None:
                raise Unsupported("pointer arithmetic on an object")
            if op == "+":
                return Ptr(a.t, simp(lift(i) + lift(b)) if is_sym(i) or is_sym(b) else i + b)
            if op == "-":
                return Ptr(a.t, simp(lift(i) - lift(b)) if is_sym(i) or is_sym(b) else i - b)
        if isinstance(b, Ptr) and op == "+":
            return self.binop(op, b, a, t)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.t is b.t:
            return simp(lift(a.i) - lift(b.i)) if is_sym(a.i) or is_sym(b.i) else a.i - b.i
        return self.arith(op, a, b, t)

    def e_cassign(self, e):
        b = self.rv(e["b"])
        r = self.ev(e["a"])
        a = self.val(r)
        op = e["op"][:-1]
        ct = self.ty(e["ct"])
        t = self.ty(e["t"])
        if isinstance(a, Ptr):
            v = self.binop(op, a, b, t)
        else:
            if ct.k == "float" and t.k != "float":
                a = self.std.to_float(self, a)
                v = self.arith(op, a, b, ct)
                v = self.std.to_int(self, v, t)
            else:
                if ct.k == "int" and (concrete(a) or not self.contains(ct, t)):
                    a = self.wrap(a, ct)
                v = self.arith(op, a, b, ct)
                if t.k == "int" and (concrete(v) or not self.contains(t, ct)):
                    v = self.wrap(v, t)
        r.set(v)
        return r

    def e_cond(self, e):
        c = self.tobool(self.full_cond(e["c"]))
        if concrete(c):
            return self.ev(e["a"] if c else e["b"])
        if self.pure(e["a"]) and self.pure(e["b"]) and not e.get("lv"):
            a, b = self.rv(e["a"]), self.rv(e["b"])
            if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
                return simp(If(c, a, b))
        return self.ev(e["a"] if self.ctx.branch(c) else e["b"])

    def full_cond(self, e):
        return self.ev(e)

    def e_index(self, e):
        a = self.rv(e["a"]) if not e["a"].get("lv") else self.ev(e["a"])
        i = self.rv(e["b"])
        if isinstance(a, Ref):
            a = self.val(a)
        if isinstance(a, Ptr):
            base = a.i if a.i is not None else 0
            k = simp(lift(base) + lift(i)) if is_sym(base) or is_sym(i) else base + i
            if a.i is None and k == 0:
                return a.t
            return self.std.elem(self, a.t, k)
        return self.std.elem(self, a, i)

    def e_initlist(self, e):
        if len(e["args"]) == 1 and "t" in e["args"][0] and self.ty(e["t"]).k == "rec":
            x = e["args"][0]
            if self.ty(x["t"]).k == "rec" and self.ty(x["t"]).id == self.ty(e["t"]).id:
                return self.ev(x)  # T{prvalue of T}
        t = self.ty(e["t"])
        args = e["args"]
        if t.k == "arr":
            items = [self.init_elem(t.e, a) for a in args]
            while len(items) < t.d.get("len", 0):
                items.append(self.default_value(t.e))
            return self.std.CArr(items, t.e)
        if t.k == "rec":
            if not self.is_repo_rec(t):
                return self.std.construct_initlist(self, t, e)
            o = Obj(t.id)
            tu, r = self.prog.records[t.id]
            flds = []
            for b in r.get("bases", []):
                flds.append(("base", tu.type(b)))
            for fd in r.get("fields", []):
                flds.append((fd["name"], tu.type(fd["t"])))
            for (n, ft), a in zip(flds, args):
                if n == "base":
                    v = self.ev(a)
                    if isinstance(v, Obj):
                        o.f.update(v.f)
                    else:
                        o.f[("base", ft.id)] = v
                else:
                    o.f[(t.id, n)] = self.init_elem(ft, a)
            for n, ft in flds[len(args):]:
                if n == "base":
                    raise Unsupported("aggregate base")
                o.f[(t.id, n)] = self.default_value(ft)
            return o
        if t.k in ("int", "bool", "float", "enum", "ptr"):
            if not args:
                return self.default_value(t)
            return self.rv(args[0])
        if e.get("lv") and len(args) == 1:
            return self.ev(args[0])
        raise Unsupported("initialiser list for %s" % t.name)

    def init_elem(self, t, a):
        if t.k == "ref":
            return RefHolder(self.ev(a))
        v = self.ev(a)
        if t.k in ("rec", "arr"):
            return v
        return self.val(v)

    def e_stdinitlist(self, e):
        v = self.ev(e["e"])
        return self.std.InitList(v.items if isinstance(v, self.std.CArr) else v)

    def e_lambda(self, e):
        env = {}
        this = self.fr.this
        for c in e["caps"]:
            if c.get("this"):
                continue
            iv = c.get("init")
            if c.get("ref"):
                env[c["id"]] = self.ev(iv) if iv is not None else self.fr.env[c["id"]]
            else:
                v = self.ev(iv) if iv is not None else self.copy_value(self.fr.env[c["id"]])
                if isinstance(v, Ref):
                    v = self.val(v)
                env[c["id"]] = v if isinstance(v, (Obj, Intrinsic, Closure)) else Cell(v)
        fn = self.prog.fns.get(e.get("op")) if e.get("op") else None
        if fn is None and e.get("op"):
            fn = self.fr.tu.d["functions"].get(e["op"])
        if fn is None and e.get("ops"):
            fs = {i: self.prog.fns.get(i) or self.fr.tu.d["functions"].get(i) for i in e["ops"]}
            fs = [f for f in fs.values() if f is not None and f.get("body") is not None]
            if len(fs) == 1:
                fn = fs[0]
        return Closure(fn, env, this, self.fr.tu)

    def call_callable(self, c, args):
        if isinstance(c, Ref):
            c = self.val(c)
        if isinstance(c, Closure):
            if c.fn is None:
                raise Unsupported("generic lambda")
            old = self.fr
            return self.run_body(c.fn, c.this, args, env=c.env)
        if isinstance(c, FnRef):
            return self.call_fn(c.fn, None, args)
        if isinstance(c, self.std.FnObj):
            if c.c is None:
                self.throw("std::bad_function_call")
            return self.call_callable(c.c, args)
        if isinstance(c, Ptr):
            return self.call_callable(c.t, args)
        if callable(c):
            return c(self, args)
        if isinstance(c, Obj):
            return self.method(c, "operator()", args)
        raise Unsupported("call of %r" % (c,))

    def e_throw(self, e):
        if e.get("e") is None:
            raise self.cur_exc
        v = self.ev(e["e"])
        t = self.ty(e["e"]["t"])
        tn = t.q or t.name
        raise CppThrow(v, tn, getattr(v, "msg", None))

    def e_new(self, e):
        t = self.ty(e["at"])
        if e.get("array"):
            n = self.val(self.ev(e["size"]))
            return Ptr(self.std.Buf(n, t), 0)
        if e.get("init") is not None:
            v = self.ev(e["init"])
            if not isinstance(v, (Obj, Intrinsic)):
                v = Cell(self.val(v))
        else:
            v = self.default_construct(t) if t.k == "rec" else Cell(UNDEF)
        return Ptr(v)

    def e_delete(self, e):
        p = self.rv(e["e"])
        if p is None:
            return None
        if isinstance(p, Ptr) and isinstance(p.t, (Obj, Intrinsic)):
            self.destroy(p.t)
            if isinstance(p.t, self.std.Buf):
                self.ctx.prove("memory is released once", not getattr(p.t, "freed", False), at=self.where())
                p.t.freed = True
        return None

    def e_typeid(self, e):
        return self.std.TypeId(self.ty(e["of"]).name if e.get("of") is not None else "?")

    def e_ctor(self, e):
        t = self.ty(e["t"])
        if t.k == "arr":
            raise Unsupported("array construction")
        fn = e["fn"]
        if self.is_repo_rec(t):
            f = self.prog.fns.get(fn["id"])
            args = self.eval_args(e["args"])
            o = Obj(t.id)
            r = self.prog.records[t.id][1]
            if r["q"].find("(lambda") >= 0 or t.d.get("lambda"):
                return args[0]
            if f is None:
                if fn.get("copy"):
                    return self.memberwise_or_ctor(args[0], t.id, False)
                if fn.get("move"):
                    return self.memberwise_or_ctor(args[0], t.id, True)
                if not args:
                    return self.default_construct(t)
                raise Unsupported("constructor %s has no body" % fn["q"])
            if f.get("body") is None and not f.get("inits"):
                if (f.get("copy") or f.get("move")):
                    if f.get("defaulted"):
                        return self.memberwise(args[0], t.id, self.copy_value if f.get("copy") else self.move_value)
                elif f.get("default"):
                    return self.default_construct(t)
            self.invoke_ctor(f, o, args)
            return o
        if t.d.get("lambda"):
            return self.ev(e["args"][0])
        return self.std.construct(self, t, e, None)

    def e_inhctor(self, e):
        """The inherited constructor of a library base class"""
        args = [self.fr.env[p["id"]] for p in self.fr.fn["params"]]
        args = [self.val(a) if isinstance(a, Cell) else a for a in args]
        return self.std.construct(self, self.ty(e["t"]), e, args)

    def memberwise_or_ctor(self, o, rid, move):
        return self.memberwise(o, rid, self.move_value if move else self.copy_value)

    def dispatch(self, fn, o, qual):
        """Virtual dispatch: the final overrider in the dynamic class of o"""
        if not fn.get("virtual") or qual or not isinstance(o, Obj):
            return self.prog.fns.get(fn["id"])
        f = self.prog.fns.get(fn["id"])
        best = self.overrider(o.rec, fn["id"])
        return best or f

    def overrider(self, rid, fid):
        ent = self.prog.records.get(rid)
        if ent is None:
            return None
        tu, r = ent
        for f in self.prog.fns.values():
            if f.get("cls") is not None and f["_tu"].type(f["cls"]).id == rid:
                if f["id"] == fid or fid in self.all_overridden(f):
                    return f
        for b in r.get("bases", []):
            bt = tu.type(b)
            if self.is_repo_rec(bt):
                x = self.overrider(bt.id, fid)
                if x:
                    return x
        return None

    def all_overridden(self, f):
        out = set()
        for o in f.get("overrides", []):
            out.add(o)
            g = self.prog.fns.get(o)
            if g:
                out |= self.all_overridden(g)
        return out

    def e_mcall(self, e):
        fn = e.get("fn")
        o = self.ev(e["e"])
        if e.get("arrow"):
            o = self.deref(self.val(o))
        elif isinstance(o, Ref):
            o = self.val(o)
        if fn is None:
            raise Unsupported("member pointer call")
        args = self.eval_args(e["args"])
        return self.call_method(fn, o, args, e)

    def call_method(self, fn, o, args, e=None):
        if fn.get("repo"):
            f = self.dispatch(fn, o, e.get("qual") if e else False)
            if f is None:
                c = self.contracts.get(fn["id"]) or self.contracts.get(strip_targs(fn["q"]))
                if c is not None and not isinstance(c, list):
                    self.ctx.rec.contracts_used.add(strip_targs(fn["q"]))
                    return c(self, o, args, fn)
                if fn.get("copyassign") or fn.get("moveassign"):
                    self.assign_members(o, args[0], self.fr.tu.type(fn["cls"]).id, bool(fn.get("moveassign")))
                    return o
                raise Unsupported("no definition of %s" % fn["q"])
            return self.invoke(f, o, args)
        q = strip_targs(fn["q"])
        h = self.intr.get(q)
        if h is None and getattr(self.world, "method", None) is not None:
            h = self.world.method(q)
        if h is not None:
            return h(self, o, args, fn, e)
        h = self.std.method_fallback(self, q, o, fn["name"])
        if h is not None:
            return h(self, o, args, fn, e)
        raise Unsupported("library function %s" % q)

    def e_opcall(self, e):
        fn = e.get("fn")
        if fn is None:
            raise Unsupported("operator call")
        args = self.eval_args(e["args"])
        if fn.get("cls") is not None and not fn.get("static"):
            o = args[0]
            if isinstance(o, Ref):
                o2 = self.val(o)
                o = o2
            if isinstance(o, Closure):
                return self.call_callable(o, args[1:])
            return self.call_method(fn, o, args[1:], e)
        return self.call_fn(fn, e, args)

    def e_call(self, e):
        fn = e.get("fn")
        if fn is None:
            c = self.ev(e["e"])
            c = self.val(c) if isinstance(c, Ref) else c
            return self.call_callable(c, self.eval_args(e["args"]))
        args = self.eval_args(e["args"])
        return self.call_fn(fn, e, args)

    def call_fn(self, fn, e, args):
        q = strip_targs(fn["q"])
        if fn.get("repo"):
            f = self.prog.fns.get(fn["id"])
            if f is None:
                f = self.fr.tu.d["functions"].get(fn["id"])
            if f is None or (f.get("body") is None):
                c = self.contracts.get(fn["id"]) or self.contracts.get(q)
                if c is not None and not isinstance(c, list):
                    self.ctx.rec.contracts_used.add(q)
                    return c(self, None, args, fn)
                raise Unsupported("no definition of %s" % fn["q"])
            return self.invoke(f, None, args)
        h = self.intr.get(q)
        if h is None and self.world is not None:
            h = self.world.fn(q)
        if h is not None:
            return h(self, None, args, fn, e)
        raise Unsupported("library function %s" % q)

    def e_method(self, e):
        b = self.ev(e["e"])
        if e.get("arrow"):
            b = self.deref(self.val(b))
        return BoundMethod(e["fn"], b)

    def e_stmtexpr(self, e):
        raise Unsupported("statement expression")
