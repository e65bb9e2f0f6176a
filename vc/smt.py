"""Path exploration and obligations.

A proof run executes a specification (a Python function that sets up a symbolic pre-state, runs the real
function through the interpreter, and states what must hold afterwards) once per feasible path.  Paths are
enumerated by re-execution with a prefix of decisions, or by letting a copy of the process (fork) go on with the
other decision, so the executor never has to copy state.
"""
import ctypes
import os
import pickle
import subprocess
import time
import traceback

import z3

z3.set_param("timeout", 20000)


class Stop(Exception):
    """Ends the current path."""


class Infeasible(Stop):
    pass


def lengths_only(f):
    """Decides a formula in which strings occur as their lengths only (no string is longer than 2**48), without the path
    condition: True if it is valid, None if that settles nothing"""
    subs, cs, todo, seen = [], [], [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
            n = z3.Int("length!%d" % t.get_id())
            subs.append((t, n))
            cs += [n >= 0, n <= 2**48]
        elif z3.is_string(t) or z3.is_quantifier(t):
            return None
        else:
            todo += t.children()
    if not subs:
        return None
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*cs)
    s.add(z3.Not(z3.substitute(f, *subs)))
    return True if s.check() == z3.unsat else None


class Unsupported(Exception):
    """The code uses something the verifier does not model: the obligation stays undecided."""


class Budget(Unsupported):
    pass


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def concrete(v):
    return not isinstance(v, z3.ExprRef)


def simp(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_string_value(v):
            return v.as_string()
    return v


def lift(v):
    """Python value -> z3 term"""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    from fractions import Fraction

    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported("cannot lift %r" % (v,))


def eq(a, b):
    if concrete(a) and concrete(b):
        return a == b
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        elif b.sort() == z3.BoolSort() and a.sort() == z3.IntSort():
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        elif a.sort() == z3.IntSort() and b.sort() == z3.RealSort():
            a = z3.ToReal(a)
        elif b.sort() == z3.IntSort() and a.sort() == z3.RealSort():
            b = z3.ToReal(b)
        else:
            return False
    if z3.eq(a, b):
        return True
    return simp(a == b)


def And(*fs):
    out = []
    for f in fs:
        if isinstance(f, z3.ExprRef):
            out.append(f)
        elif not f:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*fs):
    out = []
    for f in fs:
        if isinstance(f, z3.ExprRef):
            out.append(f)
        elif f:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(f):
    if isinstance(f, z3.ExprRef):
        return z3.Not(f)
    return not f


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if concrete(c):
        return a if c else b
    if concrete(a) and concrete(b) and a == b and type(a) == type(b):
        return a
    return z3.If(c, lift(a), lift(b))


class Record:
    """What one proof run established."""

    def __init__(self):
        self.obligations = {}  # name -> [discharged, total]
        self.failures = []  # dicts
        self.undecided = []  # (what, why)
        self.lemmas = {}
        self.assumptions = set()
        self.functions = {}  # functions executed: q -> file:line
        self.contracts_used = set()
        self.paths = 0
        self.covers = {}
        self.backends = {}
        self.solver_s = 0.0
        self.bounded = []

    def merge(self, o):
        for n, (d, t) in o.obligations.items():
            a = self.obligations.setdefault(n, [0, 0])
            a[0] += d
            a[1] += t
        self.failures += o.failures
        self.undecided += o.undecided
        self.assumptions |= o.assumptions
        self.functions.update(o.functions)
        self.contracts_used |= o.contracts_used
        self.paths += o.paths
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in o.backends.items():
            self.backends[k] = self.backends.get(k, 0) + v
        self.solver_s += o.solver_s
        self.bounded += o.bounded


def cvc5_check(solver_assertions, timeout=20):
    s = z3.Solver()
    for a in solver_assertions:
        s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(["/usr/bin/env", "cvc5", "--lang=smt2", "--tlimit=%d" % (timeout * 1000)], input=text,
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return out
    except Exception:
        return "unknown"


class Ctx:
    def __init__(self, rec, prefix=(), max_decisions=4000):
        self.rec = rec
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.quiet = 0  # obligations are not recorded (an iteration run only to propose an invariant)
        self.counter = 0
        self.inputs = []  # (name, term) reported in counterexamples
        self.trace = []  # notes about the path
        self.max_decisions = max_decisions
        self.cache = {}
        self.defs = 0
        self.fork = False
        self.start = time.time()
        self.children = []
        self.pipe = None
        self.token = False

    # -- symbols ---------------------------------------------------------
    def fresh(self, name, sort="int", lo=None, hi=None, report=True):
        self.counter += 1
        n = "%s!%d" % (name, self.counter)
        if sort == "int":
            v = z3.Int(n)
        elif sort == "bool":
            v = z3.Bool(n)
        elif sort == "str":
            v = z3.String(n)
        elif sort == "real":
            v = z3.Real(n)
        else:
            v = z3.Const(n, sort)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        if report:
            self.inputs.append((name, v))
        return v

    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    # -- path condition --------------------------------------------------
    def assume(self, f):
        f = simp(f)
        if concrete(f):
            if not f:
                raise Infeasible()
            return
        self.pc.append(f)
        self.solver.add(f)

    def check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        self.rec.solver_s += time.time() - t
        return r

    def feasible(self, f):
        r = self.check(f)
        return r != z3.unsat

    def entails(self, f):
        """True only if the path condition proves f (used to simplify, never to decide)."""
        f = simp(f)
        if concrete(f):
            return bool(f)
        key = (len(self.pc), f.get_id())
        if key in self.cache:
            return self.cache[key][0]
        r = lengths_only(f)
        if r is None:
            r = self.check(z3.Not(f)) == z3.unsat
        self.cache[key] = (r, f)
        return r

    def branch(self, f, note=None):
        f = simp(f)
        if concrete(f):
            return bool(f)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if isinstance(d, tuple):
                d = d[0]
        else:
            if i >= self.max_decisions:
                raise Budget("too many decisions on one path")
            t = self.feasible(f)
            e = self.feasible(z3.Not(f)) if t else True
            if t and e:
                d = self.split([True, False])
            elif t:
                d = True
            else:
                d = False
        self.decisions.append(d)
        self.assume(f if d else z3.Not(f))
        if note:
            self.trace.append("%s: %s" % (note, d))
        return d

    def split(self, ways):
        """The first of the ways to go on; the others are explored from here by another process, or later from the start"""
        ways = list(ways)
        for k in reversed(ways[1:]):
            if self.fork and time.time() - self.start > 0.05:
                if self.forked():
                    return k
            else:
                self.pending.append(self.decisions + [k])
        return ways[0]

    def forked(self):
        """Goes on as two processes; true in the new one"""
        while len(self.children) > 15:
            self.collect()
        token = TOKENS is not None and TOKENS.acquire(block=False)
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            self.children.append((pid, r))
            if not token:
                self.collect(-1)
            return False
        ctypes.CDLL(None).prctl(1, 9)  # ends with its parent
        os.close(r)
        for _, f in self.children:
            os.close(f)
        self.children, self.pending, self.token = [], [], token
        if self.pipe is not None:
            os.close(self.pipe)
        self.pipe = w
        self.rec = Record()
        self.rec.paths = 1
        self.start = time.time()
        return True

    def collect(self, i=0):
        """What another process established"""
        pid, r = self.children.pop(i)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            self.rec.merge(pickle.loads(data))
        except Exception:
            self.rec.undecided.append(("path", "process ended without an answer (time or memory)"))

    def choose(self, n, note=None):
        """Nondeterministic choice among n alternatives"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i >= self.max_decisions:
                raise Budget("too many decisions on one path")
            d = self.split(range(n))
        self.decisions.append(d)
        if note:
            self.trace.append("%s: %s" % (note, d))
        return int(d)

    def concretize(self, v, lo, hi, what="value"):
        """Split on the value of v, which must lie in lo..hi (obligation-free: caller knows)."""
        v = simp(v)
        if concrete(v):
            return v
        for k in range(lo, hi):
            if self.branch(v == k):
                return k
        self.assume(v == hi)
        return hi

    # -- obligations -----------------------------------------------------
    def prove(self, name, f, **info):
        if self.quiet:
            return True
        a = self.rec.obligations.setdefault(name, [0, 0])
        a[1] += 1
        f = simp(f)
        if concrete(f):
            if f:
                a[0] += 1
                self.rec.backends["simplifier"] = self.rec.backends.get("simplifier", 0) + 1
                return True
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                self.rec.undecided.append((name, "solver: %s whether the path is feasible" % r))
                return False
            self.fail(name, f, self.solver.model(), info, r)
            return False
        r = self.check(z3.Not(f))
        if r == z3.unsat:
            a[0] += 1
            self.rec.backends["z3"] = self.rec.backends.get("z3", 0) + 1
            return True
        if r == z3.sat:
            self.fail(name, f, self.solver.model(), info, r)
            return False
        o = cvc5_check(self.pc + [z3.Not(f)])
        if o == "unsat":
            a[0] += 1
            self.rec.backends["cvc5"] = self.rec.backends.get("cvc5", 0) + 1
            return True
        self.rec.undecided.append((name, "solver: z3 %s, cvc5 %s" % (r, o)))
        return False

    def lemma(self, name, claim, inst):
        """Proves claim (a function of integers to (hypotheses, conclusion)) for all integers, on its own, and then
        assumes its instance"""
        n = claim.__code__.co_argcount
        if name not in self.rec.lemmas:
            v = [z3.Int("lemma_%d" % i) for i in range(n)]
            hyp, con = claim(*v)
            key = z3.Implies(hyp, con).sexpr()
            if key not in LEMMAS:
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(hyp, z3.Not(con))
                t = time.time()
                r = s.check()
                LEMMAS[key] = r == z3.unsat or cvc5_check([hyp, z3.Not(con)]) == "unsat"
                self.rec.solver_s += time.time() - t
            o = LEMMAS[key]
            self.rec.lemmas[name] = o
            a = self.rec.obligations.setdefault("lemma: " + name, [0, 0])
            a[1] += 1
            if o:
                a[0] += 1
            else:
                self.rec.undecided.append((name, "lemma not proved"))
        if self.rec.lemmas[name] and inst is not None:
            hyp, con = claim(*[lift(x) for x in inst])
            self.assume(z3.Implies(hyp, con))

    def theorem(self, name, claim, inst):
        """Proves claim as a lemma, and assumes inst, which the caller knows to be an instance of it with definitions
        left out that hold"""
        self.lemma(name, claim, None)
        if self.rec.lemmas[name]:
            self.assume(inst)

    def fail(self, name, f, model, info, r):
        vals = {}
        if model is not None:
            for n, t in self.inputs:
                m = model.eval(t, model_completion=False)
                if m is not None:
                    vals.setdefault(n, str(m))
        d = {"obligation": name, "formula": str(f)[:2000], "model": vals, "solver": str(r),
             "trace": self.trace[-60:]}
        d.update({k: str(v)[:1500] for k, v in info.items()})
        self.rec.failures.append(d)

    def cover(self, name):
        """Reachability witness: the precondition and this path are satisfiable."""
        if self.rec.covers.get(name):
            self.rec.covers[name] += 1
            return
        r = self.check()
        if r == z3.sat or r == z3.unknown:
            self.rec.covers[name] = self.rec.covers.get(name, 0) + 1


LEMMAS = {}  # the lemmas tried by this process
TOKENS = None  # processes that may run beside the first one of every proof


def explore(run, rec=None, max_paths=20000, max_s=600):
    """Run `run(ctx)` over all feasible paths."""
    rec = rec or Record()
    todo = [[]]
    t0 = time.time()
    pipe, token = None, False
    try:
        while todo:
            prefix = todo.pop()
            ctx = Ctx(rec, prefix)
            ctx.fork = FORK
            ctx.pipe, ctx.token = pipe, token
            rec.paths += 1
            try:
                run(ctx)
            except Stop:
                pass
            except Unsupported as e:
                ctx.rec.undecided.append(("path", str(e)))
            except RecursionError:
                ctx.rec.undecided.append(("path", "recursion"))
            except z3.Z3Exception as e:
                ctx.rec.undecided.append(("path", "z3: %s" % e))
            finally:
                if ctx.pipe != pipe:
                    # another process than before: only what comes after its own start
                    todo = []
                rec, pipe, token = ctx.rec, ctx.pipe, ctx.token
                while ctx.children:
                    ctx.collect()
            todo.extend(ctx.pending)
            if rec.paths > max_paths or time.time() - t0 > max_s:
                if todo:
                    rec.undecided.append(("exploration", "budget exhausted with %d paths left" % len(todo)))
                break
            if len(rec.failures) > 12 or len(rec.undecided) > 40:
                break
    except BaseException:
        if pipe is None:
            raise
        rec.undecided.append(("path", "verifier error: " + traceback.format_exc()[-1500:]))
    if pipe is not None:
        with os.fdopen(pipe, "wb") as f:
            pickle.dump(rec, f)
        if token:
            TOKENS.release()
        os._exit(0)
    return rec


FORK = os.environ.get("NOFORK") is None
