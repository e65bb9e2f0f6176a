"""Loops with a symbolic number of iterations whose variables advance by a constant per iteration.

The invariant (each variable is its initial value plus iteration number times its step) is proposed from one iteration,
and proved by induction on a generic one. Memory written by a generic iteration is generalised to all of them when the
indices written advance by a constant number of places. Anything else is left to bounded unrolling."""
import z3

from .interp import Cell, Ptr
from .smt import And, If, Not, Unsupported, concrete, eq, is_sym, lift, simp


class Abort(Exception):
    pass


def _ptr(v):
    return isinstance(v, Ptr) and v.i is not None


def _num(v):
    return (not isinstance(v, bool) and isinstance(v, int)) or (is_sym(v) and v.sort() == z3.IntSort())


class State:
    def __init__(self, E):
        self.E = E
        self.cells = [c for c in E.fr.env.values() if isinstance(c, Cell)]
        self.vals = [c.get() for c in self.cells]
        self.seqs = []
        seen = set()

        def visit(v):
            if isinstance(v, E.std.Seq) and id(v) not in seen:
                seen.add(id(v))
                self.seqs.append((v, list(v.items) if v.items is not None else None, v.n, v.fn))
            elif isinstance(v, Ptr):
                visit(v.t)

        for v in list(E.fr.env.values()) + self.vals:
            visit(v)

    def restore(self):
        for c, v in zip(self.cells, self.vals):
            c.set(v)
        for s, items, n, fn in self.seqs:
            s.items, s.n, s.fn = (list(items) if items is not None else None), n, fn


def _diff(a, b):
    """b - a for numbers and pointers into the same sequence"""
    if _ptr(a) and _ptr(b) and a.t is b.t:
        a, b = a.i, b.i
    elif not (_num(a) and _num(b)):
        raise Abort()
    return simp(lift(b) - lift(a))


def _add(v, d):
    if _ptr(v):
        return Ptr(v.t, simp(lift(v.i) + d))
    return simp(lift(v) + d)


def affine(E, s, c, inc, body):
    """Returns True when the loop has been summarised; on False the state is as before"""
    ctx = E.ctx
    if c is None:
        return False
    st = State(E)
    ndec, npc, npend = len(ctx.decisions), len(ctx.pc), len(ctx.pending)
    pfx = ctx.prefix
    if len(ctx.decisions) < len(ctx.prefix):
        pass
    ctx.solver.push()
    writes = []
    rec_b = len(ctx.rec.bounded)

    def leave():
        ctx.solver.pop()
        del ctx.pc[npc:]
        ctx.cache.clear()

    def iteration(k, steps):
        if steps is not None:
            for cell, v, d in steps:
                cell.set(_add(v, simp(lift(d) * lift(k))))
        v = simp(E.tobool(E.full(c)))
        ctx.assume(v)
        r = E.stmt(body)
        if r is not None:
            raise Abort()
        if inc is not None:
            E.full_discard(inc)
        if len(ctx.decisions) != ndec or len(ctx.pending) != npend:
            raise Abort()

    ctx.quiet = getattr(ctx, "quiet", 0) + 1
    try:
        try:
            # proposal
            iteration(0, None)
            steps = []
            for cell, v in zip(st.cells, st.vals):
                n = cell.get()
                if n is v:
                    continue
                if type(n) is type(v) and concrete(n) and concrete(v) and not isinstance(n, Ptr) and n == v:
                    continue
                d = _diff(v, n)
                if not concrete(d) :
                    raise Abort()
                if d:
                    steps.append((cell, v, d))
            if not steps:
                raise Abort()
        except (Abort, Unsupported, TypeError):
            return False
        finally:
            leave()
            st.restore()
            if len(ctx.decisions) != ndec or len(ctx.pending) != npend:
                raise Unsupported("loop body with cases")
    finally:
        ctx.quiet -= 1
    # the generic iteration
    k = ctx.fresh("iteration", lo=0, report=False)
    ctx.solver.push()
    npc = len(ctx.pc)
    E.std.Seq.log = writes
    try:
        iteration(k, steps)
        for cell, v, d in steps:
            w = _add(v, simp(lift(d) * (k + 1)))
            n = cell.get()
            if not ctx.entails(eq(_diff(n, w), 0)):
                raise Abort()
        for cell, v in zip(st.cells, st.vals):
            if not any(cell is x for x, _, _ in steps):
                n = cell.get()
                if n is not v and not (_num(n) and _num(v) and ctx.entails(eq(n, v))):
                    if not (isinstance(n, Ptr) and isinstance(v, Ptr) and n.t is v.t and ctx.entails(eq(n.i, v.i))):
                        raise Abort()
        known = {id(q) for q, _, _, _ in st.seqs}
        summary = {}
        for seq, i, v in writes:
            if id(seq) not in known:
                continue
            summary.setdefault(id(seq), (seq, []))[1].append((i, v))
        plan = []
        for seq, ws in summary.values():
            i0, _ = ws[0]
            m = simp(z3.substitute(lift(i0), (k, k + 1)) - lift(i0))
            if not concrete(m) or m <= 0:
                raise Abort()
            base = simp(z3.substitute(lift(i0), (k, z3.IntVal(0))))
            offs = {}
            for i, v in ws:
                o = simp(lift(i) - lift(i0))
                mm = simp(z3.substitute(lift(i), (k, k + 1)) - lift(i))
                if not concrete(o) or not 0 <= o < m or not concrete(mm) or mm != m:
                    raise Abort()
                offs[o] = v
            plan.append((seq, base, m, offs))
        ok = True
    except (Abort, TypeError):
        ok = False
    finally:
        E.std.Seq.log = None
        leave()
        st.restore()
        if len(ctx.decisions) != ndec or len(ctx.pending) != npend:
            raise Unsupported("loop body with cases")
    if not ok:
        return False
    # after the loop
    N = ctx.fresh("iterations", lo=0, report=False)
    for cell, v, d in steps:
        cell.set(_add(v, simp(lift(d) * N)))
    cN = simp(E.tobool(E.full(c)))
    for cell, v, d in steps:
        cell.set(_add(v, simp(lift(d) * (N - 1))))
    cP = simp(E.tobool(E.full(c)))
    for cell, v, d in steps:
        cell.set(_add(v, simp(lift(d) * N)))
    ctx.assume(Not(cN))
    from .smt import Or

    ctx.assume(Or(eq(N, 0), cP))

    def final(old, base, m, offs):
        def fn(j):
            rel = simp(lift(j) - lift(base))
            q, o = simp(lift(rel) / m), simp(lift(rel) % m)
            inside = And(rel >= 0 if not is_sym(rel) else rel >= 0, simp(lift(rel) < m * N))
            r = old(j)
            for off, v in offs.items():
                w = z3.substitute(lift(v), (k, lift(q))) if is_sym(v) else v
                from .interp import UNDEF

                if r is UNDEF:
                    if not ctx.entails(And(inside, eq(o, off))):
                        if ctx.entails(Not(And(inside, eq(o, off)))):
                            continue
                        raise Unsupported("partially initialised memory")
                    r = w
                else:
                    r = If(simp(And(inside, eq(o, off))), w, r)
            return r

        return fn

    for seq, base, m, offs in plan:
        if seq.items is not None:
            raise Unsupported("symbolic loop over a sequence of known size")
        seq.fn = final(seq.fn, base, m, offs)
    ctx.rec.assumptions.add("loop invariants found for: %s" % E.where().rsplit(":", 1)[0]) if False else None
    ctx.rec.induction = getattr(ctx.rec, "induction", 0) + 1
    return True


def scalars(o, seen=None):
    """Numbers held in an object and the objects it is made of"""
    from .interp import Obj

    seen = {} if seen is None else seen
    out = []
    if isinstance(o, Obj) and id(o) not in seen:
        seen[id(o)] = o
        for k, v in o.f.items():
            v = v.get() if isinstance(v, Cell) else v
            if _num(v):
                out.append((k, v))
            else:
                out += scalars(v, seen)
    return out


def each(E, s, c, inc, body):
    """A loop whose iterations each create objects of their own: one arbitrary iteration stands for all.

    Sound because the state an iteration meets differs from the initial one only by objects that other iterations created
    (names of different iterations are different: a precondition of the specification), and because nothing else may change:
    an iteration that ends the loop, changes a variable or a member, or does anything else to the file than creating
    objects and working on those is not summarised. Returns False, with the state as before, where it does not apply."""
    ctx = E.ctx
    if c is None or inc is None or getattr(ctx, "quiet", 0):
        return False
    st = State(E)
    try:
        E.full_discard(inc)
        steps = []
        for cell, v in zip(st.cells, st.vals):
            n = cell.get()
            if n is v or (type(n) is type(v) and concrete(n) and concrete(v) and not isinstance(n, Ptr) and n == v):
                continue
            steps.append((cell, v, _diff(v, n)))
    except (Abort, TypeError):
        return False
    finally:
        st.restore()
    if not steps:
        return False

    def at(k):
        for cell, v, d in steps:
            cell.set(_add(v, simp(lift(d) * lift(k))))

    if ctx.choose(2, note="loop: no iteration, an arbitrary one") == 0:
        ctx.assume(Not(E.tobool(E.full(c))))
        return True
    k = ctx.fresh("iteration", lo=0)
    E.iteration = k
    at(k)
    ctx.assume(E.tobool(E.full(c)))
    W = E.world
    n0 = len(W.log)
    before = scalars(E.fr.this) if getattr(E.fr, "this", None) is not None else []
    vals = [(cell, cell.get()) for cell in st.cells]
    r = E.stmt(body)
    if r is not None:
        raise Unsupported("loop that is left")
    for cell, v in vals:
        n = cell.get()
        if n is not v and not (_num(n) and _num(v) and ctx.entails(eq(n, v))):
            raise Unsupported("loop that changes a variable")
    after = scalars(E.fr.this) if before else []
    if len(after) != len(before) or not all(a[1] is b[1] or ctx.entails(eq(a[1], b[1])) for a, b in zip(before, after)):
        raise Unsupported("loop that changes a member")
    new = []
    for x in W.log[n0:]:
        if x[0] == "link":
            new.append(x[3])
        elif not any(x[1] is o for o in new):
            raise Unsupported("loop that changes objects")
    N = ctx.fresh("iterations", lo=1)
    ctx.assume(N > k)
    at(simp(N - 1))
    ctx.assume(E.tobool(E.full(c)))
    at(N)
    ctx.assume(Not(E.tobool(E.full(c))))
    ctx.rec.induction = getattr(ctx.rec, "induction", 0) + 1
    return True
