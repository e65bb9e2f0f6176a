"""P28: shapes of experiments"""
import z3

from vc import py
from vc.py import B, Many, N, val
from vc.smt import And, Implies, Not, Or, eq, lift
from . import lib
from .p29 import WHERE, outcome

SHAPE = WHERE + "shape.py"
WEAK = WHERE + "weak_scalability/generate_script.py"
CACHE = {}


def use(ctx, name, claim, inst):
    """A lemma whose hypotheses hold: its conclusion"""
    inst = [lift(x) for x in inst]
    hyp, con = claim(*inst)
    hs = hyp.children() if z3.is_and(hyp) else [hyp]
    if all(py.quick(h, 400) for h in hs):
        ctx.theorem(name, claim, con)
    else:
        ctx.lemma(name, claim, inst)


def module(name, **kw):
    from vc import build
    if name not in CACHE:
        CACHE[name] = py.Module(build.SRC + "/" + name, **kw)
    return CACHE[name]


def number(ctx, name, lo=None, hi=None):
    return N(ctx.fresh(name, lo=lo, hi=hi))


def shape(ctx, rank, name, lo=None):
    return tuple(number(ctx, "%s%d" % (name, i), lo) for i in range(rank))


def v(x):
    return lift(val(x))


def product(xs):
    r = lift(1)
    for x in xs:
        r = r * v(x)
    return r


def power(x, n):
    r = lift(1)
    for _ in range(n):
        r = r * x
    return r


def sequence(x):
    """Number of elements and element by index of what can be iterated over"""
    if isinstance(x, Many):
        return v(x.n), x.at
    x = list(x)
    return lift(len(x)), lambda k: x[k]


def unique(ctx, shape, partition, multiplier):
    for q, r, a, b in list(ctx.__dict__.get("pydiv", {}).values()):
        for x, y, m in zip(shape, partition, multiplier):
            if z3.eq(a, v(x)) and z3.eq(b, v(y)):
                ctx.lemma("quotients are unique", lambda q, r, m, x, y: (z3.And(y > 0, x == q * y + r, 0 <= r, r < y, m * y == x), z3.And(q == m, r == 0)),
                          [q, r, v(m), a, b])


def multipliers(rank):
    def run(ctx):
        ns = module(SHAPE).load()
        s, p = shape(ctx, rank, "shape"), shape(ctx, rank, "partition")
        fits = And(*[And(v(a) > 0, v(b) > 0) for a, b in zip(s, p)])
        whole = z3.Function("whole", z3.IntSort(), z3.IntSort(), z3.IntSort())
        e, m = outcome(lambda: ns["partition_shape_multipliers"](s, p))
        if e is None:
            ctx.prove("shapes without cells are refused", fits)
            ctx.prove("there is a multiplier for each dimension", len(m) == rank)
            for a, b, c in zip(s, p, m):
                ctx.prove("the partitions exactly cover the shape", v(c) * v(b) == v(a))
                ctx.prove("multipliers are positive", v(c) >= 1)
        else:
            # refused: not all extents are a positive multiple of the partition's
            k = [number(ctx, "multiplier%d" % i) for i in range(rank)]
            unique(ctx, s, p, k)
            ctx.prove("only shapes the partitions do not cover are refused",
                      Not(And(fits, *[v(a) == v(b) * v(c) for a, b, c in zip(s, p, k)])), exception=e)
        ctx.cover("end")
    return run


def ranges(rank):
    def run(ctx):
        ns = module(SHAPE).load()
        s = shape(ctx, rank, "shape", 1)
        # the partition shapes, by what they are multiplied with
        a, b = shape(ctx, rank, "most", 1), shape(ctx, rank, "least", 1)
        mn, mx = shape(ctx, rank, "min_partition", 1), shape(ctx, rank, "max_partition", 1)
        for i in range(rank):
            ctx.assume(And(v(mn[i]) * v(a[i]) == v(s[i]), v(mx[i]) * v(b[i]) == v(s[i])))
        for i in range(rank):
            for x, m in ((mn, a), (mx, b)):
                py.divmod_(s[i], x[i])
                unique(ctx, s, x, m)
        e, r = outcome(lambda: ns["ranges_of_partition_shape_multipliers"](s, mn, mx))
        order = And(*[v(a[i]) >= v(b[i]) for i in range(rank)])
        if e is not None:
            ctx.prove("only ranges that end before they start are refused", Not(order), exception=e)
            return
        ctx.prove("ranges that end before they start are refused", order)
        ctx.prove("there is a range for each dimension", len(r) == rank)
        for i, x in enumerate(r):
            n, at = sequence(x)
            ctx.prove("the multipliers are those between the largest and the smallest", n == v(a[i]) - v(b[i]))
            k = number(ctx, "k", 0)
            if ctx.branch(v(k) < n):
                ctx.prove("the multipliers decrease one by one, from the largest", eq(val(at(k)), v(a[i]) - v(k)))
                ctx.prove("multipliers are within the range", And(v(at(k)) <= v(a[i]), v(at(k)) > v(b[i])))
        ctx.cover("end")
    return run


def steps(rank):
    def run(ctx):
        ns = module(SHAPE).load()
        mn, mx, step = shape(ctx, rank, "min"), shape(ctx, rank, "max"), number(ctx, "step")
        order = And(v(step) > 0, *[v(mn[i]) <= v(mx[i]) for i in range(rank)])
        which = ["shape_ranges", "partition_shapes"][ctx.choose(2)]
        e, r = outcome(lambda: ns[which](mn, mx, step))
        if e is not None:
            ctx.prove("only ranges that end before they start are refused", Not(order), exception=e)
            return
        ctx.prove("ranges that end before they start are refused", order)
        if which == "shape_ranges":
            ctx.prove("there is a range for each dimension", len(r) == rank)
            for i, x in enumerate(r):
                n, at = sequence(x)
                k = number(ctx, "k", 0)
                ctx.prove("a range is not empty", n >= 1)
                if ctx.branch(v(k) < n):
                    ctx.prove("the extents are those asked for", eq(val(at(k)), v(mn[i]) + v(k) * v(step)))
                    ctx.prove("extents are within the range", And(v(mn[i]) <= v(at(k)), v(at(k)) <= v(mx[i])))
                ctx.prove("no extent is missing", v(mn[i]) + n * v(step) > v(mx[i]))
        else:
            n, at = sequence(r)
            k = number(ctx, "k", 0)
            ctx.prove("there is a shape", n >= 1)
            ctx.prove("no shape is missing", Or(*[v(mn[i]) + n * v(step) > v(mx[i]) for i in range(rank)]))
            if ctx.branch(v(k) < n):
                x = at(k)
                ctx.prove("a shape has the rank of the range", len(x) == rank)
                for i in range(rank):
                    ctx.prove("the shapes are those asked for", eq(val(x[i]), v(mn[i]) + v(k) * v(step)))
                    ctx.prove("shapes are within the range", And(v(mn[i]) <= v(x[i]), v(x[i]) <= v(mx[i])))
        ctx.cover("end")
    return run


def mismatch(ctx):
    """Shapes of different ranks"""
    ns = module(SHAPE).load()
    a, b = ctx.choose(3) + 1, ctx.choose(3) + 1
    if a == b:
        return
    s, t = shape(ctx, a, "a", 1), shape(ctx, b, "b", 1)
    e, _ = outcome(lambda: ns["partition_shape_multipliers"](s, t))
    ctx.prove("shapes of different ranks are refused", e is not None)
    e, _ = outcome(lambda: list(ns["shape_ranges"](s, t, 1)))
    ctx.prove("shapes of different ranks are refused", e is not None)
    ctx.cover("end")


# -- roots

def root_facts(site, now, loc):
    """Candidates for the loops of integer_root"""
    if "integer_root" not in site or "value" not in loc or "degree" not in loc or isinstance(loc["degree"], N):
        return []
    out = []
    for n, x in now.items():
        d, value = loc["degree"], lift(val(loc["value"]))
        out.append(("%s is not too large" % n, And(x >= 0, power(x, d) <= value)))
    return out


def integer_root(degree):
    def run(ctx):
        ns = module(SHAPE).load()
        value = number(ctx, "value")
        if "integer_root" not in ns:
            return
        e, r = outcome(lambda: ns["integer_root"](value, degree))
        ctx.prove("only numbers without a root are refused", (e is not None) == (v(value) < 0), exception=str(e))
        if e is None:
            ctx.prove("the root is not too large", And(v(r) >= 0, power(v(r), degree) <= v(value)))
            ctx.prove("the root is not too small", power(v(r) + 1, degree) > v(value))
        ctx.cover("end")
    return run


class Roots:
    """integer_root by its contract"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = []
        self.quotients = {}  # of the quotients roots are of: numerator and denominator

    def __call__(self, value, degree):
        ctx = self.ctx
        ctx.rec.contracts_used.add("integer_root")
        x = v(value)
        ctx.prove("a root is asked for of what has one", And(x >= 0, degree >= 1))
        for y, d, r, _ in self.memo:
            if d == degree and z3.eq(x, y):
                return r
        r = number(ctx, "root", 0)
        ctx.assume(And(power(v(r), degree) <= x, x < power(v(r) + 1, degree)))
        for q, _, a, b in list(ctx.__dict__.get("pydiv", {}).values()):
            if z3.eq(lift(q), x):  # the root of a quotient
                self.quotients[v(r).get_id()] = (a, b, q)
                use(ctx, "roots of quotients are within the quotient",
                          lambda A, B, q, n, y: (z3.And(y >= 1, q * y <= n, n < (q + 1) * y, A <= q, q + 1 <= B), z3.And(A * y <= n, n < B * y)),
                          [power(v(r), degree), power(v(r) + 1, degree), q, a, b])
        self.memo.append((x, degree, r, value))
        return r


def load(ctx):
    ns = module(SHAPE).load()
    if "integer_root" in ns:
        ns["integer_root"] = Roots(ctx)
    return ns


def memory(rank):
    def run(ctx):
        ns = load(ctx)
        mem, arrays, size, nodes = [number(ctx, n, 1) for n in ("memory_available", "nr_arrays", "size_of_element", "nr_nodes")]
        e, s = outcome(lambda: ns["array_shape"](mem, rank, arrays, size, nodes))
        ctx.prove("a shape is found for any memory", e is None, exception=str(e))
        if e:
            return
        ctx.prove("the array has the rank asked for", len(s) == rank)
        x = v(s[0])
        for y in s:
            ctx.prove("the array is square", eq(val(y), x))
        # in numbers of elements that fit
        fit = number(ctx, "elements_that_fit", 0)
        ctx.assume(And(v(fit) * (v(size) * v(arrays)) <= v(nodes) * v(mem), (v(fit) + 1) * (v(size) * v(arrays)) > v(nodes) * v(mem)))
        for q, r, a, b in list(ctx.__dict__.get("pydiv", {}).values()):
            ctx.lemma("floors are unique", lambda q, p, x, y: (z3.And(y > 0, q * y <= x, x < (q + 1) * y, p * y <= x, x < (p + 1) * y), q == p),
                      [q, v(fit), a, b])
        ctx.prove("the arrays fit in memory", And(x >= 0, power(x, rank) <= v(fit)))
        ctx.prove("no larger arrays fit in memory", power(x + 1, rank) > v(fit))
        ctx.cover("end")
    return run


def seqs(loc):
    s = getattr(py.CTX, "seq", None)
    return [s] if s is not None else []


def scaled(rank, method):
    """The shapes of a range: each is the first one scaled to the number of elements of its turn"""
    def run(ctx):
        ns = load(ctx)
        mn = shape(ctx, rank, "min", 1)
        most, mult = number(ctx, "max_nr_elements"), number(ctx, "multiplier", 2)
        first = size = v(py.product(mn))
        ctx.assume(size <= v(most))

        def fits(xs, p):
            """A shape is not larger than the size it is scaled to (the proof named so)"""
            rs = ns["integer_root"].quotients if isinstance(ns.get("integer_root"), Roots) else {}
            if all(v(x).get_id() in rs for x in xs) and len(xs) == rank:
                for t in list(ctx.seq.terms):
                    want = ctx.seq.f(t)
                    ctx.assume(Implies(And(want >= 0, *[And(eq(rs[v(x).get_id()][1], size), eq(rs[v(x).get_id()][0], power(v(b), rank) * want))
                                                        for x, b in zip(xs, mn)]), v(p) <= want))

        ctx.on_product = fits
        if method == "linear":
            ctx.lemma("factors larger than one are left", lambda m, s: (z3.And(m >= 2, s >= 1), (m - 1) * s >= 1), [v(mult), first])
            ctx.seq = py.Seq("inc", first, (v(mult) - 1) * first)
        else:
            ctx.seq = py.Seq("mul", first, v(mult))
        e, r = outcome(lambda: ns["Shape"]({"shape": mn, "range": {"max_nr_elements": most, "multiplier": mult, "method": method}}).shapes)
        ctx.prove("there are shapes for any range", e is None, exception=str(e))
        if e:
            return
        n, at = sequence(r)
        seq = ctx.seq
        ctx.prove("there is a shape", n >= 1)
        ctx.prove("no shape is missing", seq.term(n) > v(most))
        ctx.prove("no shape is too many", seq.term(n - 1) <= v(most))
        k = number(ctx, "k", 0)
        which = ctx.choose(2)
        if which == 0:
            x = at(0)
            rs = ns["integer_root"].quotients if isinstance(ns.get("integer_root"), Roots) else {}
            for a, b in zip(x, mn):
                if rank > 1 and v(a).get_id() in rs:
                    num, den, q = rs[v(a).get_id()]
                    use(ctx, "quotients of multiples are exact", lambda q, c, x, y: (z3.And(y >= 1, q * y <= x, x < q * y + y, x == c * y), q == c),
                              [q, power(v(b), rank), num, den])
                    use(ctx, "roots of powers of degree %d are exact" % rank,
                              lambda r, b, x: (z3.And(r >= 0, b >= 0, power(r, rank) <= x, x < power(r + 1, rank), x == power(b, rank)), r == b),
                              [v(a), v(b), q])
            ctx.prove("the first shape is the one the range starts with", len(x) == rank and And(*[eq(val(a), v(b)) for a, b in zip(x, mn)]))
        elif ctx.branch(v(k) < n):
            x = at(k)
            ctx.prove("a shape has the rank of the first one", len(x) == rank)
            want = seq.term(v(k))
            rs = ns["integer_root"].quotients if isinstance(ns.get("integer_root"), Roots) else {}
            for a, b in zip(x, mn):
                if rank == 1:
                    ctx.prove("the extents are scaled by the same factor, and rounded down", v(a) == want)
                elif v(a).get_id() in rs:
                    # (a / b)^rank <= want / first < ((a + 1) / b)^rank: what is known of the root of a quotient
                    num, den, _ = rs[v(a).get_id()]
                    ctx.prove("the extents are scaled by the same factor, and rounded down", And(eq(den, size), num == power(v(b), rank) * want))
                    ctx.assume(And(num == power(v(b), rank) * want, want >= size))
                    ctx.prove("the bounds on an extent", And(power(v(a), rank) * den <= num, num < power(v(a) + 1, rank) * den))
                    use(ctx, "multiples are not smaller", lambda b, w, s: (z3.And(b >= 1, w >= s, s >= 1), b * w >= b * s), [power(v(b), rank), want, size])
                    use(ctx, "powers of degree %d of positive numbers are positive" % rank, lambda b: (b >= 1, power(b, rank) >= 1), [v(b)])
                    use(ctx, "roots of what is not smaller than the number are positive",
                              lambda a, b, s, n: (z3.And(a >= 0, s >= 1, b >= 1, power(b, rank) * s <= n, n < power(a + 1, rank) * s), a >= 1),
                              [v(a), v(b), size, num])
                else:
                    ctx.prove("the extents are scaled by the same factor, and rounded down",
                              And(power(v(a), rank) * size <= power(v(b), rank) * want, power(v(a) + 1, rank) * size > power(v(b), rank) * want))
                ctx.prove("extents are positive", v(a) >= 1)
        ctx.cover("end")
    return run


def growth(rank):
    """From the scaling of each extent follow the bounds on the whole shape"""
    def run(ctx):
        b = [ctx.fresh("min%d" % i, lo=1) for i in range(rank)]
        a = [ctx.fresh("extent%d" % i, lo=0) for i in range(rank)]
        a2 = [ctx.fresh("next%d" % i, lo=0) for i in range(rank)]
        size, want, more = ctx.fresh("first_size", lo=1), ctx.fresh("size", lo=1), ctx.fresh("next_size")
        ctx.assume(And(more >= want))
        i = ctx.choose(rank)
        # one extent does not decrease
        ctx.assume(And(power(a[i], rank) * size <= power(b[i], rank) * want, power(a2[i] + 1, rank) * size > power(b[i], rank) * more))
        p, q = ctx.fresh("scaled"), ctx.fresh("scaled_next")
        ctx.assume(And(p == power(b[i], rank), p >= 1))
        ctx.lemma("products do not decrease", lambda p, x, y: (z3.And(p >= 1, x <= y), p * x <= p * y), [p, want, more])
        u, w = ctx.fresh("u"), ctx.fresh("w")
        ctx.assume(And(u == power(a[i], rank), w == power(a2[i] + 1, rank)))
        ctx.lemma("factors are ordered as products are", lambda u, w, s: (z3.And(s >= 1, u * s < w * s), u < w), [u, w, size])
        ctx.lemma("powers of degree %d are ordered as bases are" % rank, lambda x, y: (z3.And(x >= 0, y >= 0, power(x, rank) < power(y, rank)), x < y),
                  [a[i], a2[i] + 1])
        ctx.prove("extents do not decrease from shape to shape", a[i] <= a2[i])
        ctx.cover("end")
    return run


def volume(rank):
    """A shape whose extents are scaled is not larger than the size it is scaled to"""
    def run(ctx):
        b = [ctx.fresh("min%d" % i, lo=1) for i in range(rank)]
        a = [ctx.fresh("extent%d" % i, lo=0) for i in range(rank)]
        s, w = ctx.fresh("first_size", lo=1), ctx.fresh("size", lo=0)
        P = ctx.fresh("volume", lo=0)
        ctx.assume(And(s == product(map(N, b)), P == product(map(N, a))))
        x = [ctx.fresh("x%d" % i, lo=0) for i in range(rank)]
        y = [ctx.fresh("y%d" % i, lo=0) for i in range(rank)]
        for i in range(rank):
            ctx.assume(And(x[i] == power(a[i], rank) * s, y[i] == power(b[i], rank) * w, x[i] <= y[i]))
        px, py_ = x[0], y[0]
        for i in range(1, rank):
            qx, qy = ctx.fresh("px", lo=0), ctx.fresh("py", lo=0)
            ctx.lemma("products are ordered as factors are", lambda a, b, c, d: (z3.And(0 <= a, a <= b, 0 <= c, c <= d), a * c <= b * d), [px, py_, x[i], y[i]])
            ctx.assume(And(qx == px * x[i], qy == py_ * y[i]))
            px, py_ = qx, qy
        u, t = ctx.fresh("u", lo=0), ctx.fresh("t", lo=0)
        ctx.assume(And(u == P * s, t == s * w))
        return_ = ctx.prove("the products are powers of the volume and the size", And(px == power(u, rank), py_ == power(t, rank)))
        c2 = ctx
        c2.lemma("bases are ordered as powers of degree %d are" % rank, lambda x, y: (z3.And(x >= 0, y >= 0, power(x, rank) <= power(y, rank)), x <= y), [u, t])
        c2.lemma("factors are not larger than products allow", lambda u, w, s: (z3.And(s >= 1, u * s <= s * w), u <= w), [P, w, s])
        if return_:
            ctx.assume(And(px == power(u, rank), py_ == power(t, rank)))
        ctx.prove("a shape is not larger than the size it is scaled to", P <= w)
        ctx.cover("end")
    return run


def fixed(ctx):
    ns = module(SHAPE).load()
    rank = ctx.choose(3) + 1
    s = shape(ctx, rank, "shape", 1)
    e, x = outcome(lambda: ns["Shape"]({"shape": list(s)}))
    ctx.prove("a shape can be described", e is None, exception=str(e))
    e, r = outcome(lambda: (x.is_fixed(), x.shape, x.shapes, x.to_json(), ns["Shape"](x.to_json()).shape))
    ctx.prove("a fixed shape is the only one", e is None and r[0] is True and tuple(r[1]) == s and len(r[2]) == 1 and tuple(r[2][0]) == s
              and set(r[3]) == {"shape"} and tuple(r[3]["shape"]) == s and tuple(r[4]) == s, exception=str(e))
    most, mult = number(ctx, "max_nr_elements"), number(ctx, "multiplier")
    method = ["linear", "exponential", "other"][ctx.choose(3)]
    rng = {"max_nr_elements": most, "multiplier": mult, "method": method}
    e, x = outcome(lambda: ns["Shape"]({"shape": s, "range": rng}))
    if method == "other":
        ctx.prove("an unknown method is refused", e is not None)
        return
    ctx.prove("a range is refused only if it does not grow", (e is None) if method != "linear" else Or(e is None, v(mult) <= 1), exception=str(e))
    if e is None:
        t = x.to_json()
        ctx.prove("a range is not fixed", x.is_fixed() is False)
        e, _ = outcome(lambda: x.shape)
        ctx.prove("a range has no single shape", e is not None)
        ctx.prove("the description is of the range described", set(t) == {"shape", "range"} and tuple(t["shape"]) == s and set(t["range"]) == set(rng)
                  and t["range"]["method"] == method and And(eq(val(t["range"]["max_nr_elements"]), v(most)), eq(val(t["range"]["multiplier"]), v(mult))))
        e, r = outcome(lambda: x.shapes if ctx.branch(v(mult) <= 1) else None)
        ctx.prove("a range that does not grow is refused", Or(e is not None, v(mult) > 1))
    ctx.cover("end")


def weak(rank):
    """Weak scaling: what is returned is within the precision asked for"""
    def run(ctx):
        from vc import build
        ns = py.Module(build.SRC + "/" + WEAK, only={"work_scale_multiplier", "scale_array_shape"}).load()
        s, n = shape(ctx, rank, "shape", 1), number(ctx, "nr_workers", 1)
        one = ctx.choose(2, note="one worker")
        if one:
            ctx.assume(v(n) == 1)
        e, r = outcome(lambda: ns["scale_array_shape"](s, n))
        want = product(s) * v(n)
        if e is None:
            ctx.prove("the array has the rank of the one per worker", len(r) == rank)
            have = product(r)
            py.reveal()
            if one:
                ctx.prove("one worker gets the array per worker", And(*[v(a) == v(b) for a, b in zip(r, s)]))
            elif rank == 1:
                ctx.prove("the work is that of all workers", have == want)
            else:
                ctx.prove("the work is that of all workers, by 0.1%", And(999 * (have - want) < want, 999 * (want - have) < want))
                f = ctx.pyroot_value = [x for x, _ in ctx.__dict__.get("pyroot", {}).values()]
                for a, b in zip(r, s):
                    if f:
                        ctx.prove("the extents are scaled by the same factor, and rounded",
                                  And(2 * (z3.ToReal(v(a)) - f[0] * v(b)) <= 1, 2 * (f[0] * v(b) - z3.ToReal(v(a))) <= 1))
        else:
            ctx.prove("the array for one worker can be given", Not(one and rank == 1), exception=e)
        ctx.cover("end")
    return run


PROOFS = []
for d in (1, 2, 3):
    PROOFS += [("rank %d: shapes scaled, linear" % d, py.proof("lin%d" % d, scaled(d, "linear"), seqs)),
               ("rank %d: shapes scaled, exponential" % d, py.proof("exp%d" % d, scaled(d, "exponential"), seqs)),
               ("rank %d: roots" % d, py.proof("root%d" % d, integer_root(d), None, root_facts)),
               ("rank %d: growth" % d, py.proof("grow%d" % d, growth(d))),
               ("rank %d: volume" % d, py.proof("volume%d" % d, volume(d))),
               ("rank %d: multipliers" % d, py.proof("mult%d" % d, multipliers(d))),
               ("rank %d: ranges of multipliers" % d, py.proof("ranges%d" % d, ranges(d))),
               ("rank %d: shapes with a step" % d, py.proof("steps%d" % d, steps(d))),
               ("rank %d: shapes for memory" % d, py.proof("mem%d" % d, memory(d))),
               ("rank %d: weak scaling" % d, py.proof("weak%d" % d, weak(d)))]
PROOFS += [("ranks differ", py.proof("ranks", mismatch)), ("descriptions", py.proof("fixed", fixed))]

TRUSTED = ["CPython's ast module", "vc/py.py (symbolic numbers, loop rule)"]
ASSUMPTIONS = ["extents, multipliers and numbers are integers", "floating point numbers are treated as reals (the root used in weak scaling)",
               "the first estimate of a root, made in floating point, is some integer that is not negative"]
BATTERY = lib.pybattery("p28", [SHAPE])
