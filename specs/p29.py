"""P29: pools of workers"""
from vc import py
from vc.py import N, val
from vc.smt import And, Implies, Not, Or, eq, lift
from . import lib

WHERE = "quality_assurance/scalability/command/scalability/experiment/"
POOL = WHERE + "pool.py"
WORKER = WHERE + "worker.py"
CACHE = {}


def module(name, stubs=None):
    from vc import build
    if name not in CACHE:
        CACHE[name] = py.Module(build.SRC + "/" + name, stubs=stubs)
    return CACHE[name]


def number(ctx, name, lo=None, hi=None):
    return N(ctx.fresh(name, lo=lo, hi=hi))


def outcome(f):
    try:
        return None, f()
    except (AssertionError, TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, AttributeError, NameError, UnboundLocalError) as e:
        return type(e).__name__, None


def seqs(loc):
    s = loc.get("self")
    return [py.CTX.seq] if s is not None and getattr(py.CTX, "seq", None) is not None else []


KINDS = ["multiplied", "incremented", "empty"]


def setup(ctx, kind, ok=True):
    """The description of a pool, and the sequence that is meant"""
    if kind == 2:
        size = number(ctx, "size")
        if ok:
            ctx.assume(size.v >= 1)
        return {"size": size}, None, size, size, True
    mn, mx = number(ctx, "min_size"), number(ctx, "max_size")
    step = number(ctx, "multiplier" if kind == 0 else "incrementor")
    if ok:
        ctx.assume(And(mn.v >= 1, mx.v >= mn.v, step.v >= (2 if kind == 0 else 1)))
    data = {"min_size": mn, "max_size": mx, "multiplier" if kind == 0 else "incrementor": step}
    ctx.seq = py.Seq("mul" if kind == 0 else "inc", mn, step) if ok else None
    return data, ctx.seq, mn, mx, step


def term(seq, mn, k):
    return lift(val(mn)) if seq is None else seq.term(val(k))


def enumerated(kind):
    def run(ctx):
        ns = module(POOL).load()
        data, seq, mn, mx, step = setup(ctx, kind)
        e, pool = outcome(lambda: ns["Pool"](data))
        ctx.prove("a pool that can be described is accepted", e is None, exception=str(e))
        if e:
            return
        e, n = outcome(lambda: pool.nr_permutations)
        ctx.prove("the number of permutations can be asked for", e is None, exception=str(e))
        n = lift(val(n))
        ctx.prove("there is a permutation", n >= 1)
        ctx.prove("the last permutation is not larger than the pool", term(seq, mn, n - 1) <= mx.v)
        if seq is not None:
            ctx.prove("no permutation that fits is missing", term(seq, mn, n) > mx.v)
        else:
            ctx.prove("there is one permutation", n == 1)
        ctx.prove("the minimum size is that of the first permutation", eq(val(pool.min_size), mn.v))
        ctx.prove("the maximum size is that of the last permutation", eq(val(pool.max_size), term(seq, mn, n - 1)))
        ctx.cover("end")
    return run


def sizes(kind):
    def run(ctx):
        ns = module(POOL).load()
        data, seq, mn, mx, step = setup(ctx, kind)
        e, pool = outcome(lambda: ns["Pool"](data))
        if e:
            return
        n = pool.nr_permutations
        k = number(ctx, "idx")
        e, s = outcome(lambda: pool.permutation_size(k))
        inside = And(0 <= k.v, k.v < lift(val(n)))
        ctx.prove("a permutation is refused only if there is none with that index", Implies(inside, e is None), exception=str(e))
        ctx.prove("there is no other permutation", Implies(Not(inside), e is not None))
        if e is None:
            ctx.prove("the permutations are those described", eq(val(s), term(seq, mn, k)))
            ctx.prove("the permutations increase", Implies(And(k.v > 0, seq is not None), term(seq, mn, k.v - 1) < lift(val(s))))
            ctx.prove("the permutations are from the first to the last size", And(mn.v <= lift(val(s)), lift(val(s)) <= mx.v,
                                                                                 lift(val(s)) <= lift(val(pool.max_size))))
        ctx.cover("end")
    return run


def again(kind):
    def run(ctx):
        ns = module(POOL).load()
        data, seq, mn, mx, step = setup(ctx, kind)
        e, pool = outcome(lambda: ns["Pool"](data))
        if e:
            return
        e, text = outcome(lambda: pool.to_json())
        ctx.prove("a pool can be described", e is None and isinstance(text, dict), exception=str(e))
        if e:
            return
        e, other = outcome(lambda: ns["Pool"](dict(text)))
        ctx.prove("the description of a pool describes a pool", e is None, exception=str(e))
        if e:
            return
        ctx.prove("the number of permutations is the same", eq(val(other.nr_permutations), val(pool.nr_permutations)))
        ctx.prove("the minimum size is the same", eq(val(other.min_size), val(pool.min_size)))
        ctx.prove("the maximum size is the same", eq(val(other.max_size), val(pool.max_size)))
        ctx.prove("the kind of pool is the same", type(other.range).__name__ == type(pool.range).__name__)
        t2 = other.to_json()
        ctx.prove("the description is the same", set(t2) == set(text) == set(data) and And(*[eq(val(t2[x]), val(text[x])) for x in text]))
        for x in ("min_size", "multiplier", "incrementor", "size"):
            if x in data:
                ctx.prove("the description is of the pool described", eq(val(text[x]), val(data[x])))
        ctx.cover("end")
    return run


def refused(kind):
    def run(ctx):
        ns = module(POOL).load()
        data, _, mn, mx, step = setup(ctx, kind, ok=False)
        bad = mn.v < 1 if kind == 2 else Or(mn.v < 1, mx.v < mn.v, step.v < (2 if kind == 0 else 1))
        ctx.assume(bad)
        e, pool = outcome(lambda: ns["Pool"](data))
        ctx.prove("what does not describe a pool is refused", e is not None)
        ctx.cover("end")
    return run


class Cluster:
    def __init__(self, ctx):
        class O:
            pass
        self.cluster_node = O()
        self.cluster_node.nr_numa_nodes = number(ctx, "nr_numa_nodes", lo=1)
        self.cluster_node.package = O()
        self.cluster_node.package.numa_node = O()
        self.cluster_node.package.numa_node.nr_cores = number(ctx, "nr_cores", lo=1)


def workers(ctx):
    """The workers are those of the pool; the rest of the cluster is used as it is"""
    class PoolModule:
        pass

    class Pool:  # a pool, by its contract
        def __init__(self, data):
            self.min_size = number(ctx, "min_size", lo=1)
            self.max_size = number(ctx, "max_size")
            ctx.assume(self.max_size.v >= self.min_size.v)
            self.nr_permutations = number(ctx, "nr_permutations", lo=1)
            self.asked = []

        def permutation_size(self, idx):
            self.asked.append(idx)
            return self.answer

        def to_json(self):
            return {"pool": "described"}

    Pool.answer = number(ctx, "permutation_size")
    PoolModule.Pool = Pool
    ns = py.Module(module(WORKER).path, stubs={"pool": PoolModule}).load()
    cluster = Cluster(ctx)
    kind = ["thread", "numa_node", "cluster_node"][ctx.choose(3)]
    per = ["cluster_node", "numa_node"][ctx.choose(2)]
    e, w = outcome(lambda: ns["Worker"]({"type": kind, "pool": {}}, cluster, per))
    ctx.prove("workers are refused only if the localities do not fit", (e is not None) == (kind != "thread" and per == "cluster_node"), exception=str(e))
    if e:
        return
    e, n = outcome(lambda: w.nr_benchmarks)
    ctx.prove("there is a benchmark for each permutation", e is None and eq(val(n), w.pool.nr_permutations.v))
    idx = number(ctx, "benchmark")
    e, s = outcome(lambda: w.nr_workers(idx))
    ctx.prove("a benchmark uses the workers of its permutation", e is None and eq(val(s), Pool.answer.v) and len(w.pool.asked) == 1
              and eq(val(w.pool.asked[0]), idx.v))
    cores, numa = cluster.cluster_node.package.numa_node.nr_cores, cluster.cluster_node.nr_numa_nodes
    mine = (w.pool.min_size, w.pool.max_size)
    want = {"thread": ((1, 1), (numa, numa) if per == "cluster_node" else (1, 1), mine),
            "numa_node": ((1, 1), mine, (cores, cores)),
            "cluster_node": (mine, (numa, numa), (cores, cores))}[kind]
    for (a, b), what in zip(want, ("cluster_nodes", "numa_nodes", "threads")):
        ctx.prove("the workers range over the sizes of the pool, the rest is fixed",
                  And(eq(val(getattr(w, "min_nr_" + what)), val(a)), eq(val(getattr(w, "max_nr_" + what)), val(b))), what=what)
        ctx.prove("the range is the distance between them", eq(val(getattr(w, "nr_%s_range" % what)), lift(val(b)) - lift(val(a))))
    e, text = outcome(lambda: w.to_json())
    ctx.prove("the description of workers is of their type and pool", e is None and text == {"type": kind, "pool": {"pool": "described"}})
    ctx.cover("end")


PROOFS = []
for i, kname in enumerate(KINDS):
    PROOFS += [("%s: the permutations, in number and size" % kname, py.proof("enum%d" % i, enumerated(i), seqs)),
               ("%s: each permutation" % kname, py.proof("sizes%d" % i, sizes(i), seqs)),
               ("%s: written down and read again" % kname, py.proof("again%d" % i, again(i), seqs)),
               ("%s: refusals" % kname, py.proof("refuse%d" % i, refused(i), seqs))]
PROOFS.append(("workers", py.proof("workers", workers)))

TRUSTED = ["CPython's ast module", "vc/py.py (symbolic numbers, loop rule)"]
ASSUMPTIONS = ["the numbers of a pool's description are integers"]
BATTERY = lib.pybattery("p29", [POOL, WORKER])
