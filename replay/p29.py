import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyreplay import case, cases, done, load, refuses

src, seed, tier = sys.argv[1:4]
pool, worker = load(src, "pool", "worker")
rnd = random.Random(int(seed))


def expect(kind, mn, mx, step):
    if kind == "size":
        return [mn]
    out = [mn]
    while True:
        n = out[-1] * step if kind == "multiplier" else out[-1] + step
        if n > mx:
            return out
        out.append(n)


def describe(kind, mn, mx, step):
    return {"size": mn} if kind == "size" else {"min_size": mn, "max_size": mx, kind: step}


def check(kind, mn, mx, step):
    want = expect(kind, mn, mx, step)
    data = describe(kind, mn, mx, step)
    p = pool.Pool(dict(data))
    for q in (p, pool.Pool(p.to_json())):
        if q.nr_permutations != len(want):
            return "%s permutations, not %d" % (q.nr_permutations, len(want))
        got = [q.permutation_size(i) for i in range(len(want))]
        if got != want:
            return "permutations %s, not %s" % (got[:8], want[:8])
        if q.min_size != want[0] or q.max_size != want[-1]:
            return "sizes from %s to %s, not from %d to %d" % (q.min_size, q.max_size, want[0], want[-1])
        for i in (-1, len(want), len(want) + 1, -len(want)):
            if not refuses(lambda: q.permutation_size(i)):
                return "permutation %d of %d is not refused" % (i, len(want))
        if q.nr_permutations != len(want):
            return "the number of permutations changes"
        if str(q.range) != str(p.range):
            return "the text of the pool changes: %s" % q.range
    t = p.to_json()
    if set(t) != set(data):
        return "the description has %s" % sorted(t)
    for k in data:
        if k != "max_size" and t[k] != data[k]:
            return "the description has %s %s, not %s" % (k, t[k], data[k])


def one(kind, mn, mx, step):
    case("pool of kind %s from %d to %d by %d" % (kind, mn, mx, step), lambda: check(kind, mn, mx, step))


top = 24 if tier == "quick" else 60
for mn in range(1, top):
    one("size", mn, mn, 0)
    for mx in range(mn, top):
        for step in range(1, 8):
            one("incrementor", mn, mx, step)
            if step > 1:
                one("multiplier", mn, mx, step)
for _ in range(300 if tier == "quick" else 3000):
    mn, step = rnd.randint(1, 10**6), rnd.randint(2, 1000)
    one("multiplier", mn, mn * step ** rnd.randint(0, 6) + rnd.randint(-1, 1) * (mn > 1) + 1, step)
    one("incrementor", mn, mn + step * rnd.randint(0, 200) + rnd.randint(0, 2), step)
    one("size", mn, mn, 0)
    one("multiplier", 1, 2 ** rnd.randint(40, 70), 2)
for kind, mn, mx, step in [("multiplier", 0, 4, 2), ("multiplier", 1, 4, 1), ("multiplier", 1, 4, 0), ("multiplier", 5, 4, 2), ("multiplier", -1, 4, 2),
                           ("incrementor", 0, 4, 1), ("incrementor", 1, 4, 0), ("incrementor", 5, 4, 1), ("incrementor", 1, 4, -1), ("size", 0, 0, 0),
                           ("size", -3, 0, 0)]:
    case("no pool of kind %s from %d to %d by %d" % (kind, mn, mx, step),
         lambda: None if refuses(lambda: pool.Pool(describe(kind, mn, mx, step))) else "it is not refused")


class O:
    pass


def cluster(numa, cores):
    c = O()
    c.cluster_node = O()
    c.cluster_node.nr_numa_nodes = numa
    c.cluster_node.package = O()
    c.cluster_node.package.numa_node = O()
    c.cluster_node.package.numa_node.nr_cores = cores
    return c


def workers(kind, per, data, numa, cores):
    c = cluster(numa, cores)
    if kind != "thread" and per == "cluster_node":
        return None if refuses(lambda: worker.Worker({"type": kind, "pool": data}, c, per)) else "it is not refused"
    w = worker.Worker({"type": kind, "pool": data}, c, per)
    p = pool.Pool(data)
    if w.nr_benchmarks != p.nr_permutations:
        return "%d benchmarks" % w.nr_benchmarks
    if [w.nr_workers(i) for i in range(w.nr_benchmarks)] != [p.permutation_size(i) for i in range(p.nr_permutations)]:
        return "other workers than those of the pool"
    mine = (p.min_size, p.max_size)
    want = {"thread": ((1, 1), (numa, numa) if per == "cluster_node" else (1, 1), mine),
            "numa_node": ((1, 1), mine, (cores, cores)), "cluster_node": (mine, (numa, numa), (cores, cores))}[kind]
    for (a, b), n in zip(want, ("cluster_nodes", "numa_nodes", "threads")):
        if (getattr(w, "min_nr_" + n), getattr(w, "max_nr_" + n)) != (a, b):
            return "%s from %s to %s, not from %s to %s" % (n, getattr(w, "min_nr_" + n), getattr(w, "max_nr_" + n), a, b)
        if getattr(w, "nr_%s_range" % n) != b - a:
            return "a range of %s of %s" % (n, getattr(w, "nr_%s_range" % n))
    if w.to_json() != {"type": kind, "pool": p.to_json()}:
        return "described as %s" % w.to_json()


for kind in ("thread", "numa_node", "cluster_node"):
    for per in ("cluster_node", "numa_node"):
        for data in ({"size": 3}, {"min_size": 2, "max_size": 17, "multiplier": 2}, {"min_size": 2, "max_size": 17, "incrementor": 4}):
            for numa, cores in ((2, 8), (1, 1), (8, 6)):
                case("workers of type %s per %s, pool %s, %d numa nodes of %d cores" % (kind, per, data, numa, cores),
                     lambda: workers(kind, per, data, numa, cores))
done()
