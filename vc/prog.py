"""Loads the exported ASTs of the current sources."""
import functools
import json
import os


@functools.lru_cache(maxsize=None)
def strip_targs(q):
    """a::b<c<d>>::e<f> -> a::b::e (keeps operator names)"""
    out = []
    i, depth, n = 0, 0, len(q)
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            j = i + 8
            for op in ("<=>", "<<=", ">>=", "<<", ">>", "<=", ">=", "->*", "->", "<", ">", "()", "[]"):
                if q.startswith(op, j):
                    j += len(op)
                    break
            else:
                # other operators and conversions
                while j < n and q[j] not in "<":
                    j += 1
            out.append(q[i:j])
            i = j
            continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or q[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class T:
    """A type of one translation unit"""

    __slots__ = ("tu", "d", "k", "name", "_e")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.k = d["k"]
        self.name = d["n"]
        self._e = None

    @property
    def e(self):
        return self.tu.type(self.d["e"])

    @property
    def q(self):
        return self.d.get("q")

    @property
    def id(self):
        return self.d.get("id")

    @property
    def w(self):
        return self.d.get("w", 32)

    @property
    def s(self):
        return self.d.get("s", 0)

    def isint(self):
        return self.k in ("int", "enum")

    def isrec(self):
        return self.k == "rec"

    def noref(self):
        return self.e if self.k == "ref" else self

    def args(self):
        return [self.tu.type(a) if isinstance(a, int) else a for a in self.d.get("args", [])]

    def __repr__(self):
        return "T(%s)" % self.name


class TU:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.types = [None] * len(d["types"])
        self.records = d["records"]
        self.enums = d["enums"]
        self.globals = d["globals"]

    def type(self, i):
        t = self.types[i]
        if t is None:
            t = self.types[i] = T(self, self.d["types"][i])
        return t


class Program:
    def __init__(self, files):
        self.tus = []
        self.fns = {}
        self.byq = {}
        self.records = {}
        for f in files:
            with open(f) as s:
                tu = TU(os.path.basename(f), json.load(s))
            self.tus.append(tu)
            for i, fn in tu.d["functions"].items():
                fn["_tu"] = tu
                old = self.fns.get(i)
                if old is not None and (old.get("body") or old.get("inits")):
                    continue
                self.fns[i] = fn
            for i, r in tu.records.items():
                if i not in self.records or len(r.get("fields", [])) > len(self.records[i][1].get("fields", [])):
                    self.records[i] = (tu, r)
        for fn in self.fns.values():
            self.byq.setdefault(strip_targs(fn["q"]), []).append(fn)

    def find(self, q, nparams=None, pred=None):
        c = self.byq.get(q, [])
        c = [f for f in c if f.get("body") is not None or f.get("inits")]
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c

    def enum(self, q):
        for tu in self.tus:
            if q in tu.enums:
                return {k: int(v) for k, v in tu.enums[q].items()}
        raise KeyError(q)
