"""Loading of the extracted AST (JSON written by extract/extract.cc)."""
import json


class Unsupported(Exception):
    """A construct of the code (or of the std library) the verifier does not
    model.  Never turned into a violation: the function falls back to the
    bounded stand-in."""


class Ty:
    __slots__ = ("k", "s", "name", "args", "to", "w", "sg", "char", "rid",
                 "lam", "repo", "const", "n", "_tu", "_to", "_args")

    def __init__(self, tu, d):
        self._tu = tu
        self.k = d["k"]
        self.s = d["s"]
        self.const = d.get("const", False)
        self.name = d.get("name")
        self._args = d.get("args", [])
        self._to = d.get("to")
        self.w = d.get("w")
        self.sg = d.get("sg")
        self.char = d.get("char", False)
        self.rid = d.get("rid")
        self.lam = d.get("lambda")
        self.repo = d.get("repo", False)
        self.n = d.get("n")
        self.args = None
        self.to = None

    @property
    def key(self):
        s = self.s
        if self.const:
            if s.startswith("const "):
                s = s[6:]
            elif s.endswith("const"):
                s = s[:-5].rstrip()
        return s

    def noref(self):
        t = self
        while t.k in ("lref", "rref"):
            t = t.to
        return t

    @property
    def isref(self):
        return self.k in ("lref", "rref")

    def targs(self):
        return [a for a in self.args if isinstance(a, Ty)]

    def __repr__(self):
        return "Ty(%s)" % self.s


class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = [Ty(self, t) for t in d["types"]]
        for t in self.types:
            t.args = [self.types[a] if isinstance(a, int) else a for a in t._args]
            t.to = self.types[t._to] if t._to is not None else None
        self.functions = {int(k): v for k, v in d["functions"].items()}
        self.records = {int(k): v for k, v in d["records"].items()}
        for f in self.functions.values():
            f["id"] = int(f["id"])
        self.rec_by_key = {}
        for t in self.types:
            if t.k == "rec" and t.rid is not None and t.rid in self.records:
                self.rec_by_key.setdefault(t.key, t)
        # derived classes and overriders
        self.bases = {}
        self.derived = {}
        for t in list(self.rec_by_key.values()):
            bs = [self.types[b] for b in self.records[t.rid]["bases"]]
            self.bases[t.key] = bs
            for b in bs:
                self.derived.setdefault(b.key, []).append(t)
        self.method_overrides = {}  # id -> set of overridden ids (transitive later)
        self.method_cls = {}
        for t in self.rec_by_key.values():
            for m in self.records[t.rid]["methods"]:
                self.method_overrides[m["id"]] = set(m["overrides"])
                self.method_cls[m["id"]] = t.key

    def ty(self, i):
        return self.types[i]

    def rec(self, ty):
        return self.records[ty.rid]

    def all_derived(self, key):
        out = []
        for d in self.derived.get(key, []):
            out.append(d)
            out += self.all_derived(d.key)
        return out

    def overrides(self, a, b):
        """does method a (transitively) override b"""
        if a == b:
            return True
        return any(self.overrides(x, b) for x in self.method_overrides.get(a, ()))

    def final_overrider(self, mid, key):
        """the method that a virtual call of mid runs on an object of exact type key"""
        t = self.rec_by_key.get(key)
        if t is None:
            return mid
        for m in self.rec(t)["methods"]:
            if self.overrides(m["id"], mid):
                return m["id"]
        for b in self.bases.get(key, []):
            r = self.final_overrider(mid, b.key)
            if r is not None and self.overrides(r, mid):
                return r
        return mid

    def find(self, q, pred=None):
        """functions with a body and this template-free qualified name"""
        out = []
        for f in self.functions.values():
            if strip_targs(f["q"]) == q and (pred is None or pred(f)):
                out.append(f)
        return out


def strip_targs(q):
    out = []
    depth = 0
    i = 0
    while i < len(q):
        if q.startswith("operator", i):
            # operator symbols contain < and >
            j = i + 8
            out.append("operator")
            while j < len(q) and not (q[j].isalnum() or q[j] == "_"):
                if depth == 0:
                    out.append(q[j])
                j += 1
            i = j
            continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)
