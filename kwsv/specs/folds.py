"""Recursive spec functions over prefixes of sequences, and invariant schemas built
from them."""
import itertools
import z3
from ..tu import Unsupported
from ..terms import *
from ..prover import UNFOLD
from ..contract import same
from .common import *


def skey(s):
    return s.name() if s.kind() == z3.Z3_DATATYPE_SORT else \
        sname(s) if s.kind() == z3.Z3_ARRAY_SORT else str(s)


class Fold:
    """F(args, init, k): value after k steps from init;  step(args, k, prev) -> value after step k"""
    all = {}

    def __init__(self, name, argsorts, ret, step):
        self.name = name + "!" + ",".join(skey(s) for s in argsorts)
        self.argsorts, self.ret, self.step = list(argsorts), ret, step
        self.fn = z3.Function(self.name, *(self.argsorts + [ret, IntS, ret]))
        UNFOLD[self.name] = self.facts
        Fold.all[self.name] = self

    def facts(self, *a):
        args, init, k = list(a[:-2]), a[-2], a[-1]
        me = self.fn(*a)
        km = Sub(k, z3.IntVal(1))
        if z3.is_int_value(k):
            if k.as_long() <= 0:
                return [me == init]
            prev = self.fn(*(args + [init, km]))
            return [me == self.step(args, km, prev)]
        prev = self.fn(*(args + [init, km]))
        return [Implies(k <= 0, me == init), Implies(k > 0, me == self.step(args, km, prev))]

    def __call__(self, *a):
        """F(args..., k) from the neutral start, or with an explicit start"""
        a = list(a)
        if len(a) == len(self.argsorts) + 1:
            a.insert(len(self.argsorts), self.zero())
        a = [z3.IntVal(x) if isinstance(x, int) else x for x in a]
        return self.fn(*a)

    def zero(self):
        if self.ret == IntS:
            return z3.IntVal(0)
        if self.ret == RealS:
            return z3.RealVal(0)
        if self.ret == BoolS:
            return T(False)
        return vi_empty(self.ret)


def vi_empty(sort):
    return info(sort)[1].empty


def fold(name, argsorts, ret, step):
    key = name + "!" + ",".join(skey(s) for s in argsorts)
    if key in Fold.all:
        return Fold.all[key]
    return Fold(name, argsorts, ret, step)


def define(name, argsorts, ret, body, raw=False):
    """non-recursive spec function with its definition unfolded at ground occurrences"""
    n = name + "!" + ",".join(skey(s) for s in argsorts)
    fn = z3.Function(n, *(list(argsorts) + [ret]))
    if n not in UNFOLD:
        UNFOLD[n] = (lambda *a: body(fn(*a), *a)) if raw else (lambda *a: [fn(*a) == body(*a)])
    return fn


# names of symbols whose value depends on their vector arguments only observationally
CONG = set()


def pure_fn(name, argsorts, ret, facts=None):
    """value of a deterministic function of the code; facts: its contract"""
    n = name + "!" + ",".join(skey(s) for s in argsorts)
    fn = z3.Function(n, *(list(argsorts) + [ret]))
    CONG.add(n)
    from .. import prover
    prover.CONG.add(n)
    if n not in UNFOLD:
        UNFOLD[n] = (lambda *a: facts(fn(*a), *a)) if facts else (lambda *a: [])
    return fn


# ------------------------------------------------------------------ hints
def pick(E, spec, src):
    """candidates for one argument: a term, a function of the engine, or a sort to search"""
    if isinstance(spec, tuple) and spec[0] == "src":
        return spec[1](src)[:12]
    if callable(spec) and not isinstance(spec, z3.SortRef):
        r = spec(E)
        return [] if r is None else (r if isinstance(r, list) else [r])
    if isinstance(spec, z3.SortRef):
        return src.get(skey(spec), [])[:6]
    if isinstance(spec, str):
        return src.get(spec, [])[:8]
    return [spec]


class FoldHint:
    def __init__(self, fold, args=None, limit=16, retag=None, offs=(0,)):
        self.f = fold
        self.args = args if args is not None else fold.argsorts
        self.limit = limit

    def instances(self, E, entry, leaves, prog, src):
        fl = self.f
        tuples = list(itertools.islice(itertools.product(
            *[pick(E, a, src) for a in self.args]), self.limit))
        for nm, t0, key in leaves:
            if t0.sort() != fl.ret:
                continue
            isvec = t0.sort().kind() == z3.Z3_DATATYPE_SORT
            for n, tu_ in enumerate(tuples):
                for pn, pf in prog:
                    def pred(E, s, key=key, t0=t0, tu_=tu_, pf=pf):
                        x, y = E.leaf_of(s, key), fl(*(list(tu_) + [t0, pf(E, s)]))
                        return same(x, y) if isvec else x == y
                    yield "%s == %s(#%d, entry, %s)" % (nm, fl.name.split("!")[0], n, pn), pred
                    if isvec or t0.eq(fl.zero()):
                        continue

                    def whole(E, s, key=key, tu_=tu_, pf=pf):
                        return E.leaf_of(s, key) == fl(*(list(tu_) + [pf(E, s)]))
                    yield "%s == %s(#%d, %s)" % (nm, fl.name.split("!")[0], n, pn), whole


class FillHint:
    """a vector of fixed length whose first elements are those of a vector built by a fold"""

    def __init__(self, fold, args):
        self.f, self.args = fold, args

    def instances(self, E, entry, leaves, prog, src):
        fl = self.f
        tuples = list(itertools.islice(itertools.product(*[pick(E, a, src) for a in self.args]), 8))
        for nm, t0, key in leaves:
            if t0.sort() != fl.ret or t0.eq(fl.zero()):
                continue
            for n, tu_ in enumerate(tuples):
                for pn, pf in prog:
                    def lens(E, s, tu_=tu_, pf=pf):
                        return vlen(fl(*(list(tu_) + [pf(E, s)]))) == pf(E, s)

                    def filled(E, s, key=key, tu_=tu_, pf=pf):
                        v, k = E.leaf_of(s, key), pf(E, s)
                        j = z3.Const("j!fh", IntS)
                        x = z3.Select(vdata(v), j)
                        return z3.ForAll([j], Implies(And(j >= 0, j < k), x == z3.Select(vdata(
                            fl(*(list(tu_) + [k]))), j)), patterns=pats(x))
                    t = "%s(#%d, %s)" % (fl.name.split("!")[0], n, pn)
                    yield "as many in %s" % t, lens
                    yield "%s starts as %s" % (nm, t), filled


class PrevHint:
    """a variable that remembers the element before the current one"""

    def __init__(self, elem):
        self.elem = elem

    def instances(self, E, entry, leaves, prog, src):
        vs = src.get(skey(VecI(self.elem).sort), [])[:4]
        for nm, t0, key in leaves:
            if t0.sort() != self.elem:
                continue
            for n, v in enumerate(vs):
                for pn, pf in prog:
                    def pred(E, s, key=key, t0=t0, v=v, pf=pf):
                        k = pf(E, s)
                        return E.leaf_of(s, key) == ite(k > 0, vget(v, k - 1), t0)
                    yield "%s is the element of #%d before %s" % (nm, n, pn), pred


class ElemHint:
    """every element of a vector that grows is given by a spec function of its position"""

    def __init__(self, name, elem, fn, args, proj=None):
        self.name, self.elem, self.fn, self.args = name, elem, fn, args

    def instances(self, E, entry, leaves, prog, src):
        tuples = list(itertools.islice(itertools.product(
            *[pick(E, a, src) for a in self.args]), 16))
        for nm, t0, key in leaves:
            if skey(t0.sort()) != skey(VecI(self.elem).sort):
                continue
            for n, tu_ in enumerate(tuples):
                def pred(E, s, key=key, tu_=tu_):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!h", IntS)
                    x = z3.Select(vdata(v), i)
                    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), self.fn(x, i, *tu_)),
                                     patterns=[x] if good_pattern(x) else [])
                yield "every %s[i] is %s(#%d, i)" % (nm, self.name, n), pred


class AppendHint:
    """a vector that grows by copies of a source vector"""

    def instances(self, E, entry, leaves, prog, src):
        for nm, t0, key in leaves:
            k = skey(t0.sort())
            if not (t0.sort().kind() == z3.Z3_DATATYPE_SORT and info(t0.sort())[0] == "vec"):
                continue
            for n, sv in enumerate(src.get(k, [])[:6]):
                if sv.eq(t0):
                    continue

                def pred(E, s, key=key, t0=t0, sv=sv):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!h", IntS)
                    n0 = vlen(t0)
                    return z3.ForAll([i], Implies(
                        And(i >= 0, i < vlen(v)),
                        z3.Select(vdata(v), i) == ite(i < n0, z3.Select(vdata(t0), i),
                                                      z3.Select(vdata(sv), i - n0))))
                yield "%s is its start followed by elements of #%d" % (nm, n), pred

            def keep(E, s, key=key, t0=t0):
                v = E.leaf_of(s, key)
                i = z3.Const("i!h", IntS)
                return z3.ForAll([i], Implies(And(i >= 0, i < vlen(t0)),
                                              z3.Select(vdata(v), i) == z3.Select(vdata(t0), i)))
            yield "%s keeps its first elements" % nm, keep


class MapInPlaceHint:
    """positions already passed hold g(entry[j]), the others are untouched (index counts up)"""


class RunMaxHint:
    """running maximum from the end"""

    def instances(self, E, entry, leaves, prog, src):
        ints = [(n, k) for n, t, k in leaves if t.sort() == IntS]
        for nm, t0, key in leaves:
            if skey(t0.sort()) != skey(VecI(RealS).sort):
                continue
            n0 = vlen(t0)

            def last(E, s, key=key, t0=t0, n0=n0):
                v = E.leaf_of(s, key)
                return Implies(n0 > 0, vget(v, n0 - 1) == vget(t0, n0 - 1))
            yield "last %s unchanged" % nm, last
            for n2, k2 in ints:
                for off in (0, 1, -1):
                    def below(E, s, key=key, t0=t0, k2=k2, off=off):
                        v = E.leaf_of(s, key)
                        c = E.leaf_of(s, k2) + off
                        j = z3.Const("j!h", IntS)
                        return z3.ForAll([j], Implies(And(j >= 0, j < c, j < vlen(t0)), z3.Select(
                            vdata(v), j) == z3.Select(vdata(t0), j)))

                    def above(E, s, key=key, t0=t0, k2=k2, off=off, n0=n0):
                        v = E.leaf_of(s, key)
                        c = E.leaf_of(s, k2) + off
                        j = z3.Const("j!h", IntS)
                        return z3.ForAll([j], Implies(
                            And(j >= c, j >= 0, j < n0 - 1),
                            z3.Select(vdata(v), j) == imax(z3.Select(vdata(t0), j),
                                                           z3.Select(vdata(v), j + 1))),
                            patterns=[x for x in [z3.Select(vdata(v), j)] if good_pattern(x)])
                    for nr, tr, kr in leaves:
                        if tr.sort() != RealS:
                            continue

                        def best(E, s, key=key, t0=t0, k2=k2, off=off, n0=n0, kr=kr):
                            v = E.leaf_of(s, key)
                            c = E.leaf_of(s, k2) + off
                            return Implies(n0 > 0, E.leaf_of(s, kr) == vget(v, ite(
                                c < n0, c, n0 - 1)))
                        yield "%s is %s at %s%+d or the end" % (nr, nm, n2, off), best
                    yield "%s below %s%+d unchanged" % (nm, n2, off), below
                    yield "%s from %s%+d is the running maximum" % (nm, n2, off), above


def forall_in(n, body, name="i!p", pats=None):
    i = z3.Const(name, IntS)
    p = pats(i) if pats is not None else []
    return z3.ForAll([i], Implies(And(i >= 0, i < n), body(i)),
                     patterns=[x for x in p if good_pattern(x)])


def pats(*xs):
    return [x for x in xs if good_pattern(x)]


def good_pattern(t):
    """usable as an instantiation pattern: function applications only"""
    if z3.is_var(t) or z3.is_const(t):
        return True
    k = t.decl().kind()
    if k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_ADD,
                 z3.Z3_OP_SUB, z3.Z3_OP_DT_CONSTRUCTOR):
        return False
    return all(good_pattern(c) for c in t.children())


def induct(prop, label, P, facts=lambda k: [], base=None, more=()):
    """two obligations: P(base) and P(k) => P(k+1)"""
    k = z3.Const("k!ind", IntS)
    b = z3.IntVal(0) if base is None else base
    return [(prop, label + " (base)", list(more) + list(facts(b)), P(b)),
            (prop, label + " (step)", list(more) + [k >= b] + list(facts(k)),
             Implies(P(k), P(Add(k, z3.IntVal(1)))))]
