"""C13: grouping of matches by query group."""
from .common import *
from .folds import *
from .core import mparts, oi
from ..contract import Spec, same
from ..std import s_card

K = "kws::core::"


def m_query(m):
    """query of a match: that of its reference if it has one, else of its hypothesis"""
    r, h, _ = mparts(m)
    return ite(oi(r).has(r), query(oi(r).val(r)), query(oi(h).val(h)))


def group_of(m, mp, k):
    """group of match k"""
    inf = info(mp.sort())[1]
    q = m_query(vget(m, k))
    return ite(select(inf.get(mp, 0), q), select(inf.get(mp, 1), q), q)


class Groups:
    def __init__(self, vs, ms):
        self.vs, self.ms = vs, ms
        self.gs = VecI(vs).sort
        self.pm = MapI(info(ms)[1].ks, IntS)
        s_card(self.pm.get(z3.Const("any!pm" + self.pm.sort.name(), self.pm.sort), 0))
        self.POS = fold("GROUPPOS", [vs, ms], self.pm.sort, self._pos)
        self.GRP = fold("GROUPS", [vs, ms], self.gs, self._grp)
        self.CNT = fold("GROUPCNT", [vs, ms, self.pm.ks], IntS, lambda a, k, p: p + z3.If(
            Eq(group_of(a[0], a[1], k), a[2]), 1, 0))

    def pos(self, m, mp, k):
        return self.POS(m, mp, self.pm.empty, k)

    def grp(self, m, mp, k):
        return self.GRP(m, mp, VecI(self.vs).empty, k)

    def cnt(self, m, mp, g, k):
        return self.CNT(m, mp, g, k)

    def _pos(self, a, k, p):
        g = group_of(a[0], a[1], k)
        dom, val = self.pm.fields(p)
        return z3.If(select(dom, g), p, self.pm.mk(
            z3.Store(dom, g, T(True)), z3.Store(val, g, s_card(dom))))

    def _grp(self, a, k, p):
        g = group_of(a[0], a[1], k)
        at = select(self.pm.get(self.pos(a[0], a[1], Add(k, z3.IntVal(1))), 1), g)
        x = vget(a[0], k)
        return z3.If(at < vlen(p), vset(p, at, vpush(vget(p, at), x)),
                     vpush(p, vpush(vi_empty(self.vs), x)))


_gr = {}


def groups(vs, ms):
    k = vs.name() + "|" + ms.name()
    if k not in _gr:
        _gr[k] = Groups(vs, ms)
    return _gr[k]


class EqFoldHint:
    """a modified value equals a fold (equality of values)"""

    def __init__(self, fl, args, mk):
        self.f, self.args, self.mk = fl, args, mk

    def instances(self, E, entry, leaves, prog, src):
        tuples = list(itertools.islice(itertools.product(*[pick(E, a, src) for a in self.args]), 8))
        for nm, t0, key in leaves:
            if t0.sort() != self.f.ret:
                continue
            for n, tu_ in enumerate(tuples):
                for pn, pf in prog:
                    def pred(E, s, key=key, tu_=tu_, pf=pf):
                        return E.leaf_of(s, key) == self.mk(*(list(tu_) + [pf(E, s)]))
                    yield "%s == %s(#%d, %s)" % (nm, self.f.name.split("!")[0], n, pn), pred


class MapSizeHint:
    """number of keys of a map against the length of a vector"""

    def instances(self, E, entry, leaves, prog, src):
        for nm, t0, key in leaves:
            if not (t0.sort().kind() == z3.Z3_DATATYPE_SORT and info(t0.sort())[0] == "map"):
                continue
            mi = info(t0.sort())[1]
            for n2, t2, k2 in leaves:
                if not (t2.sort().kind() == z3.Z3_DATATYPE_SORT and info(t2.sort())[0] == "vec"):
                    continue

                def pred(E, s, key=key, k2=k2):
                    return s_card(mi.get(E.leaf_of(s, key), 0)) == vlen(E.leaf_of(s, k2))
                yield "size(%s) == len(%s)" % (nm, n2), pred
            if mi.vs != IntS:
                continue

            def below(E, s, key=key):
                v = E.leaf_of(s, key)
                x = z3.Const("x!ms", mi.ks)
                return z3.ForAll([x], Implies(
                    z3.Select(mi.get(v, 0), x),
                    And(z3.Select(mi.get(v, 1), x) >= 0,
                        z3.Select(mi.get(v, 1), x) < s_card(mi.get(v, 0)))))
            yield "values of %s lie below its size" % nm, below


def _sorts(tu, S, f):
    m = tu.ty(f["params"][0]["t"]).noref()
    mp = tu.ty(f["params"][1]["t"]).noref()
    return S.sort(m), S.sort(mp)


def specs(tu, S):
    def pre(v):
        m = v['matches']
        i = z3.Const("i!gp", IntS)

        def has(x):
            r, h, _ = mparts(x)
            return Or(oi(r).has(r), oi(h).has(h))
        return [("every match has a reference or a hypothesis", forall_in(
            vlen(m), lambda i: has(z3.Select(vdata(m), i)),
            pats=lambda i: [z3.Select(vdata(m), i)]))]

    def hints(reg, f):
        G = groups(*_sorts(tu, S, f))
        a = [ent("matches"), ent("query_to_group")]
        return [EqFoldHint(G.POS, a, G.pos), EqFoldHint(G.GRP, a, G.grp), MapSizeHint()]

    def val(v):
        m, mp = v['matches'], v['query_to_group']
        return {"groups": groups(m.sort(), mp.sort()).grp(m, mp, vlen(m))}
    return [Spec(K + "GroupMatchesByQueryGroup", ["matches", "query_to_group", "groups"], "C13",
                 pre=pre, hints=hints, val=val,
                 doc="matches distributed over groups in order of first occurrence")]


def ent(name):
    return lambda E: E.entry_terms.get(name)


def theorems(tu, S):
    out = []
    P = "C13"
    done = set()
    for f in tu.find(K + "GroupMatchesByQueryGroup"):
        vs, ms = _sorts(tu, S, f)
        key = vs.name() + ms.name()
        if key in done:
            continue
        done.add(key)
        G = groups(vs, ms)
        tag = " <%s>" % key_short(tu.ty(f["params"][0]["t"]).noref().key)[:40]
        m, mp = z3.Const("m", vs), z3.Const("mp", ms)
        g, h = z3.Const("g", G.pm.ks), z3.Const("h", G.pm.ks)
        i = z3.Const("i", IntS)
        dom = lambda k: G.pm.get(G.pos(m, mp, k), 0)
        val = lambda k, x: select(G.pm.get(G.pos(m, mp, k), 1), x)
        isin = lambda k, x: select(dom(k), x)
        grp = lambda k: G.grp(m, mp, k)
        cnt = lambda k, x: G.cnt(m, mp, x, k)
        gk = lambda k: group_of(m, mp, k)

        grown = lambda k: s_card(z3.Store(dom(k), gk(k), T(True))) >= 0

        # positions: one per group, distinct, below the number of groups
        def below(k, x):
            return Implies(isin(k, x), And(val(k, x) >= 0, val(k, x) < s_card(dom(k))))
        out += induct(P, "positions lie below the number of groups" + tag, lambda k: below(k, g),
                      facts=lambda k: [grown(k)])
        below_at = lambda k: [below(k, g), below(k, h), below(k, gk(k))]

        def inj(k, x, y):
            return Implies(And(isin(k, x), isin(k, y), Not(Eq(x, y))), val(k, x) != val(k, y))
        out += induct(P, "different groups have different positions" + tag, lambda k: inj(k, g, h),
                      facts=below_at)

        def ln(k):
            return vlen(grp(k)) == s_card(dom(k))
        out += induct(P, "one list per group" + tag, ln, facts=lambda k: [below(k, gk(k)), vlen(grp(k)) >= 0, grown(k)])
        kk = z3.Const("k!t", IntS)
        # membership and order
        common = lambda k: [grown(k), below(k, g), below(k, gk(k)), inj(k, g, gk(k)), ln(k)]

        def count(k):
            return And(Implies(isin(k, g), vlen(vget(grp(k), val(k, g))) == cnt(k, g)),
                       Implies(Not(isin(k, g)), cnt(k, g) == 0), cnt(k, g) >= 0)
        out += induct(P, "a group has as many matches as the list has of it" + tag, count, facts=common)

        def some(k):
            return Implies(isin(k, g), cnt(k, g) >= 1)
        out += induct(P, "no group is empty" + tag, some, facts=lambda k: common(k) + [count(k)])

        def elem(k):
            return Implies(And(i >= 0, i < k, gk(i) == g), And(
                isin(k, g), cnt(i, g) < cnt(k, g), cnt(i, g) >= 0,
                vget(vget(grp(k), val(k, g)), cnt(i, g)) == vget(m, i)))
        out += induct(P, "every match is in its group, after the earlier ones of the group" + tag, elem,
                      facts=lambda k: common(k) + [count(k), Implies(Eq(i, k), cnt(i, g) == cnt(k, g)),
                                                   Implies(i >= 0, cnt(i, g) >= 0)])
        out.append((P, "a new group is the last one" + tag,
                    [kk >= 0, grown(kk), ln(kk), ln(kk + 1), below(kk, gk(kk)), Not(isin(kk, gk(kk)))],
                    And(val(kk + 1, gk(kk)) == vlen(grp(kk)), vlen(grp(kk + 1)) == vlen(grp(kk)) + 1)))

        # every list belongs to a group (with the counts: no other matches anywhere)
        def own(k, x):
            return Implies(isin(k, x), And(isin(k + 1, x), val(k + 1, x) == val(k, x)))
        out.append((P, "positions are kept" + tag, [kk >= 0], own(kk, g)))
        p = z3.Const("p", IntS)
        w = fold("GROUPAT", [vs, ms, IntS], G.pm.ks, lambda a, k, q, G=G: z3.If(
            And(Not(select(G.pm.get(G.pos(a[0], a[1], k), 0), group_of(a[0], a[1], k))),
                vlen(G.grp(a[0], a[1], k)) == a[2]), group_of(a[0], a[1], k), q))
        at = lambda k: w(m, mp, p, z3.Const("any!g", G.pm.ks), k)
        out += induct(P, "every list is that of a group" + tag, lambda k: Implies(
            And(p >= 0, p < vlen(grp(k))), And(isin(k, at(k)), val(k, at(k)) == p)),
            facts=lambda k: [ln(k), below(k, gk(k)), grown(k)])
    return out
