"""C15 (bootstrap samplers), C16 (percentile bootstrap interval)."""
from .common import *
from .folds import *
from ..contract import Spec, same
from ..engine import Opaque
from ..std import Rel, rng_seed
from .. import prover

K = "kws::core::"
VR = VecI(RealS).sort
SORTR = None


def sel(v, i):
    return z3.Select(vdata(v), i)


def ent(name):
    return lambda E: E.entry_terms.get(name)


# ------------------------------------------------------------------ C15
def DRAWN(x, v):
    """x is an element of v"""
    vs = v.sort()

    def body(r, x, v):
        w = sym("DRAWNAT", x, v, ret=IntS)
        p = z3.Const("p!dr", IntS)
        return [Implies(r, And(w >= 0, w < vlen(v), sel(v, w) == x)),
                z3.ForAll([p], Implies(And(p >= 0, p < vlen(v), sel(v, p) == x), r),
                          patterns=pats(sel(v, p)))]
    return define("DRAWN", [x.sort(), vs], BoolS, body, raw=True)(x, v)


def from_(x, g):
    """x has the size of g and only elements of g"""
    i = z3.Const("i!fr", IntS)
    return And(vlen(x) == vlen(g), z3.ForAll([i], Implies(And(i >= 0, i < vlen(x)), DRAWN(sel(x, i), g)),
                                             patterns=pats(sel(x, i))))


def FROM(x, os):
    """x was drawn from one group of os"""
    def body(r, x, os):
        w = sym("FROMAT", x, os, ret=IntS)
        p = z3.Const("p!fr", IntS)
        return [Implies(r, And(w >= 0, w < vlen(os), from_(x, sel(os, w)))),
                z3.ForAll([p], Implies(And(p >= 0, p < vlen(os), from_(x, sel(os, p))), r),
                          patterns=pats(sel(os, p)))]
    return define("FROM", [x.sort(), os.sort()], BoolS, body, raw=True)(x, os)


def all_from(x, g):
    i = z3.Const("i!gf", IntS)
    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(x)), DRAWN(sel(x, i), g)),
                     patterns=pats(sel(x, i)))


class GroupFillHint:
    """groups before a position are drawn, those from it on are still empty, and the one at
    the position may be partly drawn"""

    def __init__(self, gs):
        self.gs = gs

    def instances(self, E, entry, leaves, prog, src):
        vs = info(self.gs)[1].elem
        os = E.entry_terms.get("original")
        if os is None:
            return
        pos = [("entry#%d" % n, (lambda E, s, t=t: t)) for n, t in enumerate(src.get("Int", [])[:5])]
        pos += [(n, (lambda E, s, k=k: E.leaf_of(s, k))) for n, t, k in leaves if t.sort() == IntS]
        for nm, t0, key in leaves:
            if t0.sort() != self.gs:
                continue
            for pn, pf in pos:
                def done(E, s, key=key, pf=pf):
                    v = E.leaf_of(s, key)
                    k = z3.Const("k!gf", IntS)
                    return z3.ForAll([k], Implies(And(k >= 0, k < pf(E, s), k < vlen(v)),
                                                  FROM(sel(v, k), os)), patterns=pats(sel(v, k)))

                def empty(E, s, key=key, pf=pf, off=0):
                    v = E.leaf_of(s, key)
                    k = z3.Const("k!gf", IntS)
                    return z3.ForAll([k], Implies(And(k >= pf(E, s) + off, k < vlen(v), k >= 0),
                                                  vlen(sel(v, k)) == 0), patterns=pats(sel(v, k)))
                yield "%s drawn before %s" % (nm, pn), done
                yield "%s empty from %s" % (nm, pn), empty
                yield "%s empty after %s" % (nm, pn), lambda E, s, empty=empty: empty(E, s, off=1)
                for n, g in enumerate(src.get(vs.name(), [])[:4]):
                    yield "%s[%s] from source %d" % (nm, pn, n), \
                        lambda E, s, key=key, pf=pf, g=g: Implies(
                            And(pf(E, s) >= 0, pf(E, s) < vlen(E.leaf_of(s, key))),
                            all_from(sel(E.leaf_of(s, key), pf(E, s)), g))
                for p2, f2 in pos:
                    if p2 == pn:
                        continue

                    def at_len(E, s, key=key, pf=pf, f2=f2):
                        v = E.leaf_of(s, key)
                        return Implies(And(pf(E, s) >= 0, pf(E, s) < vlen(v)),
                                       vlen(sel(v, pf(E, s))) == f2(E, s))

                    def at_el(E, s, key=key, pf=pf, f2=f2):
                        v = E.leaf_of(s, key)
                        return Implies(And(pf(E, s) >= 0, pf(E, s) < vlen(v)),
                                       all_from(sel(v, pf(E, s)), sel(os, f2(E, s))))

                    def at_most(E, s, key=key, pf=pf, f2=f2):
                        v = E.leaf_of(s, key)
                        return Implies(And(pf(E, s) >= 0, pf(E, s) < vlen(v)),
                                       vlen(sel(v, pf(E, s))) <= f2(E, s))
                    yield "%s[%s] has %s elements" % (nm, pn, p2), at_len
                    yield "%s[%s] has at most %s elements" % (nm, pn, p2), at_most
                    yield "%s[%s] from group %s" % (nm, pn, p2), at_el


class GroupHint:
    """a group being drawn holds elements of one source group"""

    def __init__(self, vs):
        self.vs = vs

    def instances(self, E, entry, leaves, prog, src):
        for nm, t0, key in leaves:
            if t0.sort() != self.vs:
                continue
            for n, g in enumerate(src.get(self.vs.name(), [])[:4]):
                yield "%s from source %d" % (nm, n), lambda E, s, key=key, g=g: all_from(
                    E.leaf_of(s, key), g)
                yield "%s at most as long as source %d" % (nm, n), lambda E, s, key=key, g=g: vlen(
                    E.leaf_of(s, key)) <= vlen(g)


# ------------------------------------------------------------------ C16
_rel = []


def sort_reals():
    if not _rel:
        _rel.append(Rel("reals", RealS, lambda a, b: a < b))
        prover.CONG.add("SORT!reals")
    return _rel[0]


def STAT(s, x):
    """value of a statistic (a total function of the sample)"""
    return z3.Select(s, x)


def stat_sort(cs):
    return z3.ArraySort(cs, RealS)


def stat_of(v):
    """the statistic passed to a function, as a total function: that of the contract's own
    parameter, or the function a closure computes (E.stats: its value r at a sample x)"""
    c = v.fnargs['statistic']
    cs = v['original'].sort()
    if isinstance(c, Opaque):
        return c.data
    E = v.E
    memo = E.__dict__.setdefault("stat_memo", {})
    if id(c) in memo:
        return memo[id(c)][0]
    st = v.st.copy()
    x = fresh("sample", cs)
    n0 = len(E.obls)
    vt = E.tu.ty(v.f["params"][0]["t"]).noref()
    r = E.call_value(c, [E.new_loc(st, x, vt, "sample")], st)
    if not z3.is_expr(r):
        r = E.read(st, r)
    own = [a for a in free_consts(r) if a.decl().name().rsplit("!", 1)[-1].isdigit() and
           int(a.decl().name().rsplit("!", 1)[-1]) > int(x.decl().name().rsplit("!", 1)[-1])]
    if len(E.obls) != n0 or own or st.pc != v.st.pc:
        raise Unsupported("statistic that is not a plain function of the sample")
    s = fresh("statistic", stat_sort(cs))
    memo[id(c)] = (s, c)
    E.__dict__.setdefault("stats", []).append((s, x, r))
    return s


def free_consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def NEXTF(ss, cs):
    return pure_fn("SAMPLERNEXT", [ss, cs, cs], ss)


def SAMPLEF(ss, cs):
    return pure_fn("BOOTSAMPLE", [ss, cs, cs], cs)


def empty_like(x):
    return info(x.sort())[1].empty


def states(orig, s0):
    """sampler state after k samples"""
    return fold("SAMPLERS", [orig.sort()], s0.sort(), lambda a, k, p: NEXTF(p.sort(), a[0].sort())(
        p, a[0], empty_like(a[0])))


def diffs(orig, s0):
    """differences between the statistics of the samples and the observed one"""
    st = states(orig, s0)
    return fold("BOOTDIFFS", [orig.sort(), s0.sort(), stat_sort(orig.sort())], VR, lambda a, k, p: vpush(
        p, STAT(a[2], SAMPLEF(a[1].sort(), a[0].sort())(st(a[0], a[1], k), a[0], empty_like(a[0]))) -
        STAT(a[2], a[0])))


def q_hi(al, n):
    return z3.ToInt((1 - al / 2) * z3.ToReal(n))


def q_lo(al, n):
    return z3.ToInt((al / 2) * z3.ToReal(n))


def interval(orig, reps, al, s0, stat):
    d = sort_reals().fn(diffs(orig, s0)(orig, s0, stat, vi_empty(VR), reps))
    obs = STAT(stat, orig)
    last = Sub(reps, z3.IntVal(1))
    li, ui = imin(q_hi(al, reps), last), imin(q_lo(al, reps), last)
    e = Eq(reps, z3.IntVal(0))
    return obs, ite(e, obs, obs - vget(d, li)), ite(e, obs, obs - vget(d, ui)), states(orig, s0)(orig, s0, reps)


class StateHint:
    """a part of the sampler is that of the sampler after the samples drawn so far"""

    def instances(self, E, entry, leaves, prog, src):
        o, s0 = E.entry_terms.get("original"), E.entry_terms.get("sampler")
        if o is None or s0 is None:
            return
        inf = info(s0.sort())[1]
        st = states(o, s0)
        for nm, t0, key in leaves:
            for n in inf.names:
                if not t0.eq(inf.get(s0, n)):
                    continue
                for pn, pf in prog:
                    yield "%s after %s samples" % (nm, pn), lambda E, s, key=key, n=n, pf=pf: \
                        E.leaf_of(s, key) == inf.get(st(o, s0, pf(E, s)), n)


def stat_param(E, v, pt, st):
    cs = E.S.sort(E.tu.ty(E.top["params"][0]["t"]).noref())
    s = z3.Const("statistic", stat_sort(cs))
    E.entry_terms["statistic"] = s

    def call(E, st, args):
        a = args[0]
        return STAT(s, E.read(st, a) if not z3.is_expr(a) else a)
    return Opaque("statistic", call, s)


def specs(tu, S):
    out = []

    def cont(f):
        return S.sort(tu.ty(f["params"][0]["t"]).noref())
    for cls in ("MatchesSampler", "MatchesByQuerySampler"):
        grouped = cls != "MatchesSampler"

        def hints(reg, f, grouped=grouped):
            s = cont(f)
            if grouped:
                return [GroupFillHint(s), GroupHint(info(s)[1].elem), ElemHint("drawn group", info(s)[1].elem, lambda x, i, o: FROM(x, o),
                                                   [ent("original")])]
            return [ElemHint("drawn", info(s)[1].elem, lambda x, i, o: DRAWN(x, o), [ent("original")])]

        def post(v, grouped=grouped):
            o, s = v['original'], v.new['sampled']
            if grouped:
                return [("one sampled group per group", vlen(s) == vlen(o)),
                        ("every sampled group is drawn from one original group", forall_in(
                            vlen(s), lambda i: FROM(sel(s, i), o), pats=lambda i: [sel(s, i)]))]
            return [("as many matches as the original", vlen(s) == vlen(o)),
                    ("every sampled match is one of the original", forall_in(
                        vlen(s), lambda i: DRAWN(sel(s, i), o), pats=lambda i: [sel(s, i)]))]

        def pure(v):
            t, o, s = v['this'], v['original'], v['sampled']
            return {"this": NEXTF(t.sort(), o.sort())(t, o, s), "sampled": SAMPLEF(t.sort(), o.sort())(t, o, s)}
        out.append(Spec(K + cls + "::operator()", ["original", "sampled"], "C15", pure=pure,
                        pure_mod=["this", "sampled"], hints=hints, post=post))
        out.append(Spec(K + cls + "::" + cls, ["seed"], ("C15", "C16"), post=lambda v: [
            ("the generator starts from the seed", Eq(F(v.res, "rng_", 0), rng_seed(v['seed'])))],
            inline_at_calls=True))

    def pre(v):
        return [("alpha lies in [0,1]", And(v['alpha'] >= 0, v['alpha'] <= 1))]

    def val(v):
        obs, lo, hi, s1 = interval(v['original'], v['reps'], v['alpha'], v['sampler'], stat_of(v))
        return {"result": obs, "lo": lo, "hi": hi, "sampler": s1}

    def chints(reg, f):
        c = cont(f)
        ss = S.sort(tu.ty(f["params"][4]["t"]).noref().to)
        o, s = z3.Const("any!" + c.name(), c), z3.Const("any!" + ss.name(), ss)
        args = [ent("original"), ent("sampler"), ent("statistic")]
        return [StateHint(), FoldHint(diffs(o, s), args), FillHint(diffs(o, s), args)]
    out.append(Spec(K + "ComputePercentileBootstrapCI",
                    ["original", "reps", "alpha", "statistic", "sampler", "lo", "hi"], "C16",
                    when=lambda tu, f: tu.ty(f["params"][4]["t"]).noref().k == "ptr",
                    pre=pre, val=val, hints=chints, fnparams={"statistic": stat_param},
                    sort_rels=lambda reg, f: [sort_reals()]))

    def seeded(v):
        f = v.f
        # the sampler made by the seeded form
        ss = [s for s in samplers(tu, S) if s[1] == v['original'].sort()]
        if not ss:
            raise Unsupported("no sampler for this container")
        inf = info(ss[0][0])[1]
        obs, lo, hi, _ = interval(v['original'], v['reps'], v['alpha'], inf.mk(rng_seed(v['seed'])), stat_of(v))
        return {"result": obs, "lo": lo, "hi": hi}
    out.append(Spec(K + "ComputePercentileBootstrapCI",
                    ["original", "reps", "alpha", "seed", "statistic", "lo", "hi"], "C16",
                    when=lambda tu, f: tu.ty(f["params"][3]["t"]).noref().k == "int",
                    pre=pre, val=seeded, fnparams={"statistic": stat_param}))
    return out


def samplers(tu, S):
    out = []
    for f in tu.find(K + "MatchesByQuerySampler::operator()"):
        out.append((S.sort(tu.ty(f["cls"])), S.sort(tu.ty(f["params"][0]["t"]).noref())))
    return out


def theorems(tu, S):
    out = []
    P = "C16"
    for ss, cs in samplers(tu, S)[:1]:
        o, s0 = z3.Const("original", cs), z3.Const("sampler", ss)
        n = z3.Int("n")
        al = z3.Real("alpha")
        sa = z3.Const("statistic", stat_sort(cs))
        obs, lo, hi, s1 = interval(o, n, al, s0, sa)
        D = lambda k: diffs(o, s0)(o, s0, sa, vi_empty(VR), k)
        ok = [n >= 0, al >= 0, al <= 1]
        out += induct(P, "one difference per repetition", lambda k: vlen(D(k)) == k)
        ln = [vlen(D(n)) == n]
        j = z3.Int("j")
        a, b = z3.Reals("a b")
        out.append((P, "lemma: products with a count keep the order", [a <= b, n >= 0],
                    a * z3.ToReal(n) <= b * z3.ToReal(n)))
        nr = z3.ToReal(n)
        mono = [(al / 2) * nr <= (1 - al / 2) * nr, (al / 2) * nr >= 0, (1 - al / 2) * nr <= nr]
        out.append((P, "lemma: the lower quantile is not above the upper", ok, And(mono)))
        last = n - 1
        li, ui = imin(q_hi(al, n), last), imin(q_lo(al, n), last)
        out.append((P, "quantile positions are those of collected differences", ok + mono + ln + [n > 0], And(
            ui >= 0, ui <= li, li < vlen(sort_reals().fn(D(n))))))
        out.append((P, "lower bound does not exceed the upper bound", ok + mono + ln + [
            Implies(n > 0, And(ui >= 0, ui <= li, li < n))], lo <= hi))
        out.append((P, "without repetitions both bounds are the observed value", ok + [n == 0],
                    And(lo == obs, hi == obs)))
        # exactly the samples drawn one after the other
        k = z3.Int("k")
        smp = SAMPLEF(ss, cs)(states(o, s0)(o, s0, k), o, empty_like(o))
        out += induct(P, "difference k is that of the k-th sample drawn", lambda m: Implies(
            And(k >= 0, k < m), vget(D(m), k) == STAT(sa, smp) - obs), facts=lambda m: [vlen(D(m)) == m])
    return out
