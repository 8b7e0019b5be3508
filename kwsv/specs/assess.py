"""C08 (error lists and collapsing), C09 (precision/recall), C10 (average precision),
C11 (NDCG), C12 (aggregation): contracts of core/Assessment.h and core/Statistic.h."""
from .common import *
from .folds import *
from .core import err_parts, nh, nr, quad, mk_cnt, mk_err, ERR, CNT, mparts, oi, err_sort, cnt_sort
from ..contract import Spec, same
from ..std import Rel, vconcat
from .. import prover

K = "kws::core::"
R0 = z3.RealVal(0)
VR = VecI(RealS).sort


def elem_ty(tu, f, i=0):
    t = tu.ty(f["params"][i]["t"]).noref()
    if t.k == "ptr":
        t = t.to
    return t.targs()[0].noref() if t.k == "rec" and t.targs() else t


def is_vec_of(kind):
    def w(tu, f):
        try:
            e = elem_ty(tu, f)
        except Exception:
            return False
        if kind == "real":
            return e.k == "float"
        if kind == "err":
            return e.name in (ERR, CNT)
        if kind == "vec":
            return e.name == "std::vector"
        return e.name == "kws::core::Match"
    return w


# --------------------------------------------------------------- error lists
def S_(which, es):
    """sum of one quantity over a prefix of an error list"""
    i = "fp fn nh nr".split().index(which)
    return fold("S" + which.upper(), [es.sort()], RealS if i < 2 else IntS,
                lambda a, k, p, i=i: p + quad(vget(a[0], k))[i])


def SUM(which, es, k):
    return S_(which, es)(es, k)


def TR(es):
    return SUM("nr", es, vlen(es))


def PREC(es, i):
    def body(es, i):
        k = Add(i, z3.IntVal(1))
        h = SUM("nh", es, k)
        return z3.If(h > 0, 1 - SUM("fp", es, k) / z3.ToReal(h), z3.RealVal(1))
    return define("PREC", [es.sort(), IntS], RealS, body)(es, i)


def REC(es, i):
    def body(es, i):
        k = Add(i, z3.IntVal(1))
        t = TR(es)
        return z3.If(t > 0, (z3.ToReal(SUM("nr", es, k)) - SUM("fn", es, k)) / z3.ToReal(t),
                     z3.RealVal(1))
    return define("REC", [es.sort(), IntS], RealS, body)(es, i)


def rc_def(r, es):
    n = vlen(es)
    return [vlen(r) == n, forall_in(n, lambda i: z3.Select(vdata(r), i) == REC(es, i),
                                    pats=lambda i: [z3.Select(vdata(r), i)])]


def pr_def(p, es, interp):
    n = vlen(es)
    last = Sub(n, z3.IntVal(1))
    return [vlen(p) == n,
            Implies(Not(interp), forall_in(n, lambda i: z3.Select(vdata(p), i) == PREC(es, i),
                                           pats=lambda i: [z3.Select(vdata(p), i)])),
            Implies(And(interp, n > 0), z3.Select(vdata(p), last) == PREC(es, last)),
            Implies(interp, forall_in(last, lambda i: z3.Select(vdata(p), i) == imax(
                PREC(es, i), z3.Select(vdata(p), i + 1)), pats=lambda i: [z3.Select(vdata(p), i)]))]


def RCV(es):
    return pure_fn("RCV", [es.sort()], VR, rc_def)(es)


def PRV(es, interp):
    return pure_fn("PRV", [es.sort(), BoolS], VR, pr_def)(es, interp)


# ------------------------------------------------------------------ matches
def m_err(m):
    return mparts(m)[2]


def m_score(m):
    h = mparts(m)[1]
    o = oi(h)
    return z3.If(o.has(h), score(o.val(h)), -INF)


class Lists:
    """list-of-matches vocabulary for one Match sort"""

    def __init__(self, tu, S, vs):
        self.tu, self.S, self.vs = tu, S, vs
        self.cs, self.es = cnt_sort(S, tu), err_sort(S, tu)
        self.VC, self.VE = VecI(self.cs).sort, VecI(self.es).sort
        self.IDX = fold("RUNS", [vs], IntS, lambda a, k, p: p + z3.If(self.start(a[0], k), 1, 0))
        self.ACC = fold("RUNSUM", [vs], self.cs, self._acc)

    def start(self, m, k):
        """record k begins a run of equal scores"""
        return Or(Eq(k, z3.IntVal(0)), m_score(vget(m, k)) != m_score(vget(m, Sub(k, z3.IntVal(1)))))

    def _acc(self, a, k, p):
        e = quad(m_err(vget(a[0], k)))
        s = [x + y for x, y in zip(quad(p), e)]
        st = self.start(a[0], k)
        return mk_cnt(self.S, self.tu, *[z3.If(st, x, y) for x, y in zip(e, s)])

    def zero(self):
        return mk_cnt(self.S, self.tu, R0, R0, z3.IntVal(0), z3.IntVal(0))

    def idx(self, m, k):
        return self.IDX(m, z3.IntVal(0), k)

    def acc(self, m, k):
        return self.ACC(m, self.zero(), k)

    def coll_def(self, c, m):
        n = vlen(m)
        k = z3.Const("k!c", IntS)
        return [vlen(c) == self.idx(m, n), vlen(c) >= 0, Implies(n > 0, vlen(c) > 0),
                z3.ForAll([k], Implies(And(k >= 1, k <= n, Or(k == n, self.start(m, k))),
                                       z3.Select(vdata(c), self.idx(m, k) - 1) == self.acc(m, k)),
                          patterns=pats(self.idx(m, k)))]

    def errs_def(self, o, m):
        n = vlen(m)
        return [vlen(o) == n, forall_in(n, lambda i: z3.Select(vdata(o), i) == m_err(
            z3.Select(vdata(m), i)), pats=lambda i: [z3.Select(vdata(o), i)])]

    def COLL(self, m):
        return pure_fn("COLL", [self.vs], self.VC, self.coll_def)(m)

    def ERRS(self, m):
        return pure_fn("ERRS", [self.vs], self.VE, self.errs_def)(m)

    # totals over matches
    def MS(self, which, m, k):
        i = "fp fn nh nr".split().index(which)
        return fold("M" + which.upper(), [self.vs], RealS if i < 2 else IntS,
                    lambda a, k, p, i=i: p + quad(m_err(vget(a[0], k)))[i])(m, k)

    # sorting
    def rel(self, a, b):
        ha, hb = mparts(a)[1], mparts(b)[1]
        oa, ob = oi(ha), oi(hb)
        return z3.If(And(oa.has(ha), ob.has(hb)), score(oa.val(ha)) > score(ob.val(hb)), oa.has(ha))

    def sort_rel(self):
        key = self.vs.name()
        if key not in _rels:
            r = Rel("byscore!" + key, info(self.vs)[1].elem, self.rel)
            prover.CONG.add("SORT!byscore!" + key)
            _rels[key] = r
        return _rels[key]

    def SORT(self, m):
        return self.sort_rel().fn(m)

    # curves and scores of a list of matches
    def curve(self, m, c, i):
        a, b = self.COLL(m), self.ERRS(m)
        return ite(c, PRV(a, i), PRV(b, i)), ite(c, RCV(a), RCV(b))

    def AP(self, m, c, i, t):
        pr, rc = self.curve(m, c, i)
        return AUC(pr, rc, t, vlen(pr))

    def NDCG(self, m, c):
        a, b = self.COLL(m), self.ERRS(m)
        return ite(c, NDCG(a), NDCG(b))

    # groups
    def flat(self, g, k):
        return fold("FLAT", [g.sort()], self.vs, lambda a, k, p: vconcat_(p, vget(a[0], k)))(g, k)

    def msorted(self, m, s):
        return ite(s, self.SORT(m), m)

    def sumAP(self, g, c, i, t, s, k):
        return fold("SUMAP", [g.sort(), BoolS, BoolS, BoolS, BoolS], RealS, lambda a, k, p: p + self.AP(
            self.msorted(vget(a[0], k), a[4]), a[1], a[2], a[3]))(g, c, i, t, s, k)

    def sumNDCG(self, g, c, s, k):
        return fold("SUMNDCG", [g.sort(), BoolS, BoolS], RealS, lambda a, k, p: p + self.NDCG(
            self.msorted(vget(a[0], k), a[2]), a[1]))(g, c, s, k)


def vconcat_(a, b):
    """concatenation as an uninterpreted symbol also for an empty left part"""
    vconcat(VC1(a), b)
    from ..std import _concat
    return _concat[vi(a).sort.name()](a, b)


def VC1(a):
    return z3.Const("any!" + vi(a).sort.name(), a.sort())


_rels, _lists = {}, {}


def lists(tu, S, vs):
    k = vs.name()
    if k not in _lists:
        _lists[k] = Lists(tu, S, vs)
    return _lists[k]


# ----------------------------------------------------------- average precision
def weight_(pr, t, k):
    return z3.If(And(t, k > 0), (vget(pr, k) + vget(pr, Sub(k, z3.IntVal(1)))) / 2, vget(pr, k))


def wmul(x, pr, t, k):
    """x times the weight of point k, product inside the cases"""
    a, b = vget(pr, k), vget(pr, Sub(k, z3.IntVal(1)))
    return z3.If(And(t, k > 0), x * ((a + b) / 2), x * a)


def _auc(a, k, p):
    pr, rc, t = a
    prev = z3.If(k > 0, vget(rc, Sub(k, z3.IntVal(1))), R0)
    return p + wmul(vget(rc, k) - prev, pr, t, k)


AUCF = fold("AUC", [VR, VR, BoolS], RealS, _auc)
AP1F = fold("AP1", [VR, VR, BoolS], RealS, lambda a, k, p: p + wmul(vget(a[1], k), a[0], a[2], k))
AP2F = fold("AP2", [VR, VR, BoolS], RealS,
            lambda a, k, p: p + wmul(vget(a[1], k), a[0], a[2], k + 1))


def AUC(pr, rc, t, k):
    return AUCF(pr, rc, t, k)


def tp(es, k):
    q = quad(vget(es, k))
    return z3.ToReal(q[2]) - q[0]


def APE(es, pr, t, k):
    return fold("APE", [es.sort(), VR, BoolS], RealS,
                lambda a, k, p: p + wmul(tp(a[0], k), a[1], a[2], k))(es, pr, t, k)


# ----------------------------------------------------------------------- NDCG
INNER = fold("GAIN", [RealS, IntS], RealS, lambda a, j, p:
             p + (f_exp2(a[0]) - 1) / f_log2(z3.ToReal(a[1] + j + 1)))
ZF = fold("IDEAL", [], RealS, lambda a, k, p: p + 1 / f_log2(z3.ToReal(k + 2)))


def gain(es, k):
    """1 minus the false-positive error per hypothesis of entry k"""
    q = quad(vget(es, k))
    return 1 - q[0] / z3.ToReal(q[2])


def DCGF(es):
    return fold("DCG", [es.sort()], RealS, lambda a, k, p: z3.If(
        nh(vget(a[0], k)) > 0,
        INNER.fn(gain(a[0], k), S_("nh", a[0])(a[0], z3.IntVal(1), k), p, nh(vget(a[0], k))), p))


def DCG(es, k):
    return DCGF(es)(es, k)


def NDCG(es):
    return z3.If(TR(es) > 0, DCG(es, vlen(es)) / ZF(TR(es)), R0)


def log_facts(x):
    l = f_log2(x)
    return [Implies(x >= 2, l >= 1), Implies(x == 2, l == 1), Implies(x == 1, l == 0),
            Implies(x > 1, l > 0)]


def exp_facts(x):
    e = f_exp2(x)
    return [e > 0, Implies(x == 0, e == 1), Implies(x == 1, e == 2),
            Implies(And(x >= 0, x <= 1), And(e >= 1, e <= 1 + x))]


prover.UNFOLD["log2"] = log_facts
prover.UNFOLD["exp2"] = exp_facts


# ------------------------------------------------------------------------ hints
class CollapseHint:
    """state of collapsing: one entry (counts, or counts and score) per run so far"""

    def __init__(self, L):
        self.L = L

    def _parts(self, es):
        """counts and score of an entry of that sort, None if it holds no counts"""
        if es == self.L.cs:
            return lambda x: x, None
        k, pi = info(es) if es.kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k != "pair":
            return None
        so = [pi.ctor.domain(i) for i in (0, 1)]
        if self.L.cs not in so:
            return None
        c = so.index(self.L.cs)
        return (lambda x: pi.get(x, c)), (lambda x: pi.get(x, 1 - c)) if so[1 - c] == RealS else None

    def instances(self, E, entry, leaves, prog, src):
        L = self.L
        for n, m in enumerate(src.get(skey(L.vs), [])[:3]):
            for pn, pf in prog:
                def begins(E, s, m=m, pf=pf):
                    k = pf(E, s)
                    return Or(k >= vlen(m), L.start(m, k))
                yield "a run begins (#%d,%s)" % (n, pn), begins
                for nm, t0, key in leaves:
                    if t0.sort() == RealS:
                        def sc(E, s, key=key, m=m, pf=pf):
                            k = pf(E, s)
                            return Implies(k > 0, E.leaf_of(s, key) == m_score(vget(m, k - 1)))
                        yield "%s is the score of the last record (#%d,%s)" % (nm, n, pn), sc
                    elif t0.sort() == L.cs:
                        def cur(E, s, key=key, m=m, pf=pf):
                            k = pf(E, s)
                            return Implies(k > 0, E.leaf_of(s, key) == L.acc(m, k))
                        yield "%s is the current run (#%d,%s)" % (nm, n, pn), cur
                    elif t0.sort().kind() == z3.Z3_DATATYPE_SORT and info(t0.sort())[0] == "vec":
                        es = info(t0.sort())[1].elem
                        if es == RealS:
                            def lsc(E, s, key=key, m=m, pf=pf):
                                v, k = E.leaf_of(s, key), pf(E, s)
                                return Implies(k > 0, vget(v, vlen(v) - 1) == m_score(vget(m, k - 1)))
                            yield "last %s is the score of the last record (#%d,%s)" % (nm, n, pn), lsc
                        ps = self._parts(es)
                        if es != RealS and ps is None:
                            continue
                        for off in (0, 1):
                            def ln(E, s, key=key, m=m, pf=pf, off=off):
                                v = E.leaf_of(s, key)
                                return And(vlen(v) == L.idx(m, pf(E, s)) - off,
                                           Implies(pf(E, s) > 0, vlen(v) > 0) if not off else T(True))
                            yield "%s has one entry per run%s (#%d,%s)" % (
                                nm, " but the current" if off else "", n, pn), ln
                        if ps is None:
                            continue
                        cnt, scr = ps

                        def last(E, s, key=key, m=m, pf=pf, cnt=cnt, scr=scr):
                            v = E.leaf_of(s, key)
                            k = pf(E, s)
                            x = vget(v, vlen(v) - 1)
                            return Implies(k > 0, And(cnt(x) == L.acc(m, k), scr(x) == m_score(
                                vget(m, k - 1)) if scr else T(True)))

                        def done(E, s, key=key, m=m, pf=pf, cnt=cnt):
                            v = E.leaf_of(s, key)
                            k = pf(E, s)
                            j = z3.Const("j!ch", IntS)
                            x = z3.Select(vdata(v), L.idx(m, j) - 1)
                            return z3.ForAll([j], Implies(
                                And(j >= 1, j < k, L.start(m, j)),
                                And(L.idx(m, j) >= 1, L.idx(m, j) <= vlen(v),
                                    cnt(x) == L.acc(m, j))), patterns=pats(L.idx(m, j)))

                        def before(E, s, key=key, m=m, pf=pf):
                            v = E.leaf_of(s, key)
                            k = pf(E, s)
                            j = z3.Const("j!ch", IntS)
                            return z3.ForAll([j], Implies(
                                And(j >= 1, j < k, L.start(m, j)), L.idx(m, j) < L.idx(m, k)),
                                patterns=pats(L.idx(m, j)))
                        yield "%s last entry is the current run (#%d,%s)" % (nm, n, pn), last
                        yield "%s completed runs (#%d,%s)" % (nm, n, pn), done
                        yield "runs before the current one (#%d,%s)" % (n, pn), before


class FirstHint:
    """a vector that grows by the first parts of a vector of pairs"""

    def instances(self, E, entry, leaves, prog, src):
        for nm, t0, key in leaves:
            if not (t0.sort().kind() == z3.Z3_DATATYPE_SORT and info(t0.sort())[0] == "vec"):
                continue
            es = info(t0.sort())[1].elem
            for sn, l in src.items():
                for sv in l[:4]:
                    k, inf = info(sv.sort()) if sv.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
                    if k != "vec" or inf.elem.kind() != z3.Z3_DATATYPE_SORT:
                        continue
                    k2, pi = info(inf.elem)
                    if k2 != "pair" or pi.ctor.domain(0) != es:
                        continue

                    def pred(E, s, key=key, sv=sv, pi=pi):
                        v = E.leaf_of(s, key)
                        i = z3.Const("i!h", IntS)
                        return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), z3.Select(
                            vdata(v), i) == pi.accs[0](z3.Select(vdata(sv), i))))
                    yield "%s are the first parts" % nm, pred


def ent(name):
    return lambda E: E.entry_terms.get(name)


# ------------------------------------------------------------------------ specs
def specs(tu, S):
    out = []

    def L(v, n="matches"):
        return lists(tu, S, v[n].sort())

    # sums of references
    def errsums(reg, f):
        es = VecI(S.sort(elem_ty(tu, f))).sort
        x = z3.Const("any!" + es.name(), es)
        return [FoldHint(S_(w, x), [es]) for w in ("fp", "fn", "nh", "nr")]
    out.append(Spec(K + "NumTotalReferences", ["es"], ("C08", "C09", "C10", "C11"),
                    val=lambda v: {"result": TR(v['es'])}, hints=errsums,
                    doc="number of references of an error list"))

    # C08
    def mvec(f):
        return VecI(S.sort(elem_ty(tu, f))).sort

    def LL(f):
        return lists(tu, S, mvec(f))
    out.append(Spec(K + "GetMatchErrors", ["matches"], ("C08", "C09", "C11", "C12"),
                    hints=lambda reg, f: [ElemHint("error of match", LL(f).es, lambda x, i, m: x == m_err(
                        z3.Select(vdata(m), i)), [LL(f).vs])],
                    pure=lambda v: L(v).ERRS(v['matches']),
                    post=lambda v: [("one error per match, in order", And(L(v).errs_def(
                        v.res, v['matches'])))]))
    out.append(Spec(K + "CollapseMatches", ["matches"], ("C08",),
                    hints=lambda reg, f: [CollapseHint(LL(f)), FirstHint()],
                    pure=lambda v: L(v).COLL(v['matches']),
                    post=lambda v: [("exactly the maximal runs of equal score, summed", And(
                        L(v).coll_def(v.res, v['matches'])))]))

    # C09
    def curve_hints(reg, f):
        es = VecI(S.sort(elem_ty(tu, f))).sort
        return errsums(reg, f) + [
            ElemHint("precision", RealS, lambda x, i, e: x == PREC(e, i), [es]),
            ElemHint("recall", RealS, lambda x, i, e: x == REC(e, i), [es]), RunMaxHint()]

    def not_same(v):
        return []
    out.append(Spec(K + "ComputePrecisionAndRecall", ["errors", "interp", "pr", "rc"], "C09",
                    when=is_vec_of("err"), hints=curve_hints,
                    pure=lambda v: {"pr": PRV(v['errors'], v['interp']), "rc": RCV(v['errors'])},
                    pure_mod=["pr", "rc"],
                    post=lambda v: [
                        ("recall of every prefix", And(rc_def(v.new['rc'], v['errors']))),
                        ("precision of every prefix, interpolated on request",
                         And(pr_def(v.new['pr'], v['errors'], v['interp'])))]))

    def mcurve(v):
        pr, rc = L(v).curve(v['matches'], v['collapse'], v['interp'])
        return {"pr": pr, "rc": rc}
    out.append(Spec(K + "ComputePrecisionAndRecall", ["matches", "collapse", "interp", "pr", "rc"],
                    "C09", when=is_vec_of("match"), val=mcurve))

    # C10
    t_ = ent("trapezoid")
    out.append(Spec(K + "ComputeAP", ["pr", "rc", "trapezoid"], "C10", when=is_vec_of("real"),
                    pre=lambda v: [("curves have the same length", vlen(v['pr']) == vlen(v['rc']))],
                    val=lambda v: {"result": AUC(v['pr'], v['rc'], v['trapezoid'], vlen(v['pr']))},
                    lemmas=lambda v: [auc_lemma(v['pr'], v['rc'], v['trapezoid'], vlen(v['pr']))],
                    hints=lambda reg, f: [FoldHint(h, [ent("pr"), ent("rc"), t_])
                                          for h in (AP1F, AP2F, AUCF)] + [PrevHint(RealS)]))

    def ape(v):
        t = TR(v['errors'])
        return {"result": z3.If(t > 0, APE(v['errors'], v['pr'], v['trapezoid'], vlen(v['pr'])) /
                                z3.ToReal(t), R0)}

    def ape_hints(reg, f):
        es = VecI(S.sort(elem_ty(tu, f))).sort
        x = z3.Const("any!" + es.name(), es)
        APE(x, z3.Const("any!pr", VR), T(True), z3.IntVal(0))
        fl = Fold.all["APE!" + ",".join([skey(es), skey(VR), skey(BoolS)])]
        return [FoldHint(fl, [ent("errors"), ent("pr"), t_]), PrevHint(RealS)]
    out.append(Spec(K + "ComputeAP", ["errors", "pr", "trapezoid"], "C10", when=is_vec_of("err"),
                    pre=lambda v: [("one precision per error", vlen(v['pr']) == vlen(v['errors']))],
                    val=ape, hints=ape_hints))

    # C11
    def ndcg_hints(reg, f):
        es = VecI(S.sort(elem_ty(tu, f))).sort
        x = z3.Const("any!" + es.name(), es)

        def gains(src):
            at = [i for i in src.get("Int", []) if not z3.is_int_value(i)][:4]
            return src.get(skey(RealS), [])[:4] + [gain(v, i) for v in src.get(skey(es), [])[:2] for i in at]
        return [FoldHint(DCGF(x), [es]), FoldHint(INNER, [("src", gains), "entry:Int"], 32), FoldHint(ZF, []),
                FoldHint(S_("nh", x), [es])]
    out.append(Spec(K + "ComputeNDCG", ["errors"], "C11", val=lambda v: {"result": NDCG(v['errors'])},
                    facts=lambda v: [Implies(TR(v['errors']) > 0, ZF(TR(v['errors'])) > 0)],
                    hints=ndcg_hints))

    # C12
    out.append(Spec(K + "SortMatchesDecreasingScore", ["matches"], "C12",
                    sort_rels=lambda reg, f: [LL(f).sort_rel()],
                    val=lambda v: {"matches": L(v).SORT(v['matches'])}))

    def gl(v):
        return lists(tu, S, vi(v['groups']).elem)
    out.append(Spec(K + "ComputeGlobalAP", ["matches", "collapse", "interp", "trapezoid"], "C12",
                    when=is_vec_of("match"), val=lambda v: {"result": L(v).AP(
                        v['matches'], v['collapse'], v['interp'], v['trapezoid'])}))
    out.append(Spec(K + "ComputeGlobalNDCG", ["matches", "collapse"], "C12",
                    when=is_vec_of("match"), val=lambda v: {"result": L(v).NDCG(
                        v['matches'], v['collapse'])}))

    def ghints(reg, f):
        gs = VecI(S.sort(elem_ty(tu, f))).sort
        L = lists(tu, S, info(gs)[1].elem)
        g = z3.Const("any!" + gs.name(), gs)
        L.flat(g, z3.IntVal(0))
        L.sumAP(g, T(True), T(True), T(True), T(True), z3.IntVal(0))
        L.sumNDCG(g, T(True), T(True), z3.IntVal(0))
        fa = Fold.all["FLAT!" + skey(gs)]
        sa = Fold.all["SUMAP!" + ",".join([skey(gs)] + ["Bool"] * 4)]
        sn = Fold.all["SUMNDCG!" + ",".join([skey(gs)] + ["Bool"] * 2)]
        hs = [AppendHint(), FoldHint(fa, [gs])]
        nm = [p for p in ("collapse", "interp", "trapezoid", "sort")]
        hs.append(FoldHint(sa, [gs] + [ent(n) for n in nm]))
        hs.append(FoldHint(sn, [gs, ent("collapse"), ent("sort")]))
        return hs

    def glist(v):
        L = gl(v)
        return L, L.msorted(L.flat(v['groups'], vlen(v['groups'])), v['sort'])

    def gap(v):
        L, m = glist(v)
        return {"result": L.AP(m, v['collapse'], v['interp'], v['trapezoid'])}

    def gnd(v):
        L, m = glist(v)
        return {"result": L.NDCG(m, v['collapse'])}

    def mean(s, n):
        return z3.If(n > 0, s / z3.ToReal(n), R0)
    out.append(Spec(K + "ComputeGlobalAP", ["groups", "collapse", "interp", "trapezoid", "sort"], "C12",
                    val=gap, hints=ghints))
    out.append(Spec(K + "ComputeGlobalNDCG", ["groups", "collapse", "sort"], "C12", val=gnd,
                    hints=ghints))
    out.append(Spec(K + "ComputeMeanAP", ["groups", "collapse", "interp", "trapezoid", "sort"], "C12",
                    val=lambda v: {"result": mean(gl(v).sumAP(
                        v['groups'], v['collapse'], v['interp'], v['trapezoid'], v['sort'],
                        vlen(v['groups'])), vlen(v['groups']))}, hints=ghints))
    out.append(Spec(K + "ComputeMeanNDCG", ["groups", "collapse", "sort"], "C12",
                    val=lambda v: {"result": mean(gl(v).sumNDCG(
                        v['groups'], v['collapse'], v['sort'], vlen(v['groups'])),
                        vlen(v['groups']))}, hints=ghints))

    # statistic objects
    def opts(v):
        t = v['this']
        o = [fld(t, "collapse_matches_")]
        if strip_targs(v.f["q"]).split("::")[-2].endswith("AP"):
            o += [fld(t, "interpolate_precision_"), fld(t, "trapezoid_integral_")]
        return o
    for cls, fn in (("GlobalAP", "AP"), ("GlobalNDCG", "NDCG")):
        out.append(Spec(K + cls + "::operator()", ["matches"], "C12", val=lambda v, fn=fn: {
            "result": getattr(L(v), fn)(v['matches'], *opts(v))}))

        def gst(v, fn=fn):
            Lx, m = glist(v)
            return {"result": getattr(Lx, fn)(m, *opts(v))}
        out.append(Spec(K + cls + "::operator()", ["groups", "sort"], "C12", val=gst))
    for cls, fn in (("MeanAP", "sumAP"), ("MeanNDCG", "sumNDCG")):
        out.append(Spec(K + cls + "::operator()", ["groups", "sort"], "C12", val=lambda v, fn=fn: {
            "result": mean(getattr(gl(v), fn)(*([v['groups']] + opts(v) + [
                v['sort'], vlen(v['groups'])])), vlen(v['groups']))}))
    for cls, ps in (("GlobalAP", ["c", "i", "t"]), ("MeanAP", ["c", "i", "t"]), ("GlobalNDCG", ["c"]),
                    ("MeanNDCG", ["c"])):
        fs = {"c": "collapse_matches_", "i": "interpolate_precision_", "t": "trapezoid_integral_"}
        out.append(Spec(K + cls + "::" + cls, ps, "C12", post=lambda v, ps=ps: [
            ("keeps its options", And([Eq(fld(v.res, fs[p]), v[p]) for p in ps]))],
            inline_at_calls=True))
    return out


def fld(t, name):
    inf = rinfo(t)
    if name in inf.idx:
        return inf.get(t, name)
    for b in bases(t):
        if b.sort().kind() == z3.Z3_DATATYPE_SORT:
            try:
                return fld(b, name)
            except Unsupported:
                pass
    raise Unsupported("no field %s" % name)


def auc_lemma(pr, rc, t, n):
    return Implies(n >= 1, AP1F(pr, rc, t, n) - AP2F(pr, rc, t, n - 1) == AUC(pr, rc, t, n))


def bounded_entries(es):
    """0 <= fp <= nh and 0 <= fn <= nr for every entry"""
    def b(i):
        q = quad(z3.Select(vdata(es), i))
        return And(q[0] >= 0, q[0] <= z3.ToReal(q[2]), q[1] >= 0, q[1] <= z3.ToReal(q[3]))
    return forall_in(vlen(es), b, pats=lambda i: [z3.Select(vdata(es), i)])


def theorems(tu, S):
    out = []
    I = z3.IntVal
    k, n = z3.Int("k"), z3.Int("n")
    # every list sort occurring in the code
    ess, ms = {}, {}
    for f in tu.functions.values():
        q = strip_targs(f["q"])
        if q == K + "NumTotalReferences":
            s = VecI(S.sort(elem_ty(tu, f))).sort
            ess[skey(s)] = s
        if q in (K + "CollapseMatches", K + "SortMatchesDecreasingScore"):
            s = VecI(S.sort(elem_ty(tu, f))).sort
            if q.endswith("Score"):
                s = S.sort(tu.ty(f["params"][0]["t"]).noref().to)
            ms[skey(s)] = s

    # ---- C08
    for nm, s in sorted(ms.items()):
        L = lists(tu, S, s)
        m, c, o = z3.Const("m", s), z3.Const("c", L.VC), z3.Const("o", L.VE)
        short = key_short(nm)[:40]
        for w, which in enumerate("fp fn nh nr".split()):
            def P(k, which=which, w=w):
                # the finished runs plus the current one hold everything seen so far
                ix = L.idx(m, k)
                return Implies(And(k >= 1, k <= vlen(m)), And(
                    ix >= 1, SUM(which, c, ix - 1) + quad(L.acc(m, k))[w] == L.MS(which, m, k)))
            h = L.coll_def(c, m) + [vlen(m) >= 0]
            out += induct("C08", "collapsing preserves the total %s of %s" % (which, short), P,
                          base=I(1), more=h, facts=lambda k: [L.idx(m, k) >= 1])
            nn = vlen(m)
            out.append(("C08", "collapsing preserves the total %s of %s (whole list)" % (which, short),
                        h + [P(nn), vlen(m) >= 1, L.idx(m, nn) >= 1],
                        SUM(which, c, vlen(c)) == L.MS(which, m, nn)))

            def Q(k, which=which):
                return Implies(k <= vlen(m), SUM(which, o, k) == L.MS(which, m, k))
            out += induct("C08", "one error per match has the total %s of %s" % (which, short), Q,
                          more=L.errs_def(o, m))
        out += induct("C08", "number of runs is positive, %s" % short,
                      lambda k: L.idx(m, k) >= 1, base=I(1))

    # ---- C09
    for nm, s in sorted(ess.items()):
        es = z3.Const("es", s)
        short = key_short(nm)[:40]
        ok = [bounded_entries(es), vlen(es) >= 0]

        def sums(k):
            fp, fn, h, r = [SUM(w, es, k) for w in "fp fn nh nr".split()]
            return Implies(k <= vlen(es), And(fp >= 0, fp <= z3.ToReal(h), fn >= 0,
                                              fn <= z3.ToReal(r), h >= 0, r >= 0))
        out += induct("C09", "accumulated errors stay within accumulated counts, " + short, sums, more=ok)
        j = z3.Int("j")
        out += induct("C09", "true positives only accumulate, " + short, lambda k: Implies(
            j + k <= vlen(es), And(
                z3.ToReal(SUM("nr", es, j)) - SUM("fn", es, j) <=
                z3.ToReal(SUM("nr", es, j + k)) - SUM("fn", es, j + k),
                SUM("nr", es, j) <= SUM("nr", es, j + k))), more=ok + [j >= 0])
        i = z3.Int("i")
        N = vlen(es)
        inr = [i >= 0, i < N]
        tp_ = lambda k: z3.ToReal(SUM("nr", es, k)) - SUM("fn", es, k)
        out.append(("C09", "precision lies in [0,1], " + short, ok + inr + [sums(i + 1)],
                    And(PREC(es, i) >= 0, PREC(es, i) <= 1)))
        out.append(("C09", "recall lies in [0,1], " + short, ok + inr + [
            sums(i + 1), sums(N), SUM("nr", es, i + 1) <= SUM("nr", es, N), tp_(i + 1) <= tp_(N)],
            And(REC(es, i) >= 0, REC(es, i) <= 1)))
        out.append(("C09", "recall never decreases, " + short, ok + inr + [
            i + 1 < N, tp_(i + 1) <= tp_(i + 2), sums(N)], REC(es, i) <= REC(es, i + 1)))
        pv = z3.Const("pv", VR)
        # interpolated precision, from the end
        lastp = N - 1

        def best(k):
            t = z3.Select(vdata(pv), lastp - k)
            return Implies(k < N, And(t >= PREC(es, lastp - k), t >= 0, t <= 1))
        out += induct("C09", "interpolated precision is a running maximum in [0,1], " + short, best,
                      more=pr_def(pv, es, T(True)) + [N > 0, forall_in(N, lambda i: And(
                          PREC(es, i) >= 0, PREC(es, i) <= 1), pats=lambda i: [PREC(es, i)])])

        def domin(k):
            return Implies(And(j >= 0, j + k < N),
                           z3.Select(vdata(pv), j) >= z3.Select(vdata(pv), j + k))
        out += induct("C09", "interpolated precision dominates every later value, " + short, domin,
                      more=pr_def(pv, es, T(True)) + [N > 0])

    # ---- C10
    pr, rc = z3.Const("pr", VR), z3.Const("rc", VR)
    t = z3.Bool("t")
    out += induct("C10", "two-sum form equals the area under the curve",
                  lambda k: auc_lemma(pr, rc, t, k), base=I(1))
    N = vlen(pr)
    unit = forall_in(N, lambda i: And(z3.Select(vdata(pr), i) >= 0, z3.Select(vdata(pr), i) <= 1,
                                      z3.Select(vdata(rc), i) >= 0, z3.Select(vdata(rc), i) <= 1),
                     pats=lambda i: [z3.Select(vdata(pr), i)])
    i = z3.Const("i!m", IntS)
    mono_ = z3.ForAll([i], Implies(And(i >= 1, i < N), z3.Select(vdata(rc), i) >=
                                   z3.Select(vdata(rc), i - 1)), patterns=[z3.Select(vdata(rc), i)])

    d, w, u = z3.Real("d"), z3.Real("w"), z3.Real("u")
    out.append(("C10", "product of an increase and a weight in [0,1]", [d >= 0, w >= 0, w <= 1],
                And(d * w >= 0, d * w <= d)))

    def inst(k):
        a = vget(rc, k) - z3.If(k > 0, vget(rc, k - 1), R0)
        x, y = vget(pr, k), vget(pr, k - 1)
        ws = [x, (x + y) / 2]
        return [Implies(And(a >= 0, w >= 0, w <= 1), And(a * w >= 0, a * w <= a)) for w in ws]
    out += induct("C10", "average precision stays between 0 and the recall reached", lambda k: Implies(
        k <= N, And(AUC(pr, rc, t, k) >= 0, AUC(pr, rc, t, k) <= z3.If(k > 0, vget(rc, k - 1), R0))),
        more=[unit, mono_, N >= 0, vlen(rc) == N],
        facts=lambda k: inst(k) + [unit, Implies(And(k >= 1, k < N), vget(rc, k) >= vget(rc, k - 1))])
    ones = forall_in(N, lambda i: z3.Select(vdata(pr), i) == 1, pats=lambda i: [z3.Select(vdata(pr), i)])
    out += induct("C10", "with precision 1 everywhere the result is the recall reached",
                  lambda k: Implies(k <= N, AUC(pr, rc, t, k) == z3.If(k > 0, vget(rc, k - 1), R0)),
                  more=[ones, N >= 0])
    zr = z3.ForAll([i], Implies(And(i >= 0, i < N), z3.Select(vdata(rc), i) == 0),
                   patterns=[z3.Select(vdata(rc), i)])
    zp = z3.ForAll([i], Implies(And(i >= 0, i < N), z3.Select(vdata(pr), i) == 0),
                   patterns=[z3.Select(vdata(pr), i)])
    for z, what in ((zr, "recall 0"), (zp, "precision 0")):
        out += induct("C10", "with %s everywhere the result is 0" % what,
                      lambda k: Implies(k <= N, AUC(pr, rc, t, k) == 0), more=[z, N >= 0])
    for nm, s in sorted(ess.items()):
        es = z3.Const("es", s)
        short = key_short(nm)[:40]
        # without interpolation and trapezoid, both forms agree when each true positive counts as
        # one hypothesis without false-positive error exactly where a reference is found
        pass

    # ---- C11
    out += induct("C11", "ideal gain is positive", lambda k: ZF(k) > 0, base=I(1))
    e, x, dn, c = z3.Real("e"), z3.Real("x"), z3.Real("dn"), z3.Real("c")
    P1 = lambda e, x, dn, c: Implies(And(e >= 0, e <= x, x <= 1, dn >= c, c > 0),
                                     e * dn <= c * x + dn - c)
    P2 = lambda e, x, dn, c: Implies(And(e >= 0, e <= x, x <= 1, dn > 0, dn <= c), e * dn <= c * x)
    out.append(("C11", "gain bound within the ideal ranks", [], P1(e, x, dn, c)))
    out.append(("C11", "gain bound beyond the ideal ranks", [], P2(e, x, dn, c)))
    x, i0, p0, TRn = z3.Real("x"), z3.Int("i0"), z3.Real("p0"), z3.Int("TRn")
    l_ = lambda n: f_log2(z3.ToReal(n + 1))
    dd = lambda n: 1 / l_(n)
    cc = dd(TRn)
    mn = lambda n: z3.If(n <= TRn, n, TRn)
    W = lambda n: ZF(mn(n)) - cc * z3.ToReal(mn(n))

    def rank_facts(n):
        """rank n >= 1"""
        ex = f_exp2(x) - 1
        return [Implies(n <= TRn, l_(n) <= l_(TRn)), Implies(n >= TRn, l_(n) >= l_(TRn)),
                l_(n) > 0, l_(TRn) > 0, ex / l_(n) == ex * dd(n),
                Implies(And(l_(n) <= l_(TRn), l_(n) > 0), dd(n) >= cc),
                Implies(And(l_(n) >= l_(TRn), l_(TRn) > 0), dd(n) <= cc), cc > 0, dd(n) > 0,
                ex >= 0, ex <= x, P1(ex, x, dd(n), cc), P2(ex, x, dd(n), cc)]
    a, b = z3.Real("a"), z3.Real("b")
    out.append(("C11", "reciprocals reverse the order", [a > 0, a <= b], And(1 / a >= 1 / b, 1 / b > 0)))
    out.append(("C11", "quotient is product with the reciprocal", [a > 0], e / a == e * (1 / a)))
    out += induct("C11", "gain of one entry is bounded", lambda k: And(
        INNER.fn(x, i0, p0, k) <= p0 + cc * (x * z3.ToReal(k)) + W(i0 - 1 + k) - W(i0 - 1),
        INNER.fn(x, i0, p0, k) >= p0),
        more=[x >= 0, x <= 1, i0 >= 1, TRn >= 1],
        facts=lambda k: rank_facts(i0 + k) + [
            cc * (x * z3.ToReal(k + 1)) == cc * (x * z3.ToReal(k)) + cc * x,
            cc * z3.ToReal(i0 + k) == cc * z3.ToReal(i0 + k - 1) + cc])
    for nm, s in sorted(ess.items()):
        es = z3.Const("es", s)
        short = key_short(nm)[:40]
        ok = [bounded_entries(es), vlen(es) >= 0]
        rk = lambda k: S_("nh", es)(es, I(1), k)
        tps = lambda k: z3.ToReal(SUM("nh", es, k)) - SUM("fp", es, k)

        def ib(k):
            """bound of the inner sum for entry k"""
            g, h = gain(es, k), nh(vget(es, k))
            v = INNER.fn(g, rk(k), DCG(es, k), h)
            q = quad(vget(es, k))
            return [Implies(And(h >= 1, g >= 0, g <= 1, rk(k) >= 1), And(
                v <= DCG(es, k) + cc * (g * z3.ToReal(h)) + W(rk(k) - 1 + h) - W(rk(k) - 1),
                v >= DCG(es, k))),
                Implies(h >= 1, g * z3.ToReal(h) == z3.ToReal(h) - q[0]),
                Implies(h >= 1, And(g >= 0, g <= 1)), l_(TRn) > 0,
                cc * tps(k + 1) == cc * tps(k) + cc * (z3.ToReal(h) - q[0])]
        q_, h_ = z3.Real("q"), z3.Real("h")
        out.append(("C11", "gain of an entry, " + short, [h_ >= 1, q_ >= 0, q_ <= h_], And(
            (1 - q_ / h_) * h_ == h_ - q_, 1 - q_ / h_ >= 0, 1 - q_ / h_ <= 1)))
        out += induct("C11", "gain of a list is bounded, " + short, lambda k: Implies(k <= vlen(es), And(
            rk(k) >= 1, rk(k) == 1 + SUM("nh", es, k),
            DCG(es, k) <= cc * tps(k) + W(rk(k) - 1), DCG(es, k) >= 0)),
            more=ok + [TRn >= 1], facts=lambda k: ib(k) + [
                Implies(nh(vget(es, k)) == 0, quad(vget(es, k))[0] == 0)])
        N = vlen(es)
        out.append(("C11", "result lies in [0,1], " + short, ok + [
            TRn == TR(es), TRn >= 1, tps(N) <= z3.ToReal(TRn), DCG(es, N) >= 0, cc > 0, ZF(TRn) > 0,
            DCG(es, N) <= cc * tps(N) + W(rk(N) - 1),
            W(rk(N) - 1) <= W(TRn), cc * tps(N) <= cc * z3.ToReal(TRn),
            Implies(And(DCG(es, N) >= 0, DCG(es, N) <= ZF(TRn), ZF(TRn) > 0), And(
                DCG(es, N) / ZF(TRn) >= 0, DCG(es, N) / ZF(TRn) <= 1))],
            And(NDCG(es) >= 0, NDCG(es) <= 1)))
        k0 = z3.Int("k0")
        g1 = z3.ForAll([i], Implies(And(i >= 0, i < k0), quad(z3.Select(vdata(es), i))[0] == 0),
                       patterns=[z3.Select(vdata(es), i)])
        g0 = z3.ForAll([i], Implies(And(i >= k0, i < N), quad(z3.Select(vdata(es), i))[0] ==
                                    z3.ToReal(quad(z3.Select(vdata(es), i))[2])),
                       patterns=[z3.Select(vdata(es), i)])
        out += induct("C11", "perfect prefix reaches the ideal gain, " + short, lambda k: Implies(
            And(k <= k0, k <= N), And(rk(k) >= 1, DCG(es, k) == ZF(rk(k) - 1))),
            more=ok + [g1, k0 >= 0], facts=lambda k: [Implies(
                And(rk(k) >= 1, nh(vget(es, k)) >= 1),
                INNER.fn(z3.RealVal(1), rk(k), ZF(rk(k) - 1), nh(vget(es, k))) ==
                ZF(rk(k) - 1 + nh(vget(es, k))))])
        out += induct("C11", "false positives after it add nothing, " + short, lambda k: Implies(
            k0 + k <= N, DCG(es, k0 + k) == DCG(es, k0)), more=ok + [g0, k0 >= 0],
            facts=lambda k: [Implies(nh(vget(es, k0 + k)) >= 1, INNER.fn(
                R0, rk(k0 + k), DCG(es, k0 + k), nh(vget(es, k0 + k))) == DCG(es, k0 + k)),
                Implies(And(k0 + k < N, nh(vget(es, k0 + k)) >= 1), gain(es, k0 + k) == 0)])
    out += induct("C11", "gain 1 adds the ideal weights", lambda k: INNER.fn(
        z3.RealVal(1), i0, ZF(i0 - 1), k) == ZF(i0 - 1 + k), more=[i0 >= 1])
    out += induct("C11", "gain 0 adds nothing", lambda k: INNER.fn(R0, i0, p0, k) == p0, more=[i0 >= 1])
    q_, h_ = z3.Real("q"), z3.Real("h")
    out.append(("C11", "cumulated ideal weight less a constant per rank grows up to the ideal rank (step)",
                [n >= 0, n < TRn, *rank_facts(n + 1), cc * z3.ToReal(n + 1) == cc * z3.ToReal(n) + cc,
                 x >= 0, x <= 1], W(n) <= W(n + 1)))

    # ---- C12
    for nm, s in sorted(ms.items()):
        L = lists(tu, S, s)
        short = key_short(nm)[:40]
        es = info(s)[1].elem
        a, b, c = z3.Const("a", es), z3.Const("b", es), z3.Const("c", es)
        R = L.rel
        out.append(("C12", "ranking order is irreflexive, " + short, [], Not(R(a, a))))
        out.append(("C12", "ranking order is transitive, " + short, [R(a, b), R(b, c)], R(a, c)))
        inc = lambda u, v: And(Not(R(u, v)), Not(R(v, u)))
        out.append(("C12", "ranking ties are transitive, " + short, [inc(a, b), inc(b, c)], inc(a, c)))
        h = lambda u: oi(mparts(u)[1]).has(mparts(u)[1])
        out.append(("C12", "records without hypothesis come last, " + short,
                    [h(a), Not(h(b))], And(R(a, b), Not(R(b, a)))))
    return out
