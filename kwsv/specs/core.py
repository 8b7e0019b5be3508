"""C02 (orders and equality), C03 (scorers), C07 (match records), C08 (single error
counts): the loop-free classes."""
from .common import *
from .geom import loc_ty, query_ty
from ..contract import Spec

MATCH, ERR, CNT = "kws::core::Match", "kws::core::MatchError", "kws::core::MatchErrorCounts"
SC = "kws::scorer::"


# ------------------------------------------------------------------- parts
def err_parts(e):
    """(fp, fn) of a MatchError or MatchErrorCounts value"""
    inf = rinfo(e)
    if "@0" in inf.idx:
        e = inf.get(e, "@0")
    return F(e, "fp_", 0), F(e, "fn_", 1)


def is_counts(e):
    return "@0" in rinfo(e).idx


def nh(e):
    """hypotheses an error value stands for"""
    if is_counts(e):
        return F(e, "nh_", 0)
    fp, fn = err_parts(e)
    return z3.If(And(fp <= 0, fn >= 1), z3.IntVal(0), z3.IntVal(1))


def nr(e):
    if is_counts(e):
        return F(e, "nr_", 1)
    fp, fn = err_parts(e)
    return z3.If(And(fp >= 1, fn <= 0), z3.IntVal(0), z3.IntVal(1))


def quad(e):
    fp, fn = err_parts(e)
    return fp, fn, nh(e), nr(e)


def err_sort(S, tu):
    return S.sort(tu.rec_by_key[ERR])


def cnt_sort(S, tu):
    return S.sort(tu.rec_by_key[CNT])


def mk_err(S, tu, fp, fn):
    return set_fields(S.rec(tu.rec_by_key[ERR]), ["fp_", "fn_"], [fp, fn])


def mk_cnt(S, tu, fp, fn, h, r):
    inf = S.rec(tu.rec_by_key[CNT])
    return inf.mk(mk_err(S, tu, fp, fn), h, r)


def set_fields(inf, names, vals):
    if len(inf.names) != len(names):
        raise Unsupported("unexpected fields")
    if all(n in inf.idx for n in names):
        d = dict(zip(names, vals))
        return inf.mk(*[d[n] for n in inf.names])
    return inf.mk(*vals)


def mparts(m):
    """(ref option, hyp option, error) of a match"""
    return F(m, "ref_", 0), F(m, "hyp_", 1), F(m, "error_", 2)


def oi(t):
    return info(t.sort())[1]


def mk_match(inf, ref, hyp, err):
    return set_fields(inf, ["ref_", "hyp_", "error_"], [ref, hyp, err])


def exact_root(v, n):
    t, ty = v.root(n)
    if not v.rexact.get(n):
        raise Unsupported("dynamic type of %s is not known" % n)
    return t


def specs(tu, S):
    out = []
    R = z3.RealVal

    # ---------------------------------------------------------- C02
    for cls in (BOX, DBOX, EVENT, SEVENT):
        def a(v):
            return v['this']

        def b(v):
            return v['other']

        def L(v, x, y):
            return lt(v.ty('this'), x, y)
        table = [
            ("==", lambda v: Eq(a(v), b(v))),
            ("!=", lambda v: Not(Eq(a(v), b(v)))),
            ("<", lambda v: lt(v.ty('this'), a(v), b(v))),
            (">", lambda v: lt(v.ty('this'), b(v), a(v))),
            ("<=", lambda v: Not(lt(v.ty('this'), b(v), a(v)))),
            (">=", lambda v: Not(lt(v.ty('this'), a(v), b(v)))),
        ]
        for op, fn in table:
            out.append(Spec(cls + "::operator" + op, ["other"], "C02",
                            val=lambda v, fn=fn: {"result": fn(v)}, alias=[("this", "other")],
                            when=lambda tu, f: tu.ty(f["params"][0]["t"]).noref().key ==
                            tu.ty(f["cls"]).key,
                            doc="operator%s agrees with the specified total order" % op))
    # parts of the values are those given at construction and seen by the accessors
    P = ("C02", "C18")
    out.append(Spec(BOX + "::BoundingBox", ["x", "y", "w", "h"], P, val=lambda v: {
        "result": set_fields(v.S.rec(v.ty("result")), list("xywh"),
                             [v['x'], v['y'], v['w'], v['h']])}, inline_at_calls=True))
    out.append(Spec(DBOX + "::DocumentBoundingBox", ["p", "x", "y", "w", "h"], P, post=lambda v: [
        ("parts are as given", And([Eq(doc(v.res), v['p'])] + [
            Eq(p, v[n]) for p, n in zip(bx(v.res), "xywh")]))], inline_at_calls=True))
    out.append(Spec(EVENT + "::Event", ["query", "location"], P, post=lambda v: [
        ("parts are as given", And(Eq(query(v.res), v['query']), Eq(location(v.res), v['location'])))],
        inline_at_calls=True))
    out.append(Spec(SHAPED + "::ShapedEvent", ["query", "location"], P, post=lambda v: [
        ("parts are as given", And(Eq(query(v.res), v['query']), Eq(location(v.res), v['location'])))],
        inline_at_calls=True))
    out.append(Spec(SEVENT + "::ScoredEvent", ["query", "location", "s"], P, post=lambda v: [
        ("parts are as given", And(Eq(query(v.res), v['query']), Eq(location(v.res), v['location']),
                                   Eq(score(v.res), v['s'])))], inline_at_calls=True))
    out.append(Spec(SEVENT + "::ScoredEvent", ["event", "s"], P, post=lambda v: [
        ("parts are as given", And(Eq(bases(v.res)[0], v['event']), Eq(score(v.res), v['s'])))],
        inline_at_calls=True))

    def acc(name, getter, fl, i):
        for cls in (EVENT, SEVENT):
            def ok(v, getter=getter):
                return [("reads the part it names", Eq(v.res, getter(v['this'])))]
            out.append(Spec(cls + "::" + name, [], P, post=ok, inline_at_calls=True,
                            when=lambda tu, f: f.get("const", True)))
            out.append(Spec(cls + "::" + name, [], P, post=ok, inline_at_calls=True,
                            ret=lambda v, fl=fl, i=i: v.lvs['this'].sub(
                                ("f", fname(v['this'], fl, i)), v.tu.ty(v.f["ret"]).noref()),
                            when=lambda tu, f: not f.get("const", True)))
    acc("Query", query, "query_", 0)
    acc("Location", location, "location_", 1)
    acc("Score", score, "score_", 0)

    # ---------------------------------------------------------- C08 (single errors)
    M = "C08"
    out.append(Spec(ERR + "::MatchError", [], ("C08", "C07"), val=lambda v: {
        "result": mk_err(S, tu, R(0), R(0))}, inline_at_calls=True))
    out.append(Spec(ERR + "::MatchError", ["fp", "fn"], ("C08", "C07"), val=lambda v: {
        "result": mk_err(S, tu, v['fp'], v['fn'])}, inline_at_calls=True))
    out.append(Spec(ERR + "::operator==", ["other"], ("C08", "C07"), val=lambda v: {
        "result": And([Eq(p, q) for p, q in zip(err_parts(v['this']), err_parts(v['other']))])}))
    out.append(Spec(ERR + "::operator!=", ["other"], ("C08", "C07"), val=lambda v: {
        "result": Not(And([Eq(p, q) for p, q in zip(err_parts(v['this']), err_parts(v['other']))]))}))
    out.append(Spec(ERR + "::FP", [], M, val=lambda v: {"result": err_parts(v['this'])[0]},
                    inline_at_calls=True))
    out.append(Spec(ERR + "::FN", [], M, val=lambda v: {"result": err_parts(v['this'])[1]},
                    inline_at_calls=True))
    for cls in (ERR, CNT):
        out.append(Spec(cls + "::NH", [], M, val=lambda v: {"result": nh(v['this'])}))
        out.append(Spec(cls + "::NR", [], M, val=lambda v: {"result": nr(v['this'])}))
    out.append(Spec(CNT + "::MatchErrorCounts", [], M, val=lambda v: {
        "result": mk_cnt(S, tu, R(0), R(0), z3.IntVal(0), z3.IntVal(0))}, inline_at_calls=True))
    out.append(Spec(CNT + "::MatchErrorCounts", ["m"], M, variants=["m"], val=lambda v: {
        "result": mk_cnt(S, tu, *quad(exact_root(v, 'm')))}, inline_at_calls=True))
    out.append(Spec(CNT + "::MatchErrorCounts", ["fp", "fn", "nh", "nr"], M, val=lambda v: {
        "result": mk_cnt(S, tu, v['fp'], v['fn'], v['nh'], v['nr'])}, inline_at_calls=True))
    out.append(Spec(CNT + "::operator==", ["other"], M, val=lambda v: {
        "result": Eq(v['this'], v['other'])}))
    out.append(Spec(CNT + "::operator!=", ["other"], M, val=lambda v: {
        "result": Not(Eq(v['this'], v['other']))}))
    out.append(Spec(CNT + "::operator+", ["other"], M, val=lambda v: {
        "result": mk_cnt(S, tu, *[p + q for p, q in zip(quad(v['this']), quad(v['other']))])},
        alias=[("this", "other")]))
    out.append(Spec(CNT + "::operator+=", ["other"], M, variants=["other"], val=lambda v: {
        "this": mk_cnt(S, tu, *[p + q for p, q in zip(quad(v['this']), quad(exact_root(v, 'other')))])},
        ret=lambda v: v.lvs['this']))

    # ---------------------------------------------------------- C07
    C = "C07"

    def minf(v, n="this"):
        return S.rec(v.ty(n))
    out.append(Spec(MATCH + "::Match", [], C, val=lambda v: {"result": empty_match(v, S, tu)},
                    inline_at_calls=True))
    out.append(Spec(MATCH + "::Match", ["other"], C, val=lambda v: {"result": v['other']},
                    structural_copy=True,
                    when=lambda tu, f: not f.get("move")))
    out.append(Spec(MATCH + "::Match", ["fp", "fn"], C, val=lambda v: {
        "result": mk_match(S.rec(v.ty("result")), *none_parts(S.rec(v.ty("result"))),
                           mk_err(S, tu, v['fp'], v['fn']))}, inline_at_calls=True))
    out.append(Spec(MATCH + "::Match", ["ref", "hyp", "error"], C, val=lambda v: {
        "result": full_match(S.rec(v.ty("result")), v['ref'], v['hyp'], v['error'])}))
    for nm, i in (("Ref", 0), ("Hyp", 1)):
        out.append(Spec(MATCH + "::Has" + nm, [], C, val=lambda v, i=i: {
            "result": oi(mparts(v['this'])[i]).has(mparts(v['this'])[i])}, inline_at_calls=True))
        out.append(Spec(MATCH + "::Get" + nm, [], C, pre=lambda v, i=i: [
            ("the part is present", oi(mparts(v['this'])[i]).has(mparts(v['this'])[i]))],
            post=lambda v, i=i: [("returns the part it names", Eq(
                v.res, oi(mparts(v['this'])[i]).val(mparts(v['this'])[i])))], inline_at_calls=True))

        def setter(v, i=i):
            p = list(mparts(v['this']))
            p[i] = oi(p[i]).some(v['x'])
            return {"this": mk_match(minf(v), *p)}
        out.append(Spec(MATCH + "::Set" + nm, ["x"], C, val=setter))
    out.append(Spec(MATCH + "::GetError", [], C, post=lambda v: [
        ("returns the error", Eq(v.res, mparts(v['this'])[2]))], inline_at_calls=True))
    out.append(Spec(MATCH + "::SetError", ["x"], C, val=lambda v: {
        "this": mk_match(minf(v), *(mparts(v['this'])[:2] + (v['x'],)))}))
    out.append(Spec(MATCH + "::operator=", ["other"], C, val=lambda v: {"this": v['other']},
                    ret=lambda v: v.lvs['this'], alias=[("this", "other")],
                    when=lambda tu, f: not f.get("move") and tu.ty(f["params"][0]["t"]).k == "lref"))
    out.append(Spec(MATCH + "::operator=", ["other"], C, val=lambda v: {"this": v['other']},
                    mod=["other"], ret=lambda v: v.lvs['this'],
                    when=lambda tu, f: tu.ty(f["params"][0]["t"]).k == "rref"))
    out.append(Spec(MATCH + "::operator==", ["other"], C, val=lambda v: {
        "result": Eq(v['this'], v['other'])}, alias=[("this", "other")]))
    out.append(Spec(MATCH + "::operator!=", ["other"], C, val=lambda v: {
        "result": Not(Eq(v['this'], v['other']))}, alias=[("this", "other")]))
    out.append(Spec(MATCH + "::MakeFalsePositive", ["hyp"], C, val=lambda v: {
        "result": fp_match(res_inf(v, S), v['hyp'], S, tu)}))
    out.append(Spec(MATCH + "::MakeFalseNegative", ["ref"], C, val=lambda v: {
        "result": fn_match(res_inf(v, S), v['ref'], S, tu)}))

    # ---------------------------------------------------------- C03
    zero = lambda: mk_err(S, tu, R(0), R(0))
    one = lambda: mk_err(S, tu, R(1), R(1))

    def parts(v):
        lty = loc_ty(tu, v.ty('ref'))
        return lty, query(v['ref']), query(v['hyp']), location(v['ref']), location(v['hyp'])

    def threshold(v):
        return F(v['this'], "threshold_", 0)

    def ioh(v):
        lty, qr, qh, lr, lh = parts(v)
        ar = z3.ToReal(AREA(lty, lh))
        ok = And(Eq(qr, qh), ar > 0, z3.ToReal(IA(lty, lr, lh)) / ar >= threshold(v))
        return {"result": z3.If(ok, zero(), one())}

    def iou(v):
        lty, qr, qh, lr, lh = parts(v)
        ok = And(Eq(qr, qh), AREA(lty, lh) > 0,
                 z3.ToReal(IA(lty, lr, lh)) / z3.ToReal(UA(lty, lr, lh)) >= threshold(v))
        return {"result": z3.If(ok, zero(), one())}

    def fits(v, union=False):
        lty, qr, qh, lr, lh = parts(v)
        t = coord_ty(lty)
        g = And(box_fits(t, lr), box_fits(t, lh))
        if union:
            i = z3.If(Eq(doc(lr), doc(lh)), g_inter(lr, lh), z3.IntVal(0))
            g = And(g, g_area(lr) + g_area(lh) - i <= trange(t)[1])
        return g

    def soft(v):
        lty, qr, qh, lr, lh = parts(v)
        ah, ar, i = AREA(lty, lh), AREA(lty, lr), IA(lty, lr, lh)
        unc = lambda a: z3.If(a > 0, 1 - z3.ToReal(i) / z3.ToReal(a), R(1))
        return {"result": z3.If(Eq(qr, qh), mk_err(S, tu, unc(ah), unc(ar)), one())}

    def soft_post(v):
        fp, fn = err_parts(v.res)
        return [("errors lie between 0 and 1 for boxes that fit",
                 Implies(fits(v), And(fp >= 0, fp <= 1, fn >= 0, fn <= 1)))]

    def trivial(v):
        return {"result": z3.If(And(Eq(query(v['ref']), query(v['hyp'])),
                                    Eq(location(v['ref']), location(v['hyp']))), zero(), one())}
    out.append(Spec(SC + "IntersectionOverHypothesisAreaScorer::operator()", ["ref", "hyp"], "C03",
                    val=ioh, doc="hypothesis-area rule"))
    out.append(Spec(SC + "IntersectionOverUnionAreaScorer::operator()", ["ref", "hyp"], "C03",
                    pre=lambda v: [("boxes and their union fit", fits(v, True))], val=iou,
                    facts=lambda v: g_lemmas(location(v['ref']), location(v['hyp'])),
                    doc="union-area rule"))
    out.append(Spec(SC + "SoftIntersectionOverHypothesisAreaScorer::operator()", ["ref", "hyp"], "C03",
                    val=soft, post=soft_post, doc="soft rule"))
    out.append(Spec(SC + "TrivialScorer::operator()", ["ref", "hyp"], "C03", val=trivial,
                    doc="exact rule"))
    for n in ("IntersectionOverHypothesisAreaScorer", "IntersectionOverUnionAreaScorer"):
        out.append(Spec(SC + n + "::" + n, ["threshold"], "C03", post=lambda v: [
            ("keeps the threshold", Eq(F(v.res, "threshold_", 0), v['threshold']))],
            inline_at_calls=True))
    return out


def none_parts(inf):
    ri = inf.idx["ref_"] if "ref_" in inf.idx else 0
    hi = inf.idx["hyp_"] if "hyp_" in inf.idx else 1
    ro = info(inf.ctor.domain(ri))[1]
    ho = info(inf.ctor.domain(hi))[1]
    return ro.none, ho.none


def opts_of(inf):
    ri = inf.idx["ref_"] if "ref_" in inf.idx else 0
    hi = inf.idx["hyp_"] if "hyp_" in inf.idx else 1
    return info(inf.ctor.domain(ri))[1], info(inf.ctor.domain(hi))[1]


def empty_match(v, S, tu):
    inf = S.rec(v.ty("result"))
    return mk_match(inf, *none_parts(inf), mk_err(S, tu, z3.RealVal(0), z3.RealVal(0)))


def full_match(inf, ref, hyp, err):
    ro, ho = opts_of(inf)
    return mk_match(inf, ro.some(ref), ho.some(hyp), err)


def res_inf(v, S):
    return S.rec(v.tu.ty(v.f["ret"]))


def fp_match(inf, hyp, S, tu):
    ro, ho = opts_of(inf)
    return mk_match(inf, ro.none, ho.some(hyp), mk_err(S, tu, z3.RealVal(1), z3.RealVal(0)))


def fn_match(inf, ref, S, tu):
    ro, ho = opts_of(inf)
    return mk_match(inf, ro.some(ref), ho.none, mk_err(S, tu, z3.RealVal(0), z3.RealVal(1)))


def theorems(tu, S):
    out = []
    seen = set()
    for cls in (BOX, DBOX, EVENT, SEVENT):
        for f in tu.find(cls + "::operator<"):
            ty = tu.ty(f["cls"])
            if ty.key in seen:
                continue
            seen.add(ty.key)
            s = S.sort(ty)
            a, b, c = [z3.Const(n, s) for n in "abc"]
            k = key_short(ty.key)
            l = lambda x, y: lt(ty, x, y)
            out.append(("C02", "order is irreflexive: " + k, [], Not(l(a, a))))
            out.append(("C02", "order is asymmetric: " + k, [], Implies(l(a, b), Not(l(b, a)))))
            out.append(("C02", "order is transitive: " + k, [], Implies(And(l(a, b), l(b, c)), l(a, c))))
            out.append(("C02", "order is total and agrees with equality: " + k, [],
                        Or(l(a, b), l(b, a), Eq(a, b))))
    return out
