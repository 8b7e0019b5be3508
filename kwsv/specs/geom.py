"""C01: boxes.  Contracts of the area functions."""
from .common import *
from ..contract import Spec


def cty(v, n="this"):
    return coord_ty(v.ty(n))


def fit_facts(v):
    """ground instances of the product monotonicity lemma"""
    return g_lemmas(v['this'], v['other'])


def specs(tu, S):
    out = []

    def area_pre(v):
        t = cty(v)
        return [("edges and area fit", box_fits(t, v['this']))] if t.k == "int" and t.sg else []

    out.append(Spec(
        BOX + "::Area", [], "C01", pre=area_pre,
        facts=lambda v: [mono(0 * bx(v['this'])[2], bx(v['this'])[2], 0 * bx(v['this'])[3], bx(v['this'])[3])],
        post=lambda v: [("result is the geometric area",
                         Implies(box_fits(cty(v), v['this']), v.res == g_area(v['this'])))],
        pure=lambda v: AREA(v.ty('this'), v['this']),
        doc="area = width * height for boxes whose edges and area fit"))

    def two_pre(v):
        t = cty(v)
        if t.k == "int" and t.sg:
            return [("edges and areas fit", And(box_fits(t, v['this']), box_fits(t, v['other'])))]
        return []

    for cls in (BOX, DBOX):
        def inter(v, cls=cls):
            i = g_inter(v['this'], v['other'])
            return z3.If(Eq(doc(v['this']), doc(v['other'])), i, zero_of(i)) if cls == DBOX else i

        out.append(Spec(
            cls + "::IntersectionArea", ["other"], "C01", pre=two_pre, facts=fit_facts,
            post=(lambda v: [("result is the geometric intersection",
                              Implies(And(box_fits(cty(v), v['this']), box_fits(cty(v), v['other'])),
                                      v.res == g_inter(v['this'], v['other'])))]) if cls == BOX else
            (lambda v: [("different documents share nothing",
                         Implies(Not(Eq(doc(v['this']), doc(v['other']))), v.res == 0)),
                        ("same document: intersection of the boxes",
                         Implies(Eq(doc(v['this']), doc(v['other'])),
                                 v.res == IA(v.ty('this'), v['this'], v['other'])))]),
            pure=lambda v: IA(v.ty('this'), v['this'], v['other']),
            alias=[("this", "other")],
            doc="intersection area"))

        def union_post(v, cls=cls):
            t = cty(v)
            i = g_inter(v['this'], v['other'])
            if cls == DBOX:
                i = z3.If(Eq(doc(v['this']), doc(v['other'])), i, zero_of(i))
            u = g_area(v['this']) + g_area(v['other']) - i
            ok = And(box_fits(t, v['this']), box_fits(t, v['other']))
            r = trange(t)
            if r:
                ok = And(ok, (g_area(v['this']) + g_area(v['other']) if t.sg else u) <= r[1])
            return [("result is the area of the combined region", Implies(ok, v.res == u))]

        def union_pre(v):
            t = cty(v)
            if t.k == "int" and t.sg:
                return two_pre(v) + [("sum of the areas fits",
                                      g_area(v['this']) + g_area(v['other']) <= trange(t)[1])]
            return []
        out.append(Spec(
            cls + "::UnionArea", ["other"], "C01", pre=union_pre, facts=fit_facts, post=union_post,
            pure=lambda v: UA(v.ty('this'), v['this'], v['other']), alias=[("this", "other")],
            doc="union area"))

    # the free functions forward to the boxes (of the events)
    def boxes(v):
        a, b = v['a'], v['b']
        ta, tb = v.ty('a').noref(), v.ty('b').noref()
        if tname(ta) in (BOX, DBOX):
            return ta, a, b
        lt_ = loc_ty(tu, ta)
        return lt_, location(a), location(b)

    def free_pre(v):
        ty, a, b = boxes(v)
        t = coord_ty(ty)
        if t.k == "int" and t.sg:
            return [("edges and areas fit", And(box_fits(t, a), box_fits(t, b),
                                                g_area(a) + g_area(b) <= trange(t)[1]))]
        return []
    for name, fn in (("IntersectionArea", IA), ("UnionArea", UA)):
        out.append(Spec("kws::core::" + name, ["a", "b"], "C01", pre=free_pre,
                        val=lambda v, fn=fn: {"result": fn(*boxes(v))},
                        doc="same as the member function of the box"))

    out.append(Spec(
        SHAPED + "::Area", [], "C01",
        val=lambda v: {"result": AREA(loc_ty(tu, v.ty('this')), location(v['this']))},
        doc="area of a shaped event is the area of its box"))
    return out


def loc_ty(tu, ty):
    """location type of an event type"""
    ty = ty.noref()
    while ty.name != EVENT:
        bs = tu.bases.get(ty.key, [])
        if not bs:
            raise Unsupported("not an event: " + ty.s)
        ty = bs[0]
    return ty.targs()[1]


def query_ty(tu, ty):
    ty = ty.noref()
    while ty.name != EVENT:
        bs = tu.bases.get(ty.key, [])
        if not bs:
            raise Unsupported("not an event: " + ty.s)
        ty = bs[0]
    return ty.targs()[0]


def theorems(tu, S):
    """consequences of the contracts (C01), over all boxes"""
    out = []
    for f in tu.find(BOX + "::Area"):
        ty = tu.ty(f["cls"])
        s = S.sort(ty)
        a, b = z3.Const("a", s), z3.Const("b", s)
        k = key_short(ty.key)
        t = coord_ty(ty)
        ok = And(box_fits(t, a), box_fits(t, b))
        (d1, d2), (e1, e2) = g_overlap(a, b), g_overlap(b, a)
        out.append(("C01", "intersection is symmetric: extents of the common region: " + k, [],
                    And(d1 == e1, d2 == e2)))
        out.append(("C01", "intersection lies within both boxes: " + k, g_lemmas(a, b),
                    Implies(ok, And(g_inter(a, b) >= 0, g_inter(a, b) <= g_area(a),
                                    g_inter(a, b) <= g_area(b)))))
        dx, dy = g_overlap(a, b)
        out.append(("C01", "disjoint or touching boxes share nothing: " + k, [],
                    Implies(And(ok, Or(dx <= 0, dy <= 0)), g_inter(a, b) == 0)))
    for sort in (IntS, RealS):
        p, q, r, u = [z3.Const(n, sort) for n in "pqru"]
        out.append(("C01", "lemma: products of non-negative numbers are monotone (%s)" % sort, [],
                    mono(p, q, r, u)))
    return out
