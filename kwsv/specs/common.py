"""Specification vocabulary shared by the contracts: parts of objects, orders,
geometry, and lemmas."""
import z3
from ..tu import Unsupported, strip_targs
from ..terms import *
from ..prover import UNFOLD
from .. import std
from ..std import ORDERS, register_set_sort


def rinfo(t):
    k, inf = info(t.sort()) if t.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
    if inf is None:
        raise Unsupported("record expected, got %s" % t.sort())
    return inf


def F(t, name, idx=None):
    """field of a record, by name (by position among the data members if renamed)"""
    inf = rinfo(t)
    if name in inf.idx:
        return inf.get(t, name)
    if idx is not None:
        fs = [n for n in inf.names if not n.startswith("@")]
        if idx < len(fs):
            return inf.get(t, fs[idx])
    raise Unsupported("no field %s in %s" % (name, t.sort()))


def fname(t, name, idx):
    inf = rinfo(t)
    if name in inf.idx:
        return name
    return [n for n in inf.names if not n.startswith("@")][idx]


def bases(t):
    inf = rinfo(t)
    return [inf.get(t, n) for n in inf.names if n.startswith("@")]


# ---------------------------------------------------------------- values
def tname(ty):
    return ty.noref().name if ty.noref().k == "rec" else None


BOX, DBOX = "kws::core::BoundingBox", "kws::core::DocumentBoundingBox"
EVENT, SEVENT, SHAPED = "kws::core::Event", "kws::core::ScoredEvent", "kws::core::ShapedEvent"


def box_of(t):
    """the BoundingBox part of a box or document box"""
    inf = rinfo(t)
    if "@0" in inf.idx:
        return inf.get(t, "@0")
    return t


def bx(t):
    b = box_of(t)
    return [F(b, n, i) for i, n in enumerate("xywh")]


def doc(t):
    return F(t, "document", 0)


def event_of(t):
    """the Event part of an event of any class"""
    while True:
        inf = rinfo(t)
        if "@0" in inf.idx:
            t = inf.get(t, "@0")
        else:
            return t


def query(t):
    return F(event_of(t), "query_", 0)


def location(t):
    return F(event_of(t), "location_", 1)


def score(t):
    return F(t, "score_", 0)


def lex(pairs):
    """lexicographic strict order over [(a<b, a==b)]"""
    r = T(False)
    for l, e in reversed(pairs):
        r = Or(l, And(e, r))
    return r


def lt(ty, a, b):
    """the specified strict order of a type"""
    ty = ty.noref()
    if ty.k in ("int", "float", "enum"):
        return a < b
    n = ty.name
    if n == "std::basic_string":
        return s_rank(a) < s_rank(b)
    if n == BOX:
        return lex([(x < y, Eq(x, y)) for x, y in zip(bx(a), bx(b))])
    if n == DBOX:
        return Or(s_rank(doc(a)) < s_rank(doc(b)),
                  And(Eq(doc(a), doc(b)), lex([(x < y, Eq(x, y)) for x, y in zip(bx(a), bx(b))])))
    if n == EVENT:
        q, l = ty.targs()[:2]
        qa, qb, la, lb = query(a), query(b), location(a), location(b)
        return Or(lt(q, qa, qb), And(Eq(qa, qb), lt(l, la, lb)))
    if n == SEVENT:
        e = ty.targs()[0]
        return Or(score(a) < score(b),
                  And(Eq(score(a), score(b)), lt(e, bases(a)[0], bases(b)[0])))
    if n == SHAPED or n is not None and ty.rid is not None:
        # derived without parts of its own: order of its base
        bs = ty._tu.bases.get(ty.key, [])
        inf = rinfo(a)
        if len(bs) == 1 and len(inf.names) == 1:
            return lt(bs[0], bases(a)[0], bases(b)[0])
    raise Unsupported("no specified order for " + ty.s)


def order_on(ty, S):
    """register the specified order for ordered containers of this type"""
    s = S.sort(ty)
    n = s.name() if s.kind() == z3.Z3_DATATYPE_SORT else str(s)
    ORDERS.setdefault(n, lambda a, b: lt(ty, a, b))


def imax(a, b):
    return z3.If(a < b, b, a)


def imin(a, b):
    return z3.If(b < a, b, a)


# ---------------------------------------------------------------- geometry
def trange(ty):
    if ty.k == "float":
        return None
    if ty.sg:
        return -(2 ** (ty.w - 1)), 2 ** (ty.w - 1) - 1
    return 0, 2 ** ty.w - 1


def box_fits(ty, b):
    """edges and area of the box are representable in the coordinate type ty"""
    x, y, w, h = bx(b)
    r = trange(ty)
    out = [w >= 0, h >= 0]
    if r:
        out += [x + w <= r[1], y + h <= r[1], w * h <= r[1]]
    return And(out)


def g_area(b):
    x, y, w, h = bx(b)
    return w * h


def g_overlap(a, b):
    """extent of the common region in x and in y (not positive: none)"""
    ax, ay, aw, ah = bx(a)
    bx_, by, bw, bh = bx(b)
    return (imin(ax + aw, bx_ + bw) - imax(ax, bx_), imin(ay + ah, by + bh) - imax(ay, by))


def g_inter(a, b):
    dx, dy = g_overlap(a, b)
    return z3.If(And(dx > 0, dy > 0), dx * dy, 0 * dx)


def mono(a, b, c, d):
    """instance of the lemma: 0<=a<=b, 0<=c<=d  =>  0 <= a*c <= b*d (and 0<... strict)"""
    return Implies(And(a >= 0, a <= b, c >= 0, c <= d), And(a * c >= 0, a * c <= b * d))


def g_lemmas(a, b):
    dx, dy = g_overlap(a, b)
    _, _, aw, ah = bx(a)
    _, _, bw, bh = bx(b)
    return [mono(dx, aw, dy, ah), mono(dx, bw, dy, bh), mono(0 * aw, aw, 0 * ah, ah),
            mono(0 * bw, bw, 0 * bh, bh)]


_sym = {}


def sym(name, *args, ret):
    """uninterpreted symbol for the value of a deterministic function of its arguments"""
    key = name + "!" + ",".join(sname(a.sort()) if a.sort().kind() in
                                (z3.Z3_DATATYPE_SORT, z3.Z3_ARRAY_SORT) else str(a.sort())
                                for a in args)
    if key not in _sym:
        _sym[key] = z3.Function(key, *([a.sort() for a in args] + [ret]))
    return _sym[key](*args)


def coord_ty(ty):
    """coordinate type of a (document) box type"""
    return ty.noref().targs()[0]


def AREA(ty, b):
    """reported area of a box: geometric where it fits"""
    t = coord_ty(ty)
    bb = box_of(b)
    r = sym("AREA", bb, ret=F(bb, "x", 0).sort())
    UNFOLD.setdefault(r.decl().name(), lambda x, t=t: area_facts(t, x))
    return r


def area_facts(t, x):
    r = sym("AREA", x, ret=F(x, "x", 0).sort())
    out = [Implies(box_fits(t, x), r == g_area(x)), mono(0 * bx(x)[2], bx(x)[2], 0 * bx(x)[3], bx(x)[3])]
    rg = trange(t)
    if rg:
        out.append(And(r >= rg[0], r <= rg[1]))
    return out


def IA(ty, a, b):
    """reported intersection area"""
    ty = ty.noref()
    t = coord_ty(ty)
    ba, bb = box_of(a), box_of(b)
    r = sym("IA", ba, bb, ret=F(ba, "x", 0).sort())
    UNFOLD.setdefault(r.decl().name(), lambda x, y, t=t: ia_facts(t, x, y))
    if ty.name == DBOX:
        return z3.If(Eq(doc(a), doc(b)), r, 0 * r if False else zero_of(r))
    return r


def zero_of(t):
    return z3.IntVal(0) if t.sort() == IntS else z3.RealVal(0)


def ia_facts(t, x, y):
    r = sym("IA", x, y, ret=F(x, "x", 0).sort())
    out = [Implies(And(box_fits(t, x), box_fits(t, y)),
                   And(r == g_inter(x, y), r >= 0, r <= g_area(x), r <= g_area(y)))]
    rg = trange(t)
    if rg:
        out.append(And(r >= rg[0], r <= rg[1]))
    return out + g_lemmas(x, y)


def union_fits(ty, a, b):
    r = trange(coord_ty(ty))
    if r is None:
        return T(True)
    if coord_ty(ty).sg:
        return g_area(a) + g_area(b) <= r[1]
    return g_area(a) + g_area(b) - g_inter(a, b) <= r[1]


def UA(ty, a, b):
    """reported union area"""
    ty = ty.noref()
    r = sym("UA", a, b, ret=F(box_of(a), "x", 0).sort())
    UNFOLD.setdefault(r.decl().name(), lambda x, y, ty=ty: ua_facts(ty, x, y))
    return r


def ua_facts(ty, a, b):
    t = coord_ty(ty)
    r = sym("UA", a, b, ret=F(box_of(a), "x", 0).sort())
    i = g_inter(a, b)
    if ty.name == DBOX:
        i = z3.If(Eq(doc(a), doc(b)), i, zero_of(i))
    u = g_area(a) + g_area(b) - i
    ok = And(box_fits(t, a), box_fits(t, b))
    rg = trange(t)
    if rg:
        ok = And(ok, (u if not t.sg else g_area(a) + g_area(b)) <= rg[1])
    out = [Implies(ok, r == u)]
    if rg:
        out.append(And(r >= rg[0], r <= rg[1]))
    return out + g_lemmas(a, b)
