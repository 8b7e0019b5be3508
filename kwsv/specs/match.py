"""C04 (reference index), C05 and C06 (matching)."""
from .common import *
from .folds import *
from .core import mparts, oi, opts_of, mk_match, fn_match, fp_match, err_parts, nh
from ..contract import Spec, same
from ..std import Rel, s_card, s_enum, set_of, set_idx, enum_pos
from ..engine import Iter, LV
from .. import prover

SET, SM = "kws::core::EventSet", "kws::matcher::SimpleMatcher"


def sel(a, i):
    return z3.Select(a, i)


def at(v, i):
    return z3.Select(vdata(v), i)


# ------------------------------------------------------------------ C04
def ev_ty(ty):
    """event type of an EventSet type"""
    return ty.noref().targs()[0]


def is_box(ty):
    """does the index hold events located by document boxes"""
    return loc_type(ev_ty(ty)).name == DBOX


def loc_type(ety):
    ety = ety.noref()
    while ety.name != EVENT:
        ety = ety._tu.bases[ety.key][0].noref()
    return ety.targs()[1].noref()


def field_of(t, want):
    """the field whose sort satisfies want"""
    inf = rinfo(t)
    for i, n in enumerate(inf.names):
        if want(inf.ctor.domain(i)):
            return inf.get(t, n)
    raise Unsupported("no such field in %s" % t.sort())


def nested(t):
    """query -> document -> events"""
    return field_of(t, lambda s: info(s)[0] == "map")


def slot(t, q, d):
    """(present, set of events) stored for a query and a document"""
    m = t if info(t.sort())[0] == "map" else nested(t)
    i1 = info(m.sort())[1]
    a = select(i1.get(m, 1), q)
    i2 = info(a.sort())[1]
    return (And(select(i1.get(m, 0), q), select(i2.get(a, 0), d)), select(i2.get(a, 1), d))


def esort_of(t):
    """sort of the events of an index value"""
    inf = rinfo(t)
    for i, n in enumerate(inf.names):
        s = inf.ctor.domain(i)
        if s.kind() == z3.Z3_ARRAY_SORT:
            return s.domain()
        if info(s)[0] == "map":
            return info(info(s)[1].vs)[1].vs.domain()
    raise Unsupported("no events in %s" % t.sort())


def HELD(t):
    """the set of events an index holds"""
    inf = rinfo(t)
    for i, n in enumerate(inf.names):
        if inf.ctor.domain(i).kind() == z3.Z3_ARRAY_SORT:
            return inf.get(t, n)
    es = esort_of(t)
    s_card(z3.K(es, T(False)))

    return held_in(nested(t), es)


def held_in(m, es):
    """the set of events in a map of maps of sets"""
    def body(r, m):
        if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_ITE:
            return [r == z3.If(m.arg(0), held_in(m.arg(1), es), held_in(m.arg(2), es))]
        e = z3.Const("e!held", es)
        ok, st = slot(m, query(e), doc(location(e)))
        return [z3.ForAll([e], sel(r, e) == And(ok, select(st, e)), patterns=[sel(r, e)])]
    return define("HELD", [m.sort()], z3.ArraySort(es, BoolS), body, raw=True)(m)


def consistent(t):
    """representation invariant of an index"""
    if HELD(t).decl().name().startswith("HELD") is False:
        return []
    es = esort_of(t)
    e = z3.Const("e!inv", es)
    m = nested(t)
    i1 = info(m.sort())[1]
    q = z3.Const("q!inv", i1.ks)
    d = z3.Const("d!inv", info(i1.vs)[1].ks)
    ok, st = slot(t, q, d)
    x = sel(st, e)
    size = field_of(t, lambda s: s == IntS)
    return [("the size is the number of events held", size == s_card(HELD(t))),
            ("events are stored under their query and document", z3.ForAll(
                [q, d, e], Implies(And(ok, x), And(query(e) == q, doc(location(e)) == d)),
                patterns=[x] if good_pattern(x) and all(has_var(x, y) for y in (q, d, e)) else []))]


def has_var(t, v):
    return t.eq(v) or any(has_var(c, v) for c in t.children())


def ext(a, b):
    """extensionality of two sets"""
    w = sym("EXT", a, b, ret=a.sort().domain())
    return Or(a == b, sel(a, w) != sel(b, w))


def SUB(s, q, d):
    """events of s with query q in document d"""
    def body(r, s, q, d):
        e = z3.Const("e!sub", s.sort().domain())
        return [z3.ForAll([e], sel(r, e) == And(sel(s, e), query(e) == q, doc(location(e)) == d),
                          patterns=[sel(r, e)])]
    s_card(s)
    return define("SUB", [s.sort(), q.sort(), d.sort()], s.sort(), body, raw=True)(s, q, d)


class Find:
    """retrieval from an index of one event type"""
    all = {}

    def __init__(self, ety, S):
        self.ety = ety.noref()
        self.es = S.sort(self.ety)
        self.vs = VecI(self.es).sort
        self.box = loc_type(self.ety).name == DBOX
        self.lty = loc_type(self.ety)
        self.evs = event_of(z3.Const("x", self.es)).sort()
        self.ls = location(z3.Const("x", self.es)).sort()
        if self.box:
            self.pair = PairI(IntS if coord_ty(self.lty).k == "int" else RealS, self.es)
            self.pv = VecI(self.pair.sort)
            self.OVL = fold("OVERLAPS", [self.vs, self.ls], self.pv.sort, self._ovl)
            self.SECS = fold("EVENTSOF", [self.pv.sort], self.vs,
                             lambda a, k, p: vpush(p, self.pair.get(vget(a[0], k), 1)))
            self.rel = Rel("overlap" + self.es.name(), self.pair.sort, lambda a, b: self.before(a, b))
            prover.CONG.add("SORT!overlap" + self.es.name())

    def before(self, a, b):
        """larger intersection first, then greater event first"""
        a1, a2 = self.pair.fields(a)
        b1, b2 = self.pair.fields(b)
        return Or(a1 > b1, And(Eq(a1, b1), lt(self.ety, b2, a2)))

    def ia(self, x, loc):
        return IA(self.lty, location(x), loc)

    def _ovl(self, a, k, p):
        x = vget(a[0], k)
        i = self.ia(x, a[1])
        return z3.If(i > 0, vpush(p, self.pair.mk(i, x)), p)

    def near(self, held, ev):
        """held events with the query and the document of the probe, in index order"""
        return s_enum(SUB(held, query(ev), doc(location(ev))))

    def ovl(self, held, ev, k=None):
        n = self.near(held, ev)
        return self.OVL(n, location(ev), self.pv.empty, vlen(n) if k is None else k)

    def sorted(self, held, ev):
        return self.rel.fn(self.ovl(held, ev))

    def find(self, held, ev):
        ev = event_of(ev)

        def body(held, ev):
            if not self.box:
                return z3.If(select(held, ev), vpush(VecI(self.es).empty, ev), VecI(self.es).empty)
            o = self.sorted(held, ev)
            return self.SECS(o, VecI(self.es).empty, vlen(o))
        return define("FIND", [held.sort(), ev.sort()], self.vs, body)(held, ev)


def finder(ety, S):
    k = ety.noref().key
    if k not in Find.all:
        Find.all[k] = Find(ety, S)
    return Find.all[k]


def INS(vs, es):
    """set of the first k elements of a vector"""
    s_card(z3.K(es, T(False)))
    f = fold("INSERTED", [vs], z3.ArraySort(es, BoolS),
             lambda a, k, p: z3.Store(p, vget(a[0], k), T(True)))
    return lambda v, k: f(v, z3.K(es, T(False)), k)


class IndexHint:
    """what an index (directly or owned) holds"""

    def instances(self, E, entry, leaves, prog, src):
        # group leaves of index records by owner: the whole value of the object is rebuilt
        owners = {}
        for nm, t0, key in leaves:
            loc, path = key
            owners.setdefault(loc, []).append((nm, t0, key))
        for loc, ls in owners.items():
            done = set()
            for nm, t0, key in ls:
                for n in range(len(key[1]) + 1):
                    path = key[1][:n]
                    if path in done or path == ("@iter",) or path == ("@arr",):
                        continue
                    done.add(path)
                    for x in self.at(E, entry, loc, path, nm, prog, src):
                        yield x

    def at(self, E, entry, loc, path, nm, prog, src):
        try:
            v0 = E.getpath(E.locval(entry, loc), path)
        except (Unsupported, AttributeError):
            return
        if not z3.is_expr(v0):
            return
        opt = None
        if v0.sort().kind() == z3.Z3_DATATYPE_SORT and info(v0.sort())[0] == "opt":
            opt = info(v0.sort())[1]
            es = opt.elem
        else:
            es = v0.sort()
        if es.kind() != z3.Z3_DATATYPE_SORT or not es.name().startswith("EventSet<"):
            return

        def val(E, s):
            v = E.getpath(E.locval(s, loc), path)
            return opt.val(v) if opt is not None else v
        if opt is not None:
            yield "%s owns an index" % nm, lambda E, s: opt.has(E.getpath(E.locval(s, loc), path))
        w = z3.Const("w!ix", es)
        for i in range(len(consistent(w))):
            yield "%s consistent %d" % (nm, i), lambda E, s, i=i: consistent(val(E, s))[i][1]
        el = esort_of(w)
        vs = VecI(el).sort
        for n, r in enumerate(src.get(skey(vs), [])[:5]):
            for pn, pf in prog:
                yield "%s holds the first %s of #%d" % (nm, pn, n), \
                    lambda E, s, r=r, pf=pf: HELD(val(E, s)) == INS(vs, el)(r, pf(E, s))


# ------------------------------------------------------------------ C05, C06
def SC(scorer, ref, hyp, es):
    """error that a scorer reports for a reference and a hypothesis"""
    return sym("SCORE", scorer, ref, hyp, ret=es)


class M:
    """matching of references of sort rs with hypotheses of sort hs"""
    all = {}

    def __init__(self, tu, S, f):
        self.tu, self.S = tu, S
        rty = tu.ty(f["params"][0]["t"]).noref()
        hty = tu.ty(f["params"][1]["t"]).noref()
        self.rty = rty.targs()[0].noref()
        self.hty = hty.targs()[0].noref()
        self.rv, self.hv = S.sort(rty), S.sort(hty)
        self.rs, self.hs = info(self.rv)[1].elem, info(self.hv)[1].elem
        self.set = z3.ArraySort(self.rs, BoolS)
        self.out = S.sort(tu.ty(f["ret"]))
        self.ms = info(self.out)[1].elem
        self.minf = info(self.ms)[1]
        self.es = self.minf.ctor.domain(self.minf.idx.get("error_", 2))
        self.find = finder(self.rty, S)
        # the scorer object
        self.scs = None
        for n, t in S.rec_fields(tu.ty(f["cls"])):
            if t.k == "ptr":
                self.scf, self.sct = n, t
                self.scs = S.sort(t.to)
        A = [self.set, self.set, self.hv, self.scs]     # free at start, held, hyps, scorer
        self.FREE = fold("FREE", A, self.set, self._free)
        self.RES = fold("RECORDS", A, self.out, self._res)
        self.REPS = fold("REPEATED", A, self.out, self._reps)
        self.SRC = fold("RECORDSRC", A, VecI(IntS).sort, self._src)
        B = [self.rv, self.hs, self.scs]                # candidates, hyp, scorer
        self.ACCN = fold("ACCEPTED", B, BoolS, lambda a, k, p: z3.If(
            self.acc(a[0], a[1], a[2], k), T(True), p))
        self.REPF = fold("TAKEN", B, self.out, lambda a, k, p: z3.If(
            self.acc(a[0], a[1], a[2], k), vpush(p, self.pair(a[0], a[1], a[2], k)), p))
        self.FNS = fold("MISSED", [self.rv], self.out, lambda a, k, p: vpush(p, self.fn(vget(a[0], k))))
        self.FIRSTF = define("FIRSTFREE", [self.rv, self.set, self.hs, self.scs], IntS, self._first,
                             raw=True)

    def err(self, sc, ref, hyp):
        return SC(sc, ref, hyp, self.es)

    def acc(self, c, h, sc, j):
        return err_parts(self.err(sc, at(c, j), h))[0] < 1

    def good(self, c, u, h, sc, j):
        return And(self.acc(c, h, sc, j), sel(u, at(c, j)))

    def _first(self, w, c, u, h, sc):
        j = z3.Const("j!ff", IntS)
        n = vlen(c)
        return [Implies(n >= 0, And(w >= 0, w <= n)), Implies(And(n >= 0, w < n), self.good(c, u, h, sc, w)),
                z3.ForAll([j], Implies(And(j >= 0, j < w), Not(self.good(c, u, h, sc, j))),
                          patterns=pats(at(c, j)))]

    def pair(self, c, h, sc, j):
        ro, ho = opts_of(self.minf)
        x = vget(c, j)
        return mk_match(self.minf, ro.some(x), ho.some(h), self.err(sc, x, h))

    def fn(self, ref):
        return fn_match(self.minf, ref, self.S, self.tu)

    def fp(self, hyp):
        return fp_match(self.minf, hyp, self.S, self.tu)

    def cands(self, held, h):
        return self.find.find(held, event_of(h))

    def _step(self, a, k):
        u0, held, hyps, sc = a
        h = vget(hyps, k)
        c = self.cands(held, h)
        u = self.free(*a, k)
        w = self.FIRSTF(c, u, h, sc)
        return h, c, u, w, sc

    def _free(self, a, k, p):
        u0, held, hyps, sc = a
        h = vget(hyps, k)
        c = self.cands(held, h)
        w = self.FIRSTF(c, p, h, sc)
        return z3.If(w < vlen(c), z3.Store(p, vget(c, w), T(False)), p)

    def _res(self, a, k, p):
        h, c, u, w, sc = self._step(a, k)
        return z3.If(w < vlen(c), vpush(p, self.pair(c, h, sc, w)),
                     z3.If(self.ACCN(c, h, sc, T(False), vlen(c)), p, vpush(p, self.fp(h))))

    def _src(self, a, k, p):
        h, c, u, w, sc = self._step(a, k)
        return z3.If(Or(w < vlen(c), Not(self.ACCN(c, h, sc, T(False), vlen(c)))), vpush(p, k), p)

    def _reps(self, a, k, p):
        h, c, u, w, sc = self._step(a, k)
        return self.REPF(c, h, sc, p, w)

    def free(self, u0, held, hyps, sc, k):
        return self.FREE(u0, held, hyps, sc, u0, k)

    def res(self, u0, held, hyps, sc, k):
        return self.RES(u0, held, hyps, sc, VecI(self.ms).empty, k)

    def src(self, u0, held, hyps, sc, k):
        return self.SRC(u0, held, hyps, sc, VecI(IntS).empty, k)

    def reps(self, u0, held, hyps, sc, k):
        return self.REPS(u0, held, hyps, sc, VecI(self.ms).empty, k)

    def args(self, refs, hyps, sc):
        return [set_of(refs), INS(self.rv, self.rs)(refs, vlen(refs)), hyps, sc]

    def result(self, refs, hyps, sc):
        a = self.args(refs, hyps, sc)
        n = vlen(hyps)
        left = s_enum(self.free(*a, n))
        return self.FNS(left, self.res(*a, n), vlen(left))

    def scorer(self, this):
        inf = rinfo(this)
        return deref_fn(self.scs)(inf.get(this, self.scf))


def deref_fn(sort):
    return z3.Function("deref!" + str(sort), PtrS, sort)


def matching(tu, S, f):
    k = tu.ty(f["cls"]).key
    if k not in M.all:
        M.all[k] = M(tu, S, f)
    return M.all[k]


class MatchHint:
    def __init__(self, m):
        self.m = m

    def instances(self, E, entry, leaves, prog, src):
        m = self.m
        refs, hyps = E.entry_terms.get("refs"), E.entry_terms.get("hyps")
        this = E.entry_terms.get("this")
        a = m.args(refs, hyps, m.scorer(this))
        sc = a[3]
        n = vlen(hyps)
        for nm, t0, key in leaves:
            if t0.sort() == m.set:
                for pn, pf in prog:
                    yield "%s == FREE(%s)" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        E.leaf_of(s, key) == m.free(*a, pf(E, s))
                    yield "%s == INSERTED(%s)" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        E.leaf_of(s, key) == INS(m.rv, m.rs)(refs, pf(E, s))
            if t0.sort() == m.out:
                for pn, pf in prog:
                    yield "%s == RECORDS(%s)" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        E.leaf_of(s, key) == m.res(*a, pf(E, s))
                    yield "%s == REPEATED(%s)" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        E.leaf_of(s, key) == m.reps(*a, pf(E, s))
                    left = s_enum(m.free(*a, n))
                    yield "%s == MISSED(%s)" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        E.leaf_of(s, key) == m.FNS(left, m.res(*a, n), pf(E, s))
        # loop over the candidates of one hypothesis
        ints = [t for t in src.get("Int", []) if not z3.is_int_value(t)][:6]
        hs = [vget(hyps, t) for t in ints] + [x for x in src.get(skey(m.hs), [])[:3]]
        sets = [lambda E, s, t=t: t for t in src.get(str(m.set), [])[:4]]
        sets += [lambda E, s, k=key: E.leaf_of(s, k) for nm, t0, key in leaves if t0.sort() == m.set]
        cs = [c for c in src.get(skey(m.rv), [])[:6] if not c.eq(refs)]
        for ci, c in enumerate(cs):
            mine = [h for h in hs if z3.is_app(c) and c.num_args() == 2 and c.arg(1).eq(event_of(h))]
            for hi, h in enumerate(mine[:1] or hs[:4]):
                for pn, pf in prog:
                    for nm, t0, key in leaves:
                        if t0.sort() == BoolS:
                            yield "%s == ACCEPTED(#%d,#%d,%s)" % (nm, ci, hi, pn), \
                                lambda E, s, key=key, pf=pf, c=c, h=h: E.leaf_of(s, key) == \
                                m.ACCN(c, h, sc, T(False), pf(E, s))
                        if t0.sort() == m.out:
                            yield "%s == TAKEN(#%d,#%d,%s)" % (nm, ci, hi, pn), \
                                lambda E, s, key=key, pf=pf, c=c, h=h, t0=t0: E.leaf_of(s, key) == \
                                m.REPF(c, h, sc, t0, pf(E, s))
                    # loops that go on with a flag once a free candidate was taken
                    for un, u0, _ in leaves:
                        if u0.sort() != m.set or not mine:
                            continue
                        w = m.FIRSTF(c, u0, h, sc)
                        yield "stops after the taken of #%d,#%d,%s,%s" % (ci, hi, pn, un), \
                            lambda E, s, pf=pf, w=w: pf(E, s) <= w + 1
                        for nm, t0, key in leaves:
                            if t0.sort() == BoolS:
                                yield "%s == TAKENYET(#%d,#%d,%s,%s)" % (nm, ci, hi, pn, un), \
                                    lambda E, s, key=key, pf=pf, w=w: E.leaf_of(s, key) == (w < pf(E, s))
                            if t0.eq(u0):
                                yield "%s less the taken of #%d,#%d,%s" % (nm, ci, hi, pn), \
                                    lambda E, s, key=key, pf=pf, w=w, c=c, t0=t0: E.leaf_of(s, key) == ite(
                                        w < pf(E, s), z3.Store(t0, vget(c, w), T(False)), t0)
                            if t0.sort() == m.out:
                                yield "%s with the pair of #%d,#%d,%s,%s" % (nm, ci, hi, pn, un), \
                                    lambda E, s, key=key, pf=pf, w=w, c=c, h=h, t0=t0: E.leaf_of(
                                        s, key) == ite(w < pf(E, s), vpush(t0, m.pair(c, h, sc, w)), t0)
                                yield "%s == TAKEN TO(#%d,#%d,%s,%s)" % (nm, ci, hi, pn, un), \
                                    lambda E, s, key=key, pf=pf, w=w, c=c, h=h, t0=t0: E.leaf_of(
                                        s, key) == m.REPF(c, h, sc, t0, ite(w < pf(E, s), w, pf(E, s)))
                    for ui, u in enumerate(sets):
                        def none(E, s, pf=pf, c=c, h=h, u=u):
                            j = z3.Const("j!mh", IntS)
                            return z3.ForAll([j], Implies(And(j >= 0, j < pf(E, s)), Not(
                                m.good(c, u(E, s), h, sc, j))), patterns=pats(at(c, j)))
                        yield "no free accepted candidate of #%d,#%d before %s (%d)" % (ci, hi, pn, ui), none


def specs(tu, S):
    out = []
    P = "C04"
    obj = lambda v, n="this": v[n]

    def posts(new):
        return consistent(new)
    out.append(Spec(SET + "::EventSet", [], P, post=lambda v: [
        ("the index is empty", HELD(v.res) == z3.K(esort_of(v.res), T(False)))] + consistent(v.res),
        lemmas=lambda v: [ext(HELD(v.res), z3.K(esort_of(v.res), T(False)))], nparams=0))

    def range_args(name):
        def mk(E, v, pt, st):
            if "range!" not in v.fnargs:
                ety = ev_ty(E.tu.ty(v.f["cls"]))
                vt = vec_type(E.tu, ety)
                k = z3.Const("range", E.S.sort(vt))
                E.entry_terms["range"] = k
                v.old["range"] = k
                v.fnargs["range!"] = E.new_loc(st, k, vt, "range")
                E.type_fact(vt, k)
            lv = v.fnargs["range!"]
            return Iter(lv, "seq", z3.IntVal(0) if name == "begin" else vlen(v.old["range"]))
        return mk

    def range_post(v):
        r = v.old["range"]
        return [("holds exactly the events of the range", HELD(v.res) == INS(
            r.sort(), info(r.sort())[1].elem)(r, vlen(r)))] + consistent(v.res)
    out.append(Spec(SET + "::EventSet", ["begin", "end"], P, post=range_post,
                    fnparams={"begin": range_args("begin"), "end": range_args("end")},
                    hints=lambda reg, f: [IndexHint()], use=False, opts={"optional": True},
                    facts=lambda v: [ext(z3.K(esort_of_ty(S, v.tu.ty(v.f["cls"])), T(False)), INS(
                        v.old["range"].sort(), info(v.old["range"].sort())[1].elem)(
                            v.old["range"], z3.IntVal(0)))] if "range" in v.old else []))
    pre = lambda v: consistent(v['this'])

    def change(val):
        def post(v):
            n, o = v.new['this'], v['this']
            want = z3.Store(HELD(o), v['event'], T(val))
            return [("holds %s the event" % ("also" if val else "no longer"), HELD(n) == want)] + \
                consistent(n)
        return post

    def extl(val):
        def f(v):
            if 'this' not in v.new:
                return []
            return [ext(HELD(v.new['this']), z3.Store(HELD(v['this']), v['event'], T(val))),
                    s_card(z3.Store(HELD(v['this']), v['event'], T(val))) >= 0,
                    ext(HELD(v.new['this']), HELD(v['this']))]
        return f
    out.append(Spec(SET + "::Insert", ["event"], P, pre=pre, post=change(True), mod=["this"],
                    lemmas=extl(True)))
    out.append(Spec(SET + "::Remove", ["event"], P, pre=pre, post=change(False), mod=["this"],
                    lemmas=extl(False)))
    out.append(Spec(SET + "::Clear", [], P, mod=["this"], post=lambda v: [
        ("the index is empty", HELD(v.new['this']) == z3.K(esort_of(v.new['this']), T(False)))] +
        consistent(v.new['this']),
        lemmas=lambda v: [ext(HELD(v.new['this']), z3.K(esort_of(v.new['this']), T(False)))]))
    out.append(Spec(SET + "::Size", [], P, pre=pre, val=lambda v: {"result": s_card(HELD(v['this']))}))

    def find(v):
        return {"result": finder(ev_ty(v.ty('this')), S).find(HELD(v['this']), v['event'])}

    def find_facts(v):
        t = v['this']
        if not is_box(v.ty('this')):
            return []
        e = event_of(v['event'])
        _, st = slot(t, query(e), doc(location(e)))
        sub = SUB(HELD(t), query(e), doc(location(e)))
        return [ext(st, sub), ext(sub, z3.K(sub.sort().domain(), T(False)))]

    def find_hints(reg, f):
        if not is_box(tu.ty(f["cls"])):
            return []
        F_ = finder(ev_ty(tu.ty(f["cls"])), S)
        held = lambda E: HELD(E.entry_terms["this"])
        ev = lambda E: event_of(E.entry_terms["event"])
        return [VecFold(lambda E, k: F_.OVL(F_.near(held(E), ev(E)), location(ev(E)), F_.pv.empty, k), F_.pv.sort, "OVERLAPS"),
                VecFold(lambda E, k: F_.SECS(F_.sorted(held(E), ev(E)), VecI(F_.es).empty, k), F_.vs,
                        "EVENTSOF")]
    out.append(Spec(SET + "::FindOverlapping", ["event"], P, pre=pre, val=find, facts=find_facts,
                    hints=find_hints,
                    sort_rels=lambda reg, f: [finder(ev_ty(tu.ty(f["cls"])), S).rel]
                    if is_box(tu.ty(f["cls"])) else []))

    # ---------------------------------------------------------------- matcher
    out.append(Spec("kws::scorer::Scorer::operator()", ["ref", "hyp"], ("C05", "C06"), virt=True,
                    val=lambda v: {"result": SC(v['this'], v['ref'], v['hyp'], S.sort(tu.ty(
                        v.f["ret"])))}))

    def mm(v):
        return matching(tu, S, v.f)

    def mval(v):
        m = mm(v)
        return {"result": m.result(v['refs'], v['hyps'], m.scorer(v['this']))}

    def own(t):
        return field_of(t, lambda s: info(s)[0] == "opt")

    def reps(t):
        return field_of(t, lambda s: info(s)[0] == "vec")

    def mpost(v):
        m = mm(v)
        a = m.args(v['refs'], v['hyps'], m.scorer(v['this']))
        n = v.new['this']
        return [("the repeated matches are those of this call", same(reps(n), m.reps(
            *a, vlen(v['hyps'])))),
            ("keeps its scorer", rinfo(n).get(n, m.scf) == rinfo(n).get(v['this'], m.scf)),
            ("keeps its index", oi(own(n)).has(own(n)))]
    def held_refs(v):
        """proved as "the index holds exactly the references to be matched" """
        m = mm(v)
        return [INS(m.rv, m.rs)(v['refs'], vlen(v['refs'])) == set_of(v['refs'])]
    out.append(Spec(SM + "::Match", ["refs", "hyps"], ("C05", "C06"), mod=["this"], val=mval, post=mpost,
                    facts=held_refs,
                    pre=lambda v: [("the matcher has a scorer", Not(Eq(
                        rinfo(v['this']).get(v['this'], mm(v).scf), NULLP))),
                        ("the matcher has an index", oi(own(v['this'])).has(own(v['this'])))],
                    hints=lambda reg, f: [IndexHint(), MatchHint(matching(tu, S, f))],
                    opts={"forks": 4, "hdepth": 2, "opaque": ["FIND", "HELD", "SUB", "OVERLAPS", "EVENTSOF", "IA"]}))
    out.append(Spec(SM + "::GetRepeatedMatches", [], ("C05", "C06"), post=lambda v: [
        ("returns the repeated matches", same(v.res, reps(v['this'])))], inline_at_calls=True))
    out.append(Spec(SM + "::SimpleMatcher", ["scorer"], ("C05", "C06"), post=lambda v: [
        ("has an index", oi(own(v.res)).has(own(v.res)))], inline_at_calls=True))
    return out


class VecFold:
    """a vector under construction equals a fold over the progress made"""

    def __init__(self, mk, sort, name):
        self.mk, self.sort, self.name = mk, sort, name

    def instances(self, E, entry, leaves, prog, src):
        for nm, t0, key in leaves:
            if t0.sort() != self.sort:
                continue
            for pn, pf in prog:
                yield "%s == %s(%s)" % (nm, self.name, pn), lambda E, s, key=key, pf=pf: \
                    E.leaf_of(s, key) == self.mk(E, pf(E, s))


def esort_of_ty(S, ty):
    return S.sort(ev_ty(ty))


def vec_type(tu, ety):
    for t in tu.types:
        if t.k == "rec" and t.name == "std::vector" and t.targs() and \
                t.targs()[0].noref().key == ety.noref().key:
            return t
    raise Unsupported("no vector of %s" % ety.s)


def theorems(tu, S):
    out = []
    seen = set()
    for f in tu.find(SM + "::Match"):
        m = matching(tu, S, f)
        if m.es.name() + m.out.name() in seen:
            continue
        seen.add(m.es.name() + m.out.name())
        tag = " <%s>" % key_short(m.rty.key)[:40]
        out += find_theorems(m.find, tag)
        out += set_theorems(m, tag)
        out += match_theorems(m, tag)
        out += greedy_theorems(m, tag)
    return out


def increasing(v, n, i, j):
    return Implies(And(i >= 0, i < j, j < n), sel(vdata(v), i) < sel(vdata(v), j))


def find_theorems(F_, tag):
    """C04: what retrieval returns"""
    P = "C04"
    out = []
    held = z3.Const("held", z3.ArraySort(F_.es, BoolS))
    ev = z3.Const("ev", F_.evs)
    x = z3.Const("x", F_.es)
    i, j = z3.Ints("i j")
    r = F_.find(held, ev)
    n = vlen(r)
    if not F_.box:
        out.append((P, "returns the equal event if it is held, else nothing" + tag, [], And(
            Implies(sel(held, ev), And(n == 1, at(r, 0) == ev)), Implies(Not(sel(held, ev)), n == 0))))
        return out
    N = F_.near(held, ev)
    loc = location(ev)
    o = lambda k: F_.ovl(held, ev, k)
    ia = lambda e: F_.ia(e, loc)
    SRC = fold("OVERLAPSRC", [F_.vs, F_.ls], VecI(IntS).sort, lambda a, k, p: z3.If(
        F_.ia(vget(a[0], k), a[1]) > 0, vpush(p, k), p))
    src = lambda k: SRC(N, loc, VecI(IntS).empty, k)
    # every kept pair comes from an overlapping neighbour, in index order
    lens = lambda k: And(vlen(o(k)) == vlen(src(k)), vlen(o(k)) >= 0, vlen(o(k)) <= k)
    out += induct(P, "as many pairs as overlapping events" + tag, lens)
    from_ = lambda k, i: Implies(And(i >= 0, i < vlen(o(k))), And(
        at(src(k), i) >= 0, at(src(k), i) < k, ia(at(N, at(src(k), i))) > 0,
        at(o(k), i) == F_.pair.mk(ia(at(N, at(src(k), i))), at(N, at(src(k), i)))))
    out += induct(P, "every pair is that of an overlapping event" + tag, lambda k: from_(k, i),
                  facts=lambda k: [lens(k)])
    inc = lambda k, i, j: increasing(src(k), vlen(o(k)), i, j)
    out += induct(P, "no event is kept twice" + tag, lambda k: inc(k, i, j),
                  facts=lambda k: [lens(k), from_(k, i)])
    has = lambda k, j: Implies(And(j >= 0, j < k, ia(at(N, j)) > 0), And(
        vlen(o(j)) < vlen(o(k)), vlen(o(j)) >= 0,
        at(o(k), vlen(o(j))) == F_.pair.mk(ia(at(N, j)), at(N, j))))
    out += induct(P, "every overlapping event is kept" + tag, lambda k: has(k, j),
                  facts=lambda k: [lens(k), Implies(j >= 0, lens(j))])
    # the events of the sorted pairs
    so = F_.sorted(held, ev)
    sec = lambda k: F_.SECS(so, VecI(F_.es).empty, k)
    sl = lambda k: vlen(sec(k)) == k
    out += induct(P, "one result per pair" + tag, sl)
    se = lambda k, i: Implies(And(i >= 0, i < k), at(sec(k), i) == F_.pair.get(at(so, i), 1))
    out += induct(P, "result i is the event of pair i" + tag, lambda k: se(k, i), facts=lambda k: [sl(k)])
    m = vlen(N)
    S_, D = F_.rel.src, F_.rel.dst
    full = o(m)
    pos = lambda i: at(src(m), S_(full, i))
    know = lambda i: [se(vlen(so), i), from_(m, S_(full, i))]
    lem = [sl(vlen(so)), lens(m), m >= 0]
    member = And(sel(held, x), query(x) == query(ev), doc(location(x)) == doc(loc), ia(x) > 0)
    out.append((P, "every result is held, of the same query and document, and overlaps" + tag,
                lem + know(i) + [i >= 0, i < n, x == at(r, i)], member))
    jx = enum_pos(SUB(held, query(ev), doc(loc)), x)
    dx = D(full, vlen(o(jx)))
    out.append((P, "every such event is a result" + tag,
                lem + know(dx) + [has(m, jx), member], And(dx >= 0, dx < n, at(r, dx) == x)))
    out.append((P, "no event is returned twice" + tag,
                lem + know(i) + know(j) + [inc(m, S_(full, i), S_(full, j)), inc(m, S_(full, j), S_(full, i)),
                                           i >= 0, i < n, j >= 0, j < n, i != j],
                at(r, i) != at(r, j)))
    out.append((P, "results are in decreasing order of intersection, ties greater first" + tag,
                lem + know(i) + know(j) + [i >= 0, i < j, j < n],
                And(ia(at(r, i)) >= ia(at(r, j)), Implies(
                    Eq(ia(at(r, i)), ia(at(r, j))), Not(lt(F_.ety, at(r, i), at(r, j)))))))
    return out


def set_theorems(m, tag):
    """the elements of a vector as a set"""
    out = []
    refs = z3.Const("refs", m.rv)
    x = z3.Const("x", m.rs)
    i = z3.Int("i")
    ins = lambda k: INS(m.rv, m.rs)(refs, k)
    W = fold("INSERTEDAT", [m.rv, m.rs], IntS, lambda a, k, p: z3.If(Eq(at(a[0], k), a[1]), k, p))
    w = lambda k: W(refs, x, z3.IntVal(-1), k)
    fw = lambda k: Implies(sel(ins(k), x), And(w(k) >= 0, w(k) < k, at(refs, w(k)) == x))
    bw = lambda k: Implies(And(i >= 0, i < k), sel(ins(k), at(refs, i)))
    for P in ("C04", "C05"):
        out += induct(P, "only elements of the range are held" + tag, fw)
        out += induct(P, "every element of the range is held" + tag, bw)
    n = vlen(refs)
    out.append(("C05", "the index holds exactly the references to be matched" + tag,
                [fw(n), z3.substitute(bw(n), (i, set_idx(refs, x))), n >= 0],
                sel(ins(n), x) == sel(set_of(refs), x)))
    return out


class Setup:
    """constants shared by the theorems on matching"""

    def __init__(self, m):
        self.m = m
        self.refs = z3.Const("refs", m.rv)
        self.hyps = z3.Const("hyps", m.hv)
        self.sc = z3.Const("sc", m.scs)
        self.start = z3.Const("start", m.set)
        self.held = z3.Const("held", m.set)
        self.a = (self.start, self.held, self.hyps, self.sc)
        self.ref = lambda t: m.minf.get(t, "ref_")
        self.hyp = lambda t: m.minf.get(t, "hyp_")
        self.err = lambda t: m.minf.get(t, "error_")
        self.ro, self.ho = opts_of(m.minf)
        self.free = lambda k: m.free(*self.a, k)
        self.res = lambda k: m.res(*self.a, k)
        self.src = lambda k: m.src(*self.a, k)

    def step(self, k):
        """hypothesis, candidates, free references, chosen candidate of step k"""
        h, c, u, w, sc = self.m._step(self.a, k)
        return h, c, u, w


def match_theorems(m, tag):
    """C05: conservation"""
    P = "C05"
    out = []
    z = Setup(m)
    x = z3.Const("x", m.rs)
    i, j = z3.Ints("i j")
    start, hyps, sc = z.start, z.hyps, z.sc
    free, res, src = z.free, z.res, z.src
    cn = lambda k: [vlen(z.step(k)[1]) >= 0]
    sub = lambda k, x: Implies(sel(free(k), x), sel(start, x))
    out += induct(P, "free references are given ones" + tag, lambda k: sub(k, x))
    lens = lambda k: And(vlen(res(k)) == vlen(src(k)), vlen(res(k)) >= 0, vlen(res(k)) <= k)
    out += induct(P, "at most one record per hypothesis" + tag, lens)
    frm = lambda k, i: Implies(And(i >= 0, i < vlen(res(k))), And(
        at(src(k), i) >= 0, at(src(k), i) < k,
        z.hyp(at(res(k), i)) == z.ho.some(at(hyps, at(src(k), i)))))
    out += induct(P, "every record is that of a hypothesis" + tag, lambda k: frm(k, i),
                  facts=lambda k: [lens(k)])
    out += induct(P, "records are in the order of the hypotheses, none twice" + tag,
                  lambda k: increasing(src(k), vlen(res(k)), i, j), facts=lambda k: [lens(k), frm(k, i)])
    r = at
    val = lambda o: z.ro.val(o)

    def errs(k):
        t = at(res(k), i)
        fp, fn = err_parts(z.err(t))
        return Implies(And(i >= 0, i < vlen(res(k))), z3.If(
            z.ro.has(z.ref(t)), And(z.err(t) == m.err(sc, val(z.ref(t)), z.ho.val(z.hyp(t))), fp < 1),
            And(fp == 1, fn == 0)))
    out += induct(P, "a pair carries the error its scorer reported, below 1; a lone hypothesis (1, 0)" + tag,
                  errs, facts=lambda k: [lens(k)] + cn(k))
    # the record of a reference
    AT = fold("RECORDOF", [m.set, m.set, m.hv, m.scs, m.rs], IntS, lambda a, k, p: z3.If(
        And(_w(m, a, k)[1] < vlen(_w(m, a, k)[0]), Eq(vget(*_w(m, a, k)), a[4])),
        vlen(m.res(*(a[:4] + [k]))), p))
    rec = lambda k, x: AT(start, z.held, hyps, sc, x, z3.IntVal(-1), k)
    one = lambda k, x: Implies(sel(start, x), And(
        rec(k, x) >= -1, rec(k, x) < vlen(res(k)), sel(free(k), x) == (rec(k, x) == -1), Implies(
            rec(k, x) >= 0, z.ref(at(res(k), rec(k, x))) == z.ro.some(x))))
    out += induct(P, "a given reference is free or has a record" + tag, lambda k: one(k, x),
                  facts=lambda k: [lens(k)] + cn(k))
    uni = lambda k, i, x: Implies(And(i >= 0, i < vlen(res(k)), z.ref(at(res(k), i)) == z.ro.some(x)),
                                  And(sel(start, x), rec(k, x) == i))
    out += induct(P, "no reference has two records, and all are given ones" + tag, lambda k: uni(k, i, x),
                  facts=lambda k: [lens(k), one(k, x), sub(k, x)] + cn(k) + [
                      sub(k, at(z.step(k)[1], z.step(k)[3]))])
    # missed references
    left = z3.Const("left", m.rv)
    pre = z3.Const("pre", m.out)
    fns = lambda k: m.FNS(left, pre, k)
    fl = lambda k: vlen(fns(k)) == vlen(pre) + k
    more = [vlen(pre) >= 0]
    out += induct(P, "one record per missed reference" + tag, fl, more=more)
    fk = lambda k, i: Implies(And(i >= 0, i < vlen(pre)), at(fns(k), i) == at(pre, i))
    out += induct(P, "missed references come after the other records" + tag, lambda k: fk(k, i),
                  facts=lambda k: [fl(k)], more=more)
    fm = lambda k, i: Implies(And(i >= 0, i < k), at(fns(k), vlen(pre) + i) == m.fn(at(left, i)))
    out += induct(P, "missed references follow in their order" + tag, lambda k: fm(k, i),
                  facts=lambda k: [fl(k)], more=more)
    # the whole result
    refs = z.refs
    full = m.result(refs, hyps, sc)
    aa = m.args(refs, hyps, sc)
    n = vlen(hyps)
    L = s_enum(m.free(*aa, n))
    sb = [(start, aa[0]), (z.held, aa[1])]
    sf = [(left, L), (pre, m.res(*aa, n))]
    inst = lambda *fs: [z3.substitute(z3.substitute(f, *sb), *sf) for f in fs]
    R = vlen(m.res(*aa, n))
    recx = z3.substitute(rec(n, x), *sb)
    pos = z3.If(recx >= 0, recx, R + enum_pos(m.free(*aa, n), x))
    nn = vlen(L)
    base = [n >= 0] + inst(lens(n), fl(nn), one(n, x), uni(n, i, x), sub(n, x),
                           fm(nn, i), fm(nn, i - R), fk(nn, i), fk(nn, recx), fm(nn, enum_pos(m.free(*aa, n), x)))
    given = sel(set_of(refs), x)
    out.append((P, "every given reference occurs in a record" + tag, base + [given], And(
        pos >= 0, pos < vlen(full), z.ref(at(full, pos)) == z.ro.some(x))))
    out.append((P, "a record with a reference is the one of that given reference" + tag, base + [
        i >= 0, i < vlen(full), z.ref(at(full, i)) == z.ro.some(x), sub(n, at(L, i - R)) if False else T(True)],
        And(given, i == pos)))
    ordered = lambda i, j: Implies(And(i >= 0, i < j, j < nn), lt(m.rty, at(L, i), at(L, j)))
    out.append((P, "records: one per hypothesis served, then the missed references increasing" + tag, base + [
        ordered(i - R - 1, i - R),      # std::set iterates in increasing order of operator<
        i >= R, i < vlen(full)], And(at(full, i) == m.fn(at(L, i - R)), z.ho.has(z.hyp(at(full, i))) == T(False),
                                     Implies(i > R, lt(m.rty, at(L, i - R - 1), at(L, i - R))))))
    out.append((P, "records of hypotheses never outnumber the hypotheses" + tag, base + [
        i >= 0, i < vlen(full), i >= n], Not(z.ho.has(z.hyp(at(full, i))))))
    nhs = nh(z.err(m.fn(x)))
    out.append((P, "a missed reference counts no hypothesis and one miss" + tag, [], And(
        nhs == 0, err_parts(z.err(m.fn(x)))[0] == 0, err_parts(z.err(m.fn(x)))[1] == 1)))
    return out


def _w(m, a, k):
    h, c, u, w, sc = m._step(a[:4], k)
    return c, w


def greedy_theorems(m, tag):
    """C06: what a step of the matching does"""
    P = "C06"
    out = []
    z = Setup(m)
    k, i, j = z3.Ints("k i j")
    c = z3.Const("c", m.rv)
    h = z3.Const("h", m.hs)
    u = z3.Const("u", m.set)
    init = z3.Const("init", m.out)
    sc = z.sc
    ok = [vlen(c) >= 0]
    w = m.FIRSTF(c, u, h, sc)
    out.append((P, "the candidate chosen is free and accepted, and none before it is" + tag, ok, And(
        w >= 0, w <= vlen(c), Implies(w < vlen(c), And(m.acc(c, h, sc, w), sel(u, at(c, w)))),
        Implies(And(j >= 0, j < w), Not(And(m.acc(c, h, sc, j), sel(u, at(c, j))))))))
    acn = lambda q: m.ACCN(c, h, sc, T(False), q)
    AW = fold("ACCEPTEDAT", [m.rv, m.hs, m.scs], IntS, lambda a, q, p: z3.If(m.acc(a[0], a[1], a[2], q), q, p))
    aw = lambda q: AW(c, h, sc, z3.IntVal(-1), q)
    out += induct(P, "some candidate is accepted" + tag, lambda q: Implies(acn(q), And(
        aw(q) >= 0, aw(q) < q, m.acc(c, h, sc, aw(q)))))
    acc = lambda q, j: Implies(And(j >= 0, j < q, m.acc(c, h, sc, j)), acn(q))
    out += induct(P, "an accepted candidate counts" + tag, lambda q: acc(q, j))
    # taken candidates
    rep = lambda q: m.REPF(c, h, sc, init, q)
    TS = fold("TAKENSRC", [m.rv, m.hs, m.scs], VecI(IntS).sort, lambda a, q, p: z3.If(
        m.acc(a[0], a[1], a[2], q), vpush(p, q), p))
    ts = lambda q: TS(c, h, sc, VecI(IntS).empty, q)
    more = [vlen(init) >= 0]
    tl = lambda q: And(vlen(rep(q)) == vlen(init) + vlen(ts(q)), vlen(ts(q)) >= 0)
    out += induct(P, "repeated matches are added behind the earlier ones" + tag, tl, more=more)
    tk = lambda q: Implies(And(i >= 0, i < vlen(init)), at(rep(q), i) == at(init, i))
    out += induct(P, "earlier repeated matches stay" + tag, tk, facts=lambda q: [tl(q)], more=more)
    te = lambda q, i: Implies(And(i >= 0, i < vlen(ts(q))), And(
        at(ts(q), i) >= 0, at(ts(q), i) < q, m.acc(c, h, sc, at(ts(q), i)),
        at(rep(q), vlen(init) + i) == m.pair(c, h, sc, at(ts(q), i))))
    out += induct(P, "every repeated match is an accepted candidate" + tag, lambda q: te(q, i),
                  facts=lambda q: [tl(q)], more=more)
    out += induct(P, "repeated matches are in order, none twice" + tag,
                  lambda q: increasing(ts(q), vlen(ts(q)), i, j), facts=lambda q: [tl(q), te(q, i)], more=more)
    ta = lambda q, j: Implies(And(j >= 0, j < q, m.acc(c, h, sc, j)), And(
        vlen(ts(j)) < vlen(ts(q)), vlen(ts(j)) >= 0, at(ts(q), vlen(ts(j))) == j))
    out += induct(P, "every accepted candidate that is examined counts" + tag, lambda q: ta(q, j),
                  facts=lambda q: [tl(q), Implies(j >= 0, tl(j))], more=more)
    out.append((P, "repeated candidates are taken ones" + tag, ok + more + [te(w, i), tl(w), i >= 0, i < vlen(ts(w))],
                Not(sel(u, at(c, at(ts(w), i))))))
    # one step
    hh, cc, uu, ww = z.step(k)
    sc0 = [k >= 0, vlen(cc) >= 0, vlen(z.res(k)) >= 0]
    has = lambda v, q: ww < vlen(cc)
    out.append((P, "a hypothesis takes the first free accepted candidate, which is free no more" + tag, sc0 + [
        ww < vlen(cc)], And(z.res(k + 1) == vpush(z.res(k), m.pair(cc, hh, sc, ww)),
                            z.free(k + 1) == z3.Store(uu, at(cc, ww), T(False)))))
    none = forall_in(vlen(cc), lambda q: Not(m.acc(cc, hh, sc, q)), pats=lambda q: [at(cc, q)])
    accc = lambda q: m.ACCN(cc, hh, sc, T(False), q)
    sba = [(c, cc), (h, hh), (u, uu)]
    lem = [z3.substitute(Implies(acn(vlen(c)), And(aw(vlen(c)) >= 0, aw(vlen(c)) < vlen(c), m.acc(
        c, h, sc, aw(vlen(c))))), *sba)]
    out.append((P, "a hypothesis without accepted candidate is a false positive" + tag, sc0 + lem + [none], And(
        z.res(k + 1) == vpush(z.res(k), m.fp(hh)), z.free(k + 1) == uu)))
    out.append((P, "a hypothesis whose accepted candidates are all taken leaves no record" + tag, sc0 + [
        ww == vlen(cc), j >= 0, j < vlen(cc), m.acc(cc, hh, sc, j),
        z3.substitute(acc(vlen(c), j), *sba)], And(z.res(k + 1) == z.res(k), z.free(k + 1) == uu)))
    return out
