"""C17: event files.  RUN describes the reading of the rest of a text line by line;
reading must have the outcome of RUN from the first line with an empty result."""
from .common import *
from .folds import *
from ..contract import Spec, same
from ..streams import *
from ..prover import UNFOLD
from . import stream as text

P = "C17"
RD = "kws::reader::PlainTextMapEventReader"
NL = z3.IntVal(10)


def line_of(s):
    """(something is left, text of the next line, stream after it)"""
    s1 = IS_LINE(s, NL)
    return Not(IS.get(s1, "fail")), IS_LINEV(s, NL, lit("")), s1


class Reading:
    """reading of a text as events of type e1 that are mapped to sort e2"""
    all = {}

    def __init__(self, S, e1, es, ms, ident):
        self.S, self.e1, self.ident = S, e1, ident
        self.xs = S.sort(e1)
        self.vec = VecI(es)
        self.es, self.ms = es, ms
        self.key = "%s,%s,%s" % (skey(self.xs), skey(es), skey(ms))
        self.out = Info("Reading<%s>" % self.key, [("ok", BoolS), ("bad", BoolS), ("line", IntS),
                                                   ("ev", self.vec.sort), ("m", ms)])
        self.run = z3.Function("RUN!" + self.key, IS.sort, IntS, self.vec.sort, ms, self.out.sort)
        self.well = z3.Function("WELLFORMED!" + self.key, Str, BoolS)
        self.value = z3.Function("EVENTOF!" + self.key, Str, self.xs)
        self.old = z3.Const("any!" + self.key, self.xs)
        UNFOLD[self.run.name()] = self.run_facts
        UNFOLD[self.well.name()] = self.well_facts
        UNFOLD[self.value.name()] = self.value_facts

    def mapped(self, m, x):
        """(mapper, value) after mapping x"""
        if self.ident:
            return m, x
        return (pure_fn("MAP next", [self.ms, self.xs], self.ms)(m, x),
                pure_fn("MAP", [self.ms, self.xs], self.es)(m, x))

    def parse(self, l):
        return text.rd(self.S, self.e1, IS.mk(l, WSE(l, I0), T(False), T(False), T(True), T(False)),
                       self.old)

    def well_facts(self, l):
        s, x = self.parse(l)
        return [self.well(l) == And(Not(IS.get(s, "fail")), WSE(l, IS.get(s, "pos")) == s_len(l))]

    def value_facts(self, l):
        s, x = self.parse(l)
        return [Implies(Not(IS.get(s, "fail")), self.value(l) == x)]

    def skipped(self, l):
        """blank or comment"""
        w = WSE(l, I0)
        return Or(w == s_len(l), s_at(l, w) == 35)

    def run_facts(self, s, n, ev, m):
        more, l, s1 = line_of(s)
        x = self.value(l)
        m1, y = self.mapped(m, x)
        r = self.run(s, n, ev, m)
        return [r == ite(Not(more), self.out.mk(IS.get(s1, "eof"), T(False), I0, ev, m),
                         ite(self.skipped(l), self.run(s1, n + 1, ev, m),
                             ite(self.well(l), self.run(s1, n + 1, vpush(ev, y), m1),
                                 self.out.mk(T(False), T(True), n, ev, m))))]

    def start(self, s, m):
        return self.run(s, z3.IntVal(1), self.vec.empty, m)


def reading(S, e1, es, ms, ident):
    k = (e1.noref().key, skey(es), skey(ms))
    if k not in Reading.all:
        Reading.all[k] = Reading(S, e1.noref(), es, ms, ident)
    return Reading.all[k]


class RunHint:
    """what is still to be done from here is what was to be done from the start"""

    def __init__(self, r):
        self.r = r

    def streams(self, E, st, leaves):
        locs = []
        for n, t, key in leaves:
            try:
                v = E.locval(st, key[0])
            except Unsupported:
                continue
            if z3.is_expr(v) and v.sort() == IS.sort and key[0] not in locs:
                locs.append(key[0])
        return locs

    def instances(self, E, entry, leaves, prog, src):
        r = self.r
        locs = self.streams(E, entry, leaves)
        evs = [k for n, t, k in leaves if skey(t.sort()) == skey(r.vec.sort)]
        ms = [(lambda E, s, k=k: E.leaf_of(s, k)) for n, t, k in leaves if skey(t.sort()) == skey(r.ms)]
        if not ms:
            ms = [(lambda E, s, t=t: t) for t in src.get(skey(r.ms), [])[:2]]
        ints = [(n, k) for n, t, k in leaves if t.sort() == IntS and k[0] not in locs]
        for loc in locs:
            for e in evs:
                for b, mf in enumerate(ms):
                    for n, k in ints:
                        for off in (0, 1):
                            def term(E, s, loc=loc, e=e, mf=mf, k=k, off=off):
                                return r.run(E.locval(s, loc), E.leaf_of(s, k) + off, E.leaf_of(s, e),
                                             mf(E, s))

                            def pred(E, s, term=term):
                                return term(E, s) == term(E, entry)
                            yield "outcome from here (%s%+d, %d) is the outcome from the start" % (
                                n, off, b), pred

    def measure(self, E, head, nxt, mods):
        for loc in self.streams(E, head, [(None, None, (l, ())) for l in mods]):
            a, b = E.locval(head, loc), E.locval(nxt, loc)
            yield (s_len(IS.get(a, "text")) - IS.get(a, "pos"),
                   s_len(IS.get(b, "text")) - IS.get(b, "pos"))


def mapper_ty(tu, f):
    return tu.ty(f["cls"]).noref().targs()[0].noref()


def specs(tu, S):
    out = []

    def kind(tu, f):
        n = mapper_ty(tu, f).name
        return "ident" if n == "kws::mapper::IdentityMapper" else \
            "any" if n == "kws::mapper::Mapper" else None

    def is_stream(tu, f):
        return "stream" in (tu.ty(f["params"][0]["t"]).noref().to.name or "") \
            if tu.ty(f["params"][0]["t"]).k == "ptr" else False

    def of(v):
        m = v['mapper'].sort()
        es = VecI_elem(v['events'])
        mt = mapper_ty(v.tu, v.f)
        return reading(v.S, mt.targs()[0], es, m, kind(v.tu, v.f) == "ident")

    def VecI_elem(t):
        return info(t.sort())[1].elem

    def of_fn(f):
        ts = [tu.ty(p["t"]).noref() for p in f["params"]]
        mt = mapper_ty(tu, f)
        return reading(S, mt.targs()[0], info(S.sort(ts[1].to))[1].elem, S.sort(mt), kind(tu, f) == "ident")

    def outcome(v, o, r, opened=T(True)):
        ev = r.out.get(o, "ev")
        return [("success exactly when every event line is well-formed", v.res == And(opened, r.out.get(o, "ok"))),
                ("one mapped event per event line, in order", Implies(v.res, same(v.new['events'], ev))),
                ("the events are mapped in order and no others are",
                 Implies(v.res, v.new['mapper'] == r.out.get(o, "m"))),
                ("the number of the first malformed line is reported", Implies(
                    And(opened, r.out.get(o, "bad")),
                    z3.Select(OS.get(v.new['cerr'], "ints"), r.out.get(o, "line"))))]

    def post(v):
        r = of(v)
        return outcome(v, r.start(v['is'], v['mapper']), r)
    out.append(Spec(RD + "::Read", ["is", "events"], P, mod=["is", "events", "mapper", "cerr"],
                    when=lambda tu, f: kind(tu, f) and is_stream(tu, f), reach={"mapper": ["mapper_"]},
                    ghosts=("cerr",), post=post, opts={"lean": True}, hints=lambda reg, f: [RunHint(of_fn(f))],
                    doc="reading a stream has the outcome of RUN"))

    def fpost(v):
        r = of(v)
        f = v['filepath']
        c = CAN_READ(f)
        s = IS.mk(CONTENT(f), I0, T(False), T(False), T(True), T(False))
        return outcome(v, r.start(s, v['mapper']), r, c) + [
            ("no event is taken from a file that cannot be opened",
             Implies(Not(c), v.new['mapper'] == v['mapper']))]
    out.append(Spec(RD + "::Read", ["filepath", "events"], P, mod=["events", "mapper", "cerr"],
                    when=lambda tu, f: kind(tu, f) and not is_stream(tu, f), reach={"mapper": ["mapper_"]},
                    ghosts=("cerr",), post=fpost, doc="reading a file has the outcome of RUN on its text"))

    def mpure(v):
        ts = v.ty('this').noref().targs()
        m, x = v['this'], v['input']
        return {"this": pure_fn("MAP next", [m.sort(), x.sort()], m.sort())(m, x),
                "result": pure_fn("MAP", [m.sort(), x.sort()], S.sort(ts[1].noref()))(m, x)}
    out.append(Spec("kws::mapper::Mapper::operator()", ["input"], P, virt=True, pure=mpure,
                    doc="a mapper is deterministic: result and new state depend on state and input"))
    return out


def theorems(tu, S):
    out = []
    for f in tu.find(RD + "::Read"):
        if mapper_ty(tu, f).name in (
                "kws::mapper::IdentityMapper", "kws::mapper::Mapper"):
            mt = mapper_ty(tu, f)
            reading(S, mt.targs()[0], S.sort(mt.targs()[-1]), S.sort(mt),
                    mt.name == "kws::mapper::IdentityMapper")
    for k, r in sorted(Reading.all.items()):
        nm = "%s to %s" % (r.xs.name(), r.es.name())
        s, n = z3.Const("s", IS.sort), z3.Int("n")
        i = z3.Int("i")
        ev, m = z3.Const("ev", r.vec.sort), z3.Const("m", r.ms)
        l = z3.Const("l", Str)
        allw = z3.Function("ALLWELL!" + r.key, IS.sort, BoolS)
        cnt = z3.Function("EVENTLINES!" + r.key, IS.sort, IntS)
        lines = z3.Function("REMAINING LINES!" + r.key, IS.sort, IntS)

        def walk(f, end, skip, take):
            def facts(s):
                more, l, s1 = line_of(s)
                return [f(s) == ite(Not(more), end(s1), ite(r.skipped(l), skip(f(s1)), take(l, f(s1))))]
            UNFOLD[f.name()] = facts
        # every event line of the rest is well-formed and the text was read to its end
        walk(allw, lambda s1: IS.get(s1, "eof"), lambda v: v, lambda l, v: And(r.well(l), v))
        walk(cnt, lambda s1: I0, lambda v: v, lambda l, v: v + 1)
        walk(lines, lambda s1: I0, lambda v: v + 1, lambda l, v: v + 1)
        g = r.out.get
        more, l1, s1 = line_of(s)
        x = r.value(l1)
        m1, y = r.mapped(m, x)

        def opaque(e, memo={}):
            """spec functions as plain symbols; their definitions are given explicitly"""
            if not z3.is_app(e):
                return e
            if e.get_id() not in memo:
                a = [opaque(c) for c in e.children()]
                d = e.decl()
                if d.name() in UNFOLD:
                    d = z3.Function("'" + d.name(), *([d.domain(i) for i in range(d.arity())] + [d.range()]))
                memo[e.get_id()] = (d(*a), e)
            return memo[e.get_id()][0]

        def ind(label, Q, more_facts=()):
            """Q for the rest after the first line (both as skipped and as taken line) gives Q"""
            out.append((P, "%s (%s)" % (label, nm), [opaque(h) for h in list(more_facts) + sum(
                [UNFOLD[f.name()](s) for f in (allw, cnt, lines)], r.run_facts(s, n, ev, m)) + [
                Implies(more, And(Q(s1, n + 1, ev, m),
                                  Q(s1, n + 1, vpush(ev, y), m1)))]],
                opaque(Q(s, n, ev, m))))

        out.append((P, "every line read shortens the rest, so RUN is well-founded (%s)" % nm,
                    [more, IS.get(s, "pos") >= 0, IS.get(s, "pos") <= s_len(IS.get(s, "text"))],
                    And(IS.get(s1, "pos") > IS.get(s, "pos"), IS.get(s1, "text") == IS.get(s, "text"),
                        IS.get(s1, "pos") <= s_len(IS.get(s, "text")))))
        ind("success exactly when every event line is well-formed, whatever was held before",
            lambda s, n, ev, m: g(r.run(s, n, ev, m), "ok") == allw(s))
        ind("as many events as event lines on success",
            lambda s, n, ev, m: Implies(g(r.run(s, n, ev, m), "ok"),
                                                 vlen(g(r.run(s, n, ev, m), "ev")) == vlen(ev) + cnt(s)))
        ind("events read before are kept in front", lambda s, n, ev, m: And(
            vlen(g(r.run(s, n, ev, m), "ev")) >= vlen(ev),
            Implies(And(i >= 0, i < vlen(ev)), z3.Select(vdata(g(r.run(s, n, ev, m), "ev")), i) ==
                    z3.Select(vdata(ev), i))), [vlen(ev) >= 0])
        ind("a malformed line reported is a line of the text and excludes success",
            lambda s, n, ev, m: Implies(
                g(r.run(s, n, ev, m), "bad"), And(
                    Not(g(r.run(s, n, ev, m), "ok")), g(r.run(s, n, ev, m), "line") >= n,
                    g(r.run(s, n, ev, m), "line") < n + lines(s))),
            [lines(s1) >= 0])
        ind("lines are counted from nothing", lambda s, n, ev, m: And(lines(s) >= 0, cnt(s) >= 0))
        w = WSE(l, I0)
        out.append((P, "a blank line and a comment line are skipped (%s)" % nm, [
            Or(s_len(l) == 0, And(s_len(l) > 0, s_at(l, I0) == 35))], r.skipped(l)))
    return out
