"""C22: the evaluation tools: filtering, reported scores, exports."""
from .common import *
from .folds import *
from .assess import lists, fld
from .boot import interval, stat_of, stat_sort, samplers, SAMPLEF
from .boot import rng_seed, STAT
from .curve import GRID, SAMPLES, LINES, export_fails, TV, sel
from ..contract import Spec, same
from ..streams import *
from .. import prover

P = "C22"
T_ = "kws::tools::"
G = T_ + "GenericKwsEvalTool::"
VR = VecI(RealS).sort
R0 = z3.RealVal(0)


def ent(name):
    return lambda E: E.entry_terms.get(name)


# ------------------------------------------------------------------ filtering
def in_set(c, q):
    return select(info(c.sort())[1].get(c, 0), q)


def kept(c, v):
    """events of v whose query is in c, in order"""
    return fold("KEPT", [c.sort(), v.sort()], v.sort(), lambda a, k, p: ite(
        in_set(a[0], query(vget(a[1], k))), vpush(p, vget(a[1], k)), p))


# ------------------------------------------------------------------ statistics
def gsort(v, n="groups"):
    return v[n].sort()


def stat_value(v, L, gs, x, sort, grouped):
    """value of a statistic object (by its class) on a list or on groups"""
    t, ty = v.root('statistic')
    n = ty.name.split("::")[-1]
    o = [fld(t, "collapse_matches_")]
    if n.endswith("AP"):
        o += [fld(t, "interpolate_precision_"), fld(t, "trapezoid_integral_")]
    if n.startswith("Global"):
        m = L.msorted(L.flat(x, vlen(x)), sort) if grouped else x
        return getattr(L, n[6:])(m, *o)
    if n.startswith("Mean") and grouped:
        s = getattr(L, "sum" + n[4:])(*([x] + o + [sort, vlen(x)]))
        return z3.If(vlen(x) > 0, s / z3.ToReal(vlen(x)), R0)
    raise Unsupported("statistic of class " + n)


def stat_fn(v, L, gs):
    """the statistic of resampled groups, as a total function"""
    t, ty = v.root('statistic')
    s = pure_fn("RESAMPLED " + ty.name.split("::")[-1], [t.sort()], stat_sort(gs))(t)
    x = z3.Const("x!st", gs)
    return s, [z3.ForAll([x], z3.Select(s, x) == stat_value(v, L, gs, x, T(True), True),
                         patterns=[z3.Select(s, x)])]


def line(v, kind, vals):
    """tokens of one reported line"""
    o = v['cout']
    num = lambda x: treal(OS.get(o, "fmt"), OS.get(o, "prec"), x)
    ch = lambda s: [tchr(z3.IntVal(ord(c))) for c in s]
    ts = ch(kind) + [tstr(v['name'])] + ch(" = ") + [num(vals[0])]
    if len(vals) > 1:
        ts += ch(" [") + [num(vals[1])] + ch(", ") + [num(vals[2])] + ch("]")
    return OS.set(o, "out", push_toks(OS.get(o, "out"), ts + ch("\n")))


# ------------------------------------------------------------------ exports
def row(L, m, n, c, i, t):
    """precisions of one list at the n grid points"""
    pr, rc = L.curve(m, c, i)
    return SAMPLES(rc, pr, GRID(n), t)


class Mean:
    """mean over groups of the resampled curves"""
    all = {}

    def __init__(self, L, gs):
        self.L, self.gs = L, gs
        self.SUM = fold("ROWSUM", [gs, IntS, BoolS, BoolS, BoolS, IntS], RealS, lambda a, k, p: p + vget(
            row(L, vget(a[0], k), *a[1:5]), a[5]))
        self.fn = pure_fn("MEANROW", [gs, IntS, BoolS, BoolS, BoolS], VR, lambda r, *a: [
            g for _, g in self.defn(r, *a)])

    def at(self, x, k, *a):
        """x is the mean at grid point k"""
        n = vlen(a[0])
        return x == z3.If(n > 0, self.SUM(*(list(a) + [k, n])) / z3.ToReal(n), R0)

    def defn(self, r, *a):
        return [("one value per point", vlen(r) == vlen(GRID(a[1]))),
                ("mean at every point", forall_in(vlen(r), lambda k: self.at(sel(r, k), k, *a),
                                                  pats=lambda k: [sel(r, k)]))]


def mean_of(tu, S, gs):
    if gs.name() not in Mean.all:
        Mean.all[gs.name()] = Mean(lists(tu, S, info(gs)[1].elem), gs)
    return Mean.all[gs.name()]


def lines_agree(x, y, n):
    """every list that agrees with y up to n gives the same lines"""
    z, i = z3.Const("z!la", VR), z3.Const("i!la", IntS)
    return z3.ForAll([z], Implies(z3.ForAll([i], Implies(And(i >= 0, i < n), sel(z, i) == sel(y, i)),
                                            patterns=pats(sel(z, i))), LINES(x, z, n) == LINES(x, y, n)),
                     patterns=[LINES(x, z, n)])


class RowsHint:
    """row 0 is the mean under construction, row q+1 the resampled curve of group q"""

    def __init__(self, M):
        self.M = M

    def instances(self, E, entry, leaves, prog, src):
        a = [E.entry_terms.get(n) for n in ("groups", "n", "collapse", "interp", "lin")]
        L, vs = self.M.L, VecI(VR).sort
        for nm, t0, key in leaves:
            if skey(t0.sort()) == skey(vs):
                def rows(E, s, key=key):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 1, i < vlen(v)), sel(v, i) == row(
                        L, vget(a[0], i - 1), *a[1:])), patterns=pats(sel(v, i)))

                def count(E, s, key=key):
                    return vlen(E.leaf_of(s, key)) >= 1

                def same_len(E, s, key=key, t0=t0):
                    return vlen(E.leaf_of(s, key)) == vlen(t0)

                def row_len(E, s, key=key):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 1, i < vlen(v)), vlen(sel(v, i)) == vlen(
                        GRID(a[1]))), patterns=pats(sel(v, i)))
                yield "rows of %s are the resampled groups" % nm, rows
                yield "rows of %s are as long as the grid" % nm, row_len
                yield "%s has a first row" % nm, count
                yield "%s keeps its size" % nm, same_len

                def first(E, s, key=key, t0=t0):
                    return sel(E.leaf_of(s, key), I0) == sel(t0, I0)
                yield "first row of %s is kept" % nm, first

                def mean(E, s, key=key):
                    v = sel(E.leaf_of(s, key), I0)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), self.M.at(sel(v, i), i, *a)),
                                     patterns=pats(sel(v, i)))
                yield "first row of %s holds means" % nm, mean
                for pn, pf in prog:
                    if pn.startswith("entry-"):
                        continue
                    yield "first row of %s has %s values" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        vlen(sel(E.leaf_of(s, key), I0)) == pf(E, s)
                    yield "%s has 1 + %s rows" % (nm, pn), lambda E, s, key=key, pf=pf: \
                        vlen(E.leaf_of(s, key)) == 1 + pf(E, s)
                # rows without a leading mean row
                def rows0(E, s, key=key):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), sel(v, i) == row(
                        L, vget(a[0], i), *a[1:])), patterns=pats(sel(v, i)))
                yield "%s are the resampled groups" % nm, rows0

                def row_len0(E, s, key=key):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), vlen(sel(v, i)) == vlen(
                        GRID(a[1]))), patterns=pats(sel(v, i)))
                yield "all of %s are as long as the grid" % nm, row_len0
            if t0.sort() == VR:
                ints = [k for k in src.get("Int", [])[:8] if not z3.is_int_value(k) and
                        not any(k.eq(x) for x in a)]

                def all_(E, s, key, f):
                    v = E.leaf_of(s, key)
                    i = z3.Const("i!rw", IntS)
                    return z3.ForAll([i], Implies(And(i >= 0, i < vlen(v)), f(v, i)), patterns=pats(sel(v, i)))
                yield "%s holds means" % nm, lambda E, s, key=key: all_(
                    E, s, key, lambda v, i: self.M.at(sel(v, i), i, *a))
                # accumulated in place: sums up to a group, and one pass over the points
                for pn, pf in prog:
                    if pn.startswith("entry-"):
                        continue
                    yield "%s holds sums (%s)" % (nm, pn), lambda E, s, key=key, pf=pf: all_(
                        E, s, key, lambda v, i: sel(v, i) == self.M.SUM(*(a + [i, pf(E, s)])))
                    yield "%s is zero at %s = 0" % (nm, pn), lambda E, s, key=key, pf=pf: Implies(
                        pf(E, s) == 0, all_(E, s, key, lambda v, i: sel(v, i) == 0))
                    for n, k in enumerate(ints):
                        yield "%s has one more group below %s (#%d)" % (nm, pn, n), \
                            lambda E, s, key=key, pf=pf, t0=t0, k=k: all_(E, s, key, lambda v, i: sel(v, i) == ite(
                                i < pf(E, s), sel(t0, i) + sel(row(L, vget(a[0], k), *a[1:]), i), sel(t0, i)))
                    yield "%s is divided below %s" % (nm, pn), lambda E, s, key=key, pf=pf, t0=t0: all_(
                        E, s, key, lambda v, i: sel(v, i) == ite(
                            i < pf(E, s), sel(t0, i) / z3.ToReal(vlen(a[0])), sel(t0, i)))
                    yield "%s holds means below %s" % (nm, pn), lambda E, s, key=key, pf=pf, t0=t0: all_(
                        E, s, key, lambda v, i: Implies(i < pf(E, s), self.M.at(sel(v, i), i, *a)))
            if t0.sort() == RealS:
                ints = [k for k in src.get("Int", [])[:8] if not z3.is_int_value(k) and
                        not any(k.eq(x) for x in a)]
                for n, k in enumerate(ints):
                    for pn, pf in prog:
                        if pn.startswith("entry-"):
                            continue
                        yield "%s is the sum (%s) at #%d" % (nm, pn, n), lambda E, s, key=key, pf=pf, k=k: \
                            E.leaf_of(s, key) == self.M.SUM(*(a + [k, pf(E, s)]))


def specs(tu, S):
    out = []
    out.append(Spec(T_ + "filter_events", ["queryset", "events"], P, mod=["events"],
                    val=lambda v: {"events": kept(v['queryset'], v['events'])(
                        v['queryset'], v['events'], vi_empty(v['events'].sort()), vlen(v['events']))},
                    hints=lambda reg, f: [FoldHint(kept(*[
                        z3.Const("any!" + s.name(), s) for s in (
                            S.sort(tu.ty(f["params"][0]["t"]).noref()),
                            S.sort(tu.ty(f["params"][1]["t"]).noref().to))]), [ent("queryset"), ent("events")])],
                    doc="keeps exactly the events whose query is in the set, in order"))

    def reported(kind, grouped):
        def L(v):
            return lists(tu, S, info(v['groups'].sort())[1].elem)

        def boot(v):
            ss = [s for s in samplers(tu, S) if s[1] == v['groups'].sort()]
            if not ss:
                raise Unsupported("no sampler for these groups")
            fn, facts = stat_fn(v, L(v), v['groups'].sort())
            obs, lo, hi, _ = interval(v['groups'], v['samples'], v['alpha'],
                                      info(ss[0][0])[1].mk(rng_seed(v['seed'])), fn)
            return (obs, lo, hi), fn, facts

        def post(v):
            x = v['groups'] if grouped else v['matches']
            plain = line(v, kind, [stat_value(v, L(v), v['groups'].sort(), x, T(False), grouped)])
            b, _, _ = boot(v)
            return [("the name and the value of the statistic are reported",
                     Implies(Not(v['bootstrap']), v.new['cout'] == plain)),
                    ("with bootstrapping: the value and the bounds of its interval",
                     Implies(v['bootstrap'], v.new['cout'] == line(v, kind, b)))]

        def lemmas(v):
            _, fn, facts = boot(v)
            # extensionality: a closure that agrees with the statistic on every sample is the statistic
            out = []
            for s, x, r in getattr(v.E, "stats", []):
                w = stat_value(v, L(v), x.sort(), x, T(True), True)
                if prover.prove([], r == w, timeout_ms=3000).ok:
                    out.append(s == fn)
            return out
        return dict(ghosts=("cout",), mod=["cout"], post=post, lemmas=lemmas, variants=["statistic"],
                    facts=lambda v: boot(v)[2],
                    pre=lambda v: [("the level of the interval lies in [0,1]",
                                    Implies(v['bootstrap'], And(v['alpha'] >= 0, v['alpha'] <= 1)))])
    b = ["bootstrap", "alpha", "samples", "seed", "statistic"]
    out.append(Spec(G + "ComputeMeanStatistic", ["name", "groups"] + b, P, **reported("m", True)))
    out.append(Spec(G + "ComputeGlobalStatistic", ["name", "matches", "groups"] + b, P, **reported("g", False)))

    # exports
    def L(v):
        s = v['matches' if 'matches' in v.old else 'groups'].sort()
        return lists(tu, S, s if 'matches' in v.old else info(s)[1].elem)

    def cannot(v):
        return Or(s_len(v['filename']) == 0, Not(CAN_WRITE(v['filename'])))

    def holds(v, y):
        a, b, f = v['fs'], v.new['fs'], v['filename']
        x = GRID(v['n'])
        i = z3.Const("i!f", Str)
        return [("the file holds the grid and the curve, one line per point", And(
            z3.Select(FS.get(b, 0), f), same(z3.Select(FS.get(b, 1), f), LINES(x, y, vlen(x))))),
            ("other files are untouched", z3.ForAll([i], Implies(i != f, And(
                z3.Select(FS.get(b, 0), i) == z3.Select(FS.get(a, 0), i),
                z3.Select(FS.get(b, 1), i) == z3.Select(FS.get(a, 1), i)))))]
    o = ["n", "collapse", "interp", "lin"]
    out.append(Spec(G + "WriteGlobalRPCurve", ["filename", "matches"] + o, P, ghosts=("fs",), mod=["fs"],
                    throws=cannot, post=lambda v: holds(v, row(L(v), v['matches'], *[v[n] for n in o])),
                    doc="exports the resampled curve of the matches"))

    def M(v):
        return mean_of(tu, S, v['groups'].sort())

    def mean_row(v):
        return M(v).fn(v['groups'], *[v[n] for n in o])
    out.append(Spec(G + "WriteMeanRPCurve", ["filename", "groups"] + o, P, ghosts=("fs",), mod=["fs"],
                    throws=cannot, post=lambda v: holds(v, mean_row(v)),
                    lemmas=lambda v: [lines_agree(GRID(v['n']), mean_row(v), vlen(GRID(v['n'])))],
                    hints=lambda reg, f: [RowsHint(mean_of(tu, S, S.sort(tu.ty(f["params"][1]["t"]).noref())))],
                    doc="exports the mean over the groups of their resampled curves"))
    return out


def theorems(tu, S):
    out = []
    x, y, z = [z3.Const(n, VR) for n in "xyz"]
    n, i = z3.Ints("n i")
    out += induct(P, "lines of a curve depend on its points only", lambda k: Implies(k <= n, LINES(
        x, z, k) == LINES(x, y, k)), more=[forall_in(n, lambda i: sel(z, i) == sel(y, i),
                                                     pats=lambda i: [sel(z, i)])])
    return out
