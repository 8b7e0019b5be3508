"""C14: resampling, grid and export of curves."""
from .common import *
from .folds import *
from ..contract import Spec, same
from ..streams import *

K = "kws::core::"
VR = VecI(RealS).sort
R0 = z3.RealVal(0)


def sel(v, i):
    return z3.Select(vdata(v), i)


def _lb(r, x, t):
    k = z3.Const("k!lb", IntS)
    n = vlen(x)
    return [r >= 0, r <= n,
            z3.ForAll([k], Implies(And(k >= 0, k < r), sel(x, k) < t), patterns=pats(sel(x, k))),
            Implies(r < n, sel(x, r) >= t)]


LBF = define("LB", [VR, RealS], IntS, _lb, raw=True)


def LB(x, t):
    """first position of x whose value is not below t (the length if there is none)"""
    return LBF(x, t)


def lerp(x0, y0, x1, y1, t):
    w0, w1 = x1 - t, t - x0
    return w0 / (w0 + w1) * y0 + (1 - w0 / (w0 + w1)) * y1


def sample(x, y, t, lin):
    j = LB(x, t)
    jm = j - 1
    return z3.If(j == vlen(x), R0, z3.If(Or(Not(lin), j == 0), sel(y, j),
                                         lerp(sel(x, jm), sel(y, jm), sel(x, j), sel(y, j), t)))


SAMPF = define("SAMPLE", [VR, VR, RealS, BoolS], RealS, sample)


def increasing(d):
    return forall_in(vlen(d) - 1, lambda i: sel(d, i) <= sel(d, i + 1), pats=lambda i: [sel(d, i)])


def sample_at(x, i, sx, sy, dx, lin):
    return x == SAMPF(sx, sy, sel(dx, i), lin)


def samples_def(r, sx, sy, dx, lin):
    return [("one value per point", vlen(r) == vlen(dx)),
            ("value at every point", forall_in(vlen(dx), lambda i: sample_at(sel(r, i), i, sx, sy, dx, lin),
                                               pats=lambda i: [sel(r, i)]))]


def grid_at(x, i, n):
    return x == z3.ToReal(i) / z3.ToReal(n - 1)


def grid_def(r, n):
    return [("number of points", vlen(r) == z3.If(n > 1, n, 0)),
            ("point k is k/(n-1)", forall_in(vlen(r), lambda i: grid_at(sel(r, i), i, n),
                                             pats=lambda i: [sel(r, i)]))]


# results of the two functions, as functions of their arguments
SAMPLES = pure_fn("SAMPLES", [VR, VR, VR, BoolS], VR, lambda r, sx, sy, dx, lin: [
    Implies(And(vlen(sx) == vlen(sy), increasing(dx)), And([g for _, g in samples_def(r, sx, sy, dx, lin)]))])
GRID = pure_fn("GRID", [IntS], VR, lambda r, n: [g for _, g in grid_def(r, n)] + [
    increasing(r)])      # the latter is the theorem "the grid is increasing"


class BelowHint:
    """all values before a position lie below a point"""

    def instances(self, E, entry, leaves, prog, src):
        vs = src.get(skey(VR), [])[:5]
        ints = [(n, t, k) for n, t, k in leaves if t.sort() == IntS]
        idx = [("entry#%d" % n, (lambda E, s, t=t: t)) for n, t in enumerate(src.get("Int", [])[:5])]
        idx += [(n, (lambda E, s, k=k: E.leaf_of(s, k))) for n, t, k in ints]
        for nm, t0, key in ints:
            for a, xs in enumerate(vs):
                for b, ts in enumerate(vs):
                    if a == b:
                        continue
                    for n2, f2 in idx:
                        if n2 == nm:
                            continue

                        def pred(E, s, key=key, xs=xs, ts=ts, f2=f2):
                            i = f2(E, s)
                            k = z3.Const("k!bh", IntS)
                            return Implies(And(i >= 0, i < vlen(ts)), z3.ForAll([k], Implies(And(
                                k >= 0, k < E.leaf_of(s, key)), sel(xs, k) < vget(ts, i)),
                                patterns=pats(sel(xs, k))))
                        yield "#%d below point %s of #%d before %s" % (a, n2, b, nm), pred


def _line(a, k, prev):
    """one more line of an exported curve"""
    x, y = a
    for t in (treal(z3.IntVal(1), z3.IntVal(6), sel(x, k)), tchr(z3.IntVal(32)),
              treal(z3.IntVal(1), z3.IntVal(6), sel(y, k)), tchr(z3.IntVal(10))):
        prev = vpush(prev, t)
    return prev


TV = VecI(Tok).sort
LINES = fold("curve lines", [VR, VR], TV, _line)


class FileHint:
    """only one file changes, and it holds what its stream has written"""

    def instances(self, E, entry, leaves, prog, src):
        outs = [(n, k) for n, t, k in leaves if skey(t.sort()) == skey(TV)]
        for nm, t0, key in leaves:
            if skey(t0.sort()) != skey(FS.sort):
                continue
            for f in src.get(skey(Str), [])[:4]:
                for n2, k2 in outs:
                    yield "%s follows %s" % (nm, n2), lambda E, s, key=key, t0=t0, f=f, k2=k2: \
                        E.leaf_of(s, key) == FS.mk(z3.Store(FS.get(t0, 0), f, T(True)),
                                                   z3.Store(FS.get(t0, 1), f, E.leaf_of(s, k2)))


def export_lengths(v):
    return Or(s_len(v['filename']) == 0, vlen(v['x']) != vlen(v['y']))


def export_fails(v):
    return Or(export_lengths(v), Not(CAN_WRITE(v['filename'])))


def export_post(v):
    a, b, f = v['fs'], v.new['fs'], v['filename']
    i = z3.Const("i!f", Str)
    return [("the file holds one line per point, in order", And(
        z3.Select(FS.get(b, 0), f), same(z3.Select(FS.get(b, 1), f), LINES(v['x'], v['y'], vlen(v['x']))))),
        ("other files are untouched", z3.ForAll([i], Implies(i != f, And(
            z3.Select(FS.get(b, 0), i) == z3.Select(FS.get(a, 0), i),
            z3.Select(FS.get(b, 1), i) == z3.Select(FS.get(a, 1), i)))))]


def ent(name):
    return lambda E: E.entry_terms.get(name)


def specs(tu, S):
    out = []

    def pre(v):
        return [("abscissas and ordinates have the same length", vlen(v['src_x']) == vlen(v['src_y'])),
                ("points are increasing", increasing(v['dst_x']))]
    out.append(Spec(K + "SampleCurveAtGivenPoints", ["src_x", "src_y", "dst_x", "dst_y", "lin"], "C14",
                    pre=pre, pure_mod=["dst_y"],
                    pure=lambda v: {"dst_y": SAMPLES(v['src_x'], v['src_y'], v['dst_x'], v['lin'])},
                    hints=lambda reg, f: [BelowHint(), ElemHint("sample", RealS, sample_at, [
                        ent(n) for n in ("src_x", "src_y", "dst_x", "lin")])],
                    post=lambda v: samples_def(v.new['dst_y'], v['src_x'], v['src_y'], v['dst_x'], v['lin'])))
    out.append(Spec(K + "GetEvenlyDistributedPoints01Interval", ["n", "x"], "C14", pure_mod=["x"],
                    pure=lambda v: {"x": GRID(v['n'])},
                    hints=lambda reg, f: [ElemHint("k/(n-1)", RealS, grid_at, [ent("n")])],
                    post=lambda v: grid_def(v.new['x'], v['n'])))
    out.append(Spec(K + "WriteCurveToFile", ["filename", "x", "y"], "C14", ghosts=("fs",), mod=["fs"],
                    throws=export_fails,
                    hints=lambda reg, f: [FileHint(), FoldHint(LINES, [ent("x"), ent("y")])],
                    post=export_post,
                    doc="throws without touching files, or writes exactly the lines"))
    return out


def theorems(tu, S):
    out = []
    P = "C14"
    x, y = z3.Const("x", VR), z3.Const("y", VR)
    t = z3.Real("t")
    lin = z3.Bool("lin")
    n, i = z3.Ints("n i")
    j = LB(x, t)
    v = SAMPF(x, y, t, lin)
    ln = [vlen(x) == vlen(y), vlen(x) >= 0]
    a, b, w0, w1, q = z3.Reals("a b w0 w1 q")
    out.append((P, "lemma: weights lie in [0,1]", [w0 >= 0, w1 > 0, q == w0 / (w0 + w1)],
                And(q >= 0, q < 1)))
    out.append((P, "lemma: weighted mean lies between", [q >= 0, q <= 1, a <= b],
                And(q * a + (1 - q) * b >= a, q * a + (1 - q) * b <= b,
                    q * b + (1 - q) * a >= a, q * b + (1 - q) * a <= b)))

    def mean(q, a, b):
        return Implies(And(q >= 0, q <= 1), And(
            Implies(a <= b, And(q * a + (1 - q) * b >= a, q * a + (1 - q) * b <= b)),
            Implies(b <= a, And(q * a + (1 - q) * b >= b, q * a + (1 - q) * b <= a))))

    def wt(w0, w1):
        return Implies(And(w0 >= 0, w1 > 0), And(w0 / (w0 + w1) >= 0, w0 / (w0 + w1) < 1))
    x0, x1, y0, y1 = sel(x, j - 1), sel(x, j), sel(y, j - 1), sel(y, j)
    q0 = (x1 - t) / ((x1 - t) + (t - x0))
    out.append((P, "zero beyond the last abscissa", ln + [forall_in(vlen(x), lambda k: sel(x, k) < t)],
                v == 0))
    out.append((P, "at the first abscissa or without interpolation the ordinate is taken", ln + [
        j < vlen(x), Or(Not(lin), j == 0)], v == sel(y, j)))
    out.append((P, "interpolated value lies between the neighbouring ordinates", ln + [
        j < vlen(x), j > 0, lin, wt(x1 - t, t - x0), mean(q0, y0, y1)],
        And(Or(v >= y0, v >= y1), Or(v <= y0, v <= y1))))
    out.append((P, "value at an abscissa met exactly is its ordinate", ln + [
        j < vlen(x), j > 0, lin, x1 == t], v == y1))
    r = z3.Const("r", VR)
    c, d = z3.Real("c"), z3.Real("d")
    out.append((P, "lemma: quotients keep the order", [d > 0, a <= b], a / d <= b / d))
    out.append((P, "the grid is increasing", [g for _, g in grid_def(r, n)] + [
        i >= 0, i < vlen(r) - 1, Implies(n > 1, z3.ToReal(i) / z3.ToReal(n - 1) <= z3.ToReal(i + 1) / z3.ToReal(n - 1))],
        sel(r, i) <= sel(r, i + 1)))
    out.append((P, "grid is increasing from 0 to 1", [n > 1, i >= 0, i < n - 1, d == z3.ToReal(n - 1), d > 0],
                And(z3.ToReal(i) / d < z3.ToReal(i + 1) / d, z3.ToReal(z3.IntVal(0)) / d == 0, z3.ToReal(n - 1) / d == 1)))
    return out
