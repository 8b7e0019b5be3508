"""C19: mapping of strings to numbers."""
from .common import *
from .folds import *
from ..contract import Spec, same
from ..std import s_card

M = "kws::mapper::"
P = "C19"


def tab(v):
    return info(v.sort())[1]


def has(m, s):
    return select(tab(m).get(m, 0), s)


def num_of(m, s):
    return select(tab(m).get(m, 1), s)


def size(m):
    def c(d):
        if is_ite(d):
            return ite(d.arg(0), c(d.arg(1)), c(d.arg(2)))
        return s_card(d)
    return c(tab(m).get(m, 0))


def insert(m, s):
    """the table after looking up s: unchanged if known, else s gets the next number"""
    t = tab(m)
    dom, val = t.fields(m)
    return ite(select(dom, s), m, t.mk(z3.Store(dom, s, T(True)), z3.Store(val, s, size(m))))


def maxval(ty):
    return 2 ** (ty.w - (1 if ty.sg else 0)) - 1


def specs(tu, S):
    out = []

    # ---- StringToIntMapper: table lookup or insertion
    def ity(v):
        return v.ty("this").noref().targs()[0]

    def full(v, m, s):
        return And(Not(has(m, s)), size(m) > maxval(ity(v)))
    out.append(Spec(
        M + "StringToIntMapper::operator()", ["input"], P, reach={"table": ["impl_"]},
        val=lambda v: {"table": insert(v['table'], v['input']),
                       "result": ite(has(v['table'], v['input']), num_of(v['table'], v['input']),
                                     size(v['table']))},
        throws=lambda v: full(v, v['table'], v['input']),
        doc="known: its number; new: the number of strings seen so far; full: range error"))

    # ---- events: query and location through the same table
    def both(v, m, q, l):
        return insert(insert(m, q), l)

    def ev_throws(v):
        m = v['table']
        q, l = query(v['input']), location(v['input'])
        return Or(full(v, m, q), full(v, insert(m, q), l), full(v, m, l), full(v, insert(m, l), q))

    def ev_post(v, m1, r):
        m = v['table']
        q, l = query(v['input']), location(v['input'])
        return [("query and location are recorded in the table", Or(
                    m1 == both(v, m, q, l), m1 == both(v, m, l, q))),
                ("query is mapped by the table", query(r) == num_of(m1, q)),
                ("location is mapped by the table", location(r) == num_of(m1, l))]

    def ev_throw_post(v):
        m, m1 = v['table'], v.thrown['table']
        q, l = query(v['input']), location(v['input'])
        return [("only query or location may have been recorded", Or(
            m1 == m, And(m1 == insert(m, q), Not(full(v, m, q))),
            And(m1 == insert(m, l), Not(full(v, m, l)))))]
    out.append(Spec(
        M + "StringEventToIntMapper::operator()", ["input"], P, reach={"table": ["map_", "impl_"]},
        mod=["table"], throws=ev_throws, throw_mod=["table"], throw_post=ev_throw_post,
        post=lambda v: ev_post(v, v.new['table'], v.res)))

    # ---- scored events keep their score
    def mapper_of(tu, f):
        return tu.ty(f["cls"]).noref().targs()[0].noref()

    def is_string(tu, f):
        return mapper_of(tu, f).name == M + "StringEventToIntMapper"

    def is_ident(tu, f):
        return mapper_of(tu, f).name == M + "IdentityMapper"

    class EvView:
        """view of the inner event mapping"""

        def __init__(self, v):
            self.v = v
            self.thrown = getattr(v, "thrown", None)

        def __getitem__(self, n):
            return bases(self.v['input'])[0] if n == 'input' else self.v[n]

        def ty(self, n):
            return mapper_of(self.v.tu, self.v.f)
    out.append(Spec(
        M + "ScoredEventMapper::operator()", ["input"], P, when=is_string,
        reach={"table": ["map_", "map_", "impl_"]}, mod=["table"],
        throws=lambda v: ev_throws(EvView(v)), throw_mod=["table"],
        throw_post=lambda v: ev_throw_post(EvView(v)),
        post=lambda v: ev_post(EvView(v), v.new['table'], bases(v.res)[0]) + [
            ("the score is kept", score(v.res) == score(v['input']))]))
    out.append(Spec(
        M + "ScoredEventMapper::operator()", ["input"], P, when=is_ident,
        val=lambda v: {"result": v['input']}))
    out.append(Spec(M + "IdentityMapper::operator()", ["input"], P,
                    val=lambda v: {"result": v['input']}))

    # ---- construction: a new mapper knows no string; a copy shares the table
    def fld(r, n, i):
        return F(r, n, i)

    def fresh_table(v):
        p = fld(v.res, "impl_", 0)
        m = v.E.read(v.st_new, v.E.dec_ptr(p, v.S.field_ty(v.tys["result"], fname(v.res, "impl_", 0)).to).lv)
        x = z3.Const("x!nt", tab(m).ks)
        return [("the new table is empty", z3.ForAll([x], Not(has(m, x)))),
                ("the table is owned", fld(v.res, "own_", 1))]
    out.append(Spec(M + "StringToIntMapper::StringToIntMapper", [], P, post=fresh_table,
                    inline_at_calls=True))
    out.append(Spec(M + "StringToIntMapper::StringToIntMapper", ["other"], P, inline_at_calls=True,
                    when=lambda tu, f: tu.ty(f["params"][0]["t"]).isref,
                    post=lambda v: [
                        ("a copy shares the table", fld(v.res, "impl_", 0) == fld(v['other'], "impl_", 0)),
                        ("a copy does not own the table", Not(fld(v.res, "own_", 1)))]))
    return out


def theorems(tu, S):
    out = []
    mi = MapI(Str, IntS)
    s_card(z3.Const("any!ti", z3.ArraySort(Str, BoolS)))
    VS = VecI(Str)
    TAB = fold("TABLE", [VS.sort], mi.sort, lambda a, k, p: insert(p, vget(a[0], k)))
    h = z3.Const("h", VS.sort)
    s, t = z3.Consts("s t", Str)
    i, n = z3.Ints("i n")
    at = lambda k: TAB(h, mi.empty, k)
    st = lambda k: vget(h, k)
    grown = lambda k: [size(at(k)) >= 0, size(at(k + 1)) >= 0, size(insert(at(k), st(k))) >= 0]

    def below(k, x):
        return Implies(has(at(k), x), And(num_of(at(k), x) >= 0, num_of(at(k), x) < size(at(k))))
    out += induct(P, "numbers lie below the number of strings seen", lambda k: below(k, s),
                  facts=lambda k: grown(k) + [below(k, st(k))])

    def inj(k, x, y):
        return Implies(And(has(at(k), x), has(at(k), y), num_of(at(k), x) == num_of(at(k), y)), Eq(x, y))
    out += induct(P, "different strings have different numbers", lambda k: inj(k, s, t),
                  facts=lambda k: grown(k) + [below(k, s), below(k, t)])
    # dense: every number below the size belongs to a string
    W = fold("TABLEAT", [VS.sort, IntS], Str, lambda a, k, p: z3.If(
        And(Not(has(TAB(a[0], mi.empty, k), vget(a[0], k))), size(TAB(a[0], mi.empty, k)) == a[1]),
        vget(a[0], k), p))
    w = lambda k: W(h, n, z3.Const("any!str", Str), k)
    out += induct(P, "every number below the number of strings seen is used", lambda k: Implies(
        And(n >= 0, n < size(at(k))), And(has(at(k), w(k)), num_of(at(k), w(k)) == n)),
        facts=lambda k: grown(k))
    kk = z3.Int("k!t")
    out.append((P, "a known string keeps its number and nothing changes", [kk >= 0] + grown(kk),
                And(Implies(has(at(kk), s), And(has(at(kk + 1), s), num_of(at(kk + 1), s) == num_of(at(kk), s))),
                    Implies(has(at(kk), st(kk)), at(kk + 1) == at(kk)))))
    out.append((P, "a new string gets the number of strings seen so far", [kk >= 0] + grown(kk),
                Implies(Not(has(at(kk), st(kk))), And(
                    num_of(at(kk + 1), st(kk)) == size(at(kk)), size(at(kk + 1)) == size(at(kk)) + 1))))
    out += induct(P, "a string is known once it was looked up", lambda k: Implies(
        And(i >= 0, i < k, s == st(i)), has(at(k), s)), facts=grown)
    # the order in which query and location of an event are looked up does not matter
    # for which strings are known
    m = z3.Const("m", mi.sort)
    out.append((P, "query and location are known afterwards whichever is looked up first", [],
                And(has(insert(insert(m, s), t), s), has(insert(insert(m, s), t), t),
                    tab(m).get(insert(insert(m, s), t), 0) == tab(m).get(insert(insert(m, t), s), 0))))
    return out
