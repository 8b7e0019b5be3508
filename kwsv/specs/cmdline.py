"""C21: option and argument values."""
from .common import *
from ..contract import Spec, same, ptr_members
from ..streams import *

C = "kws::cmd::"


def kind_of(ty):
    ty = ty.noref()
    if ty.k == "bool":
        return "bool"
    if tname(ty) == "std::basic_string":
        return "string"
    return "number" if ty.k in ("int", "float") and not getattr(ty, "char", False) else None


def accepts(S, ty, w):
    """(is the text accepted, value then stored), for a number type"""
    ty = ty.noref()
    ok, end, val = num_fns(num_kind(ty), S.sort(ty))[:3]
    c = And(ok(w, I0), end(w, I0) == s_len(w))
    if ty.k == "int" and not ty.sg:
        c = And(Not(And(s_len(w) > 0, s_at(w, I0) == 45)), c)
    return c, val(w, I0)


def truth(w, option):
    yes = [w == lit("true"), w == lit("1")] + ([w == lit("")] if option else [])
    return Or(*yes), Or(w == lit("false"), w == lit("0"))


def specs(tu, S):
    out = []

    def vty(tu, f):
        """type of the values a Parse method stores"""
        ps = ptr_members(S, tu.ty(f["cls"]))
        return ps[0][1].to if ps else None

    def when(k):
        return lambda tu, f: vty(tu, f) is not None and kind_of(vty(tu, f)) == k

    for cls in ("Option", "Argument"):
        def num_post(v):
            c, x = accepts(S, v.ty('value'), v['str'])
            return [("accepted exactly when the whole text is one number of the type", v.res == c),
                    ("the number is stored", Implies(c, v.new['value'] == x))]
        out.append(Spec(C + cls + "::Parse", ["str"], "C21", when=when("number"),
                        reach={"value": ["value_"]}, mod=["value"], post=num_post,
                        doc="accepts one number, the whole text"))

        def bool_post(v, option=cls == "Option"):
            yes, no = truth(v['str'], option)
            return [("accepted exactly when the text is a truth value", v.res == Or(yes, no)),
                    ("the value is stored, or kept when rejected",
                     v.new['value'] == ite(yes, T(True), ite(no, T(False), v['value'])))]
        out.append(Spec(C + cls + "::Parse", ["str"], "C21", when=when("bool"),
                        reach={"value": ["value_"]}, mod=["value"], post=bool_post,
                        doc="accepts a truth value"))

        def nonul(v):
            i = z3.Const("i!z", IntS)
            w = v['str']
            return [("a command line word has no NUL character", z3.ForAll([i], Implies(
                And(i >= 0, i < s_len(w)), s_at(w, i) != 0), patterns=[s_at(w, i)]))]
        out.append(Spec(C + cls + "::Parse", ["str"], "C21", when=when("string"), pre=nonul,
                        reach={"value": ["value_"]}, mod=["value"], val=lambda v: {"value": v['str']},
                        post=lambda v: [("every text is accepted", v.res)],
                        doc="stores the text"))
    return out


def theorems(tu, S):
    out = []
    w = z3.Const("w", Str)
    p = z3.Int("p")
    done = set()
    for f in tu.functions.values():
        if not strip_targs(f["q"]).startswith(C + "Option::Option") or "cls" not in f:
            continue
        ps = ptr_members(S, tu.ty(f["cls"]))
        if not ps or kind_of(ps[0][1].to) != "number":
            continue
        ty = ps[0][1].to.noref()
        if ty.key in done:
            continue
        done.add(ty.key)
        c, x = accepts(S, ty, w)
        out.append(("C21", "an accepted text is one word without blanks (%s)" % ty.key,
                    [c, p >= 0, p < s_len(w)], And(s_len(w) > 0, Not(is_space(s_at(w, p))))))
        if ty.k == "int" and not ty.sg:
            out.append(("C21", "no negative number is accepted (%s)" % ty.key,
                        [c], And(s_at(w, I0) != 45, x >= 0)))
    yes, no = truth(w, False)
    oyes, ono = truth(w, True)
    out.append(("C21", "truth values: no text means both, only an option takes the empty text", [],
                And(Not(And(oyes, ono)), Not(And(yes, no)), Implies(s_len(w) == 0, Not(Or(yes, no))),
                    Implies(And(oyes, Not(yes)), s_len(w) == 0))))
    return out
