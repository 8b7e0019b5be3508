"""C20: the command line grammar.  OPTS describes the options, ARGS the positional words;
WORDS holds, per registered object, the words it was given so far."""
from .common import *
from .folds import *
from ..contract import Spec, same
from ..engine import ArrPtr, Ptr, LV
from ..streams import *
from ..streams import _GTy
from ..prover import UNFOLD

P = "C20"
C = "kws::cmd::"
WS = VecI(Str)
LOG = z3.ArraySort(PtrS, WS.sort)
StreamEngine.ghost_tys["words"] = LOG
OM = MapI(Str, PtrS)
PV = VecI(PtrS)
ISB = z3.Function("takes no value", PtrS, BoolS)
ACC = z3.Function("accepts", PtrS, Str, BoolS)
NAMED = z3.Function("name of", PtrS, Str)
OUT = Info("OptionsRead", [("ok", BoolS), ("i", IntS), ("help", BoolS), ("log", LOG)])
OPTS = z3.Function("OPTS", WS.sort, IntS, OM.sort, IntS, BoolS, LOG, OUT.sort)
MINUS = 45


def give(log, p, w):
    """object p is given word w"""
    return z3.Store(log, p, vpush(z3.Select(log, p), w))


def dashed(w):
    return And(s_len(w) > 0, s_at(w, I0) == MINUS)


def opts_facts(a, n, om, i, help, log):
    w, w1 = vget(a, i), vget(a, i + 1)
    name = s_sub(w, z3.IntVal(2), z3.IntVal(2 ** 64 - 1))
    dom, val = OM.get(om, 0), OM.get(om, 1)
    p = z3.Select(val, name)
    known = And(s_at(w, z3.IntVal(1)) == MINUS, z3.Select(dom, name))
    more = i + 1 < n
    own = And(more, Not(dashed(w1)))         # a boolean option followed by its value
    word = ite(ISB(p), ite(own, w1, lit("")), w1)
    step = ite(And(ISB(p), Not(own)), i + 1, i + 2)
    ok = And(known, Or(ISB(p), more), ACC(p, word))
    r = OPTS(a, n, om, i, help, log)
    return [r == ite(Or(i >= n, Not(dashed(w)), s_len(w) < 2), OUT.mk(T(True), i, help, log),
                     ite(w == lit("--"), OUT.mk(T(True), i + 1, help, log),
                         ite(w == lit("--help"), OPTS(a, n, om, i + 1, T(True), log),
                             ite(ok, OPTS(a, n, om, step, help, give(log, p, word)),
                                 OUT.mk(T(False), i, help, log)))))]


UNFOLD[OPTS.name()] = opts_facts


def given(a, base, ps, k, log):
    return give(log, vget(ps, k), vget(a, base + k))


GIVE = fold("GIVE", [WS.sort, IntS, PV.sort], LOG, lambda x, k, log: given(x[0], x[1], x[2], k, log))
TAKEN = fold("TAKEN", [WS.sort, IntS, PV.sort], BoolS,
             lambda x, k, prev: And(prev, ACC(vget(x[2], k), vget(x[0], x[1] + k))))


def each_taken(a, base, ps, n):
    """all words taken: each is accepted by its object"""
    k = z3.Const("k!w", IntS)
    x = z3.Select(vdata(ps), k)
    return Implies(TAKEN(a, base, ps, T(True), n), z3.ForAll([k], Implies(
        And(k >= 0, k < n), ACC(x, vget(a, base + k))), patterns=pats(x)))


class OptsHint:
    """what the options still to be read give is what all options give"""

    def instances(self, E, entry, leaves, prog, src):
        if not getattr(E, "cmdline", None):
            return
        a, n = E.cmdline
        ints = [(nm, k) for nm, t, k in leaves if t.sort() == IntS]
        logs = [k for nm, t, k in leaves if t.sort() == LOG]
        bools = [(lambda E, s, k=k: E.leaf_of(s, k)) for nm, t, k in leaves if t.sort() == BoolS]
        bools += [lambda E, s: T(False)]
        for om in src.get(OM.sort.name(), [])[:2]:
            for lg in logs:
                for b, bf in enumerate(bools):
                    for nm, k in ints:
                        def term(E, s, lg=lg, bf=bf, k=k, om=om):
                            return OPTS(a, n, om, E.leaf_of(s, k), bf(E, s), E.leaf_of(s, lg))
                        yield "options from %s on (%d) give what all options give" % (nm, b), \
                            lambda E, s, term=term: term(E, s) == term(E, entry)


class ArgsHint:
    def instances(self, E, entry, leaves, prog, src):
        if not getattr(E, "cmdline", None):
            return
        a, n = E.cmdline
        logs = [(t, k) for nm, t, k in leaves if t.sort() == LOG]
        ints = [(nm, t, k) for nm, t, k in leaves if t.sort() == IntS]
        for x, (nm, t, k) in enumerate(ints):
            yield "%s <= argc" % nm, lambda E, s, k=k, t=t: Or(E.leaf_of(s, k) <= n, E.leaf_of(s, k) == t)
            for ps in src.get(PV.sort.name(), [])[:3]:
                yield "%s <= len(%s)" % (nm, ps), lambda E, s, k=k, ps=ps: E.leaf_of(s, k) <= vlen(ps)
            for nm2, t2, k2 in ints[:x]:
                yield "%s-%s const" % (nm, nm2), lambda E, s, k=k, k2=k2, t=t, t2=t2: \
                    Sub(E.leaf_of(s, k), t) == Sub(E.leaf_of(s, k2), t2)
        for lt, lk in logs:
            for ni, ti, ki in ints:
                if z3.is_int_value(ti):
                    continue
                for ps in src.get(PV.sort.name(), [])[:3]:
                    for pn, pf in prog:
                        if pn.startswith("entry-"):
                            continue
                        yield "words from %s are given one by one (%s) to %s" % (ni, pn, ps), \
                            lambda E, s, lt=lt, lk=lk, ti=ti, ps=ps, pf=pf: \
                            E.leaf_of(s, lk) == GIVE(a, ti, ps, lt, pf(E, s))
                        yield "words from %s are accepted (%s) by %s" % (ni, pn, ps), \
                            lambda E, s, ti=ti, ps=ps, pf=pf: TAKEN(a, ti, ps, T(True), pf(E, s))


def specs(tu, S):
    out = []

    def ptr(v):
        return v.E.enc_ptr(Ptr(v.lvs["this"]))

    def nonul(w):
        i = z3.Const("i!z", IntS)
        return z3.ForAll([i], Implies(And(i >= 0, i < s_len(w)), s_at(w, i) != 0), patterns=pats(s_at(w, i)))

    B = C + "BaseOption::"
    out.append(Spec(B + "Parse", ["str"], P, virt=True, ghosts=("words",),
                    pre=lambda v: [("a command line word has no NUL character", nonul(v['str']))],
                    pure=lambda v: {"result": ACC(ptr(v), v['str']),
                                    "words": give(v['words'], ptr(v), v['str'])},
                    doc="a target is given one word; whether it accepts it depends on the word"))
    out.append(Spec(B + "IsBoolean", [], P, virt=True, pure=lambda v: {"result": ISB(ptr(v))}))
    out.append(Spec(B + "Name", [], P, virt=True, pure=lambda v: {"result": NAMED(ptr(v))}))
    out.append(Spec(B + "Help", ["w"], P, virt=True, doc="some text"))

    out.append(Spec(C + "Parser::Help", [], P, opts={"lean": True}, doc="some text; nothing is changed"))

    def members(v, x):
        inf = v.S.rec(v.ty('result' if x == "res" else 'this'))
        t = v['this'] if x == "old" else v.new['this'] if x == "new" else v.res
        g = {}
        for nm, ft in zip(inf.names, inf.ftypes):
            g[nm] = inf.get(t, nm)
        return g

    def words(v):
        a = v.fnargs['argv']
        return v.E.read(v.st_old, a.lv)

    def mk_argv(E, v, pt, st):
        lv = E.new_loc(st, z3.Const("argv", WS.sort), _GTy("argv", "argv"), "argv")
        E.entry_terms["argv"] = z3.Const("argv", WS.sort)
        E.cmdline = (z3.Const("argv", WS.sort), z3.Const("argc", IntS))
        i, j = z3.Ints("i!z j!z")
        a = E.cmdline[0]
        x = s_at(z3.Select(vdata(a), i), j)
        E.fact(z3.ForAll([i, j], Implies(And(j >= 0, j < s_len(z3.Select(vdata(a), i))), x != 0),
                         patterns=[x]))
        return ArrPtr(lv, I0)

    def outcome(v):
        a, n = words(v), v['argc']
        m = members(v, "old")
        o = OPTS(a, n, m["opts_"], z3.IntVal(1), T(False), v['words'])
        i = OUT.get(o, "i")
        na, no = vlen(m["args_"]), vlen(m["opt_args_"])
        rest = imax(n - i, I0)
        k = rest - na
        l1 = GIVE(a, i, m["args_"], OUT.get(o, "log"), na)
        l2 = GIVE(a, i + na, m["opt_args_"], l1, k)
        ok = And(OUT.get(o, "ok"), rest >= na, rest <= na + no,
                 TAKEN(a, i, m["args_"], T(True), na), TAKEN(a, i + na, m["opt_args_"], T(True), k))
        return o, ok, l2

    def lemmas(v):
        a, n = words(v), v['argc']
        m = members(v, "old")
        i = OUT.get(OPTS(a, n, m["opts_"], z3.IntVal(1), T(False), v['words']), "i")
        na = vlen(m["args_"])
        return [each_taken(a, i, m["args_"], na),
                each_taken(a, i + na, m["opt_args_"], imax(n - i, I0) - na)]

    def post(v):
        o, ok, log = outcome(v)
        return [("parsing succeeds exactly when the words follow the grammar and are accepted",
                 v.res == ok),
                ("every registered object is given exactly its words, in order",
                 Implies(ok, v.new['words'] == log))]

    def on_exit(v, s, code):
        o, ok, log = outcome(v)
        return [("the program ends only when help is asked for", And(
            OUT.get(o, "ok"), OUT.get(o, "help"), code == 0))]

    out.append(Spec(C + "Parser::Parse", ["argc", "argv"], P, ghosts=("words",), mod=["words"],
                    fnparams={"argv": mk_argv}, on_exit=on_exit, post=post, lemmas=lemmas,
                    pre=lambda v: [("the words exist", And(v['argc'] <= vlen(words(v))))],
                    hints=lambda reg, f: [OptsHint(), ArgsHint()], opts={"lean": True},
                    doc="the words are assigned by the grammar"))
    def mem(v, t, name):
        return v.S.rec(v.ty('this')).get(t, name)

    def made(v, p, cls):
        """p is a new object of class cls with this name that stores into this value"""
        if v.E.top is not v.f:
            return p != NULLP
        if "value" not in v.lvs:
            raise Unsupported("target of an option")
        want = v.E.enc_ptr(Ptr(v.lvs["value"]))
        vt = v.ty("value").noref()
        cases = []
        for c, lv in list(v.E.ptr_lv.values()):
            r = v.E.root_lv(lv)
            ty = r.ty.noref()
            if ty.k != "rec" or r.loc in v.E.heap0:
                continue
            bases = [ty] + [b for b in base_types(v.S, ty)]
            if not any(b.name == C + cls and b.targs()[0].noref().key == vt.key for b in bases):
                continue
            x = v.E.read(v.st_new, r)
            fs = {n: y for b, n, y in deep_fields(v.S, ty, x)}
            name = s_cat(lit("--"), v["name"]) if cls == "Option" else v["name"]
            cases.append(And(p == c, fs["value_"] == want, fs["name_"] == name))
        return Or(cases) if cases else T(False)

    def others(v, *names):
        return And([mem(v, v.new['this'], n) == mem(v, v['this'], n)
                    for n in ("opts_", "args_", "opt_args_") if n not in names])

    def reg_opt(v):
        om, om2 = mem(v, v['this'], "opts_"), mem(v, v.new['this'], "opts_")
        n = v['name']
        p = z3.Select(OM.get(om2, 1), n)
        taken = Or(n == lit("help"), z3.Select(OM.get(om, 0), n))
        x = z3.Const("x!n", Str)
        return [("refused exactly when the name is reserved or taken", v.res == Not(taken)),
                ("a refused registration changes nothing", Implies(taken, And(others(v), z3.ForAll([x], And(
                    z3.Select(OM.get(om2, 0), x) == z3.Select(OM.get(om, 0), x), Implies(
                        z3.Select(OM.get(om, 0), x),
                        z3.Select(OM.get(om2, 1), x) == z3.Select(OM.get(om, 1), x))))))),
                ("the name is bound to a new option for the value; the others stay", Implies(
                    Not(taken), And(others(v, "opts_"), made(v, p, "Option"), z3.ForAll([x], And(
                        z3.Select(OM.get(om2, 0), x) == Or(x == n, z3.Select(OM.get(om, 0), x)), Implies(
                            And(z3.Select(OM.get(om, 0), x), x != n),
                            z3.Select(OM.get(om2, 1), x) == z3.Select(OM.get(om, 1), x)))))))]
    out.append(Spec(C + "Parser::RegisterOption", ["name", "help", "value"], P, mod=["this"], post=reg_opt,
                    doc="a new name is bound to a new option"))
    for fn, field in (("RegisterArgument", "args_"), ("RegisterOptArgument", "opt_args_")):
        def reg_arg(v, field=field):
            a, b = mem(v, v['this'], field), mem(v, v.new['this'], field)
            return [("one new argument for the value is added at the end", And(
                vlen(b) == vlen(a) + 1, made(v, vget(b, vlen(a)), "Argument"), others(v, field),
                forall_in(vlen(a), lambda i: z3.Select(vdata(b), i) == z3.Select(vdata(a), i))))]
        out.append(Spec(C + "Parser::" + fn, ["name", "help", "value"], P, mod=["this"], post=reg_arg,
                        doc="an argument is added at the end"))

    def isb(v):
        return v.ty('this').noref().targs()[0].noref().k == "bool"
    out.append(Spec(C + "Option::IsBoolean", [], P, val=lambda v: {"result": T(isb(v))},
                    doc="an option takes no value exactly when it is a truth value"))
    out.append(Spec(C + "Option::Name", [], P, post=lambda v: [
        ("the registered name", v.res == mem(v, v['this'], "name_"))]))

    def empty(v):
        g = members(v, "res")
        return [("nothing is registered yet", And(
            vlen(g["args_"]) == 0, vlen(g["opt_args_"]) == 0,
            g["opts_"] == OM.empty))]
    for ps in (["prog"], ["prog", "description"]):
        out.append(Spec(C + "Parser::Parser", ps, P, post=empty, doc="nothing is registered"))
    return out


def base_types(S, ty):
    out = []
    if ty.rid is None or ty.rid not in S.tu.records:
        return out
    for n, t in S.rec_fields(ty):
        if n.startswith("@"):
            out += [t] + base_types(S, t)
    return out


def deep_fields(S, ty, x):
    out = []
    if x.sort().kind() != z3.Z3_DATATYPE_SORT:
        return out
    inf = S.rec(ty)
    for n, t in S.rec_fields(ty):
        y = inf.get(x, n)
        out += deep_fields(S, t, y) if n.startswith("@") else [(ty, n, y)]
    return out


def theorems(tu, S):
    out = []
    a, ps = z3.Const("a", WS.sort), z3.Const("ps", PV.sort)
    b, k, j = z3.Ints("b k j")
    out += induct(P, "lemma: all words taken, each is accepted by its object", lambda n: Implies(
        And(TAKEN(a, b, ps, T(True), n), j >= 0, j < n), ACC(vget(ps, j), vget(a, b + j))))
    n, i = z3.Ints("n i")
    om = z3.Const("om", OM.sort)
    h = z3.Bool("h")
    log = z3.Const("log", LOG)
    p, p2 = z3.Const("p", PtrS), z3.Const("p2", PtrS)
    w, w1 = vget(a, i), vget(a, i + 1)
    name = s_sub(w, z3.IntVal(2), z3.IntVal(2 ** 64 - 1))
    q = z3.Select(OM.get(om, 1), name)
    O = OPTS(a, n, om, i, h, log)
    g = OUT.get

    def ind(label, Q, hyp=()):
        """Q for the options after the first one gives Q; every case of OPTS is covered"""
        ih = [Q(i + 1, T(True), log)]
        for word, step in ((w1, 2), (lit(""), 1)):
            ih.append(Q(i + step, h, give(log, q, word)))
        out.append((P, label, ih + list(hyp), Q(i, h, log)))
    ind("the options end within the words", lambda i, h, l: Implies(And(i >= 1, i <= n), And(
        g(OPTS(a, n, om, i, h, l), "i") >= i, g(OPTS(a, n, om, i, h, l), "i") <= n)))
    x = z3.Const("x!o", Str)
    ind("only registered options are given words", lambda i, h, l: z3.Select(
        g(OPTS(a, n, om, i, h, l), "log"), p) == z3.Select(l, p),
        [z3.ForAll([x], Implies(z3.Select(OM.get(om, 0), x), z3.Select(OM.get(om, 1), x) != p),
                   patterns=[z3.Select(OM.get(om, 1), x)])])
    long = And(i < n, dashed(w), s_len(w) >= 2, w != lit("--"), w != lit("--help"))
    out.append((P, "an unknown option is an error", [long, Or(
        s_at(w, z3.IntVal(1)) != MINUS, Not(z3.Select(OM.get(om, 0), name)))], Not(g(O, "ok"))))
    out.append((P, "an option without its value is an error", [long, Not(ISB(q)), i + 1 >= n], Not(g(O, "ok"))))
    out.append((P, "a rejected value is an error", [long, Not(ISB(q)), Not(ACC(q, w1))], Not(g(O, "ok"))))
    rest = OPTS(a, n, om, i + 2, h, give(log, q, w1))
    known = And(s_at(w, z3.IntVal(1)) == MINUS, z3.Select(OM.get(om, 0), name))
    out.append((P, "an option is given the word that follows it", [
        long, known, Not(ISB(q)), i + 1 < n, ACC(q, w1)], O == rest))
    out.append((P, "a boolean option is given a word that does not begin with '-'", [
        long, known, ISB(q), i + 1 < n, Not(dashed(w1)), ACC(q, w1)], O == rest))
    out.append((P, "a boolean option without a value is given the empty text", [
        long, known, ISB(q), Or(i + 1 >= n, dashed(w1)), ACC(q, lit(""))],
        O == OPTS(a, n, om, i + 1, h, give(log, q, lit("")))))
    out.append((P, "'--' and the first word that is no option end the options", [i < n], And(
        Implies(w == lit("--"), O == OUT.mk(T(True), i + 1, h, log)),
        Implies(Or(Not(dashed(w)), s_len(w) < 2), O == OUT.mk(T(True), i, h, log)))))
    jj, k1 = z3.Ints("jj k1")
    apart = z3.ForAll([jj, k1], Implies(And(jj >= 0, jj < vlen(ps), k1 >= 0, k1 < vlen(ps), jj != k1),
                                        z3.Select(vdata(ps), jj) != z3.Select(vdata(ps), k1)),
                      patterns=[z3.MultiPattern(z3.Select(vdata(ps), jj), z3.Select(vdata(ps), k1))])
    out += induct(P, "every argument is given exactly the word at its position", lambda m: Implies(
        And(j >= 0, j < vlen(ps), m <= vlen(ps)), z3.Select(GIVE(a, b, ps, log, m), vget(ps, j)) ==
        ite(j < m, vpush(z3.Select(log, vget(ps, j)), vget(a, b + j)), z3.Select(log, vget(ps, j)))),
        more=[apart])
    out += induct(P, "words for arguments go to no other object", lambda m: Implies(
        m <= vlen(ps), z3.Select(GIVE(a, b, ps, log, m), p) == z3.Select(log, p)),
        more=[z3.ForAll([jj], Implies(And(jj >= 0, jj < vlen(ps)), z3.Select(vdata(ps), jj) != p),
                        patterns=[z3.Select(vdata(ps), jj)])])
    return out
