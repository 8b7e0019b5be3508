"""C18: text form of boxes and events: fields separated by single spaces in the
documented order, read back in the same order into the same parts."""
from .common import *
from ..contract import Spec, same
from ..streams import *

P = "C18"
K = "kws::core::"
SPACE = tchr(z3.IntVal(32))


def put_field(t, name, idx, x):
    inf = rinfo(t)
    return inf.set(t, fname(t, name, idx), x)


def put_event(t, f):
    """t with its Event part replaced by f(part)"""
    inf = rinfo(t)
    if "@0" in inf.idx:
        return inf.set(t, "@0", put_event(inf.get(t, "@0"), f))
    return f(t)


def ekind(ty):
    """(kind, query type, location type) of an event class"""
    n = tname(ty)
    if n in (EVENT, SHAPED):
        return "event", ty.targs()[0].noref(), ty.targs()[1].noref()
    if n == SEVENT:
        k, q, l = ekind(ty.targs()[0].noref())
        return "scored", q, l
    return None, None, None


def known_kind(ty):
    ty = ty.noref()
    return ty.k in ("int", "float") or tname(ty) in ("std::basic_string", BOX, DBOX) or ekind(ty)[0]


def rd(S, ty, s, v):
    """(stream, value) after reading a value of this type over the value v"""
    ty = ty.noref()
    n = tname(ty)
    if n == "std::basic_string":
        return IS_STR(s), IS_STRV(s, v)
    if ty.k in ("int", "float"):
        fns = num_fns(num_kind(ty), S.sort(ty))
        return fns[3](s), fns[4](s, v)
    if n == BOX:
        t = ty.targs()[0]
        for i, m in enumerate("xywh"):
            s, x = rd(S, t, s, F(v, m, i))
            v = put_field(v, m, i, x)
        return s, v
    if n == DBOX:
        s, d = IS_STR(s), IS_STRV(s, doc(v))
        v = put_field(v, "document", 0, d)
        b = box_of(v)
        for i, m in enumerate("xywh"):
            s, x = rd(S, ty.targs()[0], s, F(b, m, i))
            b = put_field(b, m, i, x)
        return s, rinfo(v).set(v, "@0", b)
    k, q, l = ekind(ty)
    if k is None:
        raise Unsupported("no text form for " + ty.s)
    s, x = rd(S, q, s, query(v))
    v = put_event(v, lambda e: put_field(e, "query_", 0, x))
    s, y = rd(S, l, s, location(v))
    v = put_event(v, lambda e: put_field(e, "location_", 1, y))
    if k == "scored":
        s, z = rd(S, float_ty(S.tu), s, score(v))
        v = put_field(v, "score_", 0, z)
    return s, v


def float_ty(tu):
    return next(t for t in tu.types if t.k == "float" and t.key == "float")


def parts(ty, v):
    """the fields of a value in the documented order, as (type, value)"""
    ty = ty.noref()
    n = tname(ty)
    if n == BOX:
        return [(ty.targs()[0], x) for x in bx(v)]
    if n == DBOX:
        return [("str", doc(v))] + [(ty.targs()[0], x) for x in bx(v)]
    if n == "std::basic_string":
        return [("str", v)]
    if ty.k in ("int", "float"):
        return [(ty, v)]
    k, q, l = ekind(ty)
    if k is None:
        raise Unsupported("no text form for " + ty.s)
    out = parts(q, query(v)) + parts(l, location(v))
    if k == "scored":
        out.append(("float", score(v)))
    return out


def tok_of(ty, x, os):
    if ty == "str":
        return tstr(x)
    if ty == "float" or ty.k == "float":
        return treal(OS.get(os, "fmt"), OS.get(os, "prec"), x)
    return tint(x)


def text_toks(ty, v, os):
    out = []
    for i, (t, x) in enumerate(parts(ty, v)):
        if i:
            out.append(SPACE)
        out.append(tok_of(t, x, os))
    return out


def specs(tu, S):
    out = []

    def mine(tu, f):
        return bool(known_kind(tu.ty(f["params"][1]["t"])))

    def rd_post(v):
        s, x = rd(v.S, v.ty('obj'), v['is'], v['obj'])
        return [("every field read goes to its part", Implies(
            Not(IS.get(v.new['is'], "fail")), same(v.new['obj'], x)))]
    out.append(Spec(K + "operator>>", ["is", "obj"], P, when=mine, mod=["obj"], post=rd_post,
                    val=lambda v: {"is": rd(v.S, v.ty('obj'), v['is'], v['obj'])[0]}, ret="is",
                    doc="reads the fields in the documented order into their parts"))

    def wr_post(v):
        a, b = v['os'], v.new['os']
        return [("fields in the documented order, separated by single spaces", same(
            OS.get(b, "out"), push_toks(OS.get(a, "out"), text_toks(v.ty('obj'), v['obj'], a))))] + [
            ("%s of the stream is kept" % n, OS.get(a, n) == OS.get(b, n))
            for n in ("fmt", "prec", "fail", "open", "exc", "file")]
    out.append(Spec(K + "operator<<", ["os", "obj"], P, when=mine, mod=["os"], post=wr_post, ret="os",
                    doc="writes the fields in the documented order"))
    return out


RND = z3.Function("printed", IntS, IntS, RealS, RealS)


def ext(a, b):
    """strings of equal length with equal characters are equal"""
    i = z3.Const("i!e", IntS)
    return Implies(And(s_len(a) == s_len(b), z3.ForAll([i], Implies(
        And(i >= 0, i < s_len(a)), s_at(a, i) == s_at(b, i)))), a == b)


def word_at(text, p, e, x):
    """text[p,e) is the word x, followed by a blank or the end"""
    i = z3.Const("i!l", IntS)
    return [s_len(x) > 0, e == p + s_len(x), p >= 0, e <= s_len(text),
            z3.ForAll([i], Implies(And(i >= 0, i < s_len(x)), Not(is_space(s_at(x, i)))),
                      patterns=[s_at(x, i)]),
            z3.ForAll([i], Implies(And(i >= p, i < e), s_at(text, i) == s_at(x, i - p)),
                      patterns=[s_at(text, i)]),
            Implies(e < s_len(text), s_at(text, e) == 32)]


def word_read(text, p, e, x):
    """a word is found where it starts and at the blank before it"""
    return And(WSE(text, p) == p, TOKE(text, p) == e, s_sub(text, p, e - p) == x,
               Implies(And(p > 0, s_at(text, p - 1) == 32), WSE(text, p - 1) == p))


def num_found(text, p):
    """a number is found where it starts and at the blank before it"""
    return And(WSE(text, p) == p, Implies(And(p > 0, s_at(text, p - 1) == 32), WSE(text, p - 1) == p))


def layout(S, tu, ps, os, text):
    """the text consists of the texts of the fields with a space between them (facts about
    words and numbers are the instances of the two lemmas)"""
    out, pos = [], z3.IntVal(0)
    for k, (t, x) in enumerate(ps):
        e = z3.Int("e%d" % k)
        last = k == len(ps) - 1
        out += [e > pos, e == s_len(text) if last else And(e < s_len(text), s_at(text, e) == 32)]
        if t == "str":
            out += [word_read(text, pos, e, x)]
        else:
            ty = float_ty(tu) if t == "float" else t
            fns = num_fns(num_kind(ty), S.sort(ty))
            want = RND(OS.get(os, "fmt"), OS.get(os, "prec"), x) if ty.k == "float" else x
            out += [fns[0](text, pos), fns[1](text, pos) == e, fns[2](text, pos) == want,
                    num_found(text, pos)]
        pos = e + 1
    return out


def theorems(tu, S):
    out = []
    text, x = z3.Consts("text x", Str)
    p, e = z3.Ints("p e")
    os = z3.Const("os", OS.sort)
    out.append((P, "lemma: a word followed by a blank or the end is read as it is",
                word_at(text, p, e, x) + [ext(s_sub(text, p, e - p), x), WSE(text, p - 1) >= p - 1,
                                          s_at(text, p) == s_at(text, p), s_at(x, z3.IntVal(0)) < 256],
                word_read(text, p, e, x)))
    for kd in sorted({num_kind(t) for t in tu.types if t.k == "float" and t.key != "long double"
                      or t.k == "int" and not t.char and t.w in (32, 64)}):
        srt = RealS if not kd[1:].isdigit() else IntS
        ok = num_fns(kd, srt)[0]
        out.append((P, "lemma: a number is found where it starts (%s)" % kd, [
            ok(text, p), p >= 0, p <= s_len(text)], num_found(text, p)))
    for ty in sorted(tu.rec_by_key.values(), key=lambda t: t.key):
        if not known_kind(ty):
            continue
        try:
            v, v0 = z3.Const("v", S.sort(ty)), z3.Const("v0", S.sort(ty))
            ps = parts(ty, v)
            if len(ps) < 2 or any(t not in ("str", "float") and t.noref().k not in ("int", "float")
                                  for t, x in ps):
                continue
            s, x = rd(S, ty, is_of(text), v0)
        except (Unsupported, StopIteration):
            continue
        goals = [Not(IS.get(s, "fail")), IS.get(s, "pos") == s_len(text)]
        for (t, a), (_, b) in zip(parts(ty, v), parts(ty, x)):
            if t == "float" or t != "str" and t.k == "float":
                a = RND(OS.get(os, "fmt"), OS.get(os, "prec"), a)
            goals.append(b == a)
        out.append((P, "reading back what was written: " + key_short(ty.key),
                    layout(S, tu, ps, os, text), And(goals)))
    return out
