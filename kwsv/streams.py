"""Model of the standard streams: what each operation does to the text position and
the state bits (input), and which tokens are written (output).

Input operations are functions of the whole stream state; their definitions are
instantiated on demand (UNFOLD), so terms stay small and code and contract meet in
the same functions.  Number syntax is not modelled: RDOK/RDEND/RDVAL say whether,
how far and as what the C++ library reads a number at a position of a text.
"""
import z3
from .tu import Unsupported
from .terms import *
from .prover import unfolds, UNFOLD
from .engine import LV, CondLV, FnRef, Lit, Obj
from .std import StdEngine, vconcat, strip_std

LVS = (LV, CondLV)
I0 = z3.IntVal(0)


def is_space(c):
    return Or(c == 32, And(c >= 9, c <= 13))


# ------------------------------------------------------------------ texts
WSE = z3.Function("WSE", Str, IntS, IntS)        # first non-blank at or after a position
TOKE = z3.Function("TOKE", Str, IntS, IntS)      # first blank at or after a position
LNE = z3.Function("LNE", Str, IntS, IntS, IntS)  # first delimiter at or after a position


def _scan(fn, stop):
    def facts(t, p, *d):
        e, n = fn(t, p, *d), s_len(t)
        i = z3.Const("i!w", IntS)
        inr = And(p >= 0, p <= n)
        return [Implies(inr, And(e >= p, e <= n)),
                Implies(And(inr, e < n), stop(s_at(t, e), *d)),
                z3.ForAll([i], Implies(And(p >= 0, i >= p, i < e), Not(stop(s_at(t, i), *d))),
                          patterns=[s_at(t, i)])]
    UNFOLD[fn.name()] = facts


_scan(WSE, lambda c: Not(is_space(c)))
_scan(TOKE, is_space)
_scan(LNE, lambda c, d: c == d)

# ---------------------------------------------------------------- numbers
_num = {}


def num_kind(ty):
    """name of an arithmetic type as far as reading is concerned"""
    ty = ty.noref()
    if ty.k == "float":
        return ty.key
    if ty.k == "int" and not ty.char:
        return "%s%d" % ("i" if ty.sg else "u", ty.w)
    raise Unsupported("reading of a value of type " + ty.s)


def num_fns(kind, sort):
    """(RDOK, RDEND, RDVAL, STATE, VALUE) of a number type"""
    if kind not in _num:
        lo = hi = None
        if kind[1:].isdigit():
            w = int(kind[1:])
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if kind[0] == "i" else (0, 2 ** w - 1)
        ok = z3.Function("RDOK!" + kind, Str, IntS, BoolS)
        end = z3.Function("RDEND!" + kind, Str, IntS, IntS)
        val = z3.Function("RDVAL!" + kind, Str, IntS, sort)

        def end_facts(t, p):
            e = end(t, p)
            return [Implies(And(p >= 0, p <= s_len(t)), And(e >= p, e <= s_len(t)))]

        def ok_facts(t, p):
            i = z3.Const("i!n", IntS)
            return [Implies(And(ok(t, p), p >= 0, p <= s_len(t)),
                            And(end(t, p) > p, Not(is_space(s_at(t, p))))),
                    z3.ForAll([i], Implies(And(ok(t, p), i >= p, i < end(t, p)),
                                           Not(is_space(s_at(t, i)))), patterns=[s_at(t, i)])]

        def val_facts(t, p):
            return [And(val(t, p) >= lo, val(t, p) <= hi)] if lo is not None else []
        UNFOLD["RDEND!" + kind] = end_facts
        UNFOLD["RDOK!" + kind] = ok_facts
        UNFOLD["RDVAL!" + kind] = val_facts
        state = z3.Function("IS_NUM!" + kind, IS.sort, IS.sort)
        value = z3.Function("IS_NUMV!" + kind, IS.sort, sort, sort)

        def st_facts(s):
            r = state(s)
            text, pos, fail, eof, op, nsk = IS.fields(s)
            good, start, atend = sentry(s)
            e = end(text, start)
            return [r == IS.mk(text,
                               ite(good, ite(atend, s_len(text), e), pos),
                               Or(fail, eof, atend, Not(ok(text, start))),
                               Or(eof, And(good, Or(atend, e == s_len(text)))), op, nsk)]

        def v_facts(s, old):
            good, start, atend = sentry(s)
            return [value(s, old) == ite(And(good, Not(atend)), val(IS.get(s, "text"), start), old)]
        UNFOLD["IS_NUM!" + kind] = st_facts
        UNFOLD["IS_NUMV!" + kind] = v_facts
        _num[kind] = (ok, end, val, state, value)
    return _num[kind]


def sentry(s):
    """(stream usable, where extraction starts, nothing left)"""
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    start = ite(nsk, pos, WSE(text, pos))
    return good, start, And(Not(nsk), start == s_len(text))


# ------------------------------------------------------------- operations
IS_WS = z3.Function("IS_WS", IS.sort, IS.sort)
IS_STR = z3.Function("IS_STR", IS.sort, IS.sort)
IS_STRV = z3.Function("IS_STRV", IS.sort, Str, Str)
IS_LINE = z3.Function("IS_LINE", IS.sort, IntS, IS.sort)
IS_LINEV = z3.Function("IS_LINEV", IS.sort, IntS, Str, Str)
IS_PEEK = z3.Function("IS_PEEK", IS.sort, IS.sort)
IS_PEEKV = z3.Function("IS_PEEKV", IS.sort, IntS)
IS_GET = z3.Function("IS_GET", IS.sort, IS.sort)
IS_CHR = z3.Function("IS_CHR", IS.sort, IS.sort)
IS_CHRV = z3.Function("IS_CHRV", IS.sort, IntS, IntS)


def uchar(c):
    return ite(c < 0, c + 256, c)


@unfolds("IS_WS")
def _ws(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    w = WSE(text, pos)
    return [IS_WS(s) == IS.mk(text, ite(good, w, pos), Or(fail, eof),
                              Or(eof, And(good, w == s_len(text))), op, nsk)]


@unfolds("IS_STR")
def _str(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good, start, atend = sentry(s)
    e = TOKE(text, start)
    return [IS_STR(s) == IS.mk(text, ite(good, ite(atend, s_len(text), e), pos),
                               Or(fail, eof, atend, e == start),
                               Or(eof, And(good, Or(atend, e == s_len(text)))), op, nsk)]


@unfolds("IS_STRV")
def _strv(s, old):
    good, start, atend = sentry(s)
    text = IS.get(s, "text")
    return [IS_STRV(s, old) == ite(And(good, Not(atend)),
                                   s_sub(text, start, TOKE(text, start) - start), old)]


@unfolds("IS_LINE")
def _line(s, d):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    e, n = LNE(text, pos, d), s_len(text)
    return [IS_LINE(s, d) == IS.mk(text, ite(good, ite(e < n, e + 1, n), pos),
                                   Or(fail, eof, pos == n), Or(eof, And(good, e == n)), op, nsk)]


@unfolds("IS_LINEV")
def _linev(s, d, old):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    return [IS_LINEV(s, d, old) == ite(good, s_sub(text, pos, LNE(text, pos, d) - pos), old)]


@unfolds("IS_PEEK")
def _peek(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    return [IS_PEEK(s) == IS.mk(text, pos, Or(fail, eof),
                                Or(eof, And(good, pos == s_len(text))), op, nsk)]


@unfolds("IS_PEEKV")
def _peekv(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    c = s_at(text, pos)
    return [And(c >= -128, c < 128),
            IS_PEEKV(s) == ite(And(good, pos < s_len(text)), uchar(c), z3.IntVal(-1))]


@unfolds("IS_GET")
def _get(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good = And(Not(fail), Not(eof))
    end = pos == s_len(text)
    return [IS_GET(s) == IS.mk(text, ite(And(good, Not(end)), pos + 1, pos),
                               Or(fail, eof, end), Or(eof, And(good, end)), op, nsk)]


@unfolds("IS_CHR")
def _chr(s):
    text, pos, fail, eof, op, nsk = IS.fields(s)
    good, start, atend = sentry(s)
    end = start == s_len(text)
    return [IS_CHR(s) == IS.mk(text, ite(good, ite(end, start, start + 1), pos),
                               Or(fail, eof, end), Or(eof, And(good, end)), op, nsk)]


@unfolds("IS_CHRV")
def _chrv(s, old):
    text = IS.get(s, "text")
    good, start, atend = sentry(s)
    return [IS_CHRV(s, old) == ite(And(good, start < s_len(text)), s_at(text, start), old)]


def is_facts(s):
    text, pos = IS.get(s, "text"), IS.get(s, "pos")
    return And(pos >= 0, pos <= s_len(text), s_len(text) < 2 ** 63)


def is_of(text):
    """a stream that is about to read this text"""
    return IS.mk(text, I0, T(False), T(False), T(True), T(False))


# ------------------------------------------------------------------ files
CAN_READ = z3.Function("CAN_READ", Str, BoolS)    # the file can be opened for reading
CONTENT = z3.Function("CONTENT", Str, Str)        # its text
CAN_WRITE = z3.Function("CAN_WRITE", Str, BoolS)  # the file can be opened for writing
TVec = VecI(Tok)
toks_str = z3.Function("toks_str", TVec.sort, Str)
OSS_EMPTY = TVec.empty
NOINTS = z3.K(IntS, T(False))


def os_new(open=False, fail=False, file=""):
    return OS.mk(OSS_EMPTY, I0, z3.IntVal(6), T(fail), T(open), T(False), lit(file), NOINTS)


def toks_of(x):
    """tokens of a string value"""
    txt = lit_text(x)
    if txt is not None:
        return [tchr(z3.IntVal(ord(c))) for c in txt]
    if z3.is_app(x) and x.decl().name() == "s_cat":
        return toks_of(x.arg(0)) + toks_of(x.arg(1))
    if z3.is_app(x) and x.decl().name() == "s_of_int":
        return [tint(x.arg(0))]
    return [tstr(x)]


def push_toks(v, toks):
    for t in toks:
        if isinstance(t, tuple):
            v = vconcat(v, t[0])
        else:
            v = vpush(v, t)
    return v


class _GTy:
    """type of a ghost variable"""
    def __init__(self, s, n):
        self.s = self.key = s
        self.k, self.name, self.rid, self.char, self.repo = "rec", n, None, False, False
        self.isref, self.to, self.args, self.lam, self.const = False, None, [], None, False

    def noref(self):
        return self

    def targs(self):
        return []


GHOST_TY = {"fs": _GTy("ghost files", "ghost"),
            "cout": _GTy("std::ostream", "std::basic_ostream"),
            "cerr": _GTy("std::ostream", "std::basic_ostream"),
            "cin": _GTy("std::istream", "std::basic_istream")}


class StreamEngine(StdEngine):
    ghost_tys = {}

    # ------------------------------------------------------------- ghosts
    def ghost(self, n):
        """location of a program-wide object: files, cout, cerr, cin"""
        if n == "fs":
            if "fs" not in self.globals:
                self.globals["fs"] = self.heap_loc(z3.Const("global!fs", FS.sort), GHOST_TY["fs"],
                                                   "files")
            return self.globals["fs"]
        g = self.ghost_tys.get(n)
        if g is not None:
            if n not in self.globals:
                self.globals[n] = self.heap_loc(z3.Const("global!" + n, g), _GTy("ghost", "ghost"), n)
            return self.globals[n]
        return self.global_loc(None, "std::" + n, GHOST_TY[n])

    def type_fact(self, ty, t):
        if z3.is_expr(t) and t.sort() == IS.sort:
            if t.get_id() not in self.ranged:
                self.ranged.add(t.get_id())
                self._keep_range = getattr(self, "_keep_range", [])
                self._keep_range.append(t)
                self.fact(is_facts(t))
            return
        StdEngine.type_fact(self, ty, t)

    def is_diag(self, lv):
        return isinstance(lv, LV) and any(
            q in self.globals and self.globals[q].loc == lv.loc for q in ("std::cerr", "std::clog"))

    def is_ofile(self, lv):
        if not isinstance(lv, LV) or lv.path:
            return False
        return (self.locmeta[lv.loc][1].noref().name or "") == "std::basic_ofstream"

    def write(self, st, lv, nv):
        StdEngine.write(self, st, lv, nv)
        if z3.is_expr(nv) and nv.sort() == OS.sort and self.is_ofile(lv):
            # the contents of the open file follow the stream
            fs = self.ghost("fs")
            old = self.read(st, fs)
            op, name, out = OS.get(nv, "open"), OS.get(nv, "file"), OS.get(nv, "out")
            new = FS.mk(z3.Store(FS.get(old, 0), name, T(True)), z3.Store(FS.get(old, 1), name, out))
            StdEngine.write(self, st, fs, ite(op, new, old))

    # --------------------------------------------------------- construction
    def stream_construct(self, e, t, n, st, fr):
        a = [x for x in e["args"] if not (self.tu.ty(x["t"]).name or "").startswith("std::allocator")]
        if n == "std::basic_istringstream":
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            s = next((v for v in vs if z3.is_expr(v) and v.sort() == Str), lit(""))
            return is_of(s)
        if n == "std::basic_ostringstream":
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            if any(z3.is_expr(v) and v.sort() == Str for v in vs):
                raise Unsupported("string stream with initial contents")
            return os_new()
        if n == "std::basic_ifstream":
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            s = next((v for v in vs if z3.is_expr(v) and v.sort() == Str), None)
            if s is None:
                return IS.mk(lit(""), I0, T(False), T(False), T(False), T(False))
            return self.ifile(s, vs[1:])
        if n == "std::basic_ofstream":
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            s = next((v for v in vs if z3.is_expr(v) and v.sort() == Str), None)
            if s is None:
                return os_new()
            self.omode(vs[1:])
            c = CAN_WRITE(s)
            return OS.mk(OSS_EMPTY, I0, z3.IntVal(6), Not(c), c, T(False), s, NOINTS)
        return None

    def ifile(self, name, rest):
        for m in rest:
            if z3.is_expr(m) and m.sort() == IntS and num(m) not in (8, 8 | 4):
                raise Unsupported("input file opened with other flags")
        self.note("a file that is read keeps its contents while it is read (CONTENT)")
        c = CAN_READ(name)
        return IS.mk(ite(c, CONTENT(name), lit("")), I0, Not(c), T(False), c, T(False))

    def omode(self, rest):
        for m in rest:
            if z3.is_expr(m) and m.sort() == IntS and num(m) not in (16, 16 | 32, 16 | 4, 32 | 16 | 4):
                raise Unsupported("output file opened with other flags")
        self.note("writing to a file that was opened for writing succeeds (no full disk)")

    # ----------------------------------------------------------- functions
    def stream_lv(self, e, st, fr):
        v = self.ev(e, st, fr)
        if isinstance(v, LVS):
            return v
        return self.new_loc(st, v, self.tu.ty(e["t"]), "tmp")

    def stream_function(self, e, f, q, st, fr):
        args = e["args"]
        if q == "std::getline":
            lv = self.stream_lv(args[0], st, fr)
            dst = self.lval(args[1], st, fr)
            d = self.val(self.ev(args[2], st, fr), st) if len(args) > 2 else z3.IntVal(10)
            s = self.read(st, lv)
            self.type_fact(None, s)
            old = self.read(st, dst)
            n = IS_LINE(s, d)
            self.type_fact(None, n)
            self.write(st, lv, n)
            self.write(st, dst, IS_LINEV(s, d, old))
            return lv
        if q in ("std::ws", "std::skipws", "std::noskipws"):
            lv = self.stream_lv(args[0], st, fr)
            self.imanip(st, lv, q)
            return lv
        if q in ("std::endl", "std::flush", "std::scientific", "std::fixed", "std::defaultfloat"):
            lv = self.stream_lv(args[0], st, fr)
            self.omanip(st, lv, q)
            return lv
        if q == "std::operator>>":
            lv = self.stream_lv(args[0], st, fr)
            s = self.read(st, lv)
            if not (z3.is_expr(s) and s.sort() == IS.sort):
                return NotImplemented
            dst = self.ev(args[1], st, fr)
            if not isinstance(dst, LVS):
                return NotImplemented
            old = self.read(st, dst)
            self.type_fact(None, s)
            if old.sort() == Str:
                n, x = IS_STR(s), IS_STRV(s, old)
            elif dst.ty.noref().k == "int" and dst.ty.noref().char:
                n, x = IS_CHR(s), IS_CHRV(s, old)
            else:
                return NotImplemented
            self.type_fact(None, n)
            self.write(st, lv, n)
            self.write(st, dst, x)
            return lv
        if q == "std::operator<<":
            lv = self.stream_lv(args[0], st, fr)
            s = self.read(st, lv)
            if not (z3.is_expr(s) and s.sort() == OS.sort):
                return NotImplemented
            v = self.val(self.ev(args[1], st, fr), st)
            if isinstance(v, Obj) and v.name == "std::setprecision":
                self.write(st, lv, OS.set(s, "prec", v.d["n"]))
                return lv
            if z3.is_expr(v) and v.sort() == Str:
                self.put_str(st, lv, v)
                return lv
            if z3.is_expr(v) and v.sort() == IntS:
                self.put(st, lv, [tchr(v)])
                return lv
            raise Unsupported("output of " + (v.name if isinstance(v, Obj) else str(type(v))))
        return NotImplemented

    def put_str(self, st, lv, v):
        if z3.is_app(v) and v.decl().name() == "toks_str":
            self.put(st, lv, [(v.arg(0),)])
        else:
            self.put(st, lv, toks_of(v))

    def put(self, st, lv, toks):
        s = self.read(st, lv)
        ints = OS.get(s, "ints")
        for t in toks:
            if not isinstance(t, tuple) and t.decl().eq(tint):
                ints = z3.Store(ints, t.arg(0), T(True))
        s2 = OS.set(s, "ints", ints)
        if not self.is_diag(lv):
            # messages on cerr: only the numbers in them are kept
            s2 = OS.set(s2, "out", push_toks(OS.get(s, "out"), toks))
            if self.is_ofile(lv):
                bad = self.known(st, Or(OS.get(s, "fail"), Not(OS.get(s, "open"))))
                self.do_throw(st, And(bad, OS.get(s, "exc")), "ios_base::failure")
                s2 = ite(bad, OS.set(s, "fail", T(True)), s2)
            else:
                self.note("writing to a stream that is not a file of the program's own succeeds")
        self.write(st, lv, s2)

    def known(self, st, c):
        """c, or its truth value if the path conditions contain it"""
        pcs = []
        for p in st.pc:
            pcs += p.children() if z3.is_and(p) else [p]

        def val(x):
            if z3.is_and(x):
                return And(*[val(y) for y in x.children()])
            if z3.is_or(x):
                return Or(*[val(y) for y in x.children()])
            if z3.is_not(x):
                return Not(val(x.arg(0)))
            for p in pcs:
                if p.eq(x):
                    return T(True)
                if p.eq(Not(x)):
                    return T(False)
            return x
        return val(c)

    def imanip(self, st, lv, q):
        s = self.read(st, lv)
        self.type_fact(None, s)
        if q == "std::ws":
            n = IS_WS(s)
            self.type_fact(None, n)
            self.write(st, lv, n)
        elif q == "std::noskipws":
            self.write(st, lv, IS.set(s, "noskip", T(True)))
        elif q == "std::skipws":
            self.write(st, lv, IS.set(s, "noskip", T(False)))
        elif q in ("std::dec",):
            pass
        else:
            raise Unsupported("input manipulator " + q)

    def omanip(self, st, lv, q):
        s = self.read(st, lv)
        if q == "std::endl":
            self.put(st, lv, [tchr(z3.IntVal(10))])
        elif q in ("std::flush", "std::dec"):
            pass
        elif q in ("std::scientific", "std::fixed", "std::defaultfloat"):
            k = {"std::scientific": 1, "std::fixed": 2, "std::defaultfloat": 0}[q]
            self.write(st, lv, OS.set(s, "fmt", z3.IntVal(k)))
        else:
            raise Unsupported("output manipulator " + q)

    # ------------------------------------------------------------- methods
    def stream_method(self, e, f, name, lv, v, st, fr):
        args = e["args"]
        if v.sort() == IS.sort:
            return self.is_method(e, f, name, lv, v, st, fr)
        if name == "operator<<":
            pt = self.tu.ty(f["ptypes"][0]).noref()
            a = self.ev(args[0], st, fr)
            if isinstance(a, FnRef):
                self.omanip(st, lv, strip_std(a.f["q"]))
                return lv
            x = self.val(a, st)
            s = self.read(st, lv)
            if pt.k == "bool":
                t = tint(ite(x, z3.IntVal(1), I0))
            elif pt.k == "int":
                t = tint(x)
            elif pt.k == "float":
                if pt.key == "long double":
                    raise Unsupported("output of long double")
                t = treal(OS.get(s, "fmt"), OS.get(s, "prec"), x)
            else:
                raise Unsupported("output of " + pt.s)
            self.put(st, lv, [t])
            return lv
        if name == "put":
            self.put(st, lv, [tchr(self.argv(e, st, fr)[0])])
            return lv
        if name == "flush":
            return lv
        if name == "str":
            if args:
                x = self.argv(e, st, fr)[0]
                if lit_text(x) != "":
                    raise Unsupported("string stream with initial contents")
                self.write(st, lv, OS.set(v, "out", OSS_EMPTY))
                return None
            return toks_str(OS.get(v, "out"))
        if name in ("fail", "bad", "operator!"):
            return OS.get(v, "fail")
        if name in ("operator bool", "good"):
            return Not(OS.get(v, "fail"))
        if name == "eof":
            return T(False)
        if name == "is_open":
            return OS.get(v, "open")
        if name == "precision" and args:
            self.write(st, lv, OS.set(v, "prec", self.argv(e, st, fr)[0]))
            return OS.get(v, "prec")
        if name == "precision":
            return OS.get(v, "prec")
        if name == "exceptions" and args:
            m = num(self.argv(e, st, fr)[0])
            if m is None:
                raise Unsupported("unknown exception mask")
            self.do_throw(st, And(OS.get(v, "fail"), T(bool(m & 4))), "ios_base::failure")
            self.write(st, lv, OS.set(v, "exc", T(bool(m & 4))))
            return None
        if name == "open":
            vs = self.argv(e, st, fr)
            nm = lit(vs[0].s) if isinstance(vs[0], Lit) else vs[0]
            self.omode(vs[1:])
            ok = And(CAN_WRITE(nm), Not(OS.get(v, "open")))
            self.do_throw(st, And(Not(ok), OS.get(v, "exc")), "ios_base::failure")
            new = OS.mk(OSS_EMPTY, OS.get(v, "fmt"), OS.get(v, "prec"), T(False), T(True),
                        OS.get(v, "exc"), nm, NOINTS)
            ok = T(True) if z3.is_true(OS.get(v, "exc")) else ok
            self.write(st, lv, ite(ok, new, OS.set(v, "fail", T(True))))
            return None
        if name == "close":
            op = OS.get(v, "open")
            self.do_throw(st, And(Not(op), OS.get(v, "exc")), "ios_base::failure")
            StdEngine.write(self, st, lv, ite(op, OS.set(v, "open", T(False)), OS.set(v, "fail", T(True))))
            return None
        raise Unsupported("stream method " + name)

    def is_method(self, e, f, name, lv, v, st, fr):
        args = e["args"]
        self.type_fact(None, v)
        if name == "operator>>":
            a = self.ev(args[0], st, fr)
            if isinstance(a, FnRef):
                self.imanip(st, lv, strip_std(a.f["q"]))
                return lv
            if not isinstance(a, LVS):
                raise Unsupported("extraction into a temporary")
            ty = self.tu.ty(f["ptypes"][0]).noref()
            if ty.k == "bool":
                raise Unsupported("reading of a bool")
            old = self.read(st, a)
            fns = num_fns(num_kind(ty), self.S.sort(ty))
            n, x = fns[3](v), fns[4](v, old)
            self.type_fact(None, n)
            self.write(st, lv, n)
            self.type_fact(ty, x)
            self.write(st, a, x)
            return lv
        if name == "peek":
            n = IS_PEEK(v)
            self.type_fact(None, n)
            self.write(st, lv, n)
            return IS_PEEKV(v)
        if name == "get":
            if not args:
                n = IS_GET(v)
                self.type_fact(None, n)
                self.write(st, lv, n)
                return IS_PEEKV(v)
            raise Unsupported("get with arguments")
        if name in ("fail", "operator!"):
            return IS.get(v, "fail")
        if name == "bad":
            return T(False)
        if name == "operator bool":
            return Not(IS.get(v, "fail"))
        if name == "good":
            return And(Not(IS.get(v, "fail")), Not(IS.get(v, "eof")))
        if name == "eof":
            return IS.get(v, "eof")
        if name == "is_open":
            return IS.get(v, "open")
        if name == "clear" and (not args or args[0].get("k") == "defarg"):
            self.write(st, lv, IS.set(IS.set(v, "fail", T(False)), "eof", T(False)))
            return None
        if name == "str":
            if args:
                self.write(st, lv, IS.set(IS.set(v, "text", self.argv(e, st, fr)[0]), "pos", I0))
                return None
            return IS.get(v, "text")
        if name == "open":
            vs = self.argv(e, st, fr)
            nm = lit(vs[0].s) if isinstance(vs[0], Lit) else vs[0]
            self.write(st, lv, ite(IS.get(v, "open"), IS.set(v, "fail", T(True)),
                                   self.ifile(nm, vs[1:])))
            return None
        if name == "close":
            op = IS.get(v, "open")
            self.write(st, lv, ite(op, IS.set(v, "open", T(False)), IS.set(v, "fail", T(True))))
            return None
        raise Unsupported("stream method " + name)
