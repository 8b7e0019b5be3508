"""z3 sorts for C++ types and simplifying constructors/selectors.

Every C++ value that can live in a container is one z3 term:
  bool/int/enum -> Bool/Int, float/double -> Real, std::string -> Str,
  class -> one-constructor datatype (base subobjects are fields "@0", ...),
  vector/list -> Vec(len, data), set -> Array(T,Bool), map -> Map(dom, val),
  unique_ptr -> Opt, pair -> Pair, pointer in a field -> Ptr.
"""
import z3
from .tu import Unsupported, strip_targs

Str = z3.DeclareSort("Str")
PtrS = z3.DeclareSort("Ptr")
Rng = z3.DeclareSort("Rng")
NULLP = z3.Const("nullptr!", PtrS)
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()

_cnt = [0]


def fresh(name, sort):
    _cnt[0] += 1
    return z3.Const("%s!%d" % (name, _cnt[0]), sort)


_keep = []
_acc_cache = {}


def T(b):
    return z3.BoolVal(b)


def is_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
    return z3.If(c, a, b)


def Not(c):
    if z3.is_true(c):
        return T(False)
    if z3.is_false(c):
        return T(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return x
        if any(x.eq(y) for y in out):
            continue
        out.append(x)
    if not out:
        return T(True)
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return x
        if any(x.eq(y) for y in out):
            continue
        out.append(x)
    if not out:
        return T(False)
    return out[0] if len(out) == 1 else z3.Or(out)


def Implies(a, b):
    if z3.is_true(a) or z3.is_true(b):
        return b
    if z3.is_false(a):
        return T(True)
    return z3.Implies(a, b)


def num(t):
    """python value of a numeral term, or None"""
    if z3.is_int_value(t):
        return t.as_long()
    return None


def Eq(a, b):
    if a.eq(b):
        return T(True)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return T(a.as_long() == b.as_long())
    if z3.is_bool(a):
        if z3.is_true(b):
            return a
        if z3.is_true(a):
            return b
        if z3.is_false(b):
            return Not(a)
        if z3.is_false(a):
            return Not(b)
    return a == b


def Add(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    # (x + c1) + c2
    if z3.is_int_value(b) and z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 \
            and z3.is_int_value(a.arg(1)):
        return Add(a.arg(0), z3.IntVal(a.arg(1).as_long() + b.as_long()))
    return a + b


def Sub(a, b):
    if z3.is_int_value(b):
        return Add(a, z3.IntVal(-b.as_long()))
    if a.eq(b) and a.sort() == IntS:
        return z3.IntVal(0)
    return a - b


class Info:
    """a one-constructor datatype"""

    def __init__(self, name, fields):
        d = z3.Datatype(name)
        self.names = [f[0] for f in fields]
        d.declare("mk_" + name, *[("%s.%s" % (name, n), s) for n, s in fields])
        self.sort = d.create()
        self.ctor = self.sort.constructor(0)
        self.accs = [self.sort.accessor(0, i) for i in range(len(fields))]
        self.idx = {n: i for i, n in enumerate(self.names)}

    def mk(self, *args):
        # mk(acc0 t, acc1 t, ...) = t
        if args and all(z3.is_app(a) and a.num_args() == 1 and a.decl().eq(acc)
                        for a, acc in zip(args, self.accs)):
            t = args[0].arg(0)
            if all(a.arg(0).eq(t) for a in args):
                return t
        return self.ctor(*args)

    def get(self, t, n):
        i = n if isinstance(n, int) else self.idx[n]
        key = (self.accs[i].get_id(), t.get_id())
        r = _acc_cache.get(key)
        if r is not None:
            return r[1]
        if z3.is_app(t) and t.decl().eq(self.ctor):
            v = t.arg(i)
        elif is_ite(t):
            v = ite(t.arg(0), self.get(t.arg(1), i), self.get(t.arg(2), i))
        else:
            v = self.accs[i](t)
        _acc_cache[key] = (t, v)
        return v

    def set(self, t, n, v):
        i = n if isinstance(n, int) else self.idx[n]
        args = [self.get(t, j) for j in range(len(self.names))]
        args[i] = v
        return self.mk(*args)

    def fields(self, t):
        return [self.get(t, j) for j in range(len(self.names))]


def select(a, i):
    """array select with store simplification"""
    while True:
        if z3.is_store(a):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j):
                a = a.arg(0)
                continue
        if z3.is_K(a):
            return a.arg(0)
        if is_ite(a):
            return ite(a.arg(0), select(a.arg(1), i), select(a.arg(2), i))
        return z3.Select(a, i)


class OptInfo:
    def __init__(self, name, elem):
        d = z3.Datatype(name)
        d.declare("none_" + name)
        d.declare("some_" + name, ("%s.val" % name, elem))
        self.sort = d.create()
        self.none = self.sort.constructor(0)()
        self.some_c = self.sort.constructor(1)
        self.val_a = self.sort.accessor(1, 0)
        self.elem = elem
        self.is_none = self.sort.recognizer(0)
        self.is_some = self.sort.recognizer(1)

    def some(self, v):
        return self.some_c(v)

    def has(self, t):
        if t.eq(self.none):
            return T(False)
        if z3.is_app(t) and t.decl().eq(self.some_c):
            return T(True)
        if is_ite(t):
            return ite(t.arg(0), self.has(t.arg(1)), self.has(t.arg(2)))
        return self.is_some(t)

    def val(self, t):
        if z3.is_app(t) and t.decl().eq(self.some_c):
            return t.arg(0)
        if is_ite(t):
            if t.arg(1).eq(self.none):
                return self.val(t.arg(2))
            if t.arg(2).eq(self.none):
                return self.val(t.arg(1))
            return ite(t.arg(0), self.val(t.arg(1)), self.val(t.arg(2)))
        return self.val_a(t)


_vecs = {}
_opts = {}
_maps = {}
_pairs = {}
_by_sort = {}


def sname(s):
    return s.name() if s.kind() != z3.Z3_ARRAY_SORT else \
        "Set(%s)" % sname(s.domain())


def VecI(elem):
    n = "Vec<%s>" % sname(elem)
    if n not in _vecs:
        inf = Info(n, [("len", IntS), ("data", z3.ArraySort(IntS, elem))])
        inf.elem = elem
        inf.dflt = z3.Const("dflt!" + n, elem)
        inf.empty = inf.mk(z3.IntVal(0), z3.K(IntS, inf.dflt))
        _vecs[n] = inf
        _by_sort[inf.sort.name()] = ("vec", inf)
    return _vecs[n]


def OptI(elem):
    n = "Opt<%s>" % sname(elem)
    if n not in _opts:
        _opts[n] = OptInfo(n, elem)
        _by_sort[n] = ("opt", _opts[n])
    return _opts[n]


def MapI(k, v):
    n = "Map<%s,%s>" % (sname(k), sname(v))
    if n not in _maps:
        inf = Info(n, [("dom", z3.ArraySort(k, BoolS)), ("val", z3.ArraySort(k, v))])
        inf.ks, inf.vs = k, v
        inf.dflt = z3.Const("dflt!" + n, v)
        inf.empty = inf.mk(z3.K(k, T(False)), z3.K(k, inf.dflt))
        _maps[n] = inf
        _by_sort[n] = ("map", inf)
    return _maps[n]


def PairI(*ss):
    n = "Pair<%s>" % ",".join(sname(s) for s in ss)
    if n not in _pairs:
        names = ["first", "second"] if len(ss) == 2 else ["e%d" % i for i in range(len(ss))]
        inf = Info(n, list(zip(names, ss)))
        _pairs[n] = inf
        _by_sort[n] = ("pair", inf)
    return _pairs[n]


def info(sort):
    """('vec'|'opt'|'map'|'pair'|'rec'|'is'|'os', Info) of a datatype sort"""
    if sort.kind() != z3.Z3_DATATYPE_SORT:
        return (None, None)
    return _by_sort.get(sort.name(), (None, None))


def vi(v):
    k, i = info(v.sort())
    if k != "vec":
        raise Unsupported("vector expected, got %s" % v.sort())
    return i


def vlen(v):
    return vi(v).get(v, 0)


def vdata(v):
    return vi(v).get(v, 1)


def vget(v, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    return select(vdata(v), i)


def vpush(v, x):
    inf = vi(v)
    n = inf.get(v, 0)
    return inf.mk(Add(n, z3.IntVal(1)), z3.Store(inf.get(v, 1), n, x))


def vset(v, i, x):
    inf = vi(v)
    return inf.mk(inf.get(v, 0), z3.Store(inf.get(v, 1), i, x))


# --- streams --------------------------------------------------------------
# input stream: the text, the position of the next character, and the state bits
IS = Info("IStream", [("text", Str), ("pos", IntS), ("fail", BoolS), ("eof", BoolS),
                      ("open", BoolS), ("noskip", BoolS)])
_by_sort["IStream"] = ("is", IS)


def _tok():
    d = z3.Datatype("Tok")
    d.declare("tchr", ("tchr.c", IntS))
    d.declare("tstr", ("tstr.s", Str))
    d.declare("tint", ("tint.i", IntS))
    d.declare("treal", ("treal.fmt", IntS), ("treal.prec", IntS), ("treal.v", RealS))
    return d.create()


# what is written: characters, string values, integers, reals (with their format)
Tok = _tok()
tchr, tstr, tint, treal = [Tok.constructor(i) for i in range(4)]
# output stream: what was written, number format, state, integers written (ghost)
OS = Info("OStream", [("out", VecI(Tok).sort), ("fmt", IntS), ("prec", IntS), ("fail", BoolS),
                      ("open", BoolS), ("exc", BoolS), ("file", Str),
                      ("ints", z3.ArraySort(IntS, BoolS))])
_by_sort["OStream"] = ("os", OS)
# files written by the program: name -> contents (ghost)
FS = MapI(Str, VecI(Tok).sort)
# uniform_int_distribution
DIST = Info("UniformDist", [("lo", IntS), ("hi", IntS)])
_by_sort["UniformDist"] = ("rec", DIST)

# --- strings ---------------------------------------------------------------
s_len = z3.Function("s_len", Str, IntS)
s_at = z3.Function("s_at", Str, IntS, IntS)
s_rank = z3.Function("s_rank", Str, RealS)
s_unrank = z3.Function("s_unrank", RealS, Str)
s_cat = z3.Function("s_cat", Str, Str, Str)
s_sub = z3.Function("s_sub", Str, IntS, IntS, Str)
LITS = {}


def lit(s):
    """the std::string constant with these characters"""
    t = LITS.get(s)
    if t is None:
        t = z3.Const("lit!" + repr(s), Str)
        LITS[s] = t
    return t


LIT_OF = None


def lit_text(t):
    if z3.is_const(t) and t.decl().name().startswith("lit!"):
        import ast
        return ast.literal_eval(t.decl().name()[4:])
    return None


# --- extended reals / special functions --------------------------------------
INF = z3.Const("INF!", RealS)
f_exp2 = z3.Function("exp2", RealS, RealS)
f_log2 = z3.Function("log2", RealS, RealS)

# --- enumeration of sets ------------------------------------------------------
_card = {}
_enum = {}


def card(set_t):
    s = set_t.sort()
    n = sname(s)
    if n not in _card:
        _card[n] = z3.Function("card!" + n, s, IntS)
    return _card[n](set_t)


def enum(set_t):
    """the elements of a set in iteration order, as a Vec"""
    s = set_t.sort()
    n = sname(s)
    if n not in _enum:
        _enum[n] = z3.Function("enum!" + n, s, VecI(s.domain()).sort)
    return _enum[n](set_t)


class Sorts:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.recs = {}

    def rec_fields(self, ty):
        r = self.tu.rec(ty)
        out = []
        for i, b in enumerate(r["bases"]):
            out.append(("@%d" % i, self.tu.ty(b)))
        for f in r["fields"]:
            out.append((f["name"], self.tu.ty(f["t"])))
        return out

    def field_ty(self, ty, name):
        for n, t in self.rec_fields(ty):
            if n == name:
                return t
        raise Unsupported("no field %s in %s" % (name, ty.s))

    def is_abstract(self, ty):
        """has a pure virtual method that no base-or-self overrides"""
        tu = self.tu
        seen = []

        def all_methods(key):
            t = tu.rec_by_key.get(key)
            if t is None:
                return
            for m in tu.rec(t)["methods"]:
                seen.append(m)
            for b in tu.bases.get(key, []):
                all_methods(b.key)
        all_methods(ty.key)
        for m in seen:
            if m["pure"]:
                fo = tu.final_overrider(m["id"], ty.key)
                if fo == m["id"]:
                    return True
        return False

    def has_data(self, ty):
        """has data members, its own or inherited"""
        return bool(self.tu.rec(ty)["fields"]) or any(
            b.rid in self.tu.records and self.has_data(b)
            for b in self.tu.bases.get(ty.key, []))

    def sort(self, ty):
        ty = ty.noref()
        key = ty.key
        s = self.cache.get(key)
        if s is None:
            s = self._sort(ty)
            self.cache[key] = s
        return s

    def _sort(self, ty):
        k = ty.k
        if k == "bool":
            return BoolS
        if k in ("int", "enum"):
            return IntS
        if k == "float":
            return RealS
        if k == "ptr":
            if ty.to.k == "int" and ty.to.char:
                return Str
            return PtrS
        if k == "rec":
            n = ty.name
            a = ty.targs()
            if n == "std::basic_string":
                return Str
            if n in ("std::vector", "std::list", "std::deque", "std::initializer_list"):
                return VecI(self.sort(a[0])).sort
            if n in ("std::set", "std::map"):
                cmp = a[1 if n == "std::set" else 2:]
                if cmp and cmp[0].name != "std::less":
                    raise Unsupported("ordered container with its own order: %s" % ty.s)
            if n in ("std::set", "std::unordered_set"):
                return z3.ArraySort(self.sort(a[0]), BoolS)
            if n in ("std::map", "std::unordered_map"):
                return MapI(self.sort(a[0]), self.sort(a[1])).sort
            if n in ("std::pair", "std::tuple"):
                return PairI(*[self.sort(x) for x in a]).sort
            if n == "std::unique_ptr":
                return OptI(self.sort(a[0])).sort
            if n in ("std::basic_istringstream", "std::basic_ifstream", "std::basic_istream"):
                return IS.sort
            if n in ("std::basic_ostringstream", "std::basic_ofstream", "std::basic_ostream"):
                return OS.sort
            if n in ("std::linear_congruential_engine", "std::mersenne_twister_engine"):
                return Rng
            if n == "std::uniform_int_distribution":
                return DIST.sort
            if ty.rid is not None and ty.rid in self.tu.records:
                if self.is_abstract(ty) and not self.has_data(ty):
                    return z3.DeclareSort("Obj<%s>" % key_short(ty.key))
                fs = self.rec_fields(ty)
                name = key_short(ty.key)
                inf = Info(name, [(n2, self.sort(t)) for n2, t in fs] or [("@unit", BoolS)])
                inf.ty = ty
                inf.ftypes = [t for _, t in fs]
                _by_sort[inf.sort.name()] = ("rec", inf)
                return inf.sort
        raise Unsupported("no value model for type %s" % ty.s)

    def rec(self, ty):
        s = self.sort(ty)
        k, i = info(s)
        if i is None:
            raise Unsupported("not a record: %s" % ty.s)
        return i


def key_short(k):
    import re
    k = k.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    k = re.sub(r", std::(allocator|less|default_delete|hash|equal_to)<.*?>(?=>| >|,|$)", "", k) \
        if False else k
    return (k.replace("kws::core::", "").replace("kws::", "").replace("unsigned int", "uint")
            .replace(" ", ""))
