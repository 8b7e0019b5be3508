"""Models of the parts of the C++ standard library that the code uses.
Everything in this file is trusted (listed in the evidence as trusted_base)."""
import z3
from .tu import Unsupported, strip_targs
from .terms import *
from . import engine as _eng
from .engine import (LV, CondLV, Ptr, ArrPtr, Iter, Clo, Obj, FnRef, Opaque, Lit, Flow, Engine,
                     IDX_TY)
from . import prover
from .prover import unfolds, UNFOLD

LVS = (LV, CondLV)
BOOLT = None


class KVLV(LV):
    """element of a map: key temporary plus assignable mapped value"""
    __slots__ = ("cont", "key", "eng", "kt", "vt")

    def __init__(self, eng, cont, key, pty):
        self.loc, self.path, self.ty = None, (), pty
        self.eng, self.cont, self.key = eng, cont, key
        self.kt, self.vt = pty.targs()

    def sub(self, p, ty):
        if p == ("f", "first"):
            return self.eng.heap_loc(self.key, self.kt, "key", True)
        if p == ("f", "second"):
            return self.cont.sub(("mv", self.key), self.vt)
        raise Unsupported("member of a map element")

    def same(self, o):
        return isinstance(o, KVLV) and self.cont.same(o.cont) and self.key.eq(o.key)


# ------------------------------------------------------------------ cardinality
def _card_facts(s):
    c = card(s)
    out = [c >= 0]
    if z3.is_K(s):
        if z3.is_false(s.arg(0)):
            out.append(c == 0)
        return out
    if s.decl().kind() == z3.Z3_OP_ITE:
        return [c == z3.If(s.arg(0), card(s.arg(1)), card(s.arg(2)))]
    if z3.is_store(s):
        b, x, v = s.arg(0), s.arg(1), s.arg(2)
        was = select(b, x)
        if z3.is_true(v):
            out.append(c == card(b) + ite(was, z3.IntVal(0), z3.IntVal(1)))
        elif z3.is_false(v):
            out.append(c == card(b) - ite(was, z3.IntVal(1), z3.IntVal(0)))
    out.append(Implies(c == 0, s == z3.K(s.sort().domain(), T(False))))
    out.append(Implies(c > 0, select(s, _some(s)) == T(True)))
    return out


_somef = {}


def _some(s):
    n = sname(s.sort())
    if n not in _somef:
        _somef[n] = z3.Function("some!" + n, s.sort(), s.sort().domain())
    return _somef[n](s)


_posf = {}


def enum_pos(s, x):
    n = sname(s.sort())
    if n not in _posf:
        _posf[n] = z3.Function("pos!" + n, s.sort(), s.sort().domain(), IntS)
    return _posf[n](s, x)


ORDERS = {}     # sort name -> strict order (a, b) -> Bool  used by ordered containers
UNORDERED = set()


def elem_less(sort):
    n = sort.name() if sort.kind() == z3.Z3_DATATYPE_SORT else str(sort)
    f = ORDERS.get(n)
    if f:
        return f
    if sort == IntS or sort == RealS:
        return lambda a, b: a < b
    if sort == Str:
        return lambda a, b: s_rank(a) < s_rank(b)
    return None


def _enum_facts(s):
    """iteration over a set visits every element once (ascending: sets are modelled as
    ordered ones; for unordered containers the visiting order is left open)"""
    e = enum(s)
    n = card(s)
    i = z3.Const("i!e", IntS)
    j = z3.Const("j!e", IntS)
    x = z3.Const("x!e", s.sort().domain())
    d = vdata(e)
    out = [vlen(e) == n, n >= 0,
           z3.ForAll([i], Implies(And(i >= 0, i < n),
                                  And(z3.Select(s, z3.Select(d, i)),
                                      enum_pos(s, z3.Select(d, i)) == i)),
                     patterns=[z3.Select(d, i)]),
           z3.ForAll([x], Implies(z3.Select(s, x),
                                  And(enum_pos(s, x) >= 0, enum_pos(s, x) < n,
                                      z3.Select(d, enum_pos(s, x)) == x)),
                     patterns=[enum_pos(s, x)])]
    lt = elem_less(s.sort().domain())
    if lt is not None:
        out.append(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < n),
                                             lt(z3.Select(d, i), z3.Select(d, j))),
                             patterns=[z3.MultiPattern(z3.Select(d, i), z3.Select(d, j))]))
    return out


class _Auto(dict):
    pass


def register_set_sort(sort):
    n = sname(sort)
    UNFOLD.setdefault("card!" + n, _card_facts)
    UNFOLD.setdefault("enum!" + n, _enum_facts)


_card0, _enum0 = card, enum


def s_card(s):
    register_set_sort(s.sort())
    return _card0(s)


def s_enum(s):
    register_set_sort(s.sort())
    register_set_sort(s.sort())
    return _enum0(s)


@unfolds("s_sub")
def _sub_facts(s, p, n):
    t = s_sub(s, p, n)
    l = s_len(s)
    ln = ite(n < l - p, n, l - p)
    i = z3.Const("i!s", IntS)
    return [Implies(And(p >= 0, p <= l, n >= 0),
                    And(s_len(t) == ln,
                        z3.ForAll([i], Implies(And(i >= 0, i < ln), s_at(t, i) == s_at(s, p + i)),
                                  patterns=[s_at(t, i)]))),
            Implies(And(p == 0, n >= l), t == s)]


@unfolds("s_cat")
def _cat_facts(a, b):
    t = s_cat(a, b)
    i = z3.Const("i!s", IntS)
    la = s_len(a)
    return [s_len(t) == la + s_len(b),
            z3.ForAll([i], Implies(And(i >= 0, i < la + s_len(b)),
                                   s_at(t, i) == z3.If(i < la, s_at(a, i), s_at(b, i - la))),
                      patterns=[s_at(t, i)])]


# ---------------------------------------------------------------- sorting
_sorts = {}


class Rel:
    """reference order relation for std::sort"""

    def __init__(self, name, sort, rel):
        self.name, self.elem, self.rel = name, sort, rel
        self.vec = VecI(sort)
        self.fn = z3.Function("SORT!" + name, self.vec.sort, self.vec.sort)
        self.src = z3.Function("SORTsrc!" + name, self.vec.sort, IntS, IntS)
        self.dst = z3.Function("SORTdst!" + name, self.vec.sort, IntS, IntS)
        UNFOLD["SORT!" + name] = self.facts

    def facts(self, v):
        o = self.fn(v)
        n = vlen(v)
        i = z3.Const("i!o", IntS)
        j = z3.Const("j!o", IntS)
        do, dv = vdata(o), vdata(v)
        S, D = self.src, self.dst
        return [vlen(o) == n,
                z3.ForAll([i], Implies(And(i >= 0, i < n),
                                       And(S(v, i) >= 0, S(v, i) < n, D(v, S(v, i)) == i,
                                           z3.Select(do, i) == z3.Select(dv, S(v, i)))),
                          patterns=[z3.Select(do, i)]),
                z3.ForAll([i], Implies(And(i >= 0, i < n),
                                       And(D(v, i) >= 0, D(v, i) < n, S(v, D(v, i)) == i,
                                           z3.Select(do, D(v, i)) == z3.Select(dv, i))),
                          patterns=[D(v, i)]),
                z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < n),
                                          Not(self.rel(z3.Select(do, j), z3.Select(do, i)))),
                          patterns=[z3.MultiPattern(z3.Select(do, i), z3.Select(do, j))])]


# ------------------------------------------------------------------- random numbers
rng_val = z3.Function("rng_val", Rng, IntS, IntS, IntS)
rng_next = z3.Function("rng_next", Rng, IntS, IntS, Rng)
rng_seed = z3.Function("rng_seed", IntS, Rng)


@unfolds("rng_val")
def _rng_facts(r, lo, hi):
    v = rng_val(r, lo, hi)
    return [Implies(lo <= hi, And(v >= lo, v <= hi))]


def strip_std(q):
    q = strip_targs(q)
    for p in ("std::__cxx11::", "std::__detail::", "std::__1::"):
        q = q.replace(p, "std::")
    return q


SEQ = ("std::vector", "std::list", "std::deque", "std::initializer_list")
SETS = ("std::set", "std::unordered_set")
MAPS = ("std::map", "std::unordered_map")


class StdEngine(Engine):
    # ------------------------------------------------------------- overrides
    def read(self, st, lv):
        if isinstance(lv, KVLV):
            m = self.read(st, lv.cont)
            inf = info(m.sort())[1]
            return PairI(inf.ks, inf.vs).mk(lv.key, select(inf.get(m, 1), lv.key))
        return Engine.read(self, st, lv)

    def field_lv(self, lv, name, cls, fty):
        if isinstance(lv, KVLV):
            return lv.sub(("f", name), fty)
        return Engine.field_lv(self, lv, name, cls, fty)

    def elem_at(self, lv, cty, cont, i, st):
        if cty.noref().name in ("std::unordered_set", "std::unordered_map"):
            raise Unsupported("iteration over an unordered container")
        k, inf = info(cont.sort()) if cont.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "map":
            register_set_sort(inf.get(cont, 0).sort())
            key = vget(s_enum(inf.get(cont, 0)), i)
            return KVLV(self, lv, key, self.pair_ty(cty))
        if k is None:
            register_set_sort(cont.sort())
        return Engine.elem_at(self, lv, cty, cont, i, st)

    def cont_size(self, cont):
        k, inf = info(cont.sort()) if cont.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "map":
            register_set_sort(inf.get(cont, 0).sort())
        elif cont.sort().kind() == z3.Z3_ARRAY_SORT:
            register_set_sort(cont.sort())
        return Engine.cont_size(self, cont)

    # ------------------------------------------------------------ helpers
    def obj_lv(self, e, st, fr):
        """lvalue of the object a std method is called on"""
        if e.get("arrow"):
            b = self.rv(e["obj"], st, fr)
            return self.deref(st, b, self.tu.ty(e["obj"]["t"]))
        v = self.ev(e["obj"], st, fr)
        if isinstance(v, LVS):
            return v
        return self.new_loc(st, v if not isinstance(v, Lit) else lit(v.s),
                            self.tu.ty(e["obj"]["t"]), "tmp")

    def val(self, v, st):
        if isinstance(v, LVS):
            lv = v
            v = self.read(st, lv)
            self.type_fact(lv.ty, v)
        if isinstance(v, Lit):
            v = lit(v.s)
        return v

    def argv(self, e, st, fr):
        return [self.val(self.ev(a, st, fr), st) for a in e["args"]]

    def argty(self, e, i):
        return self.tu.ty(e["args"][i]["t"]).noref()

    def size_of(self, v):
        return self.cont_size(v)

    def std_less(self, st, ty, a, b):
        """a < b as std::less / sort / set of this element type evaluates it"""
        ty = ty.noref()
        if ty.k in ("int", "float", "enum", "bool"):
            return self.compare("<", a, b)
        if ty.k == "rec" and ty.name == "std::basic_string":
            return s_rank(a) < s_rank(b)
        if ty.k == "rec" and ty.name == "std::pair":
            inf = info(a.sort())[1]
            t1, t2 = ty.targs()
            a1, a2 = inf.fields(a)
            b1, b2 = inf.fields(b)
            lt1 = self.std_less(st, t1, a1, b1)
            gt1 = self.std_less(st, t1, b1, a1)
            lt2 = self.std_less(st, t2, a2, b2)
            return Or(lt1, And(Not(gt1), lt2))
        return self.repo_cmp("operator<", st, ty, a, b)

    def repo_cmp(self, op, st, ty, a, b):
        m = self.find_method(ty, op)
        if m is None:
            raise Unsupported("no %s for %s" % (op, ty.s))
        la = self.new_loc(st, a, ty, "a")
        lb = self.new_loc(st, b, ty, "b")
        cls = self.tu.ty(m["cls"])
        pt = self.tu.ty(m["params"][0]["t"]).noref()
        r = self.call_repo(m, self.upcast(la, cls), [self.upcast(lb, pt)], st, False)
        return r

    def find_method(self, ty, name):
        """most derived method with this name taking one argument"""
        key = ty.key
        for f in self.tu.functions.values():
            if f["name"] == name and "cls" in f and self.tu.ty(f["cls"]).key == key and \
                    len(f["params"]) == 1 and f.get("body") is not None:
                return f
        for b in self.tu.bases.get(key, []):
            r = self.find_method(b, name)
            if r is not None:
                return r
        return None

    def order_dep(self, ty):
        """an ordered container relies on operator< of its element type being a strict
        total order consistent with equality: depend on its contract"""
        ty = ty.noref()
        if ty.k == "rec" and ty.rid is not None and ty.rid in self.tu.records:
            m = self.find_method(ty, "operator<")
            if m is None or m["id"] not in self.contracts:
                if getattr(self, "strict_orders", True):
                    raise Unsupported("ordered container of %s without contract for <" % ty.s)
            else:
                self.used_contracts.add(m["id"])
        for a in (ty.targs() if ty.k == "rec" and ty.name == "std::pair" else []):
            self.order_dep(a)

    def build(self, ty, args, st):
        """construct a value of type ty from already evaluated argument values"""
        ty = ty.noref()
        if not args:
            return self.val_term(self.default_value(st, ty))
        s = self.S.sort(ty)
        vals = [self.val(a, st) for a in args]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, (Ptr,)) and ty.k == "ptr":
                return self.enc_ptr(v)
            if z3.is_expr(v) and v.sort() == s:
                return v
            if z3.is_expr(v) and s == RealS and v.sort() == IntS:
                return z3.ToReal(v)
        if ty.k == "rec" and ty.name == "std::pair" and len(vals) == 2:
            return info(s)[1].mk(*[self.build(t, [v], st) for t, v in zip(ty.targs(), vals)])
        if ty.k == "rec" and ty.rid is not None:
            # slicing copy
            if len(vals) == 1 and z3.is_expr(vals[0]):
                k, inf = info(vals[0].sort()) if vals[0].sort().kind() == z3.Z3_DATATYPE_SORT \
                    else (None, None)
                if k == "rec" and getattr(inf, "ty", None) is not None and \
                        self.base_path(inf.ty.key, ty.key):
                    return self.upcast_val(vals[0], inf.ty, ty)
            for f in self.tu.functions.values():
                if f.get("ctor") and self.tu.ty(f["cls"]).key == ty.key and \
                        len(f["params"]) == len(vals) and not f.get("copy") and not f.get("move"):
                    ok = True
                    for p, v in zip(f["params"], vals):
                        pt = self.tu.ty(p["t"]).noref()
                        if isinstance(v, (Ptr, ArrPtr)):
                            ok = ok and pt.k == "ptr"
                        elif z3.is_expr(v):
                            try:
                                ok = ok and self.S.sort(pt) == v.sort()
                            except Unsupported:
                                ok = False
                        else:
                            ok = False
                    if ok:
                        return self.val_term(self.run_ctor(f, ty, vals, st))
        raise Unsupported("construction of %s from %s" % (ty.s, [str(getattr(v, "sort", lambda: type(v))()) for v in vals]))

    # ------------------------------------------------------ std constructors
    def std_construct(self, e, ty, st, fr):
        f = e["f"]
        t = ty.noref()
        n = t.name or ""
        a = e["args"]
        if n == "std::allocator" or n.startswith("std::allocator"):
            return Obj({}, "allocator")
        if t.lam:
            return self.rv(a[0], st, fr)
        if f.get("copy") or f.get("move"):
            v = self.ev(a[0], st, fr)
            if isinstance(v, LVS):
                lv = v
                v = self.read(st, lv)
                self.type_fact(lv.ty, v) if z3.is_expr(v) else None
                if f.get("move") and not isinstance(v, Iter) and n in ("std::unique_ptr",) and \
                        a[0].get("vk") != "r":
                    self.write(st, lv, info(v.sort())[1].none)
            return v
        if n in ("std::greater", "std::less", "std::greater_equal", "std::less_equal",
                 "std::equal_to", "std::hash", "std::plus"):
            return Obj({"ty": t.targs()[0] if t.targs() else None}, n)
        if "iterator" in n:
            # iterator -> const_iterator conversion
            v = self.val(self.ev(a[0], st, fr), st)
            if isinstance(v, Iter):
                return v
            raise Unsupported("iterator construction")
        if n == "std::basic_string":
            args = [x for x in a if not (self.tu.ty(x["t"]).name or "").startswith("std::allocator")]
            if not args:
                return lit("")
            v = self.val(self.ev(args[0], st, fr), st)
            if len(args) == 1 and z3.is_expr(v) and v.sort() == Str:
                return v
            raise Unsupported("string constructor")
        if n in ("std::vector", "std::list", "std::deque"):
            inf = info(self.S.sort(t))[1]
            args = [x for x in a if not (self.tu.ty(x["t"]).name or "").startswith("std::allocator")]
            if not args:
                return inf.empty
            vs = [self.val(self.ev(x, st, fr), st) for x in args]
            if len(vs) == 1 and z3.is_expr(vs[0]) and vs[0].sort() == inf.sort:
                return vs[0]
            if len(vs) == 1 and z3.is_expr(vs[0]) and vs[0].sort() == IntS:
                d = self.build(t.targs()[0], [], st)
                return inf.mk(vs[0], z3.K(IntS, d))
            if len(vs) == 2 and z3.is_expr(vs[0]) and vs[0].sort() == IntS and \
                    z3.is_expr(vs[1]) and vs[1].sort() == inf.elem:
                return inf.mk(vs[0], z3.K(IntS, vs[1]))
            if len(vs) == 2 and all(isinstance(v, Iter) for v in vs):
                return self.range_to_vec(st, vs[0], vs[1], inf)
            raise Unsupported("vector constructor")
        if n in SETS:
            s = self.S.sort(t)
            register_set_sort(s)
            if n == "std::set":
                self.order_dep(t.targs()[0])
            if not a:
                return z3.K(s.domain(), T(False))
            vs = [self.val(self.ev(x, st, fr), st) for x in a
                  if not (self.tu.ty(x["t"]).name or "").startswith("std::allocator")]
            if len(vs) >= 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
                src = self.read(st, vs[0].cont)
                self.full_range(st, vs[0], vs[1])
                return set_of(src)
            raise Unsupported("set constructor")
        if n in MAPS:
            if n == "std::map":
                self.order_dep(t.targs()[0])
            inf = info(self.S.sort(t))[1]
            register_set_sort(z3.ArraySort(inf.ks, BoolS))
            if not a:
                return inf.empty
            raise Unsupported("map constructor")
        if n in ("std::pair", "std::tuple"):
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            inf = info(self.S.sort(t))[1]
            if not vs:
                return self.default_value(st, t)
            if len(vs) == 1 and z3.is_expr(vs[0]) and vs[0].sort() == inf.sort:
                return vs[0]
            if len(vs) == len(inf.names):
                return inf.mk(*[self.build(tt, [v], st) for tt, v in zip(t.targs(), vs)])
            raise Unsupported("pair constructor")
        if n == "std::unique_ptr":
            inf = info(self.S.sort(t))[1]
            vs = [self.val(self.ev(x, st, fr), st) for x in a]
            if not vs:
                return inf.none
            return self.opt_from_ptr(st, inf, vs[0])
        if n in ("std::linear_congruential_engine", "std::mersenne_twister_engine"):
            vs = self.argv(e, st, fr)
            return rng_seed(vs[0]) if vs else fresh("rng", Rng)
        if n == "std::uniform_int_distribution":
            vs = self.argv(e, st, fr)
            lo = vs[0] if vs else z3.IntVal(0)
            hi = vs[1] if len(vs) > 1 else z3.IntVal(2 ** 31 - 1)
            self.oblige(st, lo <= hi, "distribution has a non-empty range")
            return DIST.mk(lo, hi)
        if n in ("std::invalid_argument", "std::range_error", "std::runtime_error",
                 "std::out_of_range", "std::logic_error"):
            return Obj({}, n)
        r = self.stream_construct(e, t, n, st, fr)
        if r is not None:
            return r
        raise Unsupported("std constructor " + t.s)

    def stream_construct(self, e, t, n, st, fr):
        return None

    def opt_from_ptr(self, st, inf, p):
        if isinstance(p, Ptr):
            if p.lv is None:
                return inf.none
            r = inf.some(self.val_term(self.slice_to(self.read(st, p.lv), inf.elem)))
            return r if p.null is None else ite(p.null, inf.none, r)
        if z3.is_expr(p) and p.sort() == PtrS and is_ite(p):
            return ite(p.arg(0), self.opt_from_ptr(st, inf, self.dec_ptr_any(p.arg(1))),
                       self.opt_from_ptr(st, inf, self.dec_ptr_any(p.arg(2))))
        if z3.is_expr(p) and p.eq(NULLP):
            return inf.none
        raise Unsupported("unique_ptr from an unknown pointer")

    def dec_ptr_any(self, t):
        if t.eq(NULLP):
            return Ptr(None)
        r = self.ptr_lv.get(t.get_id())
        if r is not None:
            return Ptr(r[1])
        if is_ite(t):
            return t
        raise Unsupported("unique_ptr from an unknown pointer")

    def slice_to(self, v, sort):
        if z3.is_expr(v) and v.sort() == sort:
            return v
        raise Unsupported("object of another type behind unique_ptr")

    def full_range(self, st, b, e):
        if not (isinstance(b, Iter) and isinstance(e, Iter) and b.cont.same(e.cont)):
            raise Unsupported("range over different containers")
        n = self.cont_size(self.read(st, b.cont))
        if not (b.idx is not None and e.idx is not None):
            raise Unsupported("range given by non-positional iterators")
        if not (num(b.idx) == 0 and z3.simplify(e.idx == n).eq(z3.BoolVal(True)) or
                (num(b.idx) == 0 and e.idx.eq(n))):
            raise Unsupported("partial range")

    def range_to_vec(self, st, b, e, inf):
        """vector(b, e)"""
        v = self.read(st, b.cont)
        self.full_range(st, b, e)
        if b.rev:
            raise Unsupported("reverse range")
        k, i2 = info(v.sort()) if v.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "vec" and v.sort() == inf.sort:
            return v
        if k is None and v.sort().kind() == z3.Z3_ARRAY_SORT and v.sort().domain() == inf.elem:
            return s_enum(v)
        raise Unsupported("range constructor")

    # ------------------------------------------------------------ std calls
    def std_call(self, e, f, st, fr):
        q = strip_std(f["q"])
        loc = e.get("loc")
        if loc:
            self.cur_loc = loc
        if e.get("obj") is not None:
            name = f["name"]
            cls = q.rsplit("::" + name, 1)[0] if q.endswith("::" + name) else q.rsplit("::", 1)[0]
            if "operator" in name:
                cls = q[:q.rindex("::operator")]
            m = self.std_method(e, f, cls, name, st, fr)
            return m
        return self.std_function(e, f, q, st, fr)

    def std_free(self, f, args, st):
        q = strip_std(f["q"])
        vs = [self.val(a, st) for a in args]
        r = self.math_fn(q, vs, st)
        if r is not None:
            return r
        raise Unsupported("std function %s through a pointer" % q)

    def math_fn(self, q, vs, st):
        n = q.split("::")[-1]
        if n in ("exp2", "exp2f", "exp2l"):
            return f_exp2(vs[0])
        if n in ("log2", "log2f", "log2l"):
            self.oblige(st, vs[0] > 0, "logarithm of a positive number")
            return f_log2(vs[0])
        if n == "pow" and z3.is_rational_value(vs[0]) and vs[0].as_fraction() == 2:
            return f_exp2(vs[1])
        if n in ("abs", "fabs"):
            return ite(vs[0] >= 0, vs[0], -vs[0])
        return None

    def std_function(self, e, f, q, st, fr):
        args = e["args"]
        if q == "__assert_fail":
            self.oblige(st, T(False), "assertion holds", "assert")
            st.pc.append(T(False))
            return None
        if q in ("exit", "std::exit", "abort", "std::abort", "_exit"):
            code = self.val(self.ev(args[0], st, fr), st) if args else z3.IntVal(134)
            self.on_exit(st, code)
            st.pc.append(T(False))
            return None
        if q in ("std::move", "std::forward"):
            v = self.ev(args[0], st, fr)
            return v
        if q in ("std::max", "std::min"):
            if len(args) >= 2:
                a = self.val(self.ev(args[0], st, fr), st)
                b = self.val(self.ev(args[1], st, fr), st)
                ty = self.argty(e, 0)
                if len(args) == 3:
                    raise Unsupported("max with comparator")
                if q == "std::max":
                    return ite(self.std_less(st, ty, a, b), b, a)
                return ite(self.std_less(st, ty, b, a), b, a)
            v = self.val(self.ev(args[0], st, fr), st)
            n = num(vlen(v))
            if n is None or n == 0:
                raise Unsupported("max of a list")
            r = vget(v, 0)
            ty = self.argty(e, 0).targs()[0]
            for i in range(1, n):
                x = vget(v, i)
                r = ite(self.std_less(st, ty, r, x), x, r) if q == "std::max" else \
                    ite(self.std_less(st, ty, x, r), x, r)
            return r
        if q == "std::swap":
            a, b = self.lval(args[0], st, fr), self.lval(args[1], st, fr)
            va, vb = self.read(st, a), self.read(st, b)
            self.write(st, a, vb)
            self.write(st, b, va)
            return None
        if q == "std::make_pair":
            vs = self.argv(e, st, fr)
            inf = info(self.S.sort(self.tu.ty(e["t"])))[1]
            return inf.mk(*[self.build(t, [v], st) for t, v in zip(self.tu.ty(e["t"]).noref().targs(), vs)])
        if q == "std::tie":
            return Obj({"e%d" % i: self.ev(a, st, fr) for i, a in enumerate(args)}, "tie")
        if q in ("std::numeric_limits::infinity",):
            self.note("infinity is a real number above every score in use")
            return INF
        if q in ("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest"):
            t = self.tu.ty(e["t"])
            if t.k == "int":
                lo, hi = self.irange(t)
                return z3.IntVal(hi if q.endswith("max") else lo)
            if q.endswith("lowest"):
                return -z3.Const("REALMAX!", RealS)
            if q.endswith("max"):
                return z3.Const("REALMAX!", RealS)
            raise Unsupported(q)
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend"):
            lv = self.lval(args[0], st, fr)
            return self.begin_end(st, lv, q.endswith("end"))
        if q in ("std::next", "std::prev", "std::advance", "std::distance"):
            vs = [self.ev(a, st, fr) for a in args]
            it = self.val(vs[0], st)
            if q == "std::distance":
                return Sub(self.val(vs[1], st).idx, it.idx)
            d = self.val(vs[1], st) if len(vs) > 1 else z3.IntVal(1)
            if q == "std::prev":
                d = -d if num(d) is None else z3.IntVal(-num(d))
            r = self.it_add(it, d)
            if q == "std::advance":
                self.write(st, vs[0], r)
                return None
            return r
        if q == "std::sort" or q == "std::stable_sort":
            return self.do_sort(e, st, fr)
        if q == "std::accumulate":
            return self.do_accumulate(e, st, fr)
        if q in ("std::for_each", "std::transform", "std::copy", "std::copy_if", "std::any_of",
                 "std::all_of", "std::none_of", "std::count_if", "std::find_if", "std::count"):
            return self.do_algorithm(q, e, st, fr)
        if q == "std::back_inserter":
            return Obj({"cont": self.lval(args[0], st, fr)}, "back_inserter")
        if q == "std::to_string":
            v = self.argv(e, st, fr)[0]
            return s_of_int(v) if v.sort() == IntS else fresh("to_string", Str)
        if q == "std::setw" or q == "std::setprecision" or q == "std::setfill":
            return Obj({"n": self.argv(e, st, fr)[0]}, q)
        if q == "std::operator|":
            a, b = self.argv(e, st, fr)
            if num(a) is None or num(b) is None:
                raise Unsupported("combination of unknown flags")
            return z3.IntVal(num(a) | num(b))
        if q in ("exp2", "log2", "std::exp2", "std::log2", "std::pow", "pow", "fabs", "std::abs", "std::fabs"):
            return self.math_fn(q, self.argv(e, st, fr), st)
        if q.endswith("operator==") or q.endswith("operator!=") or q.endswith("operator<") or \
                q.endswith("operator>") or q.endswith("operator<=") or q.endswith("operator>="):
            return self.free_compare(q[q.index("operator") + 8:], e, st, fr)
        if q == "std::operator+":
            vs = self.argv(e, st, fr)
            if all(z3.is_expr(v) and v.sort() == Str for v in vs):
                return s_cat(*vs)
            if any(isinstance(v, Iter) for v in vs):
                return self.it_add(vs[0], vs[1])
            if z3.is_expr(vs[1]) and vs[1].sort() == IntS:
                return s_cat(vs[0], fresh("chr", Str))
            raise Unsupported("operator+")
        if q.endswith("operator-") and len(args) == 2:
            a, b = self.argv(e, st, fr)
            if isinstance(a, Iter) and isinstance(b, Iter) and a.cont.same(b.cont):
                return Sub(a.idx, b.idx)
        r = self.stream_function(e, f, q, st, fr)
        if r is not NotImplemented:
            return r
        raise Unsupported("std function " + q)

    def stream_function(self, e, f, q, st, fr):
        return NotImplemented

    def on_exit(self, st, code):
        self.exits = getattr(self, "exits", [])
        if not self.dry and not self.quiet and not st.dead():
            self.exits.append((st.copy(), code))

    def free_compare(self, op, e, st, fr):
        a, b = [self.val(self.ev(x, st, fr), st) for x in e["args"]]
        ta, tb = self.argty(e, 0), self.argty(e, 1)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return self.it_cmp(st, op, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.name == "tie":
            eqs = []
            for k in a.d:
                x, y = self.val(a.d[k], st), self.val(b.d[k], st)
                eqs.append(Eq(x, y))
            if op == "==":
                return And(eqs)
            if op == "!=":
                return Not(And(eqs))
            # lexicographic
            lt = T(False)
            for k in reversed(list(a.d)):
                x, y = self.val(a.d[k], st), self.val(b.d[k], st)
                ty = a.d[k].ty
                l1, g1 = self.std_less(st, ty, x, y), self.std_less(st, ty, y, x)
                lt = Or(l1, And(Not(g1), lt))
            if op == "<":
                return lt
            raise Unsupported("tuple comparison " + op)
        # unique_ptr against nullptr
        if ta.name == "std::unique_ptr" or tb.name == "std::unique_ptr":
            if isinstance(a, Ptr) and a.lv is None:
                a, b = b, a
            if isinstance(b, Ptr) and b.lv is None and z3.is_expr(a):
                has = info(a.sort())[1].has(a)
                return has if op == "!=" else Not(has)
            raise Unsupported("unique_ptr comparison")
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == Str and b.sort() == Str:
            if op in ("==", "!="):
                eq = Eq(a, b) if not (lit_text(a) is not None and lit_text(b) is not None) else \
                    T(lit_text(a) == lit_text(b))
                return eq if op == "==" else Not(eq)
            ra, rb = s_rank(a), s_rank(b)
            return {"<": ra < rb, ">": ra > rb, "<=": ra <= rb, ">=": ra >= rb}[op]
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            if op in ("==", "!="):
                # element-wise equality of std containers / pairs
                self.need_structural_eq(ta, st)
                from .contract import same
                r = same(a, b)
                return r if op == "==" else Not(r)
            lt = self.std_less(st, ta, a, b)
            gt = self.std_less(st, ta, b, a)
            return {"<": lt, ">": gt, "<=": Not(gt), ">=": Not(lt)}[op]
        raise Unsupported("comparison " + op)

    def need_structural_eq(self, ty, st):
        if ty.k == "rec" and ty.rid is not None and ty.rid in self.tu.records:
            m = self.find_method(ty, "operator==")
            if m is not None:
                self.used_contracts.add(m["id"])
        for a in (ty.targs() if ty.k == "rec" else []):
            self.need_structural_eq(a.noref(), st)

    # -------------------------------------------------------------- iterators
    def it_add(self, it, d):
        if it.idx is None:
            raise Unsupported("arithmetic on a keyed iterator")
        return Iter(it.cont, it.kind, Add(it.idx, d), None, None, it.rev)

    def it_is_end(self, st, it):
        if it.isend is not None:
            return it.isend
        n = self.cont_size(self.read(st, it.cont))
        return Eq(it.idx, n)

    def it_cmp(self, st, op, a, b):
        if not a.cont.same(b.cont):
            raise Unsupported("comparison of iterators into different containers")
        if a.idx is not None and b.idx is not None:
            n = self.cont_size(self.read(st, a.cont))
            if op == "==":
                return Eq(a.idx, b.idx)
            if op == "!=":
                return Not(Eq(a.idx, b.idx))
            return self.compare(op, a.idx, b.idx)
        # keyed iterators: compare through isend / key
        ea, eb = self.it_is_end(st, a), self.it_is_end(st, b)
        if z3.is_true(ea) or z3.is_true(eb):
            eq = And(ea, eb)
        elif a.key is not None and b.key is not None:
            eq = Or(And(ea, eb), And(Not(ea), Not(eb), Eq(a.key, b.key)))
        else:
            raise Unsupported("comparison of iterators")
        if op == "==":
            return eq
        if op == "!=":
            return Not(eq)
        raise Unsupported("order of iterators")

    def it_key(self, st, it):
        """key (set/map) an iterator points to"""
        if it.key is not None:
            return it.key
        c = self.read(st, it.cont)
        k, inf = info(c.sort()) if c.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        s = inf.get(c, 0) if k == "map" else c
        return vget(s_enum(s), it.idx)

    def it_deref(self, st, it):
        c = self.read(st, it.cont)
        cty = it.cont.ty.noref()
        if it.kind == "seq":
            n = vlen(c)
            i = it.idx
            if it.rev:
                i = Sub(Sub(n, z3.IntVal(1)), i)
            self.oblige(st, And(i >= 0, i < n), "iterator is dereferenceable")
            return it.cont.sub(("i", i), cty.targs()[0])
        self.oblige(st, Not(self.it_is_end(st, it)), "iterator is dereferenceable")
        if it.idx is not None and it.key is None:
            n = self.cont_size(c)
            self.oblige(st, And(it.idx >= 0, it.idx < n), "iterator is dereferenceable")
        key = self.it_key(st, it)
        if it.kind == "set":
            return self.new_loc(st, key, cty.targs()[0], "elem")
        return KVLV(self, it.cont, key, self.pair_ty(cty))

    def kind_of(self, ty):
        n = ty.noref().name
        if n in SEQ:
            return "seq"
        if n in SETS:
            return "set"
        if n in MAPS:
            return "map"
        raise Unsupported("iterator of " + str(ty))

    def begin_end(self, st, lv, end):
        c = self.read(st, lv)
        self.type_fact(lv.ty, c)
        n = self.cont_size(c)
        k = self.kind_of(lv.ty)
        if end:
            return Iter(lv, k, n, None, T(True) if k != "seq" else None)
        return Iter(lv, k, z3.IntVal(0), None, None)

    # ------------------------------------------------------------- methods
    def std_method(self, e, f, cls, name, st, fr):
        args = e["args"]
        # iterators
        if "iterator" in cls or "_Node_" in cls or "_Rb_tree" in cls:
            lv = self.ev(e["obj"], st, fr)
            it = self.val(lv, st)
            if not isinstance(it, Iter):
                raise Unsupported("iterator value")
            if name == "operator*":
                return self.it_deref(st, it)
            if name == "operator->":
                return Ptr(self.it_deref(st, it))
            if name in ("operator++", "operator--"):
                d = 1 if name == "operator++" else -1
                if it.idx is None:
                    if it.key is None:
                        raise Unsupported("++ on a keyed iterator")
                    c = self.read(st, it.cont)
                    k, inf = info(c.sort()) if c.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
                    s = inf.get(c, 0) if k == "map" else c
                    register_set_sort(s.sort())
                    it = Iter(it.cont, it.kind, enum_pos(s, it.key), None, None, it.rev)
                nit = self.it_add(it, z3.IntVal(d))
                if not isinstance(lv, LVS):
                    raise Unsupported("++ on a temporary iterator")
                self.write(st, lv, nit)
                return it if args else lv
            if name in ("operator+", "operator-"):
                v = self.argv(e, st, fr)[0]
                if isinstance(v, Iter):
                    return Sub(it.idx, v.idx)
                return self.it_add(it, v if name == "operator+" else -v)
            if name in ("operator+=", "operator-="):
                v = self.argv(e, st, fr)[0]
                self.write(st, lv, self.it_add(it, v if name == "operator+=" else -v))
                return lv
            if name in ("operator==", "operator!="):
                v = self.argv(e, st, fr)[0]
                return self.it_cmp(st, name[8:], it, v)
            if name == "operator=":
                v = self.argv(e, st, fr)[0]
                self.write(st, lv, v)
                return lv
            if name == "operator[]":
                v = self.argv(e, st, fr)[0]
                return self.it_deref(st, self.it_add(it, v))
            raise Unsupported("iterator method " + name)
        lv = self.obj_lv(e, st, fr)
        ty = lv.ty.noref()
        v = None
        try:
            v = self.read(st, lv)
        except Unsupported:
            raise
        if isinstance(v, (Clo, Opaque)):
            a = self.eval_args(f, args, st, fr)
            return self.call_value(v, a, st)
        if isinstance(v, Obj) and v.name in ("std::greater", "std::less"):
            a, b = [self.val(self.ev(x, st, fr), st) for x in args]
            t = v.d["ty"] or self.argty(e, 0)
            return self.cmp_obj(v, st, t, a, b)
        if isinstance(v, Lit):
            v = lit(v.s)
        if isinstance(v, Obj) and v.name == "typeid":
            if name == "name":
                return fresh("typename", Str)
        if not z3.is_expr(v):
            raise Unsupported("method %s::%s on %s" % (cls, name, type(v).__name__))
        self.type_fact(ty, v)
        k, inf = info(v.sort()) if v.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "vec":
            return self.seq_method(e, f, name, lv, ty, v, inf, st, fr)
        if v.sort().kind() == z3.Z3_ARRAY_SORT:
            return self.set_method(e, f, name, lv, ty, v, st, fr)
        if k == "map":
            return self.map_method(e, f, name, lv, ty, v, inf, st, fr)
        if k == "opt":
            return self.ptr_method(e, f, name, lv, ty, v, inf, st, fr)
        if v.sort() == Str:
            return self.str_method(e, f, name, lv, v, st, fr)
        if v.sort() == DIST.sort and name == "operator()":
            rlv = self.lval(args[0], st, fr)
            r = self.read(st, rlv)
            lo, hi = DIST.fields(v)
            self.write(st, rlv, rng_next(r, lo, hi))
            x = rng_val(r, lo, hi)
            self.assume(st, Implies(lo <= hi, And(x >= lo, x <= hi)))
            return x
        if k == "pair" and name == "operator=":
            nv = self.argv(e, st, fr)[0]
            self.write(st, lv, nv)
            return lv
        if k in ("is", "os"):
            r = self.stream_method(e, f, name, lv, v, st, fr)
            if r is not NotImplemented:
                return r
        raise Unsupported("std method %s::%s" % (cls, name))

    def stream_method(self, e, f, name, lv, v, st, fr):
        return NotImplemented

    def cmp_obj(self, o, st, t, a, b):
        n = o.name
        if n == "std::less":
            return self.std_less(st, t, a, b)
        if n == "std::greater":
            t = t.noref()
            if t.k == "rec" and t.name not in ("std::pair", "std::basic_string"):
                return self.repo_cmp("operator>", st, t, a, b)
            return self.std_less(st, t, b, a)
        raise Unsupported("comparator " + n)

    def seq_method(self, e, f, name, lv, ty, v, inf, st, fr):
        args = e["args"]
        n = inf.get(v, 0)
        ety = ty.targs()[0]
        one = z3.IntVal(1)
        if name in ("size", "length"):
            return n
        if name == "empty":
            return Eq(n, z3.IntVal(0))
        if name in ("operator[]", "at"):
            i = self.argv(e, st, fr)[0]
            self.oblige(st, And(i >= 0, i < n), "index within the vector")
            return lv.sub(("i", i), ety)
        if name in ("back", "front"):
            self.oblige(st, n > 0, "%s of a non-empty vector" % name)
            return lv.sub(("i", Sub(n, one) if name == "back" else z3.IntVal(0)), ety)
        if name in ("begin", "cbegin"):
            return Iter(lv, "seq", z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(lv, "seq", n)
        if name in ("rbegin", "crbegin"):
            return Iter(lv, "seq", z3.IntVal(0), rev=True)
        if name in ("rend", "crend"):
            return Iter(lv, "seq", n, rev=True)
        if name in ("push_back", "emplace_back"):
            a = [self.ev(x, st, fr) for x in args]
            a = [x if not isinstance(x, LVS) else self.val(x, st) for x in a]
            if name == "emplace_back" and len(a) == 1:
                a = [self.emplace_conv(st, a[0], self.tu.ty(args[0]["t"]).noref(), ety)]
            x = self.build(ety, a, st)
            v = self.read(st, lv)
            self.write(st, lv, vpush(v, x))
            if name == "emplace_back" and self.tu.ty(e["t"]).k != "void":
                return lv.sub(("i", inf.get(v, 0)), ety)
            return None
        if name == "pop_back":
            self.oblige(st, n > 0, "pop_back of a non-empty vector")
            self.write(st, lv, inf.mk(Sub(n, one), inf.get(v, 1)))
            return None
        if name == "clear":
            self.write(st, lv, inf.empty)
            return None
        if name in ("reserve", "shrink_to_fit"):
            self.argv(e, st, fr)
            return None
        if name == "resize":
            a = self.argv(e, st, fr)
            m = a[0]
            d = self.build(ety, [a[1]] if len(a) > 1 else [], st)
            if num(n) == 0:
                self.write(st, lv, inf.mk(m, z3.K(IntS, d)))
                return None
            nv = fresh("resized", inf.sort)
            i = z3.Const("i!r", IntS)
            self.fact(vlen(nv) == m)
            self.fact(z3.ForAll([i], z3.Select(vdata(nv), i) ==
                                z3.If(And(i < n, i >= 0), z3.Select(vdata(v), i), d),
                                patterns=[z3.Select(vdata(nv), i)]))
            self.write(st, lv, nv)
            return None
        if name == "assign" and len(args) == 2:
            a = self.argv(e, st, fr)
            if isinstance(a[0], Iter):
                self.write(st, lv, self.range_to_vec(st, a[0], a[1], inf))
            else:
                self.write(st, lv, inf.mk(a[0], z3.K(IntS, a[1])))
            return None
        if name == "operator=":
            nv = self.argv(e, st, fr)[0]
            self.write(st, lv, nv)
            return lv
        if name == "swap":
            o = self.lval(args[0], st, fr)
            ov = self.read(st, o)
            self.write(st, lv, ov)
            self.write(st, o, v)
            return None
        if name == "insert" and len(args) == 3:
            a = self.argv(e, st, fr)
            if all(isinstance(x, Iter) for x in a) and a[0].idx is not None and a[0].idx.eq(n):
                w = self.range_to_vec(st, a[1], a[2], inf)
                self.write(st, lv, vconcat(v, w))
                return None
        raise Unsupported("vector method " + name)

    def emplace_conv(self, st, x, src, dst):
        """conversion of an argument of emplace to the type constructed"""
        dst = dst.noref()
        if z3.is_expr(x) and x.sort() == IntS and src.k == "int" and dst.k == "int":
            return self.conv_int(st, x, src, dst)
        return x

    def set_method(self, e, f, name, lv, ty, v, st, fr):
        register_set_sort(v.sort())
        ety = ty.targs()[0]
        if ty.name == "std::set":
            self.order_dep(ety)
        args = e["args"]
        if name == "size":
            return s_card(v)
        if name == "empty":
            return Eq(s_card(v), z3.IntVal(0))
        if name in ("begin", "cbegin"):
            if "unordered" in ty.name:
                raise Unsupported("iteration over an unordered container")
            return Iter(lv, "set", z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(lv, "set", s_card(v), None, T(True))
        if name in ("insert", "emplace") and len(args) == 1 or name == "emplace":
            x = self.build(ety, [self.ev(a, st, fr) for a in args], st)
            v = self.read(st, lv)
            was = select(v, x)
            self.write(st, lv, z3.Store(v, x, T(True)))
            return Obj({"first": Iter(lv, "set", None, x, T(False)), "second": Not(was)}, "ins")
        if name == "insert" and len(args) == 2:
            a = self.argv(e, st, fr)
            if all(isinstance(x, Iter) for x in a):
                src = self.read(st, a[0].cont)
                self.full_range(st, a[0], a[1])
                if num(s_card(v)) == 0 or z3.is_K(v):
                    self.write(st, lv, set_of(src))
                    return None
        if name == "erase":
            a = self.argv(e, st, fr)
            if isinstance(a[0], Iter):
                self.oblige(st, Not(self.it_is_end(st, a[0])), "erased iterator is not end()")
                key = self.it_key(st, a[0])
                self.write(st, lv, z3.Store(v, key, T(False)))
                return Iter(lv, "set", None, None, None)
            x = self.build(ety, [a[0]], st)
            was = select(v, x)
            self.write(st, lv, z3.Store(v, x, T(False)))
            return ite(was, z3.IntVal(1), z3.IntVal(0))
        if name == "find":
            x = self.build(ety, self.argv(e, st, fr), st)
            return Iter(lv, "set", None, x, Not(select(v, x)))
        if name == "count":
            x = self.build(ety, self.argv(e, st, fr), st)
            return ite(select(v, x), z3.IntVal(1), z3.IntVal(0))
        if name == "clear":
            self.write(st, lv, z3.K(v.sort().domain(), T(False)))
            return None
        if name == "operator=":
            self.write(st, lv, self.argv(e, st, fr)[0])
            return lv
        raise Unsupported("set method " + name)

    def map_method(self, e, f, name, lv, ty, v, inf, st, fr):
        kt, vt = ty.targs()[:2]
        if ty.name == "std::map":
            self.order_dep(kt)
        dom, val = inf.get(v, 0), inf.get(v, 1)
        register_set_sort(dom.sort())
        args = e["args"]
        if name == "size":
            return s_card(dom)
        if name == "empty":
            return Eq(s_card(dom), z3.IntVal(0))
        if name in ("begin", "cbegin"):
            if "unordered" in ty.name:
                raise Unsupported("iteration over an unordered container")
            return Iter(lv, "map", z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(lv, "map", s_card(dom), None, T(True))
        if name == "find":
            x = self.build(kt, self.argv(e, st, fr), st)
            return Iter(lv, "map", None, x, Not(select(dom, x)))
        if name == "count":
            x = self.build(kt, self.argv(e, st, fr), st)
            return ite(select(dom, x), z3.IntVal(1), z3.IntVal(0))
        if name == "at":
            x = self.build(kt, self.argv(e, st, fr), st)
            self.do_throw(st, Not(select(dom, x)), "std::out_of_range")
            return lv.sub(("mv", x), vt)
        if name == "operator[]":
            x = self.build(kt, self.argv(e, st, fr), st)
            v = self.read(st, lv)
            dom, val = inf.get(v, 0), inf.get(v, 1)
            d = self.build(vt, [], st)
            self.write(st, lv, inf.mk(z3.Store(dom, x, T(True)),
                                      z3.Store(val, x, ite(select(dom, x), select(val, x), d))))
            return lv.sub(("mv", x), vt)
        if name in ("emplace", "insert", "emplace_hint", "try_emplace"):
            a = [self.ev(x, st, fr) for x in args]
            a = [self.val(x, st) for x in a]
            if name != "insert":
                a = [self.emplace_conv(st, x, self.tu.ty(y["t"]).noref(), vt if i + 1 == len(a) else kt)
                     for i, (x, y) in enumerate(zip(a, args))]
            if name == "emplace_hint":
                a = a[1:]
            if len(a) == 1:
                pi = info(a[0].sort())[1]
                a = pi.fields(a[0])
            x = self.build(kt, [a[0]], st)
            y = self.build(vt, a[1:], st)
            v = self.read(st, lv)
            dom, val = inf.get(v, 0), inf.get(v, 1)
            was = select(dom, x)
            self.write(st, lv, inf.mk(z3.Store(dom, x, T(True)),
                                      z3.Store(val, x, ite(was, select(val, x), y))))
            it = Iter(lv, "map", None, x, T(False))
            if name == "emplace_hint":
                return it
            return Obj({"first": it, "second": Not(was)}, "ins")
        if name == "erase":
            a = self.argv(e, st, fr)
            if isinstance(a[0], Iter):
                self.oblige(st, Not(self.it_is_end(st, a[0])), "erased iterator is not end()")
                key = self.it_key(st, a[0])
                self.write(st, lv, inf.mk(z3.Store(dom, key, T(False)), val))
                return Iter(lv, "map", None, None, None)
            x = self.build(kt, [a[0]], st)
            self.write(st, lv, inf.mk(z3.Store(dom, x, T(False)), val))
            return ite(select(dom, x), z3.IntVal(1), z3.IntVal(0))
        if name == "clear":
            self.write(st, lv, inf.empty)
            return None
        if name == "operator=":
            self.write(st, lv, self.argv(e, st, fr)[0])
            return lv
        raise Unsupported("map method " + name)

    def ptr_method(self, e, f, name, lv, ty, v, inf, st, fr):
        ety = ty.targs()[0]
        args = e["args"]
        if name in ("operator*", "operator->"):
            self.oblige(st, inf.has(v), "unique_ptr is not null where dereferenced")
            t = lv.sub(("some",), ety)
            return t if name == "operator*" else Ptr(t)
        if name == "get":
            return ite_ptr(self, inf.has(v), lv.sub(("some",), ety))
        if name == "operator bool":
            return inf.has(v)
        if name == "reset":
            p = self.argv(e, st, fr)
            self.write(st, lv, self.opt_from_ptr(st, inf, p[0]) if p else inf.none)
            return None
        if name == "operator=":
            src = self.ev(args[0], st, fr)
            if isinstance(src, LVS):
                nv = self.read(st, src)
                if not isinstance(nv, Ptr):
                    # move assignment: the source becomes empty unless it is the same object
                    if not src.same(lv):
                        self.write(st, lv, nv)
                        if args[0].get("vk") == "x" or True:
                            self.write(st, src, inf.none)
                    return lv
            else:
                nv = src
            if isinstance(nv, Ptr):
                nv = self.opt_from_ptr(st, inf, nv)
            self.write(st, lv, nv)
            return lv
        if name == "release":
            p = self.new_loc(st, inf.val(v), ety, "released")
            self.write(st, lv, inf.none)
            return ite_ptr(self, inf.has(v), p)
        if name == "swap":
            o = self.lval(args[0], st, fr)
            ov = self.read(st, o)
            self.write(st, lv, ov)
            self.write(st, o, v)
            return None
        raise Unsupported("unique_ptr method " + name)

    def str_method(self, e, f, name, lv, v, st, fr):
        if name in ("size", "length"):
            return s_len(v)
        if name == "empty":
            return Eq(s_len(v), z3.IntVal(0)) if lit_text(v) is None else T(lit_text(v) == "")
        if name in ("operator[]", "at"):
            i = self.argv(e, st, fr)[0]
            self.oblige(st, And(i >= 0, i <= s_len(v)), "index within the string")
            return self.new_loc(st, ite(i < s_len(v), s_at(v, i), z3.IntVal(0)),
                                self.tu.ty(e["t"]).noref(), "ch")
        if name in ("front", "back"):
            self.oblige(st, s_len(v) > 0, "string is not empty")
            i = z3.IntVal(0) if name == "front" else s_len(v) - 1
            return self.new_loc(st, s_at(v, i), self.tu.ty(e["t"]).noref(), "ch")
        if name == "c_str" or name == "data":
            return v
        if name == "substr":
            a = self.argv(e, st, fr)
            p = a[0] if a else z3.IntVal(0)
            n = a[1] if len(a) > 1 else z3.IntVal(2 ** 64 - 1)
            self.oblige(st, p <= s_len(v), "substr position within the string")
            return s_sub(v, p, n)
        if name in ("operator=", "assign"):
            nv = self.argv(e, st, fr)[0]
            if nv.sort() != Str:
                raise Unsupported("string assignment")
            self.write(st, lv, nv)
            return lv
        if name in ("operator+=", "append"):
            nv = self.argv(e, st, fr)[0]
            if nv.sort() != Str:
                raise Unsupported("string append")
            self.write(st, lv, s_cat(v, nv))
            return lv
        if name == "clear":
            self.write(st, lv, lit(""))
            return None
        raise Unsupported("string method " + name)

    # ----------------------------------------------------------- algorithms
    def call_fn(self, fnv, args, st):
        """call a function object (value or lvalue)"""
        v = fnv
        if isinstance(v, LVS):
            v = self.read(st, v)
        if isinstance(v, Obj) and v.name in ("std::greater", "std::less"):
            a, b = [self.val(x, st) for x in args]
            t = v.d["ty"]
            if t is None:
                raise Unsupported("transparent comparator")
            return self.cmp_obj(v, st, t, a, b)
        if isinstance(v, Obj) and v.name == "std::plus":
            a, b = [self.val(x, st) for x in args]
            return a + b
        if isinstance(v, (Clo, FnRef, Opaque)):
            return self.call_value(v, args, st)
        raise Unsupported("call of a function object")

    def do_sort(self, e, st, fr):
        args = e["args"]
        b = self.val(self.ev(args[0], st, fr), st)
        t = self.val(self.ev(args[1], st, fr), st)
        self.full_range(st, b, t)
        if b.rev:
            raise Unsupported("sort of a reverse range")
        lv = b.cont
        v = self.read(st, lv)
        inf = vi(v)
        if is_ite(v):
            nv = fresh("unsorted", v.sort())
            self.fact(nv == v)
            v = nv
        ety = lv.ty.noref().targs()[0]
        cmpv = self.ev(args[2], st, fr) if len(args) > 2 else None

        def rel(x, y, s):
            lx = self.new_loc(s, x, ety, "x")
            ly = self.new_loc(s, y, ety, "y")
            if cmpv is None:
                return self.std_less(s, ety, x, y)
            return self.val(self.call_fn(cmpv, [lx, ly], s), s)

        i, j = fresh("i", IntS), fresh("j", IntS)
        s2 = st.copy()
        s2.pc.append(And(i >= 0, j >= 0, i < vlen(v), j < vlen(v)))
        x, y = vget(v, i), vget(v, j)
        self.type_fact(ety, x)
        self.type_fact(ety, y)
        r = rel(x, y, s2)
        chosen = None
        for R in self.sort_rels:
            if R.elem != inf.elem:
                continue
            base = prover.Base(self.facts + list(s2.pc), timeout_ms=self.patience(2500))
            if base.prove(r == R.rel(x, y)):
                chosen = R
                break
        if chosen is None:
            for R in self.sort_rels:
                if R.elem == inf.elem and not self.dry:
                    # report against the expected relation
                    self.oblige(s2, r == R.rel(x, y), "sort order is the required one")
                    chosen = R
                    break
        else:
            self.oblige(s2, r == chosen.rel(x, y), "sort order is the required one")
        if chosen is None:
            raise Unsupported("sort by an unregistered order")
        self.note("std::sort is a deterministic function of the sequence and the order relation")
        self.write(st, lv, chosen.fn(v))
        return None

    def iter_loop(self, b, t, st, fr, loc, body):
        """run body(elem lvalue, state) -> Flow-like ('next' state) for each element"""
        if not b.cont.same(t.cont) or b.idx is None or t.idx is None or b.rev:
            raise Unsupported("algorithm range")
        cty = b.cont.ty.noref()
        idx = self.new_loc(st, b.idx, IDX_TY, "@idx")
        end = t.idx

        def step(x):
            out = Flow(None)
            cont = self.read(x, b.cont)
            i = self.read(x, idx)
            go, stop = self.cond_split(self.compare("<", i, end), x)
            if stop is not None:
                out.brk.append(stop)
            if go is None:
                return out
            el = self.elem_at(b.cont, cty, cont, i, go)
            r = body(el, go, out)
            if r is not None and not r.dead():
                self.write(r, idx, Add(self.read(r, idx), z3.IntVal(1)))
                out.next = r
            return out
        f = self.loop(st, step, fr, loc, ranges=[b.cont])
        n = f.next
        if n is None:
            st.pc.append(T(False))
        else:
            st.locs, st.pc = n.locs, n.pc
        return idx

    def do_accumulate(self, e, st, fr):
        args = e["args"]
        b = self.val(self.ev(args[0], st, fr), st)
        t = self.val(self.ev(args[1], st, fr), st)
        init = self.val(self.ev(args[2], st, fr), st)
        op = self.ev(args[3], st, fr) if len(args) > 3 else None
        rty = self.tu.ty(e["t"])
        acc = self.new_loc(st, init, rty, "acc")

        def body(el, s, out):
            if op is None:
                a, x = self.read(s, acc), self.val(el, s)
                r = self.arith(s, "+", a, x, rty.noref())
            else:
                r = self.val(self.call_fn(op, [acc, el], s), s)
            self.write(s, acc, self.build(rty, [r], s))
            return s
        self.iter_loop(b, t, st, fr, e.get("loc"), body)
        return self.read(st, acc)

    def do_algorithm(self, q, e, st, fr):
        args = e["args"]
        b = self.val(self.ev(args[0], st, fr), st)
        t = self.val(self.ev(args[1], st, fr), st)
        rest = [self.ev(a, st, fr) for a in args[2:]]
        n = q.split("::")[-1]
        loc = e.get("loc")

        def push(o, x, s):
            o = self.val(o, s) if isinstance(o, LVS) else o
            if isinstance(o, Obj) and o.name == "back_inserter":
                c = o.d["cont"]
                self.write(s, c, vpush(self.read(s, c), self.val_term(x)))
                return
            raise Unsupported("output iterator")
        if n == "for_each":
            def body(el, s, out):
                self.call_fn(rest[0], [el], s)
                return s
            self.iter_loop(b, t, st, fr, loc, body)
            return rest[0]
        if n == "transform":
            def body(el, s, out):
                push(rest[0], self.val(self.call_fn(rest[1], [el], s), s), s)
                return s
            self.iter_loop(b, t, st, fr, loc, body)
            return rest[0]
        if n == "copy":
            def body(el, s, out):
                push(rest[0], self.val(el, s), s)
                return s
            self.iter_loop(b, t, st, fr, loc, body)
            return rest[0]
        if n == "copy_if":
            def body(el, s, out):
                c = self.val(self.call_fn(rest[1], [el], s), s)
                s1, s2 = s.copy(), s.copy()
                s1.pc.append(c)
                s2.pc.append(Not(c))
                push(rest[0], self.val(el, s1), s1)
                return self.merge(s1, s2)
            self.iter_loop(b, t, st, fr, loc, body)
            return rest[0]
        if n in ("any_of", "all_of", "none_of"):
            res = self.new_loc(st, T(n != "any_of"), BoolTy(), "res")

            def body(el, s, out):
                c = self.val(self.call_fn(rest[0], [el], s), s)
                hit = Not(c) if n == "all_of" else c
                s1, s2 = s.copy(), s.copy()
                s1.pc.append(hit)
                s2.pc.append(Not(hit))
                self.write(s1, res, T(n == "any_of"))
                out.brk.append(s1)
                return s2
            self.iter_loop(b, t, st, fr, loc, body)
            return self.read(st, res)
        if n == "count_if":
            acc = self.new_loc(st, z3.IntVal(0), IDX_TY, "cnt")

            def body(el, s, out):
                c = self.val(self.call_fn(rest[0], [el], s), s)
                a = self.read(s, acc)
                self.write(s, acc, ite(c, Add(a, z3.IntVal(1)), a))
                return s
            self.iter_loop(b, t, st, fr, loc, body)
            return self.read(st, acc)
        if n == "find_if":
            def body(el, s, out):
                c = self.val(self.call_fn(rest[0], [el], s), s)
                s1, s2 = s.copy(), s.copy()
                s1.pc.append(c)
                s2.pc.append(Not(c))
                out.brk.append(s1)
                return s2
            idx = self.iter_loop(b, t, st, fr, loc, body)
            return Iter(b.cont, b.kind, self.read(st, idx))
        raise Unsupported("algorithm " + n)


def ite_ptr(E, c, lv):
    if z3.is_true(c):
        return Ptr(lv)
    if z3.is_false(c):
        return Ptr(None)
    return ite(c, E.enc_ptr(Ptr(lv)), NULLP)


class BoolTy:
    k = "bool"
    s = key = "bool"
    isref = False
    rid = None
    name = None
    const = False
    w = 8
    sg = False

    def noref(self):
        return self


# --- spec functions of the models -------------------------------------------
_setof = {}


def set_of(v):
    """the set of the elements of a vector"""
    inf = vi(v)
    n = inf.sort.name()
    if n not in _setof:
        _setof[n] = (z3.Function("set_of!" + n, inf.sort, z3.ArraySort(inf.elem, BoolS)),
                     z3.Function("set_idx!" + n, inf.sort, inf.elem, IntS))
        fn, ix = _setof[n]

        def facts(v, fn=fn, ix=ix, inf=inf):
            s = fn(v)
            i = z3.Const("i!so", IntS)
            x = z3.Const("x!so", inf.elem)
            ln = vlen(v)
            return [z3.ForAll([i], Implies(And(i >= 0, i < ln), z3.Select(s, z3.Select(vdata(v), i))),
                              patterns=[z3.Select(vdata(v), i)]),
                    z3.ForAll([x], Implies(z3.Select(s, x),
                                           And(ix(v, x) >= 0, ix(v, x) < ln,
                                               z3.Select(vdata(v), ix(v, x)) == x)),
                              patterns=[z3.Select(s, x)])]
        UNFOLD["set_of!" + n] = facts
        register_set_sort(z3.ArraySort(inf.elem, BoolS))
    return _setof[n][0](v)


def set_idx(v, x):
    set_of(v)
    return _setof[vi(v).sort.name()][1](v, x)


_concat = {}


def vconcat(a, b):
    inf = vi(a)
    n = inf.sort.name()
    if num(vlen(a)) == 0:
        return b
    if n not in _concat:
        fn = z3.Function("vconcat!" + n, inf.sort, inf.sort, inf.sort)
        _concat[n] = fn

        def facts(a, b, fn=fn):
            c = fn(a, b)
            i = z3.Const("i!vc", IntS)
            la = vlen(a)
            return [vlen(c) == la + vlen(b),
                    z3.ForAll([i], z3.Select(vdata(c), i) ==
                              z3.If(i < la, z3.Select(vdata(a), i), z3.Select(vdata(b), i - la)),
                              patterns=[z3.Select(vdata(c), i)])]
        UNFOLD["vconcat!" + n] = facts
    return _concat[n](a, b)


_s_of_int = z3.Function("s_of_int", IntS, Str)


def s_of_int(v):
    return _s_of_int(v)
