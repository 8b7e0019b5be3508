"""Forward symbolic execution of the extracted C++ AST, generating proof
obligations against contracts.  Loops are cut by invariants that are found by
Houdini over candidates (generic ones plus schemas given by the contract); a
callee with a contract is used by its contract only, other repo functions are
inlined, std:: is modelled in std.py."""
import re
import time
import z3
from .tu import TU, Unsupported, strip_targs, Ty
from .terms import *
from .terms import _cnt as term_count
from . import prover


class LV:
    __slots__ = ("loc", "path", "ty")

    def __init__(self, loc, path, ty):
        self.loc, self.path, self.ty = loc, path, ty

    def sub(self, p, ty):
        return LV(self.loc, self.path + (p,), ty)

    def same(self, o):
        return isinstance(o, LV) and self.loc == o.loc and path_eq(self.path, o.path)

    def __repr__(self):
        return "LV(%d,%s)" % (self.loc, self.path)


class CondLV:
    __slots__ = ("c", "a", "b", "ty")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.ty = c, a, b, a.ty

    def sub(self, p, ty):
        return CondLV(self.c, self.a.sub(p, ty), self.b.sub(p, ty))

    def same(self, o):
        return isinstance(o, CondLV) and self.c.eq(o.c) and self.a.same(o.a) and self.b.same(o.b)


def path_eq(p, q):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for u, v in zip(x[1:], y[1:]):
            if isinstance(u, z3.AstRef) and isinstance(v, z3.AstRef):
                if not u.eq(v):
                    return False
            elif isinstance(u, Ty) or isinstance(v, Ty):
                continue
            elif u != v:
                return False
    return True


class Ptr:
    """pointer to an lvalue (lv None: null; null: condition under which it is null all the same)"""
    __slots__ = ("lv", "null")

    def __init__(self, lv, null=None):
        self.lv, self.null = lv, null


class ArrPtr:
    """pointer to element `off` of a Vec-valued lvalue (argv)"""
    __slots__ = ("lv", "off")

    def __init__(self, lv, off):
        self.lv, self.off = lv, off


class Iter:
    """iterator: container lvalue plus index, or a key (result of find)"""
    __slots__ = ("cont", "idx", "key", "isend", "kind", "rev")

    def __init__(self, cont, kind, idx=None, key=None, isend=None, rev=False):
        self.cont, self.kind, self.idx, self.key, self.isend, self.rev = \
            cont, kind, idx, key, isend, rev


class Clo:
    __slots__ = ("fid", "env", "this", "ty")

    def __init__(self, fid, env, this, ty):
        self.fid, self.env, self.this, self.ty = fid, env, this, ty


class Obj:
    """python-level aggregate (pair<iterator,bool>, tie)"""
    __slots__ = ("d", "name")

    def __init__(self, d, name=""):
        self.d, self.name = d, name


class FnRef:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Opaque:
    """callable / object supplied by a contract"""
    __slots__ = ("name", "call", "data")

    def __init__(self, name, call, data=None):
        self.name, self.call, self.data = name, call, data


class Lit:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class State:
    __slots__ = ("locs", "pc")

    def __init__(self, locs, pc):
        self.locs, self.pc = locs, pc

    def copy(self):
        return State(dict(self.locs), list(self.pc))

    def dead(self):
        return any(z3.is_false(p) for p in self.pc)


class Flow:
    __slots__ = ("next", "brk", "cont", "ret")

    def __init__(self, nxt=None):
        self.next = nxt
        self.brk, self.cont, self.ret = [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class Frame:
    def __init__(self, fn, this_lv, env=None):
        self.fn = fn
        self.this = this_lv
        self.env = env if env is not None else {}
        self.names = {}


class Obl:
    __slots__ = ("facts", "goal", "label", "loc", "kind", "done", "backend", "secs",
                 "status", "model", "smt", "symbols")

    def __init__(self, facts, goal, label, loc, kind):
        self.facts, self.goal, self.label, self.loc, self.kind = facts, goal, label, loc, kind
        self.done = None
        self.backend = None
        self.secs = 0.0
        self.status = None
        self.model = None
        self.smt = None
        self.symbols = None


INT_MAX64 = 2 ** 63


class Engine:
    def __init__(self, tu, sorts, contracts, opts=None):
        self.tu = tu
        self.S = sorts
        self.contracts = contracts      # fid -> Contract
        self.virt_specs = []
        self.virt_contracts = {}        # method id -> contract of an interface method
        self.facts = []
        self.obls = []
        self.quiet = 0
        self.dry = 0
        self.nloc = 0
        self.locmeta = {}
        self.heap0 = {}
        self.ptr_const = {}
        self.ptr_lv = {}
        self.lv_ptr = {}
        self.globals = {}
        self.ranged = set()
        self.stack = []
        self.throws = [[]]
        self.hints = []
        self.sort_rels = []
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loops = 0
        self.inv_count = 0
        self.inv_log = []
        self.cur_loc = ""
        self.deadline = None
        self.bounds = []
        self.loop_stack = []
        self.loop_cache = {}
        self.opts = opts or {}
        self.top = None
        self.merge_hook = None
        self.watch_cerr = False

    # ---------------------------------------------------------------- misc
    def note(self, s):
        self.assumptions.add(s)

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)

    def assume(self, st, f):
        """a fact that holds when this point is reached"""
        if z3.is_true(f):
            return
        self.fact(Implies(And(st.pc), f))

    def oblige(self, st, goal, label, kind="safety", loc=None):
        if self.dry or self.quiet:
            return
        if z3.is_true(goal):
            # trivially true obligations count as discharged by simplification
            o = Obl(None, goal, label, loc or self.cur_loc, kind)
            o.done = True
            o.backend = "simplifier"
            self.obls.append(o)
            return
        self.obls.append(Obl(list(self.facts), Implies(And(st.pc), goal), label,
                             loc or self.cur_loc, kind))

    def new_loc(self, st, value, ty, name="", exact=True):
        self.nloc += 1
        self.locmeta[self.nloc] = (name, ty, exact)
        st.locs[self.nloc] = value
        return LV(self.nloc, (), ty)

    def heap_loc(self, value, ty, name, exact=False):
        self.nloc += 1
        self.locmeta[self.nloc] = (name, ty, exact)
        self.heap0[self.nloc] = value
        return LV(self.nloc, (), ty)

    def locval(self, st, loc):
        v = st.locs.get(loc)
        if v is None:
            v = self.heap0.get(loc)
            if v is None:
                raise Unsupported("read of a location that does not exist here")
        return v

    # ------------------------------------------------------------ lvalues
    def proj(self, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, Obj):
                return v.d[p[1]]
            if isinstance(v, (Clo, Opaque)):
                raise Unsupported("field of callable")
            kk, inf = info(v.sort())
            if inf is None:
                raise Unsupported("field %s of %s" % (p[1], v.sort()))
            return inf.get(v, p[1])
        if k == "i":
            return vget(v, p[1])
        if k == "some":
            return info(v.sort())[1].val(v)
        if k == "mv":
            inf = info(v.sort())[1]
            return select(inf.get(v, 1), p[1])
        raise Unsupported("projection " + k)

    def upd(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        k = p[0]
        if k == "f":
            if isinstance(v, Obj):
                d = dict(v.d)
                d[p[1]] = self.upd(d[p[1]], path[1:], nv)
                return Obj(d, v.name)
            inf = info(v.sort())[1]
            return inf.set(v, p[1], self.upd(inf.get(v, p[1]), path[1:], nv))
        if k == "i":
            return vset(v, p[1], self.upd(vget(v, p[1]), path[1:], nv))
        if k == "some":
            inf = info(v.sort())[1]
            return inf.some(self.upd(inf.val(v), path[1:], nv))
        if k == "mv":
            inf = info(v.sort())[1]
            val = inf.get(v, 1)
            return inf.mk(inf.get(v, 0),
                          z3.Store(val, p[1], self.upd(select(val, p[1]), path[1:], nv)))
        raise Unsupported("update " + k)

    def read(self, st, lv):
        if isinstance(lv, CondLV):
            return self.merge_val(lv.c, self.read(st, lv.a), self.read(st, lv.b))
        v = self.locval(st, lv.loc)
        for p in lv.path:
            v = self.proj(v, p)
        return v

    def write(self, st, lv, nv):
        if isinstance(lv, CondLV):
            a0 = self.read(st, lv.a)
            self.write(st, lv.a, self.merge_val(lv.c, nv, a0))
            b0 = self.read(st, lv.b)
            self.write(st, lv.b, self.merge_val(lv.c, b0, nv))
            return
        if lv.path and isinstance(nv, (Ptr, ArrPtr)):
            nv = self.enc_ptr(nv)
        if lv.path and isinstance(nv, (Iter, Clo)):
            root = self.locval(st, lv.loc)
            if not isinstance(root, Obj):
                raise Unsupported("iterator or closure stored in an object")
        if isinstance(nv, Lit):
            nv = lit(nv.s)
        v = self.locval(st, lv.loc)
        if z3.is_expr(v) and not lv.path and z3.is_expr(nv) and v.sort() != nv.sort():
            raise Unsupported("sort mismatch in assignment: %s := %s" % (v.sort(), nv.sort()))
        try:
            st.locs[lv.loc] = self.upd(v, lv.path, nv) if lv.path else nv
        except z3.Z3Exception as e:
            raise Unsupported("ill-sorted update: %s" % e)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                raise Unsupported("merge of different sorts")
            return ite(c, a, b)
        if isinstance(a, Ptr) and z3.is_expr(b):
            a = self.enc_ptr(a)
            return ite(c, a, b)
        if isinstance(b, Ptr) and z3.is_expr(a):
            return ite(c, a, self.enc_ptr(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None and b.lv is None:
                return a
            if a.lv is not None and b.lv is not None:
                null = None if a.null is None and b.null is None else ite(
                    c, T(False) if a.null is None else a.null, T(False) if b.null is None else b.null)
                if a.lv.same(b.lv):
                    return Ptr(a.lv, null)
                return Ptr(CondLV(c, a.lv, b.lv), null)
            return ite(c, self.enc_ptr(a), self.enc_ptr(b))
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and a.lv.same(b.lv):
            return ArrPtr(a.lv, ite(c, a.off, b.off))
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.cont.same(b.cont) and a.kind == b.kind and a.rev == b.rev:
                def m(x, y):
                    if x is None or y is None:
                        return x if y is None else y
                    return ite(c, x, y)
                if (a.idx is None) != (b.idx is None) and not (
                        z3.is_true(a.isend) or z3.is_true(b.isend)):
                    raise Unsupported("merge of iterators")
                return Iter(a.cont, a.kind, m(a.idx, b.idx) if a.idx is not None and b.idx is not None else None,
                            m(a.key, b.key), ite(c, a.isend, b.isend) if a.isend is not None and b.isend is not None else None, a.rev)
            raise Unsupported("merge of iterators into different containers")
        if isinstance(a, Obj) and isinstance(b, Obj) and set(a.d) == set(b.d):
            return Obj({k: self.merge_val(c, a.d[k], b.d[k]) for k in a.d}, a.name)
        if isinstance(a, Clo) and isinstance(b, Clo) and a.fid == b.fid:
            return a
        if isinstance(a, (LV, CondLV)) and isinstance(b, (LV, CondLV)):
            if a.same(b):
                return a
            return CondLV(c, a, b)
        if isinstance(a, Lit) and isinstance(b, Lit):
            if a.s == b.s:
                return a
            return ite(c, lit(a.s), lit(b.s))
        if isinstance(a, Lit):
            return self.merge_val(c, lit(a.s), b)
        if isinstance(b, Lit):
            return self.merge_val(c, a, lit(b.s))
        if a is None or b is None:
            return None
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def merge(self, a, b):
        """join of two states (or None)"""
        if a is None or a.dead():
            return b
        if b is None or b.dead():
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ra, rb = And(a.pc[n:]), And(b.pc[n:])
        pc = a.pc[:n]
        if not (z3.is_true(ra) or z3.is_true(rb) or ra.eq(Not(rb)) or rb.eq(Not(ra))):
            fa, fb = a.pc[n], b.pc[n]
            if fa.eq(Not(fb)) or fb.eq(Not(fa)):
                # c & ra' | !c & rb'
                xa, xb = And(a.pc[n + 1:]), And(b.pc[n + 1:])
                ra = fa
                if not (z3.is_true(xa) and z3.is_true(xb)):
                    pc = pc + [Or(And(fa, xa), And(fb, xb))]
            else:
                pc = pc + [Or(ra, rb)]
        elif z3.is_true(ra):
            ra = Not(rb)
        locs = {}
        for k in a.locs.keys() | b.locs.keys():
            va = a.locs.get(k)
            vb = b.locs.get(k)
            if va is None:
                va = self.heap0.get(k)
            if vb is None:
                vb = self.heap0.get(k)
            if va is None or vb is None:
                locs[k] = va if vb is None else vb
                continue
            try:
                locs[k] = self.merge_val(ra, va, vb)
            except Unsupported:
                # python-level values that differ: unusable after the join
                locs[k] = None
        locs = {k: v for k, v in locs.items() if v is not None}
        return State(locs, pc)

    def merge_all(self, sts):
        r = None
        for s in sts:
            r = self.merge(r, s)
        return r

    def merge_rets(self, rets):
        """[(state, value)] -> (state, value)"""
        rets = [(s, v) for s, v in rets if s is not None and not s.dead()]
        if not rets:
            return None, None
        st, val = rets[0]
        for s2, v2 in rets[1:]:
            n = 0
            while n < len(st.pc) and n < len(s2.pc) and st.pc[n].eq(s2.pc[n]):
                n += 1
            ra, rb = And(st.pc[n:]), And(s2.pc[n:])
            if z3.is_true(ra):
                ra = Not(rb)
            elif n < len(st.pc) and n < len(s2.pc) and (
                    st.pc[n].eq(Not(s2.pc[n])) or s2.pc[n].eq(Not(st.pc[n]))):
                ra = st.pc[n]
            val = self.merge_val(ra, val, v2) if val is not None or v2 is not None else None
            st = self.merge(st, s2)
        return st, val

    # ------------------------------------------------------------ pointers
    def enc_ptr(self, p):
        if z3.is_expr(p):
            return p
        if isinstance(p, ArrPtr):
            raise Unsupported("array pointer stored in an object")
        if p.lv is None:
            return NULLP
        if p.null is not None:
            return ite(p.null, NULLP, self.enc_ptr(Ptr(p.lv)))
        if isinstance(p.lv, CondLV):
            return ite(p.lv.c, self.enc_ptr(Ptr(p.lv.a)), self.enc_ptr(Ptr(p.lv.b)))
        key = (p.lv.loc, repr(p.lv.path))
        c = self.ptr_const.get(key)
        if c is None and key in self.lv_ptr:
            return self.lv_ptr[key]
        if c is None:
            c = z3.Const("addr!%d!%d" % (p.lv.loc, len(self.ptr_const)), PtrS)
            # different objects have different addresses; none is null
            for (oloc, _), o in self.ptr_const.items():
                if oloc != p.lv.loc:
                    self.fact(c != o)
            self.fact(c != NULLP)
            self.ptr_const[key] = c
            self.ptr_lv[c.get_id()] = (c, p.lv)
        return c

    def dec_ptr(self, t, to):
        if t.eq(NULLP):
            return Ptr(None)
        r = self.ptr_lv.get(t.get_id())
        if r is not None:
            return Ptr(r[1])
        if is_ite(t):
            a, b = self.dec_ptr(t.arg(1), to), self.dec_ptr(t.arg(2), to)
            c, no = t.arg(0), T(False)
            if a.lv is None and b.lv is None:
                return a
            if a.lv is None:
                return Ptr(b.lv, Or(c, no if b.null is None else b.null))
            if b.lv is None:
                return Ptr(a.lv, Or(Not(c), no if a.null is None else a.null))
            null = None if a.null is None and b.null is None else ite(
                c, no if a.null is None else a.null, no if b.null is None else b.null)
            return Ptr(CondLV(c, a.lv, b.lv), null)
        if to.k == "func" or to.k == "void":
            raise Unsupported("pointer to " + to.k)
        so = self.S.sort(to)
        v = z3.Function("deref!" + str(so), PtrS, so)(t) if so.kind() == z3.Z3_UNINTERPRETED_SORT \
            and so.name().startswith("Obj<") else fresh("heap", so)
        lv = self.heap_loc(v, to, "*" + str(t)[:40])
        self.type_fact(to, v)
        self.ptr_lv[t.get_id()] = (t, lv)
        self.lv_ptr[(lv.loc, repr(lv.path))] = t
        self.note("pointers stored in objects point to distinct live objects")
        return Ptr(lv)

    def as_ptr(self, v, ty):
        if isinstance(v, (Ptr, ArrPtr)):
            return v
        if z3.is_expr(v) and v.sort() == PtrS:
            return self.dec_ptr(v, ty.noref().to)
        raise Unsupported("pointer expected")

    def deref(self, st, v, ty):
        p = self.as_ptr(v, ty)
        if isinstance(p, ArrPtr):
            return p.lv.sub(("i", p.off), ty.noref().to)
        if p.lv is None:
            self.oblige(st, T(False), "null pointer is not dereferenced")
            raise Unsupported("dereference of null")
        if p.null is not None:
            self.oblige(st, Not(p.null), "null pointer is not dereferenced")
        return p.lv

    # ------------------------------------------------------------- types
    def type_fact(self, ty, t):
        ty = ty.noref()
        if not z3.is_expr(t):
            return
        if ty.k == "int":
            if z3.is_int_value(t):
                return
            if t.get_id() in self.ranged:
                return
            self.ranged.add(t.get_id())
            self._keep_range = getattr(self, "_keep_range", [])
            self._keep_range.append(t)
            lo, hi = self.irange(ty)
            self.fact(And(t >= lo, t <= hi))
        elif ty.k == "rec" and ty.name in ("std::vector", "std::list", "std::deque"):
            if t.get_id() in self.ranged:
                return
            self.ranged.add(t.get_id())
            self._keep_range = getattr(self, "_keep_range", [])
            self._keep_range.append(t)
            n = vlen(t)
            if not z3.is_int_value(n):
                self.fact(And(n >= 0, n < INT_MAX64))
        elif ty.k == "rec" and ty.name in ("std::set", "std::map", "std::unordered_map",
                                           "std::unordered_set"):
            if ty.name in ("std::map", "std::unordered_map"):
                t = info(t.sort())[1].get(t, 0)
            self.fact(And(card(t) >= 0, card(t) < INT_MAX64))

    def patience(self, ms):
        """solver time for one candidate: longer when the function is tried again"""
        return ms * 3 if self.opts.get("retry") else ms

    def irange(self, ty):
        if ty.k == "bool":
            return 0, 1
        if ty.k == "enum":
            return -2 ** 31, 2 ** 31 - 1
        if ty.sg:
            return -(2 ** (ty.w - 1)), 2 ** (ty.w - 1) - 1
        return 0, 2 ** ty.w - 1

    def wrap(self, st, t, ty, what):
        """value of the mathematical integer t in integer type ty after arithmetic"""
        lo, hi = self.irange(ty)
        n = num(t)
        if n is not None:
            if lo <= n <= hi:
                return t
            if not ty.sg:
                return z3.IntVal(n % (2 ** ty.w))
        if ty.sg:
            self.oblige(st, And(t >= lo, t <= hi), "no signed overflow in " + what)
            return t
        if ty.w == 64 and what in ("+", "*", "++"):
            self.note("64-bit unsigned sums and products do not overflow")
            return t
        if ty.w == 64 and what in ("-", "--"):
            return ite(z3.simplify(t >= 0), t, t + 2 ** 64)
        return ite(z3.simplify(And(t >= lo, t <= hi)), t, t % (2 ** ty.w))

    def conv_int(self, st, t, src, dst):
        slo, shi = self.irange(src)
        lo, hi = self.irange(dst)
        if lo <= slo and shi <= hi:
            return t
        n = num(t)
        if n is not None and lo <= n <= hi:
            return t
        if dst.sg:
            m = t % (2 ** dst.w)
            return ite(And(t >= lo, t <= hi), t,
                       ite(m > hi, m - 2 ** dst.w, m))
        return ite(And(t >= lo, t <= hi), t, t % (2 ** dst.w))

    def default_value(self, st, ty, frame=None, zero=True):
        """value-initialised object of type ty"""
        ty = ty.noref()
        if ty.k == "bool":
            return T(False)
        if ty.k in ("int", "enum"):
            return z3.IntVal(0)
        if ty.k == "float":
            return z3.RealVal(0)
        if ty.k == "ptr":
            if ty.to.k == "int" and ty.to.char:
                return fresh("nullcstr", Str)
            return Ptr(None)
        if ty.k == "rec":
            n = ty.name
            if n == "std::basic_string":
                return lit("")
            s = self.S.sort(ty)
            k, inf = info(s)
            if k == "vec" or k == "map":
                return inf.empty
            if k == "opt":
                return inf.none
            if k == "pair":
                return inf.mk(*[self.val_term(self.default_value(st, a)) for a in ty.targs()])
            if s.kind() == z3.Z3_ARRAY_SORT:
                return z3.K(s.domain(), T(False))
            if k == "rec" and ty.rid is not None:
                ctor = self.find_ctor(ty, [])
                if ctor is not None:
                    return self.run_ctor(ctor, ty, [], st)
                vals = [self.val_term(self.default_value(st, t)) for t in inf.ftypes]
                return inf.mk(*vals)
        raise Unsupported("default value of " + ty.s)

    def find_ctor(self, ty, argsorts):
        for f in self.tu.functions.values():
            if f.get("ctor") and self.tu.ty(f["cls"]).key == ty.key and \
                    len(f["params"]) == len(argsorts) and not f.get("copy") and not f.get("move"):
                try:
                    if all(self.S.sort(self.tu.ty(p["t"])) == s
                           for p, s in zip(f["params"], argsorts)):
                        return f
                except Unsupported:
                    continue
        return None

    def val_term(self, v):
        """value as a z3 term (encodes pointers and literals)"""
        if z3.is_expr(v):
            return v
        if isinstance(v, Lit):
            return lit(v.s)
        if isinstance(v, Ptr):
            return self.enc_ptr(v)
        raise Unsupported("value %s cannot be stored" % type(v).__name__)

    def uninit(self, ty, name="uninit"):
        ty = ty.noref()
        if ty.k == "ptr" and not (ty.to.k == "int" and ty.to.char):
            return fresh(name, PtrS)
        v = fresh(name, self.S.sort(ty))
        self.type_fact(ty, v)
        return v

    # ----------------------------------------------------------- expressions
    def rv(self, e, st, fr):
        v = self.ev(e, st, fr)
        if isinstance(v, (LV, CondLV)):
            lv = v
            v = self.read(st, lv)
            self.type_fact(lv.ty, v)
        return v

    def lval(self, e, st, fr):
        v = self.ev(e, st, fr)
        if isinstance(v, (LV, CondLV)):
            return v
        ty = self.tu.ty(e["t"])
        if isinstance(v, Lit):
            v = lit(v.s)
        return self.new_loc(st, v, ty, "tmp")

    def ev(self, e, st, fr):
        if e is None:
            return None
        k = e["k"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s (%s) at %s" % (k, e.get("what", ""), e.get("loc", "")))
        if e.get("loc"):
            self.cur_loc = e["loc"]
        return m(e, st, fr)

    def ev_int(self, e, st, fr):
        t = self.tu.ty(e["t"])
        if t.k == "bool":
            return T(e["v"] != "0")
        return z3.IntVal(int(e["v"]))

    def ev_bool(self, e, st, fr):
        return T(bool(e["v"]))

    def ev_float(self, e, st, fr):
        if e["v"] in ("inf", "0x1p+inf"):
            return INF
        x = float.fromhex(e["v"])
        if x != x:
            raise Unsupported("NaN literal")
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else -INF
        n, d = x.as_integer_ratio()
        return z3.RealVal("%d/%d" % (n, d)) if d != 1 else z3.RealVal(n)

    def ev_str(self, e, st, fr):
        return Lit(e["v"])

    def ev_null(self, e, st, fr):
        return Ptr(None)

    def ev_typeid(self, e, st, fr):
        return Obj({"of": e.get("of")}, "typeid")

    def ev_this(self, e, st, fr):
        if fr.this is None:
            raise Unsupported("this outside of a method")
        return Ptr(fr.this)

    def ev_zero(self, e, st, fr):
        return self.default_value(st, self.tu.ty(e["t"]))

    def ev_var(self, e, st, fr):
        lv = fr.env.get(e["id"])
        if lv is not None:
            return lv
        q = e.get("q", "")
        if q in ("std::cout", "std::cerr", "std::clog", "std::cin"):
            return self.global_loc(st, q, self.tu.ty(e["dt"]))
        raise Unsupported("global variable " + q)

    def global_loc(self, st, q, ty):
        if q not in self.globals:
            s = IS.sort if q == "std::cin" else OS.sort
            v = z3.Const("global!" + q, s)
            self.globals[q] = self.heap_loc(v, ty, q)
        return self.globals[q]

    def ev_fn(self, e, st, fr):
        return FnRef(e["f"])

    def ev_temp(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        if isinstance(v, (LV, CondLV)):
            return v
        if isinstance(v, Lit):
            v = lit(v.s)
        return self.new_loc(st, v, self.tu.ty(e["t"]), "tmp")

    def ev_field(self, e, st, fr):
        fty = self.tu.ty(e["t"])
        if e["arrow"]:
            b = self.rv(e["e"], st, fr)
            lv = self.deref(st, b, self.tu.ty(e["e"]["t"]))
        else:
            b = self.ev(e["e"], st, fr)
            if isinstance(b, (LV, CondLV)):
                lv = b
            else:
                return self.proj(b, ("f", e["f"]))
        # field of a base class reached without an explicit cast
        return self.field_lv(lv, e["f"], self.tu.ty(e["cls"]), fty)

    def field_lv(self, lv, name, cls, fty):
        cur = lv.ty.noref()
        if cur.k == "rec" and cur.rid is not None and cls.rid is not None and cur.key != cls.key:
            lv = self.upcast(lv, cls)
        return lv.sub(("f", name), fty)

    def upcast(self, lv, cls):
        cur = lv.ty.noref()
        if cur.key == cls.key:
            return lv
        path = self.base_path(cur.key, cls.key)
        if path is None:
            return LV(lv.loc, lv.path, cls) if isinstance(lv, LV) else lv
        for i, t in path:
            lv = lv.sub(("f", "@%d" % i), t)
        return lv

    def base_path(self, key, target):
        if key == target:
            return []
        for i, b in enumerate(self.tu.bases.get(key, [])):
            p = self.base_path(b.key, target)
            if p is not None:
                return [(i, b)] + p
        return None

    def upcast_val(self, v, src, dst):
        p = self.base_path(src.key, dst.key)
        if p is None:
            return v
        for i, t in p:
            v = self.proj(v, ("f", "@%d" % i))
        return v

    def ev_un(self, e, st, fr):
        op = e["op"]
        ty = self.tu.ty(e["t"])
        if op == "*":
            v = self.rv(e["e"], st, fr)
            return self.deref(st, v, self.tu.ty(e["e"]["t"]))
        if op == "&":
            lv = self.lval(e["e"], st, fr)
            return Ptr(lv)
        if op in ("++", "--"):
            lv = self.lval(e["e"], st, fr)
            v = self.read(st, lv)
            if isinstance(v, ArrPtr):
                nv = ArrPtr(v.lv, Add(v.off, z3.IntVal(1 if op == "++" else -1)))
            else:
                self.type_fact(lv.ty, v)
                d = z3.IntVal(1 if op == "++" else -1)
                if v.sort() == RealS:
                    nv = v + d
                else:
                    nv = self.wrap(st, Add(v, d), lv.ty.noref(), op)
            self.write(st, lv, nv)
            return v if e["post"] else lv
        v = self.rv(e["e"], st, fr)
        if op == "!":
            return Not(v)
        if op == "-":
            if v.sort() == RealS:
                return z3.simplify(-v) if z3.is_rational_value(v) else -v
            return self.wrap(st, -v if num(v) is None else z3.IntVal(-num(v)), ty, "unary -")
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def compare(self, op, l, r):
        if isinstance(l, (Ptr, ArrPtr)) or isinstance(r, (Ptr, ArrPtr)):
            return self.cmp_ptr(op, l, r)
        if isinstance(l, Lit):
            l = lit(l.s)
        if isinstance(r, Lit):
            r = lit(r.s)
        if z3.is_bool(l) and not z3.is_bool(r):
            l = ite(l, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(r) and not z3.is_bool(l):
            r = ite(r, z3.IntVal(1), z3.IntVal(0))
        if op == "==":
            return Eq(l, r)
        if op == "!=":
            return Not(Eq(l, r))
        if z3.is_int_value(l) and z3.is_int_value(r):
            a, b = l.as_long(), r.as_long()
            return T({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
        if op == "<":
            return l < r
        if op == "<=":
            return l <= r
        if op == ">":
            return l > r
        if op == ">=":
            return l >= r
        raise Unsupported("compare " + op)

    def cmp_ptr(self, op, l, r):
        if isinstance(l, Ptr) and isinstance(r, Ptr) and l.lv is not None and r.lv is not None \
                and l.lv.same(r.lv) and l.null is None and r.null is None:
            eq = T(True)
        elif isinstance(l, Ptr) and isinstance(r, Ptr) and (l.lv is None) != (r.lv is None):
            n = r.null if l.lv is None else l.null
            eq = T(False) if n is None else n
        else:
            a = self.enc_ptr(l)
            b = self.enc_ptr(r)
            eq = Eq(a, b)
        if op == "==":
            return eq
        if op == "!=":
            return Not(eq)
        raise Unsupported("pointer order")

    def arith(self, st, op, l, r, ty):
        if ty.k == "float":
            if op == "+":
                return l + r
            if op == "-":
                return l - r
            if op == "*":
                if z3.is_rational_value(l) and l.as_fraction() == 1:
                    return r
                if z3.is_rational_value(r) and r.as_fraction() == 1:
                    return l
                return l * r
            if op == "/":
                self.oblige(st, r != 0, "no division by zero")
                return l / r
        elif ty.k in ("int", "enum"):
            if op == "+":
                return self.wrap(st, Add(l, r), ty, "+")
            if op == "-":
                return self.wrap(st, Sub(l, r), ty, "-")
            if op == "*":
                a, b = num(l), num(r)
                if a is not None and b is not None:
                    return self.wrap(st, z3.IntVal(a * b), ty, "*")
                if a == 1:
                    return r
                if b == 1:
                    return l
                return self.wrap(st, l * r, ty, "*")
            if op in ("/", "%"):
                self.oblige(st, r != 0, "no division by zero")
                if ty.sg:
                    ab = lambda x: ite(x >= 0, x, -x)
                    q = ab(l) / ab(r)
                    q = ite((l >= 0) == (r >= 0), q, -q)
                    return q if op == "/" else l - q * r
                return l / r if op == "/" else l % r
        elif ty.k == "ptr":
            if isinstance(l, ArrPtr) and op in ("+", "-"):
                return ArrPtr(l.lv, Add(l.off, r) if op == "+" else Sub(l.off, r))
        raise Unsupported("arithmetic %s on %s" % (op, ty.s))

    def ev_bin(self, e, st, fr):
        op = e["op"]
        if op == ",":
            self.ev(e["l"], st, fr)
            return self.ev(e["r"], st, fr)
        if op in ("&&", "||"):
            l = self.rv(e["l"], st, fr)
            if op == "&&" and z3.is_false(l):
                return l
            if op == "||" and z3.is_true(l):
                return l
            s2 = st.copy()
            s2.pc.append(l if op == "&&" else Not(l))
            r = self.rv(e["r"], s2, fr)
            s3 = st.copy()
            s3.pc.append(Not(l) if op == "&&" else l)
            m = self.merge(s2, s3)
            st.locs, st.pc = m.locs, m.pc
            return And(l, r) if op == "&&" else Or(l, r)
        l = self.rv(e["l"], st, fr)
        r = self.rv(e["r"], st, fr)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, l, r)
        return self.arith(st, op, l, r, self.tu.ty(e["t"]))

    def ev_assign(self, e, st, fr):
        r = self.rv(e["r"], st, fr)
        lv = self.lval(e["l"], st, fr)
        self.write(st, lv, r)
        return lv

    def ev_assignop(self, e, st, fr):
        r = self.rv(e["r"], st, fr)
        lv = self.lval(e["l"], st, fr)
        l = self.read(st, lv)
        lty = lv.ty.noref()
        self.type_fact(lty, l) if z3.is_expr(l) else None
        ct = self.tu.ty(e["ct"])
        if isinstance(l, ArrPtr):
            self.write(st, lv, self.arith(st, e["op"], l, r, lty))
            return lv
        lt = self.tu.ty(e["lt"])
        l2 = self.convert(st, l, lty, lt)
        v = self.arith(st, e["op"], l2, r, ct)
        self.write(st, lv, self.convert(st, v, ct, lty))
        return lv

    def convert(self, st, v, src, dst):
        if src.k == dst.k == "int":
            return self.conv_int(st, v, src, dst)
        if src.k in ("int", "enum", "bool") and dst.k == "float":
            if src.k == "bool":
                return ite(v, z3.RealVal(1), z3.RealVal(0))
            n = num(v)
            if n is not None:
                return z3.RealVal(n)
            return z3.ToReal(v)
        if src.k == "float" and dst.k == "int":
            lo, hi = self.irange(dst)
            self.oblige(st, And(v > lo - 1, v < hi + 1), "float value fits the integer type")
            if dst.sg:
                return ite(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return z3.ToInt(v)
        if src.k == "bool" and dst.k in ("int", "enum"):
            return ite(v, z3.IntVal(1), z3.IntVal(0))
        if src.k in ("int", "enum") and dst.k in ("int", "enum"):
            return v
        if src.k == "float" and dst.k == "float":
            return v
        if src.k in ("int", "enum") and dst.k == "bool":
            return Not(Eq(v, z3.IntVal(0)))
        if src.k == dst.k:
            return v
        raise Unsupported("conversion %s -> %s" % (src.s, dst.s))

    def ev_cond(self, e, st, fr):
        c = self.rv(e["c"], st, fr)
        if z3.is_true(c):
            return self.ev(e["l"], st, fr)
        if z3.is_false(c):
            return self.ev(e["r"], st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(Not(c))
        l = self.ev(e["l"], s1, fr)
        r = self.ev(e["r"], s2, fr)
        d1, d2 = s1.dead(), s2.dead()
        if isinstance(l, (LV, CondLV)) != isinstance(r, (LV, CondLV)):
            if isinstance(l, (LV, CondLV)):
                l = self.read(s1, l)
            else:
                r = self.read(s2, r)
        m = self.merge(s1, s2)
        st.locs, st.pc = m.locs, m.pc
        if d1:
            return r
        if d2:
            return l
        return self.merge_val(c, l, r)

    def ev_cast(self, e, st, fr):
        ck = e["ck"]
        dst = self.tu.ty(e["t"])
        if ck == "LValueToRValue":
            v = self.ev(e["e"], st, fr)
            if isinstance(v, (LV, CondLV)):
                lv = v
                v = self.read(st, lv)
                self.type_fact(lv.ty, v)
                if z3.is_expr(v) and v.sort() == PtrS:
                    v = self.dec_ptr(v, lv.ty.noref().to)
            return v
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(e["e"], st, fr)
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.ev(e["e"], st, fr)
        if ck == "ToVoid":
            self.ev(e["e"], st, fr)
            return None
        src = self.tu.ty(e["e"]["t"])
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast",
                  "IntegralToBoolean"):
            v = self.rv(e["e"], st, fr)
            return self.convert(st, v, src, dst)
        if ck == "FloatingToBoolean":
            return self.rv(e["e"], st, fr) != 0
        if ck == "PointerToBoolean":
            v = self.rv(e["e"], st, fr)
            return self.cmp_ptr("!=", v, Ptr(None))
        if ck == "ArrayToPointerDecay":
            v = self.ev(e["e"], st, fr)
            if isinstance(v, Lit):
                return v
            raise Unsupported("array decay")
        if ck == "NullToPointer":
            return Ptr(None)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            v = self.ev(e["e"], st, fr)
            if src.k == "ptr":
                if isinstance(v, (LV, CondLV)):
                    v = self.read(st, v)
                p = self.as_ptr(v, src)
                if p.lv is None:
                    return p
                return Ptr(self.upcast(p.lv, dst.to) if dst.to.rid is not None else p.lv, p.null)
            if isinstance(v, (LV, CondLV)):
                if dst.noref().rid is None:
                    # std classes (streams): same object
                    return v
                return self.upcast(v, dst.noref())
            if dst.rid is None or not z3.is_expr(v):
                return v
            return self.upcast_val(v, src.noref(), dst.noref())
        raise Unsupported("cast " + ck)

    def ev_index(self, e, st, fr):
        b = self.ev(e["e"], st, fr)
        if isinstance(b, (LV, CondLV)):
            b = self.read(st, b)
        i = self.rv(e["i"], st, fr)
        if isinstance(b, ArrPtr):
            j = Add(b.off, i)
            n = vlen(self.read(st, b.lv))
            self.oblige(st, And(j >= 0, j < n), "index within the argument array")
            return b.lv.sub(("i", j), self.tu.ty(e["t"]))
        if isinstance(b, Lit):
            b = lit(b.s)
        if z3.is_expr(b) and b.sort() == Str:
            # C string: reading the terminator is allowed
            self.oblige(st, And(i >= 0, i <= s_len(b)), "index within the C string")
            return self.new_loc(st, ite(i < s_len(b), s_at(b, i), z3.IntVal(0)),
                                self.tu.ty(e["t"]), "ch")
        raise Unsupported("array subscript")

    def ev_initlist(self, e, st, fr):
        ty = self.tu.ty(e["t"])
        if ty.k in ("int", "float", "bool", "ptr") and len(e["args"]) == 1:
            return self.rv(e["args"][0], st, fr)
        if ty.k in ("int", "float", "bool", "ptr") and not e["args"]:
            return self.default_value(st, ty)
        vals = [self.rv(a, st, fr) for a in e["args"]]
        if ty.k == "arr":
            return Obj({"elems": vals}, "array")
        if ty.k == "rec" and ty.rid is not None:
            inf = self.S.rec(ty)
            vals = [self.val_term(v) for v in vals]
            if len(vals) == len(inf.names):
                return inf.mk(*vals)
        raise Unsupported("initializer list for " + ty.s)

    def ev_stdinitlist(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        ty = self.tu.ty(e["t"])
        inf = VecI(self.S.sort(ty.targs()[0]))
        r = inf.empty
        elems = v.d["elems"] if isinstance(v, Obj) else None
        if elems is None:
            raise Unsupported("initializer_list")
        for x in elems:
            r = vpush(r, self.val_term(x))
        return r

    def ev_lambda(self, e, st, fr):
        env = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
            elif c["byref"]:
                env[c["id"]] = fr.env.get(c["id"])
                if env[c["id"]] is None:
                    raise Unsupported("capture")
            else:
                lv = fr.env.get(c["id"])
                env[c["id"]] = self.new_loc(st, self.read(st, lv), lv.ty, c["name"])
        return Clo(e["f"], env, this, self.tu.ty(e["t"]))

    def ev_new(self, e, st, fr):
        at = self.tu.ty(e["at"])
        if e.get("init") is None:
            v = self.uninit(at)
        else:
            v = self.rv(e["init"], st, fr)
            if isinstance(v, Lit):
                v = lit(v.s)
        lv = self.new_loc(st, v, at, "new")
        return Ptr(lv)

    def ev_delete(self, e, st, fr):
        v = self.rv(e["e"], st, fr)
        hook = getattr(self, "on_delete", None)
        if hook:
            hook(st, v)
        return None

    def ev_throw(self, e, st, fr):
        tt = self.tu.ty(e["tt"]).key if e.get("tt") is not None else "rethrow"
        if e.get("e"):
            try:
                self.rv(e["e"], st.copy(), fr)
            except Unsupported:
                pass
        self.do_throw(st, T(True), tt)
        return None

    def do_throw(self, st, cond, what, thrown=None):
        s = thrown if thrown is not None else st.copy()
        if not z3.is_true(cond):
            s.pc.append(cond)
        if not s.dead():
            self.throws[-1].append((s, what))
        st.pc.append(Not(cond))

    def ev_inheritctor(self, e, st, fr):
        # handled in run_ctor (arguments are those of the enclosing constructor)
        raise Unsupported("inherited constructor outside of a constructor")

    def ev_construct(self, e, st, fr):
        f = e["f"]
        ty = self.tu.ty(e["t"])
        if not f.get("repo"):
            return self.std_construct(e, ty, st, fr)
        # copy / move of a class value
        if (f.get("copy") or f.get("move")) and len(e["args"]) >= 1:
            if f.get("defaulted") or self.structural_copy(f):
                v = self.rv(e["args"][0], st, fr)
                return v
        args = self.eval_args(f, e["args"], st, fr)
        return self.run_ctor(f, ty, args, st)

    def structural_copy(self, f):
        """user-written copy constructor that a contract shows to be a structural copy"""
        c = self.contracts.get(f["id"])
        if c is not None and getattr(c, "structural_copy", False) and self.top is not f:
            self.used_contracts.add(f["id"])
            return True
        return False

    def run_ctor(self, f, ty, args, st):
        fid = f["id"]
        fn = self.tu.functions.get(fid)
        if fn is None:
            if f.get("defaulted") and not args:
                inf = self.S.rec(ty)
                vals = []
                for t in inf.ftypes:
                    if t.k == "rec":
                        vals.append(self.val_term(self.default_value(st, t)))
                    else:
                        vals.append(self.uninit(t))
                if not inf.ftypes:
                    return fresh("obj", inf.sort)
                return inf.mk(*vals)
            raise Unsupported("constructor without a body: " + f["q"])
        s = self.S.sort(ty)
        k, inf = info(s)
        if inf is None:
            v0 = fresh("obj", s)
            lv = self.new_loc(st, v0, ty, "obj")
        else:
            vals = [self.uninit(t, n) for n, t in zip(inf.names, getattr(inf, "ftypes", []))] \
                if getattr(inf, "ftypes", None) else [fresh("unit", BoolS)]
            # members of class type without an initialiser are default-constructed by an
            # explicit entry in "inits"
            lv = self.new_loc(st, inf.mk(*vals), ty, "obj")
        self.ctor_body(fn, lv, args, st)
        if st.dead():
            return fresh("dead", s)
        return self.read(st, lv)

    def ctor_body(self, fn, lv, args, st):
        """run member initialisers and body of constructor fn on the object lv"""
        if len(self.stack) > 60:
            raise Unsupported("recursion too deep")
        self.inlined.add(fn["id"])
        fr = Frame(fn, lv)
        self.bind_params(fn, args, fr, st)
        self.stack.append(fn["id"])
        try:
            ty = lv.ty.noref()
            for i in fn.get("inits", []):
                e = i["e"]
                if i.get("delegating"):
                    v = self.rv(e, st, fr)
                    self.write(st, lv, v)
                    continue
                if "base" in i:
                    bt = self.tu.ty(i["base"])
                    blv = self.upcast(lv, bt)
                    if e and e["k"] == "inheritctor":
                        bf = self.tu.functions.get(e["f"]["id"])
                        if bf is None:
                            raise Unsupported("inherited constructor")
                        # same parameter list
                        self.ctor_body(bf, LV(blv.loc, blv.path, bt), args, st)
                        continue
                    v = self.rv(e, st, fr)
                    if info(self.S.sort(bt))[1] is not None:
                        self.write(st, LV(blv.loc, blv.path, bt), self.val_term(v))
                    continue
                if "field" in i:
                    ft = self.S.field_ty(ty, i["field"])
                    v = self.rv(e, st, fr)
                    if isinstance(v, Lit):
                        v = lit(v.s)
                    self.write(st, lv.sub(("f", i["field"]), ft), v)
            flow = self.exec(fn["body"], st.copy(), fr)
            self.finish(flow, st)
        finally:
            self.stack.pop()

    def finish(self, flow, st):
        """join all ways out of a function body; updates st; returns value"""
        rets = list(flow.ret)
        if flow.next is not None:
            rets.append((flow.next, None))
        s, v = self.merge_rets(rets)
        if s is None:
            st.pc.append(T(False))
            return None
        st.locs, st.pc = s.locs, s.pc
        return v

    def bind_params(self, fn, args, fr, st):
        for i, p in enumerate(fn["params"]):
            if i >= len(args):
                raise Unsupported("missing argument")
            a = args[i]
            pt = self.tu.ty(p["t"])
            if pt.isref:
                if not isinstance(a, (LV, CondLV)):
                    if isinstance(a, Lit):
                        a = lit(a.s)
                    a = self.new_loc(st, a, pt.noref(), p["name"])
                fr.env[p["id"]] = a
            else:
                if isinstance(a, (LV, CondLV)):
                    a = self.read(st, a)
                if isinstance(a, Lit):
                    a = lit(a.s)
                if z3.is_expr(a) and a.sort() == PtrS and pt.k == "ptr":
                    a = self.dec_ptr(a, pt.to)
                fr.env[p["id"]] = self.new_loc(st, a, pt, p["name"])
            fr.names[p["name"]] = fr.env[p["id"]]

    def eval_args(self, f, args, st, fr):
        out = []
        pts = [self.tu.ty(t) for t in f.get("ptypes", [])]
        for i, a in enumerate(args):
            if i < len(pts) and pts[i].isref:
                v = self.ev(a, st, fr)
                out.append(v)
            else:
                out.append(self.rv(a, st, fr))
        return out

    def ev_call(self, e, st, fr):
        f = e.get("f")
        if f is None:
            c = self.rv(e["callee"], st, fr)
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.call_value(c, args, st)
        if not f.get("repo"):
            return self.std_call(e, f, st, fr)
        loc = e.get("loc")
        this_lv = None
        cls = self.tu.ty(f["cls"]) if "cls" in f else None
        if "obj" in e and e["obj"] is not None:
            if e.get("arrow"):
                b = self.rv(e["obj"], st, fr)
                if isinstance(b, (Opaque, Clo)):
                    this_lv = None
                else:
                    b = self.as_ptr(b, self.tu.ty(e["obj"]["t"])) if not isinstance(b, Ptr) else b
                    this_lv = self.deref(st, b, self.tu.ty(e["obj"]["t"]))
            else:
                b = self.ev(e["obj"], st, fr)
                if isinstance(b, (LV, CondLV)):
                    this_lv = b
                elif isinstance(b, (Clo, Opaque)):
                    args = self.eval_args(f, e["args"], st, fr)
                    return self.call_value(b, args, st)
                else:
                    this_lv = self.new_loc(st, b, self.tu.ty(e["obj"]["t"]), "tmp")
            if this_lv is not None and isinstance(this_lv, LV):
                try:
                    v = self.read(st, this_lv)
                except Unsupported:
                    v = None
                if isinstance(v, (Clo, Opaque)):
                    args = self.eval_args(f, e["args"], st, fr)
                    return self.call_value(v, args, st)
        args = self.eval_args(f, e["args"], st, fr)
        self.cur_loc = loc
        return self.call_repo(f, this_lv, args, st, e.get("dispatch", False))

    def call_value(self, c, args, st):
        if isinstance(c, Opaque):
            return c.call(self, st, args)
        if isinstance(c, FnRef):
            return self.call_repo(c.f, None, args, st, False) if c.f.get("repo") else \
                self.std_free(c.f, args, st)
        if isinstance(c, Clo):
            fn = self.tu.functions.get(c.fid)
            if fn is None:
                raise Unsupported("lambda without body")
            return self.inline(fn, c.this, args, st, dict(c.env))
        raise Unsupported("call through " + type(c).__name__)

    # ------------------------------------------------------------- dispatch
    def dynamic_type(self, lv):
        """(type, exact) of the most derived object lv is part of"""
        if isinstance(lv, CondLV):
            a, b = self.dynamic_type(lv.a), self.dynamic_type(lv.b)
            if a[0].key == b[0].key:
                return a[0], a[1] and b[1]
            raise Unsupported("virtual call on objects of different types")
        path = lv.path
        n = len(path)
        while n > 0 and path[n - 1][0] == "f" and path[n - 1][1].startswith("@"):
            n -= 1
        if n == len(path):
            ty = lv.ty.noref()
            if n == 0:
                mt = self.locmeta[lv.loc]
                return mt[1].noref(), mt[2]
            return ty, True
        if n == 0:
            mt = self.locmeta[lv.loc]
            return mt[1].noref(), mt[2]
        # type of the prefix
        return self.path_type(lv.loc, path[:n]), True

    def path_type(self, loc, path):
        ty = self.locmeta[loc][1].noref()
        for p in path:
            if p[0] == "f":
                if ty.k == "rec" and ty.name == "std::pair":
                    ty = ty.targs()[0 if p[1] == "first" else 1]
                elif ty.rid is None or ty.rid not in self.tu.records:
                    raise Unsupported("type of a part of " + ty.s)
                else:
                    ty = self.S.field_ty(ty, p[1])
            elif p[0] == "i":
                ty = ty.to if ty.k in ("ptr", "arr") else ty.targs()[0]
            elif p[0] == "some":
                ty = ty.targs()[0]
            elif p[0] == "mv":
                ty = ty.targs()[1]
            ty = ty.noref()
        return ty

    def resolve(self, f, this_lv):
        """virtual dispatch: returns (function ref id, this lvalue adjusted)"""
        mid = f["id"]
        dt, exact = self.dynamic_type(this_lv)
        cands = {self.tu.final_overrider(mid, dt.key)}
        if not exact:
            for d in self.tu.all_derived(dt.key):
                cands.add(self.tu.final_overrider(mid, d.key))
        return cands, dt

    def root_lv(self, lv):
        """the most derived object"""
        if isinstance(lv, CondLV):
            return CondLV(lv.c, self.root_lv(lv.a), self.root_lv(lv.b))
        path = lv.path
        n = len(path)
        while n > 0 and path[n - 1][0] == "f" and path[n - 1][1].startswith("@"):
            n -= 1
        if n == len(path):
            return lv
        return LV(lv.loc, path[:n], self.path_type(lv.loc, path[:n]))

    def virt_contract(self, f):
        """contract of an interface method (no body of its own)"""
        fid = f["id"]
        if fid not in self.virt_contracts:
            from .contract import Bound
            self.virt_contracts[fid] = next(
                (Bound(s, f) for s in self.virt_specs if s.matches(self.tu, f)), None)
        return self.virt_contracts[fid]

    def call_repo(self, f, this_lv, args, st, dispatch):
        fid = f["id"]
        if dispatch and this_lv is not None:
            vc = self.virt_contract(f)
            cands, dt = self.resolve(f, this_lv)
            if len(cands) == 1 and not (vc and vc.always):
                nid = next(iter(cands))
                if nid != fid:
                    fn = self.tu.functions.get(nid)
                    if fn is not None:
                        this_lv = self.upcast(self.root_lv(this_lv), self.tu.ty(fn["cls"]))
                        f = fn
                        fid = nid
                vc2 = self.virt_contract(f)
                if self.tu.functions.get(fid) is None and vc2 is not None:
                    self.assumptions.add("contract of the interface method " + short_q(f["q"]))
                    return vc2.apply(self, f, this_lv, args, st)
            elif vc is not None:
                self.assumptions.add("contract of the interface method " + short_q(f["q"]))
                return vc.apply(self, f, this_lv, args, st)
            else:
                raise Unsupported("virtual call of %s with several possible targets" % f["q"])
        c = self.contracts.get(fid)
        if c is not None and not (self.top is not None and self.top["id"] == fid and not self.stack):
            self.used_contracts.add(fid)
            return c.apply(self, f, this_lv, args, st)
        fn = self.tu.functions.get(fid)
        if fn is None:
            if f.get("defaulted") and f["name"] == "operator=" and args:
                v = args[0]
                if isinstance(v, (LV, CondLV)):
                    v = self.read(st, v)
                self.write(st, this_lv, v)
                return this_lv
            raise Unsupported("no body for " + f["q"])
        if fn.get("body") is None:
            raise Unsupported("no body for " + f["q"])
        if fn.get("defaulted") and fn["name"] == "operator=" and args:
            v = args[0]
            if isinstance(v, (LV, CondLV)):
                v = self.read(st, v)
            self.write(st, this_lv, v)
            return this_lv
        if fid in self.stack or (self.top is not None and fid == self.top["id"]):
            raise Unsupported("recursive function %s needs a contract" % f["q"])
        return self.inline(fn, this_lv, args, st)

    def inline(self, fn, this_lv, args, st, env=None):
        if len(self.stack) > 60:
            raise Unsupported("inlining too deep")
        self.inlined.add(fn["id"])
        fr = Frame(fn, this_lv, env)
        self.bind_params(fn, args, fr, st)
        self.stack.append(fn["id"])
        try:
            flow = self.exec(fn["body"], st.copy(), fr)
            v = self.finish(flow, st)
        finally:
            self.stack.pop()
        rt = self.tu.ty(fn["ret"])
        if v is None and rt.k != "void" and not st.dead():
            raise Unsupported("function without return value")
        if v is None and st.dead() and rt.k != "void":
            return self.dead_value(rt, st)
        return v

    def dead_value(self, rt, st):
        try:
            v = fresh("dead", self.S.sort(rt))
        except Unsupported:
            return None
        return self.new_loc(st, v, rt.noref(), "dead") if rt.isref else v

    # ----------------------------------------------------------- statements
    def exec(self, s, st, fr):
        if s is None:
            return Flow(st)
        if st.dead():
            return Flow(None)
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution used up")
        m = getattr(self, "ex_" + s["k"], None)
        if m is None:
            raise Unsupported("statement kind %s %s" % (s["k"], s.get("what", "")))
        if s.get("loc"):
            self.cur_loc = s["loc"]
        return m(s, st, fr)

    def ex_null(self, s, st, fr):
        return Flow(st)

    def ex_block(self, s, st, fr):
        flow = Flow(st)
        for c in s["body"]:
            if flow.next is None or flow.next.dead():
                flow.next = None
                break
            f2 = self.exec(c, flow.next, fr)
            flow.absorb(f2)
            flow.next = f2.next
        return flow

    def ex_expr(self, s, st, fr):
        self.ev(s["e"], st, fr)
        return Flow(None if st.dead() else st)

    def declare(self, v, st, fr):
        ty = self.tu.ty(v["t"])
        if v.get("static"):
            raise Unsupported("static local variable")
        if ty.isref:
            lv = self.ev(v["init"], st, fr)
            if not isinstance(lv, (LV, CondLV)):
                if isinstance(lv, Lit):
                    lv = lit(lv.s)
                lv = self.new_loc(st, lv, ty.noref(), v["name"])
            fr.env[v["id"]] = lv
        else:
            if v.get("init") is None:
                val = self.uninit(ty, v["name"])
            else:
                val = self.rv(v["init"], st, fr)
                if isinstance(val, Lit):
                    val = lit(val.s)
            fr.env[v["id"]] = self.new_loc(st, val, ty, v["name"])
        fr.names[v["name"]] = fr.env[v["id"]]

    def ex_decl(self, s, st, fr):
        for v in s["vars"]:
            self.declare(v, st, fr)
            if st.dead():
                return Flow(None)
        return Flow(st)

    def ex_return(self, s, st, fr):
        f = Flow(None)
        v = None
        if s.get("e") is not None:
            rt = self.tu.ty(fr.fn["ret"])
            if rt.isref:
                v = self.lval(s["e"], st, fr)
            else:
                v = self.rv(s["e"], st, fr)
                if isinstance(v, Lit):
                    v = lit(v.s)
        if not st.dead():
            f.ret.append((st, v))
        return f

    def ex_break(self, s, st, fr):
        f = Flow(None)
        f.brk.append(st)
        return f

    def ex_continue(self, s, st, fr):
        f = Flow(None)
        f.cont.append(st)
        return f

    def ex_if(self, s, st, fr):
        if s.get("init"):
            fi = self.exec(s["init"], st, fr)
            st = fi.next
        if s.get("cvar"):
            self.declare(s["cvar"], st, fr)
        c = self.rv(s["c"], st, fr)
        if st.dead():
            return Flow(None)
        if z3.is_true(c):
            return self.exec(s["then"], st, fr)
        if z3.is_false(c):
            return self.exec(s["else"], st, fr)
        s1, s2 = st.copy(), st
        s1.pc.append(c)
        s2.pc = s2.pc + [Not(c)]
        f1 = self.exec(s["then"], s1, fr)
        f2 = self.exec(s["else"], s2, fr)
        out = Flow(self.merge(f1.next, f2.next))
        out.absorb(f1)
        out.absorb(f2)
        return out

    def ex_switch(self, s, st, fr):
        raise Unsupported("switch")

    def cond_split(self, c, st):
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(Not(c))
        return a, b

    def body_step(self, body, st, fr):
        """run a loop body; returns (next state merged with continue, flow)"""
        f = self.exec(body, st, fr)
        nxt = self.merge_all(([f.next] if f.next is not None else []) + f.cont)
        return nxt, f

    def ex_for(self, s, st, fr):
        if s.get("init"):
            st = self.exec(s["init"], st, fr).next

        def step(x):
            out = Flow(None)
            if s.get("c") is not None:
                c = self.rv(s["c"], x, fr)
                go, stop = self.cond_split(c, x)
                if stop is not None:
                    out.brk.append(stop)
                if go is None:
                    return out
            else:
                go = x
            nxt, f = self.body_step(s["body"], go, fr)
            out.brk += f.brk
            out.ret += f.ret
            if nxt is not None:
                if s.get("inc") is not None:
                    self.ev(s["inc"], nxt, fr)
                out.next = nxt if not nxt.dead() else None
            return out
        return self.loop(st, step, fr, s.get("loc"))

    def ex_while(self, s, st, fr):
        def step(x):
            out = Flow(None)
            c = self.rv(s["c"], x, fr)
            go, stop = self.cond_split(c, x)
            if stop is not None:
                out.brk.append(stop)
            if go is None:
                return out
            nxt, f = self.body_step(s["body"], go, fr)
            out.brk += f.brk
            out.ret += f.ret
            out.next = nxt
            return out
        return self.loop(st, step, fr, s.get("loc"))

    def ex_do(self, s, st, fr):
        def step(x):
            out = Flow(None)
            nxt, f = self.body_step(s["body"], x, fr)
            out.brk += f.brk
            out.ret += f.ret
            if nxt is not None:
                c = self.rv(s["c"], nxt, fr)
                go, stop = self.cond_split(c, nxt)
                if stop is not None:
                    out.brk.append(stop)
                out.next = go
            return out
        return self.loop(st, step, fr, s.get("loc"))

    def ex_rangefor(self, s, st, fr):
        r = self.ev(s["range"], st, fr)
        rty = self.tu.ty(s["range"]["t"]).noref()
        if not isinstance(r, (LV, CondLV)):
            r = self.new_loc(st, r, rty, "range")
        vty = self.tu.ty(s["var"]["t"])
        idx = self.new_loc(st, z3.IntVal(0), IDX_TY, "@idx")

        def step(x):
            out = Flow(None)
            cont = self.read(x, r)
            i = self.read(x, idx)
            n = self.cont_size(cont)
            self.type_fact(rty, cont)
            go, stop = self.cond_split(self.compare("<", i, n), x)
            if stop is not None:
                out.brk.append(stop)
            if go is None:
                return out
            self.bind_elem(r, rty, cont, i, s["var"], vty, go, fr)
            nxt, f = self.body_step(s["body"], go, fr)
            out.brk += f.brk
            out.ret += f.ret
            if nxt is not None:
                self.write(nxt, idx, Add(self.read(nxt, idx), z3.IntVal(1)))
                out.next = nxt
            return out
        return self.loop(st, step, fr, s.get("loc"), ranges=[r])

    def cont_size(self, cont):
        k, inf = info(cont.sort()) if cont.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "vec":
            return inf.get(cont, 0)
        if k == "map":
            return card(inf.get(cont, 0))
        if cont.sort().kind() == z3.Z3_ARRAY_SORT:
            return card(cont)
        raise Unsupported("iteration over " + str(cont.sort()))

    def elem_at(self, lv, cty, cont, i, st):
        """lvalue of the i-th element of a container in iteration order"""
        k, inf = info(cont.sort()) if cont.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        ety = cty.targs()[0]
        if k == "vec":
            return lv.sub(("i", i), ety)
        if k == "map":
            key = vget(enum(inf.get(cont, 0)), i)
            pi = PairI(inf.ks, inf.vs)
            return self.new_loc(st, pi.mk(key, select(inf.get(cont, 1), key)),
                                self.pair_ty(cty), "kv")
        key = vget(enum(cont), i)
        return self.new_loc(st, key, ety, "elem")

    def pair_ty(self, mty):
        a = mty.targs()
        for t in self.tu.types:
            if t.k == "rec" and t.name == "std::pair" and len(t.targs()) == 2 and \
                    t.targs()[0].key == a[0].key and t.targs()[1].key == a[1].key:
                return t
        return FakePair(a[0], a[1])

    def bind_elem(self, r, rty, cont, i, var, vty, st, fr):
        e = self.elem_at(r, rty, cont, i, st)
        if vty.isref:
            fr.env[var["id"]] = e
        else:
            v = self.read(st, e)
            fr.env[var["id"]] = self.new_loc(st, v, vty, var["name"])
        fr.names[var["name"]] = fr.env[var["id"]]

    # --------------------------------------------------------------- loops
    def leaves(self, v):
        """paths of a value down to non-record leaves"""
        if not z3.is_expr(v):
            if isinstance(v, Iter):
                return [("@iter",)]
            if isinstance(v, Obj):
                return [()]
            return [()]
        if v.sort().kind() == z3.Z3_DATATYPE_SORT:
            k, inf = info(v.sort())
            if k in ("rec", "is", "os", "pair"):
                out = []
                for n in inf.names:
                    for p in self.leaves(inf.get(v, n)):
                        out.append((("f", n),) + p)
                return out
        return [()]

    def getpath(self, v, p):
        for x in p:
            v = self.proj(v, x)
        return v

    def diff(self, a, b):
        """leaf paths where two values of one location differ"""
        if a is b:
            return []
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b):
                return []
            out = []
            for p in self.leaves(a):
                if not self.getpath(a, p).eq(self.getpath(b, p)):
                    out.append(p)
            return out
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.cont.same(b.cont) and (a.idx is None or b.idx is not None) and a.kind == b.kind:
                if a.idx is not None and b.idx is not None and a.idx.eq(b.idx):
                    return []
                if a.idx is not None and b.idx is not None:
                    return [("@iter",)]
                if a.key is not None and b.key is not None and a.key.eq(b.key):
                    return []
            raise Unsupported("iterator changed in a loop")
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and a.lv.same(b.lv):
            if a.off.eq(b.off):
                return []
            return [("@arr",)]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if (a.lv is None and b.lv is None) or (a.lv is not None and b.lv is not None and a.lv.same(b.lv)):
                return []
        if isinstance(a, (Clo, Opaque)) and type(a) is type(b):
            return []
        if isinstance(a, Obj) and isinstance(b, Obj):
            return []
        if isinstance(a, Lit) and isinstance(b, Lit) and a.s == b.s:
            return []
        raise Unsupported("pointer variable changed in a loop")

    def havoc(self, entry, mods):
        st = entry.copy()
        for loc, paths in mods.items():
            v = self.locval(st, loc)
            ty = self.locmeta[loc][1]
            nm = self.locmeta[loc][0] or "v"
            for p in sorted(paths, key=repr):
                if p == ("@iter",):
                    i = fresh(nm, IntS)
                    v = Iter(v.cont, v.kind, i, None, None, v.rev)
                    continue
                if p == ("@arr",):
                    v = ArrPtr(v.lv, fresh(nm, IntS))
                    continue
                if not z3.is_expr(v):
                    raise Unsupported("havoc of a python-level value")
                leaf = self.getpath(v, p)
                nv = fresh(nm, leaf.sort())
                v = self.upd(v, p, nv)
                if not p:
                    self.type_fact(ty, nv)
                else:
                    try:
                        self.type_fact(self.path_type(loc, p), nv)
                    except Unsupported:
                        pass
                k, inf = info(nv.sort()) if nv.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
                if k == "vec":
                    self.fact(vlen(nv) >= 0)
                elif k == "map":
                    self.fact(card(inf.get(nv, 0)) >= 0)
                elif nv.sort().kind() == z3.Z3_ARRAY_SORT and nv.sort().range() == BoolS:
                    self.fact(card(nv) >= 0)
            st.locs[loc] = v
        return st

    def find_mods(self, entry, step):
        mods = {}
        self.dry += 1
        try:
            for _ in range(12):
                mark = len(self.facts)
                rng = set(self.ranged)
                h = self.havoc(entry, mods)
                self.throws.append([])
                try:
                    flow = step(h.copy())
                finally:
                    self.throws.pop()
                del self.facts[mark:]
                self.ranged = rng
                if flow.next is None:
                    return mods, False
                new = False
                for loc in entry.locs.keys() | {k for k in flow.next.locs if k in self.heap0}:
                    a = h.locs.get(loc, self.heap0.get(loc))
                    b = flow.next.locs.get(loc, self.heap0.get(loc))
                    if b is None:
                        raise Unsupported("variable %s has no single value at loop end"
                                          % self.locmeta[loc][0])
                    for p in self.diff(a, b):
                        if p not in mods.setdefault(loc, set()):
                            mods[loc].add(p)
                            new = True
                mods = {k: v for k, v in mods.items() if v}
                if not new:
                    return mods, True
            raise Unsupported("modification analysis does not converge")
        finally:
            self.dry -= 1

    def leafvals(self, st, mods):
        """[(name, term, (loc,path))] of the modified leaves in state st"""
        out = []
        for loc in sorted(mods):
            v = self.locval(st, loc)
            for p in sorted(mods[loc], key=repr):
                nm = self.locmeta[loc][0] + "".join("." + x[1] for x in p if isinstance(x, tuple) and x[0] == "f")
                if p == ("@iter",):
                    t = v.idx
                elif p == ("@arr",):
                    t = v.off
                else:
                    t = self.getpath(v, p)
                out.append((nm, t, (loc, p)))
        return out

    def leaf_of(self, st, key):
        loc, p = key
        v = self.locval(st, loc)
        if p == ("@iter",):
            return v.idx
        if p == ("@arr",):
            return v.off
        return self.getpath(v, p)

    def loop(self, st, step, fr, loc, ranges=()):
        self.loops += 1
        entry = st
        mods, repeats = self.find_mods(entry, step)
        if not repeats:
            # the body never reaches the back edge: no invariant needed
            flow = step(entry.copy())
            out = Flow(self.merge_all(flow.brk))
            out.ret = flow.ret
            return out
        if self.dry:
            h = self.havoc(entry, mods)
            flow = step(h)
            out = Flow(self.merge_all(flow.brk))
            out.ret = flow.ret
            return out
        bounds = self.loop_bounds(entry, mods, step)
        self.bounds = bounds
        cands = self.candidates(entry, mods, fr, ranges)
        key = (loc, len(self.loop_stack))
        if self.loop_stack and key in self.loop_cache:
            # inner loop seen before under stronger assumptions: what failed then fails now
            old = self.loop_cache[key]
            cands = [c for c in cands if norm_name(c.name) in old]
        self.loop_stack.append(loc)
        inv = self.houdini(entry, mods, step, cands, loc)
        self.loop_stack.pop()
        if self.loop_stack:
            self.loop_cache[key] = {norm_name(c.name) for c in inv}
        head = self.havoc(entry, mods)
        for c in inv:
            self.assume(head, c.pred(self, head))
        born = term_count[0]
        self.loop_stack.append(loc)
        flow = step(head.copy())
        self.loop_stack.pop()
        if not self.loop_stack:
            self.loop_cache = {}
        out = Flow(self.merge_all(flow.brk))
        out.ret = flow.ret
        if not self.quiet:
            self.inv_count += len(inv)
            self.inv_log.append((loc, [c.name for c in inv]))
            for c in inv:
                for what in ("established", "preserved"):
                    o = Obl(None, T(True), "loop invariant %s: %s" % (what, c.name), loc, "invariant")
                    o.done = True
                    o.backend = "z3"
                    self.obls.append(o)
            self.bounds = bounds
            self.variant(head, flow, mods, entry, loc, born)
        return out

    def loop_bounds(self, entry, mods, step):
        """integer terms the body compares with, that the loop does not modify"""
        from . import terms
        start = terms._cnt[0]
        mark = len(self.facts)
        rng = set(self.ranged)
        self.dry += 1
        self.throws.append([])
        try:
            flow = step(self.havoc(entry, mods))
        except Unsupported:
            return []
        finally:
            self.dry -= 1
            self.throws.pop()
            del self.facts[mark:]
            self.ranged = rng
        out, seen = [], set()

        def stable(t):
            todo = [t]
            while todo:
                x = todo.pop()
                if not z3.is_app(x):
                    return False
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name().rsplit("!", 1)
                    if len(n) == 2 and n[1].isdigit() and int(n[1]) > start:
                        return False
                todo += x.children()
            return True

        def visit(f):
            todo, done = [f], set()
            while todo:
                x = todo.pop()
                if x.get_id() in done or not z3.is_app(x):
                    continue
                done.add(x.get_id())
                if z3.is_lt(x) or z3.is_le(x) or z3.is_gt(x) or z3.is_ge(x) or z3.is_eq(x):
                    for a in x.children():
                        if a.sort() == IntS and not z3.is_int_value(a) and stable(a) and \
                                a.get_id() not in seen and len(out) < 8:
                            seen.add(a.get_id())
                            out.append(a)
                if z3.is_bool(x):
                    todo += x.children()
        for st in [flow.next] + flow.brk:
            if st is not None:
                for p in st.pc[len(entry.pc):]:
                    visit(p)
        return out

    def variant(self, head, flow, mods, entry, loc, born):
        """termination: some measure is bounded below and decreases"""
        if flow.next is None:
            return
        lv = [(n, t, k) for n, t, k in self.leafvals(head, mods) if t.sort() == IntS]
        base = prover.Base(self.facts + [And(flow.next.pc)], depth=2, timeout_ms=self.patience(1500))
        pool = self.int_pool(entry, mods)
        for n, t, k in lv:
            t1 = self.leaf_of(flow.next, k)
            # counts down to a constant, or up to a bound of the pool
            if base.prove(And(t1 < t, t >= 0)):
                self.ok_obl("loop terminates: %s decreases" % n, loc)
                return
            if base.prove(t1 > t):
                for s in pool:
                    if base.prove(t < s) or base.prove(t <= s):
                        self.ok_obl("loop terminates: %s increases to a bound" % n, loc)
                        return
                for n2, v2, k2 in self.leafvals(head, mods):
                    if info(v2.sort())[0] == "vec" if v2.sort().kind() == z3.Z3_DATATYPE_SORT else False:
                        continue
        for h in self.hints:
            m = getattr(h, "measure", None)
            if m is None:
                continue
            for a, b in m(self, head, flow.next, mods):
                if base.prove(And(b < a, a >= 0)):
                    self.ok_obl("loop terminates: given measure decreases", loc)
                    return
        # the distance between two sides of a condition that lets the loop go on
        sub = [(t, self.leaf_of(flow.next, k)) for n, t, k in self.leafvals(head, mods)]
        sub = [(t, x) for t, x in sub if z3.is_const(t) and t.sort() == x.sort()]
        for p in flow.next.pc[len(head.pc):]:
            q = p.arg(0) if z3.is_not(p) else p
            if not z3.is_app(q) or q.num_args() != 2 or q.arg(0).sort() != IntS:
                continue
            a, b = q.arg(0), q.arg(1)
            if any(older(c) > born for c in consts_of(q)):
                continue
            for m in (b - a, a - b):
                if base.prove(And(z3.substitute(m, *sub) < m, m >= 0) if sub else T(False)):
                    self.ok_obl("loop terminates: the distance compared by its condition decreases", loc)
                    return
        self.obls.append(Obl(list(self.facts), Implies(And(flow.next.pc), T(False)),
                             "loop terminates (no decreasing measure found)", loc, "variant"))

    def ok_obl(self, label, loc, kind="variant"):
        o = Obl(None, T(True), label, loc, kind)
        o.done = True
        o.backend = "z3"
        self.obls.append(o)

    def int_pool(self, entry, mods):
        """unmodified integer quantities at loop entry: values and container sizes"""
        out = []
        seen = set()

        def add(t):
            if t.get_id() not in seen and len(out) < 40:
                seen.add(t.get_id())
                out.append(t)

        for t in self.bounds:
            add(t)

        def visit(v, depth):
            if not z3.is_expr(v):
                return
            if v.sort() == IntS:
                add(v)
            elif v.sort() == Str:
                add(s_len(v))
            elif v.sort().kind() == z3.Z3_DATATYPE_SORT:
                k, inf = info(v.sort())
                if k == "vec":
                    add(inf.get(v, 0))
                elif k == "map":
                    add(card(inf.get(v, 0)))
                elif k in ("rec", "pair") and depth < 3:
                    for n in inf.names:
                        visit(inf.get(v, n), depth + 1)
            elif v.sort().kind() == z3.Z3_ARRAY_SORT:
                add(card(v))
        for loc in sorted(set(entry.locs) | set(self.heap0), reverse=True):
            v = entry.locs.get(loc, self.heap0.get(loc))
            if loc in mods:
                if z3.is_expr(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and () not in mods[loc]:
                    k, inf = info(v.sort())
                    if k == "rec":
                        for n in inf.names:
                            if not any(p and p[0] == ("f", n) for p in mods[loc]):
                                visit(inf.get(v, n), 1)
                elif z3.is_expr(v) and v.sort() == IntS:
                    add(v)
                continue
            visit(v, 0)
        return out

    def sources(self, entry, mods, ranges, fr=None):
        """unmodified values of the entry state usable as inputs of hints, by sort name"""
        out = {}

        def add(t):
            if not z3.is_expr(t):
                return
            n = t.sort().name() if t.sort().kind() == z3.Z3_DATATYPE_SORT else str(t.sort())
            l = out.setdefault(n, [])
            if not any(t.eq(x) for x in l):
                l.append(t)

        def visit(v, d):
            if not z3.is_expr(v):
                return
            add(v)
            if v.sort().kind() == z3.Z3_DATATYPE_SORT and d < 3:
                k, inf = info(v.sort())
                if k in ("rec", "pair"):
                    for n in inf.names:
                        visit(inf.get(v, n), d + 1)
        for r in ranges:
            try:
                add(self.read(entry, r))
            except Unsupported:
                pass
        for loc in sorted(set(entry.locs) | set(self.heap0), reverse=True):
            v = entry.locs.get(loc, self.heap0.get(loc))
            if loc in mods and () in mods[loc]:
                if z3.is_expr(v):
                    l = out.setdefault("entry:" + str(v.sort()), [])
                    if not any(v.eq(x) for x in l):
                        l.append(v)
                continue
            visit(v, 0)
        # what references into unmodified objects refer to, and the positions they name
        for lv in (fr.env.values() if fr is not None else ()):
            if not isinstance(lv, LV) or not lv.path or lv.loc in mods or lv.loc not in entry.locs:
                continue
            try:
                visit(self.read(entry, lv), 0)
            except Unsupported:
                continue
            for p in lv.path:
                for t in p[1:]:
                    if z3.is_expr(t) and t.sort() == IntS:
                        add(t)
        # elements of vectors of vectors at unmodified indices
        ints = [t for t in out.get("Int", [])][:8]
        for n in list(out):
            for v in out[n]:
                k, inf = info(v.sort()) if v.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
                if k == "vec" and inf.elem.kind() == z3.Z3_DATATYPE_SORT and \
                        info(inf.elem)[0] == "vec":
                    for i in ints:
                        if not z3.is_int_value(i):
                            add(vget(v, i))
        return out

    def candidates(self, entry, mods, fr, ranges):
        L = self.leafvals(entry, mods)
        lean = self.opts.get("lean")
        if lean:
            quiet = [self.globals[q].loc for q in ("std::cerr", "std::clog") if q in self.globals]
            L = [x for x in L if x[2][0] not in quiet]
        out = []
        seen = set()

        def add(name, pred):
            if name not in seen and len(out) < 600:
                seen.add(name)
                out.append(Cand(name, pred))
        ints = [(n, t, k) for n, t, k in L if t.sort() == IntS]
        pool = [] if lean else self.int_pool(entry, mods)
        if lean:
            self.bounds = []
        for n, t0, k in ints:
            add("%s >= entry" % n, lambda E, s, k=k, t0=t0: E.leaf_of(s, k) >= t0)
            if not lean:
                add("%s <= entry" % n, lambda E, s, k=k, t0=t0: E.leaf_of(s, k) <= t0)
            for q in pool:
                if q.eq(t0):
                    continue
                add("%s <= %s" % (n, q), lambda E, s, k=k, q=q: E.leaf_of(s, k) <= q)
                add("%s <= max(entry,%s)" % (n, q),
                    lambda E, s, k=k, q=q, t0=t0: Or(E.leaf_of(s, k) <= q, E.leaf_of(s, k) <= t0))
                add("%s >= %s" % (n, q), lambda E, s, k=k, q=q: E.leaf_of(s, k) >= q)
            for q in self.bounds:
                add("%s <= %s+1" % (n, q), lambda E, s, k=k, q=q: E.leaf_of(s, k) <= q + 1)
        # progress terms
        prog = []
        for n, t0, k in ints:
            prog.append((n + "-entry", lambda E, s, k=k, t0=t0: Sub(E.leaf_of(s, k), t0)))
            prog.append(("entry-" + n, lambda E, s, k=k, t0=t0: Sub(t0, E.leaf_of(s, k))))
            if z3.is_int_value(t0) and t0.as_long() == 1:
                prog.append((n, lambda E, s, k=k: E.leaf_of(s, k)))
        for i in range(0 if not lean else len(ints), len(ints)):
            for j in range(i + 1, len(ints)):
                (n1, a0, k1), (n2, b0, k2) = ints[i], ints[j]
                add("%s-%s const" % (n1, n2), lambda E, s, k1=k1, k2=k2, a0=a0, b0=b0:
                    Sub(E.leaf_of(s, k1), a0) == Sub(E.leaf_of(s, k2), b0))
                add("%s+%s const" % (n1, n2), lambda E, s, k1=k1, k2=k2, a0=a0, b0=b0:
                    E.leaf_of(s, k1) + E.leaf_of(s, k2) == a0 + b0)
        for n, t0, k in L:
            if t0.sort().kind() == z3.Z3_DATATYPE_SORT and info(t0.sort())[0] == "vec":
                for pn, pf in prog if not lean else []:
                    add("len(%s) grows with %s" % (n, pn), lambda E, s, k=k, t0=t0, pf=pf:
                        vlen(E.leaf_of(s, k)) == vlen(t0) + pf(E, s))
                add("len(%s) same" % n, lambda E, s, k=k, t0=t0: vlen(E.leaf_of(s, k)) == vlen(t0))
                for q in pool:
                    add("len(%s) <= %s" % (n, q), lambda E, s, k=k, q=q: vlen(E.leaf_of(s, k)) <= q)
            if t0.sort() == BoolS:
                add("%s true" % n, lambda E, s, k=k: E.leaf_of(s, k))
                add("%s false" % n, lambda E, s, k=k: Not(E.leaf_of(s, k)))
                for n2, b0, k2 in ints if not lean else []:
                    for neg in (False, True):
                        add("%s iff %s %s entry" % (n, n2, "past" if neg else "at"), lambda E, s, k=k,
                            k2=k2, b0=b0, neg=neg: E.leaf_of(s, k) == ((E.leaf_of(s, k2) == b0) != neg))
            add("%s unchanged" % n, lambda E, s, k=k, t0=t0: E.leaf_of(s, k) == t0)
        src = self.sources(entry, mods, ranges, fr)
        for h in self.hints:
            for name, pred in h.instances(self, entry, L, prog, src):
                add(name, pred)
        return out

    def houdini(self, entry, mods, step, cands, loc):
        t0 = time.time()
        base = prover.Base(self.facts + list(entry.pc), depth=2, timeout_ms=self.patience(1500))
        cur = []
        todo = []
        for c in cands:
            try:
                g = c.pred(self, entry)
            except (Unsupported, z3.Z3Exception) as ex:
                if self.opts.get("debug"):
                    print("cand error", c.name, ex)
                continue
            if not z3.is_true(z3.simplify(g)):
                todo.append((c, g))
            else:
                cur.append(c)
        jobs = self.opts.get("forks", 1)
        ok = prover.prove_many(base, [g for _, g in todo], jobs)
        good = {id(c) for (c, _), r in zip(todo, ok) if r} | {id(c) for c in cur}
        if self.opts.get("debug", 0) > 3:
            for (c, g), r in zip(todo, ok):
                if not r and self.opts["watch"] in c.name:
                    print("INITIAL", c.name, z3.simplify(g), "PC", entry.pc, "FACTS", self.facts[-12:])
        cur = [c for c in cands if id(c) in good]
        rounds = 0
        while True:
            rounds += 1
            mark = len(self.facts)
            rng = set(self.ranged)
            head = self.havoc(entry, mods)
            for c in cur:
                self.assume(head, c.pred(self, head))
            self.quiet += 1
            self.throws.append([])
            try:
                flow = step(head.copy())
            finally:
                self.quiet -= 1
                self.throws.pop()
            if flow.next is None or flow.next.dead():
                del self.facts[mark:]
                self.ranged = rng
                break
            base = prover.Base(self.facts + list(flow.next.pc), depth=3 if self.opts.get("retry")
                               else self.opts.get("hdepth", 3), timeout_ms=self.patience(2000))
            ok = prover.prove_many(base, [c.pred(self, flow.next) for c in cur], jobs)
            bad = [c for c, r in zip(cur, ok) if not r]
            del self.facts[mark:]
            self.ranged = rng
            if self.opts.get("debug"):
                print("houdini %s round %d: %d cands, %d bad (%.1fs)" %
                      (loc, rounds, len(cur), len(bad), time.time() - t0))
                if self.opts.get("debug") > 1:
                    for c in bad:
                        print("   drop", c.name)
                        if self.opts["debug"] > 2: print(flow.next.pc, "FACTS", self.facts[-30:], z3.simplify(c.pred(self, flow.next)))
            if not bad:
                break
            cur = [c for c in cur if c not in bad]
            if rounds > 12:
                raise Unsupported("invariant inference does not converge")
        if self.opts.get("debug") and not self.quiet:
            for c in cur:
                print("   inv", c.name)
        return cur


def short_q(q):
    from .contract import key_short
    return key_short(q)


def norm_name(n):
    return re.sub(r"!\d+", "", n)


def consts_of(t):
    """uninterpreted constants of a term"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def older(c):
    """position of a generated constant in the order of generation (0 if it was given)"""
    n = c.decl().name().rsplit("!", 1)
    return int(n[1]) if len(n) == 2 and n[1].isdigit() else 0


class Cand:
    __slots__ = ("name", "pred")

    def __init__(self, name, pred):
        self.name, self.pred = name, pred


class FakePair:
    """type of the elements of a map when the AST never names it"""

    def __init__(self, a, b):
        self.k = "rec"
        self.name = "std::pair"
        self.args = [a, b]
        self.s = self.key = "std::pair<%s,%s>" % (a.s, b.s)
        self.isref = False
        self.rid = None
        self.const = False
        self.repo = False

    def noref(self):
        return self

    def targs(self):
        return self.args


class IdxTy:
    k = "int"
    s = key = "size_t"
    w = 64
    sg = False
    char = False
    isref = False
    rid = None
    name = None
    const = False

    def noref(self):
        return self


IDX_TY = IdxTy()
