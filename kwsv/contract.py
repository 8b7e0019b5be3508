"""Contracts: specification of functions, their use at call sites, and the
verification of a function body against its contract."""
import itertools
import time
import traceback
import z3
from .tu import Unsupported, strip_targs
from .terms import *
from . import prover
from .engine import LV, CondLV, Ptr, ArrPtr, Iter, Clo, Obj, FnRef, Opaque, Lit, State, Frame, Obl
from .std import register_set_sort
from .streams import StreamEngine, GHOST_TY, NOINTS

LVS = (LV, CondLV)


def same(a, b, depth=0):
    """observational equality of two values (vectors: length and elements in range)"""
    if a.eq(b):
        return T(True)
    s = a.sort()
    if s.kind() == z3.Z3_DATATYPE_SORT:
        k, inf = info(s)
        if k == "vec":
            n = vlen(a)
            i = z3.Const("i!q%d" % depth, IntS)
            x, y = z3.Select(vdata(a), i), z3.Select(vdata(b), i)
            return And(vlen(a) == vlen(b),
                       z3.ForAll([i], Implies(And(i >= 0, i < n), same(x, y, depth + 1))))
        if k in ("rec", "pair") and has_vec(s):
            return And([same(inf.get(a, n), inf.get(b, n), depth) for n in inf.names])
    return Eq(a, b)


_hv = {}


def has_vec(s):
    if s.kind() != z3.Z3_DATATYPE_SORT:
        return False
    n = s.name()
    if n not in _hv:
        _hv[n] = False
        k, inf = info(s)
        if k == "vec":
            _hv[n] = True
        elif k in ("rec", "pair"):
            _hv[n] = any(has_vec(inf.ctor.domain(i)) for i in range(len(inf.names)))
    return _hv[n]


class View:
    """values seen by a contract at one call"""

    def __init__(self, E, spec, f):
        self.E, self.spec, self.f = E, spec, f
        self.tu, self.S = E.tu, E.S
        self.old, self.new, self.tys, self.lvs = {}, {}, {}, {}
        self.res = None
        self.st = None
        self.roots = {}
        self.rexact = {}
        self.fnargs = {}

    def __getitem__(self, n):
        return self.old[n]

    def ty(self, n):
        return self.tys[n]

    def root(self, n):
        """(value, type) of the most derived object behind a parameter, at entry"""
        return self.roots.get(n, (self.old.get(n), self.tys[n]))

    def nroot(self, n):
        lv = self.E.root_lv(self.lvs[n])
        return self.E.read(self.st_new, lv), lv.ty.noref()

    def sort(self, n):
        return self.S.sort(self.tys[n])


class Spec:
    """specification of all functions with one qualified name"""

    def __init__(self, q, params=(), prop=None, pre=None, val=None, post=None, mod=(), ret=None,
                 throws=None, hints=(), lemmas=None, when=None, nparams=None, alias=(),
                 structural_copy=False, variants=None, doc="", nullable=(), use=True, facts=None,
                 sort_rels=None, setup=None, deps=(), fnparams=None, invariants=None,
                 ghost=None, inline_at_calls=False, verify=True, ret_val=None, opts=None,
                 thorough_only=False, virt=False, pure=None, pure_mod=(), reach=None,
                 throw_mod=(), throw_post=None, ghosts=(), on_exit=None):
        # ghosts: program-wide objects the contract speaks about (fs, cout, cerr, cin);
        # on_exit: what holds when the function ends the program
        self.ghosts, self.on_exit = tuple(ghosts), on_exit
        # reach: name -> chain of pointer members followed from this (contract variables
        # for objects the object points to)
        self.reach = reach or {}
        self.throw_mod, self.throw_post = tuple(throw_mod), throw_post
        self.pure = pure
        self.pure_mod = tuple(pure_mod)
        self.q, self.params, self.prop = q, list(params), prop
        self.pre, self.val, self.post, self.mod = pre, val, post, list(mod)
        self.ret, self.throws, self.hints, self.lemmas = ret, throws, hints, lemmas
        self.when, self.nparams = when, nparams
        self.alias, self.structural_copy, self.variants = alias, structural_copy, variants
        self.doc, self.nullable, self.use, self.facts = doc, nullable, use, facts
        self.sort_rels = sort_rels
        self.setup = setup
        self.deps = deps
        self.fnparams = fnparams
        self.inline_at_calls = inline_at_calls
        self.verify_it = verify
        self.ret_val = ret_val
        self.opts = opts or {}
        self.virt = virt

    def matches(self, tu, f):
        if strip_targs(f["q"]) != self.q:
            return False
        if self.nparams is not None and len(f.get("params", f.get("ptypes", []))) != self.nparams:
            return False
        if self.nparams is None and len(self.params) != len(f.get("params", f.get("ptypes", []))):
            return False
        if self.when is not None and not self.when(tu, f):
            return False
        return True


class Bound:
    """a Spec bound to one function (instantiation); used at call sites"""

    def __init__(self, spec, f):
        self.spec, self.f = spec, f
        self.structural_copy = spec.structural_copy
        self.always = False

    def apply(self, E, f, this_lv, args, st):
        spec = self.spec
        fn = E.tu.functions.get(self.f["id"], self.f)
        v = View(E, spec, fn)
        st0 = st.copy()
        v.st = st0
        v.st_old = st0
        targets = {}
        ptys = [E.tu.ty(p["t"]) for p in fn["params"]] if "params" in fn else \
            [E.tu.ty(t) for t in fn["ptypes"]]
        if this_lv is not None and not fn.get("static"):
            cls = E.tu.ty(fn["cls"])
            lv = this_lv
            if isinstance(lv, LV) and lv.ty.noref().key != cls.key and \
                    E.base_path(lv.ty.noref().key, cls.key):
                lv = E.upcast(lv, cls)
            self._bind(E, v, "this", lv, cls, st0)
            targets["this"] = lv
            for n, chain in spec.reach.items():
                targets[n] = follow(E, st0, lv, chain)
                self._bind(E, v, n, targets[n], targets[n].ty.noref(), st0)
        for n in spec.ghosts:
            targets[n] = E.ghost(n)
            self._bind(E, v, n, targets[n], targets[n].ty, st0)
        for name, a, pt in zip(spec.params, args, ptys):
            self._bind_arg(E, v, name, a, pt, st, st0, targets)
        v.st_old = v.st = st0 = st.copy()
        for n, lv in targets.items():
            v.old[n] = E.read(st0, lv)
        q = strip_targs(fn["q"]).replace("kws::", "")
        if spec.pre:
            for label, g in spec.pre(v):
                E.oblige(st, g, "precondition of %s: %s" % (q, label), "precondition")
                E.assume(st, g)
        if spec.facts:
            for g in spec.facts(v):
                E.assume(st, g)
        if spec.throws:
            ts = st.copy()
            v.thrown = {}
            for n in spec.throw_mod:
                x = fresh(n + "_t", v.old[n].sort())
                E.type_fact(v.tys[n], x)
                E.write(ts, targets[n], x)
                v.thrown[n] = x
            if spec.throw_post:
                for label, g in spec.throw_post(v):
                    E.assume(ts, Implies(spec.throws(v), g))
            E.do_throw(st, spec.throws(v), "exception of " + q, ts)
        vals = spec.val(v) if spec.val else {}
        pure = None
        if spec.pure is not None:
            # pure: values of deterministic functions of the arguments
            pure = spec.pure(v)
            if isinstance(pure, dict):
                vals = dict(vals, **pure)
                pure = pure.get("result")
        for n in list(vals.keys()) + list(spec.mod):
            if n in ("result",) or n in v.new:
                continue
            if n not in targets:
                raise Unsupported("contract of %s modifies unknown %s" % (q, n))
            if n in vals:
                x = vals[n]
            else:
                x = fresh(n, v.old[n].sort())
                E.type_fact(v.tys[n], x)
            E.write(st, targets[n], x)
            v.new[n] = x
        for n in targets:
            v.new.setdefault(n, v.old[n])
        if "cerr" not in spec.ghosts and E.watch_cerr:
            E.write(st, E.ghost("cerr"), fresh("cerr", OS.sort))
        v.st_new = st
        rt = E.tu.ty(fn["ret"])
        res = None
        if spec.ret is not None:
            # returns a reference to one of the objects
            res = spec.ret(v) if callable(spec.ret) else targets[spec.ret]
        elif "result" in vals or pure is not None:
            res = vals["result"] if "result" in vals else pure
            v.res = res
            if rt.isref:
                res = E.new_loc(st, res, rt.noref(), "res")
        elif rt.k != "void":
            x = fresh(q.split("::")[-1], E.S.sort(rt))
            E.type_fact(rt, x)
            v.res = x
            res = E.new_loc(st, x, rt.noref(), "res") if rt.isref else x
        if spec.post:
            for label, g in spec.post(v):
                E.assume(st, g)
        return res

    def _bind(self, E, v, name, lv, ty, st):
        v.lvs[name] = lv
        v.tys[name] = ty
        v.old[name] = E.read(st, lv)
        E.type_fact(ty, v.old[name])
        try:
            r = E.root_lv(lv)
            dt, exact = E.dynamic_type(lv)
            v.roots[name] = (E.read(st, r), dt)
            v.rexact[name] = exact or not E.tu.all_derived(dt.key)
        except Unsupported:
            pass

    def _bind_arg(self, E, v, name, a, pt, st, st0, targets):
        if pt.isref:
            if isinstance(a, Lit):
                a = lit(a.s)
            if not isinstance(a, LVS):
                if not z3.is_expr(a):
                    v.fnargs[name] = a
                    return
                a = E.new_loc(st, a, pt.noref(), name)
            r = None
            try:
                r = E.read(st, a)
            except Unsupported:
                pass
            if r is not None and not z3.is_expr(r):
                v.fnargs[name] = r
                v.lvs[name] = a
                return
            ty = pt.noref()
            if isinstance(a, LV) and a.ty.noref().k == "rec" and a.ty.noref().key != ty.key and \
                    E.base_path(a.ty.noref().key, ty.key):
                a = E.upcast(a, ty)
            self._bind(E, v, name, a, ty, st)
            targets[name] = a
        elif pt.k == "ptr" and not (pt.to.k == "int" and pt.to.char):
            if isinstance(a, LVS):
                a = E.read(st, a)
            if isinstance(a, ArrPtr):
                v.fnargs[name] = a
                return
            if isinstance(a, Ptr) and a.lv is None or (z3.is_expr(a) and not is_known_ptr(E, a)):
                v.old[name] = E.enc_ptr(a)
                v.tys[name] = pt
                return
            p = E.as_ptr(a, pt)
            self._bind(E, v, name, p.lv, pt.to, st)
            targets[name] = p.lv
        else:
            if isinstance(a, LVS):
                a = E.read(st, a)
            if isinstance(a, Lit):
                a = lit(a.s)
            v.tys[name] = pt
            if z3.is_expr(a):
                v.old[name] = a
                E.type_fact(pt, a)
            else:
                v.fnargs[name] = a


def is_known_ptr(E, a):
    return a.get_id() in E.ptr_lv or not a.eq(NULLP)


def follow(E, st, lv, chain):
    """the object reached through a chain of pointer members"""
    for want in chain:
        ptrs = ptr_members(E.S, lv.ty.noref())
        n, t, cls = next((x for x in ptrs if x[0] == want), ptrs[0] if ptrs else (None, None, None))
        if n is None:
            raise Unsupported("no pointer member %s in %s" % (want, lv.ty.s))
        lv = E.upcast(lv, cls)
        lv = E.deref(st, E.read(st, lv.sub(("f", n), t)), t)
    return lv


def ptr_members(S, ty):
    """(name, type, class) of the pointer members of a class and its bases"""
    own, base = [], []
    for n, t in S.rec_fields(ty):
        if n.startswith("@"):
            base += ptr_members(S, t)
        elif t.k == "ptr":
            own.append((n, t, ty))
    return own + base


class Registry:
    def __init__(self, tu, specs):
        self.tu = tu
        self.S = Sorts(tu)
        self.specs = specs
        self.by_fn = {}
        for f in tu.functions.values():
            for s in specs:
                if f.get("body") is not None and s.matches(tu, f):
                    self.by_fn[f["id"]] = Bound(s, f)
                    break
        self.calls = {i: b for i, b in self.by_fn.items() if not b.spec.inline_at_calls}
        # interface methods without a body
        self.virt = {}
        for t in tu.rec_by_key.values():
            for m in tu.rec(t)["methods"]:
                pass

    def funcs_of(self, spec):
        return [self.tu.functions[i] for i, b in self.by_fn.items() if b.spec is spec]


def fn_key(tu, f):
    q = key_short(f["q"])
    ps = ",".join(key_short(tu.ty(p["t"]).s) for p in f["params"])
    return "%s(%s)" % (q, ps)


class FnResult:
    def __init__(self, key, loc):
        self.key, self.loc = key, loc
        self.obls = []          # (label, loc, kind, ok, backend, secs, status, model, smt)
        self.unsupported = None
        self.assumptions = set()
        self.used = set()
        self.inlined = set()
        self.loops = 0
        self.invs = []
        self.secs = 0.0
        self.vacuous = False

    def ok(self):
        return self.unsupported is None and all(o["ok"] for o in self.obls)


def concrete_types(tu, S, ty):
    """possible dynamic types of an object of static type ty"""
    out = []
    if not S.is_abstract(ty):
        out.append(ty)
    for d in tu.all_derived(ty.key):
        if not S.is_abstract(d) and not any(d.key == x.key for x in out):
            out.append(d)
    return out


def verify(reg, f, spec, opts=None, deadline_s=240):
    """generate and discharge every obligation of one function"""
    prover.OPAQUE = set(spec.opts.get("opaque", ()))
    try:
        return verify1(reg, f, spec, opts, deadline_s)
    finally:
        prover.OPAQUE = set()


def verify1(reg, f, spec, opts, deadline_s):
    opts = dict(opts or {})
    opts.update(spec.opts)
    tu = reg.tu
    res = FnResult(fn_key(tu, f), f["loc"])
    t0 = time.time()
    variants = [{}]
    if spec.variants:
        names = []
        lists = []
        for n in spec.variants:
            ty = tu.ty(f["cls"]) if n == "this" else \
                tu.ty(f["params"][spec.params.index(n)]["t"]).noref()
            if ty.k == "ptr":
                ty = ty.to
            names.append(n)
            lists.append(concrete_types(tu, reg.S, ty))
        variants = [dict(zip(names, c)) for c in itertools.product(*lists)]
    runs = [(vr, None) for vr in variants] + [({}, al) for al in spec.alias]
    for vr, al in runs:
        tag = ""
        if vr and len(variants) > 1:
            tag = " [" + ",".join("%s:%s" % (n, key_short(t.key)) for n, t in vr.items()) + "]"
        if al:
            tag = " [%s aliases %s]" % al
        try:
            E = run_one(reg, f, spec, vr, al, opts, time.time() + deadline_s)
        except Unsupported as ex:
            res.unsupported = "%s%s" % (ex, tag)
            if opts.get("debug"):
                traceback.print_exc()
            break
        except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError,
                RecursionError) as ex:
            res.unsupported = "internal: %s: %s%s" % (type(ex).__name__, ex, tag)
            if opts.get("debug"):
                traceback.print_exc()
            break
        res.assumptions |= E.assumptions
        res.used |= E.used_contracts
        res.inlined |= E.inlined
        res.loops += E.loops
        res.invs += E.inv_log
        for o in E.obls:
            d = {"label": o.label + tag, "loc": o.loc, "kind": o.kind}
            if o.done is None:
                r = prover.prove(o.facts, o.goal, timeout_ms=opts.get("timeout_ms", 8000))
                d.update(ok=r.ok, backend=r.backend, secs=round(r.secs, 3), status=r.status)
                if not r.ok:
                    d["model"] = model_text(r.model, getattr(E, "symbols", None))
                    d["values"] = model_values(r.model, E)
                    if opts.get("debug"):
                        d["facts"] = o.facts
                        d["goal"] = o.goal
            else:
                d.update(ok=True, backend=o.backend, secs=0.0, status="unsat")
            res.obls.append(d)
            if opts.get("stop_at_first") and not d["ok"]:
                break
        # vacuity: the exit (normal or exceptional) must be reachable
        if E.exit_facts is not None:
            s = prover.mk_solver(3000)
            cl = prover.Closure(1)
            for x in E.exit_facts:
                s.add(x)
            for x in cl.add(E.exit_facts):
                s.add(x)
            if s.check() == z3.unsat:
                res.vacuous = True
                res.obls.append({"label": "assumptions are satisfiable" + tag, "loc": f["loc"],
                                 "kind": "vacuity", "ok": False, "backend": "z3", "secs": 0,
                                 "status": "the precondition is contradictory"})
            else:
                res.obls.append({"label": "assumptions are satisfiable (reachability)" + tag,
                                 "loc": f["loc"], "kind": "vacuity", "ok": True, "backend": "z3",
                                 "secs": 0, "status": "not refuted"})
    res.secs = time.time() - t0
    return res


def model_text(m, symbols=None):
    if m is None:
        return None
    out = []
    for d in m.decls():
        if d.arity() == 0 and "!" in d.name() and not d.name().startswith(("i!", "j!", "x!")):
            out.append("%s = %s" % (d.name(), str(m[d])[:200]))
    return sorted(out)[:80]


def model_values(m, E):
    """values of the entry symbols of the function under verification"""
    if m is None:
        return None
    out = {}
    for n, t in getattr(E, "entry_terms", {}).items():
        try:
            out[n] = str(m.eval(t, model_completion=True))[:600]
        except z3.Z3Exception:
            pass
    return out


def run_one(reg, f, spec, variant, alias, opts, deadline):
    tu, S = reg.tu, reg.S
    E = StreamEngine(tu, S, reg.calls, opts)
    E.virt_specs = [s for s in reg.specs if s.virt]
    E.top = f
    E.deadline = deadline
    E.exit_facts = None
    E.hints = list(spec.hints(reg, f) if callable(spec.hints) else spec.hints)
    E.sort_rels = list(spec.sort_rels(reg, f) if spec.sort_rels else [])
    st = State({}, [])
    v = View(E, spec, f)
    fr = Frame(f, None)
    isctor = f.get("ctor")
    E.entry_terms = {}
    targets = {}
    lvs = {}
    if "cls" in f and not f.get("static") and not isctor:
        cls = tu.ty(f["cls"])
        dt = variant.get("this", cls)
        k = z3.Const("this", S.sort(dt))
        root = E.new_loc(st, k, dt, "this", exact="this" in variant)
        E.entry_terms["this"] = k
        lv = E.upcast(root, cls) if dt.key != cls.key else root
        fr.this = lv
        lvs["this"] = lv
        v.tys["this"] = cls
        v.roots["this"] = (k, dt)
        v.rexact["this"] = "this" in variant or not tu.all_derived(dt.key)
        type_facts_deep(E, dt, k)
    args = []
    for i, p in enumerate(f["params"]):
        name = spec.params[i] if i < len(spec.params) else p["name"]
        pt = tu.ty(p["t"])
        if spec.fnparams and name in spec.fnparams:
            val = spec.fnparams[name](E, v, pt, st)
            args.append(val)
            v.fnargs[name] = val
            continue
        if pt.isref or (pt.k == "ptr" and not (pt.to.k == "int" and pt.to.char)):
            ty = pt.noref() if pt.isref else pt.to
            if alias and name == alias[1]:
                lv = lvs[alias[0]]
                lvs[name] = lv
                v.tys[name] = ty
                if alias[0] in v.roots:
                    v.roots[name] = v.roots[alias[0]]
                    v.rexact[name] = v.rexact[alias[0]]
                args.append(lv if pt.isref else Ptr(lv))
                continue
            dt = variant.get(name, ty)
            k = z3.Const(name, S.sort(dt))
            E.entry_terms[name] = k
            root = E.new_loc(st, k, dt, name, exact=name in variant)
            lv = E.upcast(root, ty) if dt.key != ty.key else root
            lvs[name] = lv
            v.tys[name] = ty
            v.roots[name] = (k, dt)
            v.rexact[name] = name in variant or not tu.all_derived(dt.key)
            type_facts_deep(E, dt, k)
            args.append(lv if pt.isref else Ptr(lv))
        elif pt.k == "ptr":
            k = z3.Const(name, Str)
            E.entry_terms[name] = k
            v.tys[name] = pt
            v.old[name] = k
            args.append(k)
        else:
            k = z3.Const(name, S.sort(pt))
            E.entry_terms[name] = k
            v.tys[name] = pt
            v.old[name] = k
            type_facts_deep(E, pt, k)
            args.append(k)
    v.lvs = lvs
    for n, chain in spec.reach.items():
        if isctor:
            break
        lvs[n] = follow(E, st, lvs["this"], chain)
        v.tys[n] = lvs[n].ty.noref()
        v.roots[n] = (E.read(st, lvs[n]), v.tys[n])
        v.rexact[n] = True
        E.entry_terms[n] = E.read(st, lvs[n])
    for n in spec.ghosts:
        lvs[n] = E.ghost(n)
        v.tys[n] = lvs[n].ty
        if n == "cerr":
            # messages since the call
            E.write(st, lvs[n], OS.set(E.read(st, lvs[n]), "ints", NOINTS))
        else:
            E.write(st, lvs[n], E.read(st, lvs[n]))
        E.entry_terms[n] = E.read(st, lvs[n])
    E.watch_cerr = "cerr" in spec.ghosts
    for n, lv in lvs.items():
        v.old[n] = E.read(st, lv)
    v.st_old = v.st = st.copy()
    if spec.setup:
        spec.setup(E, v, st)
        v.st_old = v.st = st.copy()
        for n, lv in lvs.items():
            v.old[n] = E.read(st, lv)
    if spec.facts:
        for g in spec.facts(v):
            E.fact(g)
    if spec.pre:
        for label, g in spec.pre(v):
            E.fact(g)
    mark_roots = {n: (E.root_lv(lv), E.read(st, E.root_lv(lv))) for n, lv in lvs.items()}
    # run
    E.throws = [[]]
    retv = None
    if isctor:
        cls = tu.ty(f["cls"])
        E.stack.append(-1)
        obj = E.run_ctor(f, cls, args, st)
        E.stack.pop()
        v.res = obj
        v.tys["result"] = cls
        out_st = st
    else:
        E.bind_params(f, args, fr, st)
        flow = E.exec(f["body"], st, fr)
        rets = list(flow.ret)
        if flow.next is not None:
            rets.append((flow.next, None))
        out_st, retv = E.merge_rets(rets)
    E.cur_loc = f["loc"]
    thrown = E.throws[0]
    E.throws = [[]]
    exits = []
    if out_st is not None and not out_st.dead():
        exits.append(And(out_st.pc))
        v.st_new = out_st
        v.st = out_st
        for n, lv in lvs.items():
            v.new[n] = E.read(out_st, lv)
        rt = tu.ty(f["ret"])
        if not isctor and rt.k != "void" and retv is not None:
            if isinstance(retv, LVS):
                v.res_lv = retv
                v.res = E.read(out_st, retv)
            elif isinstance(retv, Lit):
                v.res = lit(retv.s)
            elif z3.is_expr(retv):
                v.res = retv
            else:
                v.res = retv
        if spec.throws:
            E.oblige(out_st, Not(spec.throws(v)), "returns normally only when nothing is wrong",
                     "postcondition", f["loc"])
        if spec.lemmas:
            for g in spec.lemmas(v):
                E.fact(g)
        # returned reference
        if spec.ret is not None:
            want = spec.ret(v) if callable(spec.ret) else lvs[spec.ret]
            okref = isinstance(retv, LVS) and E.root_lv(retv).same(E.root_lv(want))
            E.oblige(out_st, T(bool(okref)), "returns a reference to the required object",
                     "postcondition", f["loc"])
        vals = spec.val(v) if spec.val else {}
        for n, x in vals.items():
            got = v.res if n == "result" else v.new[n]
            if not z3.is_expr(got):
                got = E.val_term(got)
            E.oblige(out_st, same(got, x), "%s has the specified value" % n, "postcondition",
                     f["loc"])
        # frame
        for n, (rlv, old) in mark_roots.items():
            if n in vals or n in spec.mod or n in spec.pure_mod:
                # the rest of a derived object must not change
                continue
            if alias and n == alias[1] and (alias[0] in vals or alias[0] in spec.mod):
                continue
            if alias and n == alias[0] and (alias[1] in vals or alias[1] in spec.mod):
                continue
            now = E.read(out_st, rlv)
            if z3.is_expr(now):
                E.oblige(out_st, same(now, old), "%s is not modified" % n, "frame", f["loc"])
        ghost_frame(E, spec, out_st, f)
        if spec.post:
            for label, g in spec.post(v):
                E.oblige(out_st, g, label, "postcondition", f["loc"])
    for s, what in thrown:
        ghost_frame(E, spec, s, f)
        v2 = View(E, spec, f)
        v2.__dict__.update(v.__dict__)
        exits.append(And(s.pc))
        if spec.throws:
            E.oblige(s, spec.throws(v), "throws %s only when specified" % what, "postcondition",
                     f["loc"])
            v2.thrown = {}
            for n, (rlv, old) in mark_roots.items():
                now = E.read(s, rlv)
                if n in spec.throw_mod:
                    v2.thrown[n] = now
                elif z3.is_expr(now):
                    E.oblige(s, same(now, old), "%s is not modified when throwing" % n, "frame",
                             f["loc"])
            if spec.throw_post:
                for label, g in spec.throw_post(v2):
                    E.oblige(s, g, label + " (when throwing)", "postcondition", f["loc"])
        else:
            E.oblige(s, T(False), "throws no exception (%s)" % what, "postcondition", f["loc"])
    for s, code in getattr(E, "exits", []):
        exits.append(And(s.pc))
        if spec.on_exit:
            for label, g in spec.on_exit(v, s, code):
                E.oblige(s, g, label, "postcondition", f["loc"])
        else:
            E.oblige(s, T(False), "does not end the program", "postcondition", f["loc"])
    E.exit_facts = list(E.facts) + [Or(exits)] if exits else list(E.facts) + [T(False)]
    return E


def ghost_frame(E, spec, st, f):
    """files and standard streams a contract does not mention are left alone"""
    for q, lv in E.globals.items():
        n = q.split("::")[-1]
        if n in spec.ghosts or n in ("cerr", "clog"):
            continue
        E.oblige(st, same(E.read(st, lv), E.heap0[lv.loc]), "%s is not touched" % n, "frame",
                 f["loc"])


def type_facts_deep(E, ty, t, depth=0):
    ty = ty.noref()
    if ty.k == "int":
        E.type_fact(ty, t)
        return
    if ty.k == "rec":
        E.type_fact(ty, t)
        k, inf = info(t.sort()) if t.sort().kind() == z3.Z3_DATATYPE_SORT else (None, None)
        if k == "rec" and getattr(inf, "ftypes", None) and depth < 5:
            for n, ft in zip(inf.names, inf.ftypes):
                type_facts_deep(E, ft, inf.get(t, n), depth + 1)
        elif k == "pair":
            for n, ft in zip(inf.names, ty.targs()):
                type_facts_deep(E, ft, inf.get(t, n), depth + 1)
        elif k == "opt":
            type_facts_deep(E, ty.targs()[0], inf.val_a(t), depth + 1)
        elif k == "vec":
            quant_type(E, ty, t)


def quant_type(E, ty, t):
    """elements of a vector are in the range of their type"""
    inf = vi(t)
    ety = ty.targs()[0].noref()
    i = z3.Const("i!t", IntS)
    x = z3.Select(vdata(t), i)
    fs = elem_type_formula(E, ety, x, 0)
    if not z3.is_true(fs):
        E.fact(z3.ForAll([i], Implies(And(i >= 0, i < vlen(t)), fs), patterns=[x]))


def elem_type_formula(E, ty, x, depth):
    ty = ty.noref()
    if ty.k == "int":
        lo, hi = E.irange(ty)
        return And(x >= lo, x <= hi)
    if ty.k == "rec" and x.sort().kind() == z3.Z3_DATATYPE_SORT:
        k, inf = info(x.sort())
        if k == "rec" and getattr(inf, "ftypes", None) and depth < 4:
            return And([elem_type_formula(E, ft, inf.accs[i](x), depth + 1)
                        for i, ft in enumerate(inf.ftypes)])
        if k == "pair":
            return And([elem_type_formula(E, ft, inf.accs[i](x), depth + 1)
                        for i, ft in enumerate(ty.targs())])
        if k == "vec":
            n = inf.accs[0](x)
            j = z3.Const("j!t%d" % depth, IntS)
            y = z3.Select(inf.accs[1](x), j)
            sub = elem_type_formula(E, ty.targs()[0], y, depth + 1)
            out = And(n >= 0, n < 2 ** 63)
            if not z3.is_true(sub):
                out = And(out, z3.ForAll([j], Implies(And(j >= 0, j < n), sub), patterns=[y]))
            return out
        if k == "opt":
            return elem_type_formula(E, ty.targs()[0], inf.val_a(x), depth + 1)
    return T(True)
