"""Discharging of verification conditions: ground unfolding of spec functions
and z3 / cvc5 as back ends."""
import subprocess
import tempfile
import time
import os
import z3
z3.set_param("warning", False)
from .terms import *

# spec functions: decl name -> (fn(args...) -> list of facts)
UNFOLD = {}
# symbols that depend on vector arguments only through length and elements
CONG = set()
# facts added once whenever a decl with this name occurs
STATS = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0, "z3": 0, "cvc5": 0}


def unfolds(name):
    def deco(fn):
        UNFOLD[name] = fn
        return fn
    return deco


_sub_cache = {}


def apps_of(t):
    """spec-function applications (and Str terms, set terms...) inside t"""
    key = t.get_id()
    r = _sub_cache.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            # bound variables: do not unfold inside
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.sort().eq(Str):
                    out.append(x)
                elif x.decl().name() in UNFOLD:
                    out.append(x)
                continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in UNFOLD:
                out.append(x)
            elif x.sort().eq(Str):
                out.append(x)
            stack.extend(x.children())
    _sub_cache[key] = (t, out)
    return out


def unfold(a):
    """facts about one application; arguments that cannot occur in patterns get a name"""
    f = UNFOLD[a.decl().name()]
    if OPAQUE and a.decl().name().split("!")[0] in OPAQUE:
        return []
    try:
        return f(*a.children())
    except z3.Z3Exception:
        args, eqs = [], []
        for c in a.children():
            if c.num_args() > 0:
                n = z3.Const("named!%d" % c.get_id(), c.sort())
                _named[c.get_id()] = c
                eqs.append(n == c)
                c = n
            args.append(c)
        return eqs + [a == a.decl()(*args)] + f(*args)


_named = {}
# functions whose definition is not used in the current proof
OPAQUE = set()


class Closure:
    """collects ground instances for a growing set of formulas"""

    def __init__(self, depth=3, parent=None):
        self.seen = set(parent.seen) if parent else set()
        self.depth = depth
        self.keep = []
        self.strs = list(parent.strs) if parent else []
        self.cong = {k: list(v) for k, v in parent.cong.items()} if parent else {}

    def add(self, fs):
        out = []
        level = [(f, 0) for f in fs]
        while level:
            nxt = []
            for f, d in level:
                for a in apps_of(f):
                    k = a.get_id()
                    if k in self.seen:
                        continue
                    self.seen.add(k)
                    self.keep.append(a)
                    new = []
                    if z3.is_app(a) and a.decl().name() in CONG:
                        new += self.congruence(a)
                    if a.sort().eq(Str):
                        new += str_facts(a)
                    if z3.is_app(a) and a.decl().name() in UNFOLD and d < self.depth:
                        new += unfold(a)
                    for g in new:
                        if z3.is_true(g):
                            continue
                        out.append(g)
                        nxt.append((g, d + 1))
            level = nxt
        return out


def _cong(self, a):
    """equal results for observationally equal vector arguments"""
    from .contract import same, has_vec
    out = []
    l = self.cong.setdefault(a.decl().name(), [])
    if len(l) < 12:
        for b in l:
            if a.eq(b):
                continue
            prem = []
            for x, y in zip(a.children(), b.children()):
                prem.append(same(x, y) if has_vec(x.sort()) else Eq(x, y))
            if any(has_vec(x.sort()) and not x.eq(y) for x, y in zip(a.children(), b.children())):
                out.append(Implies(And(prem), a == b))
    l.append(a)
    return out


Closure.congruence = _cong


def str_facts(a):
    if z3.is_app(a) and a.decl().name() == "s_unrank":
        return []
    out = [s_unrank(s_rank(a)) == a, s_len(a) >= 0]
    txt = lit_text(a)
    if txt is None:
        out.append(Implies(s_len(a) == 0, a == lit("")))
    if txt is not None:
        out.append(s_len(a) == len(txt))
        for i, c in enumerate(txt[:8]):
            out.append(s_at(a, z3.IntVal(i)) == ord(c))
    return out


def mk_solver(timeout_ms, mbqi=False):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    s.set("smt.arith.solver", 6) if False else None
    s.set("random_seed", 7)
    return s


def split_goal(g):
    """conjuncts of a goal, pushed through implications"""
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    if z3.is_implies(g):
        return [Implies(g.arg(0), x) for x in split_goal(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [fresh("sk_" + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)))
    return [g]


class Base:
    """a reusable context: facts asserted once, many goals"""

    def __init__(self, facts, depth=3, timeout_ms=3000):
        self.facts = list(facts)
        self.cl = Closure(depth)
        self.timeout = timeout_ms
        self.inst = self.cl.add(self.facts)
        self.s = mk_solver(timeout_ms)
        for f in self.facts:
            self.s.add(f)
        for f in self.inst:
            self.s.add(f)

    def prove(self, goal, extra=()):
        if z3.is_true(goal):
            return True
        for g in split_goal(goal):
            if not self._prove1(g, extra):
                return False
        return True

    def _prove1(self, g, extra):
        if z3.is_true(g):
            return True
        STATS["queries"] += 1
        t0 = time.time()
        cl = Closure(self.cl.depth, self.cl)
        ng = z3.Not(g)
        inst = cl.add([ng] + list(extra))
        self.s.push()
        try:
            for f in inst:
                self.s.add(f)
            for f in extra:
                self.s.add(f)
            self.s.add(ng)
            r = self.s.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.s.pop()
        STATS["z3"] += 1
        STATS["z3_s"] += time.time() - t0
        return r == z3.unsat


def prove_many(base, goals, jobs=1):
    """base.prove for each goal; independent goals in forked processes when jobs > 1"""
    jobs = min(jobs, len(goals) // 2)
    if jobs <= 1:
        return [base.prove(g) for g in goals]
    kids = []
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                import signal
                signal.alarm(0)
                os.close(r)
                out = bytes(1 if base.prove(g) else 0 for g in goals[w::jobs])
                os.write(wr, out)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r, w))
    res = [False] * len(goals)
    try:
        for pid, r, w in kids:
            data = b""
            while True:
                x = os.read(r, 4096)
                if not x:
                    break
                data += x
            for i, b in zip(range(w, len(goals), jobs), data):
                res[i] = bool(b)
    finally:
        for pid, r, w in kids:
            os.close(r)
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
    STATS["queries"] += len(goals)
    return res


class Result:
    def __init__(self, ok, backend, secs, status, model=None, smt=None):
        self.ok = ok
        self.backend = backend
        self.secs = secs
        self.status = status
        self.model = model
        self.smt = smt


def conditions(goal, limit=2):
    """conditions of the outermost choices between values in a goal"""
    out, seen, todo = [], set(), [goal]
    while todo and len(out) < limit:
        t = todo.pop(0)
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(t.arg(0).eq(c) for c in out):
            out.append(t.arg(0))
        todo += t.children()
    return out


def prove(facts, goal, timeout_ms=8000, depths=(2, 4), want_model=True):
    """full-effort proof of one obligation: directly, then by cases on the choices in the goal"""
    r = prove1(facts, goal, timeout_ms, depths, want_model)
    if r.ok or r.status == "sat":
        return r
    t0 = time.time()
    for c in conditions(goal):
        for val in (True, False):
            b = z3.BoolVal(val)
            fs = [z3.simplify(z3.substitute(f, (c, b))) for f in facts]
            g = z3.simplify(z3.substitute(goal, (c, b)))
            r1 = prove1(fs + [c if val else z3.Not(c)], g, timeout_ms, depths, want_model)
            if not r1.ok:
                break
        else:
            return Result(True, r1.backend, r.secs + time.time() - t0, "unsat")
    r.secs += time.time() - t0
    return r


def prove1(facts, goal, timeout_ms=8000, depths=(2, 4), want_model=True):
    t00 = time.time()
    backend = "z3"
    model = None
    status = "unknown"
    gs = split_goal(goal)
    smt_txt = None
    for g in gs:
        if z3.is_true(g):
            continue
        done = False
        for depth in depths:
            cl = Closure(depth)
            ng = z3.Not(g)
            inst = cl.add(list(facts) + [ng])
            s = mk_solver(timeout_ms)
            for f in facts:
                s.add(f)
            for f in inst:
                s.add(f)
            s.add(ng)
            STATS["queries"] += 1
            t0 = time.time()
            r = s.check()
            STATS["z3"] += 1
            STATS["z3_s"] += time.time() - t0
            if r == z3.unsat:
                done = True
                break
            status = "sat" if r == z3.sat else "unknown(%s)" % s.reason_unknown()
            if r == z3.sat or "incomplete" in status or "quantifier" in status:
                try:
                    model = s.model()
                except z3.Z3Exception:
                    model = None
        if not done:
            # second z3 configuration (default tactic: nlsat etc.)
            s2 = z3.Solver()
            s2.set("timeout", timeout_ms)
            for f in facts:
                s2.add(f)
            for f in inst:
                s2.add(f)
            s2.add(ng)
            t0 = time.time()
            r = s2.check()
            STATS["z3"] += 1
            STATS["z3_s"] += time.time() - t0
            if r == z3.unsat:
                done = True
                backend = "z3(default)"
            elif r == z3.sat:
                status = "sat"
                model = s2.model()
        if not done and status != "sat":
            smt_txt = s.to_smt2()
            ok = cvc5_unsat(smt_txt, timeout_ms)
            if ok:
                done = True
                backend = "cvc5"
        if not done:
            return Result(False, backend, time.time() - t00, status, model, smt_txt)
    return Result(True, backend, time.time() - t00, "unsat")


def cvc5_unsat(txt, timeout_ms):
    t0 = time.time()
    STATS["cvc5"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--arrays-exp", name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.decode().strip().split("\n")[0]
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = "timeout"
    finally:
        os.unlink(name)
        STATS["cvc5_s"] += time.time() - t0
    return out == "unsat"
