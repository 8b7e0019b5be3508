"""Runs the check of one property: proof obligations generated from /repo's current
sources, discharged function by function, plus the replay harness on the real code."""
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("KWSV_REPO", "/repo")
JOBS = 8
HARD_LIMIT = 780.0


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------- extraction
def build_extractor():
    exe = os.path.join(ROOT, "build", "kwsx")
    src = os.path.join(ROOT, "extract", "extract.cc")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    subprocess.run(["bash", os.path.join(ROOT, "extract", "build.sh"), exe], check=True)
    return exe


def extract(work):
    exe = build_extractor()
    rdir = subprocess.run(["clang-18", "-print-resource-dir"], stdout=subprocess.PIPE,
                          check=True).stdout.decode().strip()
    out = os.path.join(work, "all.json")
    err = ""
    for drv in ("all.cc", "tools.cc"):
        p = subprocess.run([exe, REPO + "/", os.path.join(ROOT, "driver", drv), out, "-std=c++14",
                            "-I" + REPO, "-resource-dir", rdir],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
        if p.returncode == 0 and os.path.exists(out):
            return out, drv, err
        err += p.stdout.decode(errors="replace")[-2000:]
    return None, None, err


# ------------------------------------------------------------------ harness
class Harness:
    """bounded audit of the real code; also searches the input that replays a failed proof"""

    def __init__(self, prop, work, seed):
        self.src = os.path.join(ROOT, "harness", prop + ".cc")
        self.exe = os.path.join(work, "harness")
        self.work = work
        self.seed = seed
        self.cases = self.nontrivial = 0
        self.samples = []
        self.fail = None
        self.problem = None
        self.runs = 0
        self.ready = threading.Event()
        self.proc = None

    def start(self, secs):
        self.t = threading.Thread(target=self._go, args=(secs,), daemon=True)
        self.t.start()

    def _go(self, secs):
        try:
            if not os.path.exists(self.src):
                self.problem = "no harness"
                return
            cmd = ["g++", "-std=c++14", "-O1", "-g0", "-fsanitize=address,undefined",
                   "-fno-sanitize-recover=all", "-w", "-I" + REPO,
                   "-I" + os.path.join(ROOT, "harness"), self.src, "-o", self.exe, "-pthread"]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode != 0:
                self.problem = "harness does not compile against the current tree: " + \
                    p.stdout.decode(errors="replace")[-1500:]
                return
            self.ready.set()
            self._run(self.seed, secs)
        except Exception as ex:      # noqa
            self.problem = "harness: %s" % ex
        finally:
            self.ready.set()

    def _run(self, seed, secs):
        d = tempfile.mkdtemp(dir=self.work)
        env = dict(os.environ, HX_DIR=d, HX_EXE=self.exe)
        try:
            p = subprocess.run([self.exe, str(seed), str(secs)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=secs * 3 + 90, cwd=d, env=env)
        except subprocess.TimeoutExpired:
            self.problem = "harness did not end in time"
            return
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out = p.stdout.decode(errors="replace")
        self.runs += 1
        fail = inp = None
        for line in out.split("\n"):
            if line.startswith("CASES "):
                self.cases += int(line[6:])
            elif line.startswith("NONTRIVIAL "):
                self.nontrivial += int(line[11:])
            elif line.startswith("SAMPLE ") and len(self.samples) < 3:
                self.samples.append(line[7:][:600])
            elif line.startswith("FAIL "):
                fail = line[5:]
            elif line.startswith("INPUT "):
                inp = line[6:]
        if fail is not None:
            err = [l for l in p.stderr.decode(errors="replace").split("\n")
                   if "runtime error" in l or "ERROR: AddressSanitizer" in l]
            if self.fail is None:
                self.fail = {"what": fail, "input": inp, "seed": seed, "seconds": secs,
                             "sanitizer": err[:3], "harness": os.path.relpath(self.src, ROOT)}
        elif p.returncode != 0:
            err = p.stderr.decode(errors="replace")[-1500:]
            if self.fail is None:
                self.fail = {"what": "the harness process ended with status %d" % p.returncode,
                             "input": inp, "seed": seed, "seconds": secs, "stderr": err,
                             "harness": os.path.relpath(self.src, ROOT)}

    def join(self):
        self.t.join()

    def search(self, secs, n=6):
        """more seeds, to replay a failed obligation"""
        if self.problem or not os.path.exists(self.exe):
            return
        ts = []
        for i in range(n):
            t = threading.Thread(target=self._run, args=(self.seed * 1000 + 77 + i, secs))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()


# -------------------------------------------------------------- verification
G = {}


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def task(arg):
    kind, key, limit, opts = arg
    from kwsv import contract, prover
    from kwsv.contract import verify, fn_key, FnResult
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit) + 30)
    t0 = time.time()
    for k in prover.STATS:
        prover.STATS[k] = 0
    try:
        if kind == "fn":
            f = G["tu"].functions[key]
            spec = G["reg"].by_fn[key].spec
            r = verify(G["reg"], f, spec, opts, deadline_s=limit)
            d = {"fn": r.key, "loc": r.loc, "obls": r.obls, "unsupported": r.unsupported,
                 "assumptions": sorted(r.assumptions), "used": sorted(r.used),
                 "inlined": sorted(r.inlined), "loops": r.loops, "invs": r.invs}
        else:
            prop, label, facts, goal = G["theorems"][key]
            r = prover.prove(facts, goal, timeout_ms=opts.get("timeout_ms", 8000))
            o = {"label": label, "loc": "", "kind": "theorem", "ok": r.ok, "backend": r.backend,
                 "secs": r.secs, "status": r.status}
            if not r.ok:
                o["model"] = contract.model_text(r.model)
            d = {"fn": "theorem: " + label, "loc": "", "obls": [o], "unsupported": None,
                 "assumptions": [], "used": [], "inlined": [], "loops": 0, "invs": []}
    except Timeout:
        d = {"fn": str(key), "loc": "", "obls": [], "unsupported": "time limit of %d s" % limit,
             "assumptions": [], "used": [], "inlined": [], "loops": 0, "invs": []}
        if kind == "fn":
            d["fn"] = fn_key(G["tu"], G["tu"].functions[key])
    except Exception as ex:          # noqa
        d = {"fn": str(key), "loc": "", "obls": [], "unsupported": "internal: %s: %s" %
             (type(ex).__name__, ex), "assumptions": [], "used": [], "inlined": [], "loops": 0,
             "invs": []}
        if kind == "fn":
            d["fn"] = fn_key(G["tu"], G["tu"].functions[key])
    finally:
        signal.alarm(0)
    d["secs"] = time.time() - t0
    d["stats"] = dict(prover.STATS)
    d["kind"], d["key"] = kind, key
    return d


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="kwsv-")
    code = 0
    try:
        code = run(prop, tier, seed, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(prop, tier, seed, thorough, work, t0):
    h = Harness(prop, work, seed)
    h.start(180 if thorough else 15)
    results = []
    problem = None
    nmatch = {}
    try:
        js, drv, err = extract(work)
        if js is None:
            problem = "extraction failed: " + err[-1500:]
    except Exception as ex:          # noqa
        js = None
        problem = "extraction failed: %s" % ex
    theorems = []
    reg = None
    fnames = {}
    missing = []
    if js:
        try:
            from kwsv.tu import TU
            from kwsv.contract import Registry, fn_key
            from kwsv.specs import all as A
            tu = TU(js)
            reg0 = Registry(tu, [])
            specs, theorems = A.load(tu, reg0.S)
            reg = Registry(tu, specs)
            if hasattr(A, "setup"):
                A.setup(tu, reg)
            G["tu"], G["reg"], G["theorems"] = tu, reg, theorems
            for i, b in reg.by_fn.items():
                fnames[i] = (fn_key(tu, tu.functions[i]), A.props_of(b.spec))
            roots = [i for i, b in reg.by_fn.items()
                     if prop in A.props_of(b.spec) and b.spec.verify_it]
            have = {id(reg.by_fn[i].spec) for i in reg.by_fn}
            missing = sorted({s.q for s in specs if not s.virt and prop in A.props_of(s) and id(s) not in have
                              and not any(b.spec.q == s.q for b in reg.by_fn.values())
                              and not s.opts.get("optional")})
            thms = [i for i, t in enumerate(theorems) if t[0] == prop]
        except Exception as ex:      # noqa
            import traceback
            problem = "contracts do not fit the current tree: %s: %s" % (type(ex).__name__, ex)
            if os.environ.get("KWSV_DEBUG"):
                traceback.print_exc()
            roots, thms = [], []
        limit = 600 if thorough else 240
        opts = {"timeout_ms": 20000 if thorough else 8000}
        tasks = [("fn", i, limit, opts) for i in sorted(
            roots, key=lambda i: -weight(tu.functions[i]))] + [("th", i, 60, opts) for i in thms]
        results = run_tasks(tasks, t0)
        # a failed obligation is tried again with a longer limit before it is reported
        bad = [r for r in results if not r["unsupported"] and any(not o["ok"] for o in r["obls"])]
        if bad:
            h.join()
        # (not when the harness has a failing input already)
        if bad and h.fail is None and time.time() - t0 < HARD_LIMIT / 2:
            again = run_tasks([(r["kind"], r["key"], limit, {"timeout_ms": 30000, "retry": 1})
                               for r in bad[:16]], t0)
            byk = {(r["kind"], r["key"]): r for r in again}
            results = [byk.get((r["kind"], r["key"]), r) for r in results]
    failing = []
    for r in results:
        for o in r["obls"]:
            if not o["ok"]:
                failing.append((r, o))
    h.join()
    if failing and h.fail is None:
        left = HARD_LIMIT - (time.time() - t0)
        if left > 60:
            h.search(min(40, left / 3), 7)
    outside = [(r["fn"], r["unsupported"]) for r in results if r["unsupported"]]
    # ------------------------------------------------------------- evidence
    obls = [o for r in results for o in r["obls"]]
    disch = sum(1 for o in obls if o["ok"])
    backends = {}
    for o in obls:
        if o["ok"]:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    kinds = {}
    for o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    used = sorted({i for r in results for i in r["used"]})
    inl = sorted({i for r in results for i in r["inlined"]})
    from kwsv.specs.all import TRUSTED, assumptions_of
    assumptions = assumptions_of(prop) + sorted({a for r in results for a in r["assumptions"]})
    callee = sorted("%s [%s]" % (fnames[i][0], "discharged by the check of " + ",".join(fnames[i][1])
                                 if i in fnames and fnames[i][1] else "assumed")
                    for i in used if i in fnames)
    fns = [r for r in results if r["kind"] == "fn"]
    proof_done = [r for r in fns if not r["unsupported"] and all(o["ok"] for o in r["obls"])]
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": disch,
            "checker_cmd": "./check.sh %s %s" % (prop, tier),
            "trusted_base": TRUSTED,
            "functions_under_contract": len(fns),
            "functions_fully_discharged": len(proof_done),
            "functions": sorted({r["fn"] for r in fns})[:400],
            "functions_outside_verifier_reach_bounded_only": outside,
            "contracts_without_function_in_tree": missing,
            "inlined_functions": sorted({reg.tu.functions[i]["q"] for i in inl
                                         if i in reg.tu.functions})[:300] if reg else [],
            "callee_contracts_used": callee[:300],
            "loops": sum(r["loops"] for r in results),
            "loop_invariants": [[l, n] for r in results for l, n in r["invs"]][:120],
            "obligations_by_backend": backends, "obligations_by_kind": kinds,
            "theorems": [r["fn"] for r in results if r["kind"] == "th"],
            "solver_seconds": round(sum(r["stats"]["z3_s"] + r["stats"]["cvc5_s"] for r in results), 1),
            "solver_queries": sum(r["stats"]["queries"] for r in results),
            "failed_obligations": ["%s: %s (%s)" % (r["fn"], o["label"], o["loc"])
                                   for r, o in failing][:40],
            "bounded_replay_audit": {
                "note": "bounded: the real code run against an independent oracle; never counted as proved",
                "cases": h.cases, "nontrivial": h.nontrivial, "runs": h.runs, "samples": h.samples,
                "problem": h.problem},
            "proof_problem": problem,
        },
        "assumptions": assumptions,
        "wall_s": 0.0, "violations": 0,
    }
    # -------------------------------------------------------------- verdict
    code = 0
    replay = os.path.join("evidence", "replay_%s.json" % prop)
    rp = os.path.join(ROOT, replay)
    if os.path.exists(rp):
        os.unlink(rp)
    kf = known_findings(prop)
    hfail = h.fail
    if hfail:
        for m, what in kf:
            if re.search(m, (hfail["what"] or "") + " " + (hfail["input"] or "")):
                log("KNOWN-FINDING: property=%s %s" % (prop, what))
                hfail = None
                break
    if hfail or failing:
        rec = {"property": prop,
               "failing_input": hfail,
               "failed_obligations": [
                   {"function": r["fn"], "obligation": o["label"], "kind": o["kind"],
                    "location": o["loc"], "solver": o["backend"], "solver_status": o["status"],
                    "values_in_solver_model": o.get("values"), "model": o.get("model")}
                   for r, o in failing][:20],
               "reproduce": "harness/%s.cc compiled against the tree: prog SEED SECONDS" % prop}
        with open(rp, "w") as fo:
            json.dump(rec, fo, indent=1, default=str)
        ev["violations"] = 1
        code = 1
        for r, o in failing[:8]:
            log("failed obligation: %s: %s (%s) [%s]" % (r["fn"], o["label"], o["loc"], o["status"]))
        if hfail:
            log("failing input: %s: %s" % (hfail["what"], (hfail["input"] or "")[:800]))
        log("VIOLATION property=%s replay=%s%s" %
            (prop, replay, "" if hfail else " no-failing-input-found"))
    ev["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1, default=str)
    log("%s %s: %d/%d obligations of %d functions discharged, %d outside reach%s; audit: %d cases%s; %.0f s" %
        (prop, tier, disch, len(obls), len(fns), len(outside),
         " (" + problem[:300] + ")" if problem else "", h.cases,
         " (" + h.problem[:200] + ")" if h.problem else "", time.time() - t0))
    for n, why in outside:
        log("  bounded only: %s: %s" % (n, why))
    for m in missing:
        log("  no function for the contract of %s" % m)
    return code


def weight(f):
    return len(json.dumps(f.get("body") or ""))


def run_tasks(tasks, t0):
    """process pool; a task that does not come back is given up"""
    if not tasks:
        return []
    out = []
    pool = mp.get_context("fork").Pool(min(JOBS, len(tasks)), maxtasksperchild=8)
    try:
        pend = [(t, pool.apply_async(task, (t,))) for t in tasks]
        for t, a in pend:
            left = max(5.0, HARD_LIMIT - (time.time() - t0) - 90)
            try:
                out.append(a.get(timeout=min(left, t[2] * 4 + 120)))
            except mp.TimeoutError:
                f = G["tu"].functions.get(t[1]) if t[0] == "fn" else None
                out.append({"fn": f["q"] if f else G["theorems"][t[1]][1], "loc": "", "obls": [],
                            "unsupported": "no answer within the time of the check", "assumptions": [],
                            "used": [], "inlined": [], "loops": 0, "invs": [], "secs": 0,
                            "stats": {"queries": 0, "z3_s": 0, "cvc5_s": 0, "z3": 0, "cvc5": 0},
                            "kind": t[0], "key": t[1]})
    finally:
        pool.terminate()
    return out


if __name__ == "__main__":
    main()
