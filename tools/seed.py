"""dev helper: tools/seed.py ID  -- reads seeded/ID/edit.py-free description from stdin json:
{property, needs, breaks, edits:[[file, old, new]], demo: C++ text or null}
Creates patch.diff in a scratch copy, checks build + tests + demo."""
import json, os, subprocess, sys, shutil, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(sid, d):
    out = os.path.join(R, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("git -C /repo worktree prune; git clone -q /repo %s/r" % w)
        for f, a, b in d["edits"]:
            p = "%s/r/%s" % (w, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C %s/r diff" % w).stdout.decode()
        open(out + "/patch.diff", "w").write(diff)
        if d.get("demo"):
            open(out + "/demo.cc", "w").write(d["demo"])
            open(out + "/demo.sh", "w").write('''#!/bin/bash
# cwd is the repository; exit 0 when the behaviour is right
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w -I. "$here/demo.cc" -o "$tmp/demo" -pthread
cd "$tmp"
timeout 60 ./demo
''')
        if d.get("script"):
            open(out + "/demo.sh", "w").write(d["script"])
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        # confirm: demo on clean tree
        r0 = sh("bash %s/demo.sh" % out, cwd="/repo")
        # tests + demo with the patch, in the real tree, restored afterwards
        assert sh("git -C /repo status --porcelain").stdout.strip() == b""
        sh("git -C /repo apply %s/patch.diff" % out)
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh %s/t.json" % w)
            base = json.load(open("/opt/vp/BASELINE.json"))
            tj = json.load(open(w + "/t.json"))
            r1 = sh("bash %s/demo.sh" % out, cwd="/repo")
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        stable = base.get("stable") or base.get("passed") or base
        passed = set(tj.get("passed", []))
        miss = [x for x in stable if x not in passed] if isinstance(stable, list) else "?"
        print(sid, "build", b.returncode, "tests", "all" if not miss else miss, "demo clean", r0.returncode,
              "demo patched", r1.returncode)
        if r0.returncode: print(r0.stdout.decode()[-1500:])
        if b.returncode: print(b.stdout.decode()[-1500:])
        if not r1.returncode: print("NOT EXPOSED", r1.stdout.decode()[-500:])
    finally:
        shutil.rmtree(w)
if __name__ == "__main__":
    ds = json.load(sys.stdin)
    for k, d in ds.items(): make(k, d)
