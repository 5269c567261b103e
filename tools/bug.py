#!/usr/bin/env python3
"""Planted-bug workshop (scratch copies only; never touches /repo).
  bug.py make ID FILE          FILE (python): BUG=dict(property,needs,what_it_breaks,edits=[(path,old,new)...]), DEMO="c source"
  bug.py demo ID...            build a scratch copy without and with each patch, run demo.sh in both
  bug.py tests ID...           all patches together: full test suite in a scratch copy, compare with the baseline
  bug.py check ID...           run the property's quick check against a scratch copy of the sources with the patch
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; S = V + "/seeded"
DEMO_SH = '''#!/bin/bash
# builds demo.c against the libraries of the current tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
INC=$(grep -v '^#' build/include_dirs.txt | grep . | awk '!s[$0]++' | sed 's/^/-I/')
DEF=$(grep . build/macros.txt)
gcc -g -O1 -w @EXTRA@ $DEF -D__FILENAME__=__FILE__ -I. $INC "$D/demo.c" -o "$W/demo" build/libhitls_tls.a build/libhitls_pki.a build/libhitls_auth.a build/libhitls_crypto.a build/libhitls_bsl.a -ldl -lpthread -lm || exit 1
cd "$W" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), text=True, **k)
def make(bid, f):
    ns = {}
    exec(open(f).read(), ns)
    b = ns["BUG"]
    d = f"{S}/{bid}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    sh(["git", "-C", "/repo", "worktree", "prune"])
    for p, old, new in b["edits"]:
        t = f"{w}/b/{p}"
        os.makedirs(os.path.dirname(t), exist_ok=True); os.makedirs(os.path.dirname(f"{w}/a/{p}"), exist_ok=True)
        if not os.path.exists(t): shutil.copy("/repo/" + p, t); shutil.copy("/repo/" + p, f"{w}/a/{p}")
        s = open(t).read()
        assert s.count(old) == 1, (p, s.count(old), old)
        open(t, "w").write(s.replace(old, new))
    o = sh(f"cd {w} && diff -ru a b", stdout=subprocess.PIPE).stdout
    o = re.sub(r"^(diff .*|(---|\+\+\+) \S+)\t?.*$", lambda m: m.group(1), o, flags=re.M)
    o = re.sub(r"^diff -ru (\S+) (\S+)$", r"diff --git \1 \2", o, flags=re.M)
    open(d + "/patch.diff", "w").write(o)
    shutil.rmtree(w)
    sh(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
    open(d + "/demo.c", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@EXTRA@", b.get("extra", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    print("made", bid)
def copy():
    w = tempfile.mkdtemp(prefix="bt_", dir="/tmp")
    sh(f"cp -a /repo {w}/repo", check=True)
    sh(f"git -C {w}/repo checkout -q -- .")
    return w
def ns_run(w, script, log):
    return sh(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && cd /repo && {script}"], stdout=open(log, "w"), stderr=subprocess.STDOUT).returncode
def demo(ids):
    w = copy(); bad = []
    assert ns_run(w, "bash /opt/vp/build.sh", "/tmp/bug_build.log") == 0
    for i in ids:
        sh(f"cp -r {S}/{i} {w}/d")
        c = ns_run(w, f"bash {w}/d/demo.sh", f"/tmp/bug_{i}_clean.log")
        sh(["git", "-C", w + "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
        b = ns_run(w, "bash /opt/vp/build.sh", "/tmp/bug_build.log")
        r = ns_run(w, f"bash {w}/d/demo.sh", f"/tmp/bug_{i}_bug.log") if b == 0 else None
        sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
        shutil.rmtree(w + "/d")
        ok = c == 0 and b == 0 and r not in (0, None)
        print(f"{i}: clean={c} build={b} bug={r} {'OK' if ok else 'BAD'}", flush=True)
    shutil.rmtree(w)
def tests(ids):
    w = copy()
    for i in ids: sh(["git", "-C", w + "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
    ns_run(w, f"bash /opt/vp/test.sh {w}/out.json", "/tmp/bug_tests.log")
    o = json.load(open(w + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    st = base.get("stable") or base.get("passed") or base
    miss = sorted(set(st) - set(o["passed"]))
    print("tests", len(st), "missing", len(miss), miss[:40])
    shutil.rmtree(w)
def suite(a):
    """suite SUITE ID...: one test suite, each patch alone"""
    for i in a[1:]:
        w = copy()
        if i != "-": sh(["git", "-C", w + "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
        ns_run(w, f"bash /opt/vp/build.sh && mkdir -p testcode/build/run && bash /opt/vp/run_suite.sh {a[0]}", "/tmp/bug_suite.log")
        o = open(f"{w}/repo/testcode/build/run/{a[0]}/out.txt", errors="replace").read()
        print(i, "rc", open(f"{w}/repo/testcode/build/run/{a[0]}/rc").read().strip(), "pass", o.count("pass"), "fail", [l[:200] for l in o.splitlines() if "fail" in l.lower()][:8], flush=True)
        shutil.rmtree(w)
def check(ids):
    for i in ids:
        p = json.load(open(f"{S}/{i}/meta.json"))["property"]
        w = tempfile.mkdtemp(prefix="bc_", dir="/tmp")
        sh(f"git -C /repo archive --prefix=repo/ HEAD | tar x -C {w}", check=True)
        sh(["git", "apply", f"--directory=repo", f"{S}/{i}/patch.diff"], cwd=w, check=True)
        r = sh(["python3", V + "/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
        l = [x for x in r.stdout.splitlines() if "harness" in x or "ERROR" in x]
        print(f"{i}: {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'NOANSWER'} {l[:2]}", flush=True)
        shutil.rmtree(w)
        if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout:
            rp = S + "/results.json"; d = json.load(open(rp)) if os.path.exists(rp) else {}
            m = re.search(r"harness (\S+?):", r.stdout)
            d[i] = f"{p} ({m.group(1) if m else '?'})"
            json.dump(d, open(rp, "w"), indent=1, sort_keys=True)
        else:
            rp = S + "/results.json"; d = json.load(open(rp)) if os.path.exists(rp) else {}
            d[i] = "missed"; json.dump(d, open(rp, "w"), indent=1, sort_keys=True)
if __name__ == "__main__":
    a = sys.argv
    dict(make=lambda: make(a[2], a[3]), demo=lambda: demo(a[2:]), tests=lambda: tests(a[2:]), suite=lambda: suite(a[2:]), check=lambda: check(a[2:]))[a[1]]()
