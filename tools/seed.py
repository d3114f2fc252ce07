#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list of planted bugs in seed_bugs.py and confirms each one.

seed.py gen ID...     write the folders (all when no ID is given) and confirm each in a scratch copy of /repo:
                      the patch applies and touches original lines, builds, passes the stable tests,
                      and the demonstration passes without it and fails with it
seed.py run ID...     apply each to /repo, run the check of its property (and with --all every check), undo it
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
from seed_bugs import BUGS
REPO, SEEDED, BASE = "/repo", "/verif/seeded", "98eeb83"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")

DEMO = '''#!/bin/bash
# Runs the test beside this script inside the package it belongs to; the working directory is the repository.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$T" > "$T/o.json"
export TMPDIR=$T
timeout 200 @ENV@go test -vet=off -count=1 @EXEC@-overlay "$T/o.json" -run '^TestDemo$' ./@PKG@
'''

def sh(cmd, cwd=REPO, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen(b):
    d = f"{SEEDED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = f"{w}/repo"
        subprocess.run(["cp", "-a", REPO, r], check=True)
        removed = []
        for f, old, new in b["edits"]:
            p = f"{r}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} places match {old!r}"
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", cwd=r).stdout
        open(f"{d}/patch.diff", "w").write(patch)
        # which lines are changed, and are they original?
        cur = None; orig = 0; mine = 0
        for line in patch.splitlines():
            if line.startswith("--- a/"): cur = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m: n = int(m.group(1)); continue
            if line.startswith("-") and not line.startswith("---"):
                bl = sh(f"git blame -s -L {n},{n} HEAD -- {cur}").stdout
                if BASE in bl.split()[0]: orig += 1
                else: mine += 1
                n += 1
            elif line.startswith(" "): n += 1
        if orig == 0 or mine: return f"changes {orig} original lines and {mine} of ours"
        for n, text in (b.get("extra") or {}).items(): open(f"{d}/{n}", "w").write(text)
        if b["demo"]: open(f"{d}/demo_test.go.txt", "w").write(b["demo"])
        pkg = b["pkg"]
        env = "GOOS=js GOARCH=wasm " if "wasm" in pkg else ""
        if env: env = "env -i PATH=\"$PATH\" HOME=\"$HOME\" TMPDIR=\"$T\" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off " + env
        ex = '-exec "bash $(go env GOROOT)/lib/wasm/go_js_wasm_exec" ' if "wasm" in pkg else ""
        open(f"{d}/demo.sh", "w").write(b.get("sh") or DEMO.replace("@PKG@", pkg).replace("@ENV@", env).replace("@EXEC@", ex))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        q = sh("go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm && go vet ./pkg/... ", cwd=r)
        if q.returncode: return "build: " + q.stdout
        q = sh("go test -json -vet=off -count=1 ./...", cwd=r)
        st = [json.loads(l) for l in q.stdout.splitlines() if l.startswith("{")]
        failed = {(e["Package"], e.get("Test")) for e in st if e["Action"] == "fail" and e.get("Test")}
        if failed: 
            bad = [f for f in failed if not isflaky(f)]
            if bad: return f"tests fail: {bad}"
        q = sh(f"bash {d}/demo.sh", cwd=r)
        if q.returncode == 0 or "build failed" in q.stdout: return "demo does not fail with it: " + q.stdout
        q = sh(f"bash {d}/demo.sh", cwd=REPO)
        if q.returncode: return "demo fails without it: " + q.stdout
        return None
    finally:
        shutil.rmtree(w)

STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def isflaky(t):
    return f"{t[0]}/{t[1]}" not in STABLE

def run(b, checks):
    out = {}
    if sh("git status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
    q = sh(f"git apply {SEEDED}/{b['id']}/patch.diff")
    if q.returncode: return {"apply": q.stdout}
    try:
        for c in checks:
            t = time.time()
            q = sh(f"bash ./check.sh {c} quick", cwd="/verif")
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            out[c] = (q.returncode, len(v), round(time.time() - t))
            if q.returncode not in (0, 1): print(q.stdout[-1500:])
    finally:
        sh("git checkout -- .")
    return out

def main():
    what, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in BUGS if not ids or b["id"] in ids or b["property"] in ids]
    for b in bugs:
        if what == "gen":
            e = gen(b)
            print(b["id"], "ok" if e is None else "BAD " + e[-1500:], flush=True)
        else:
            checks = [f"C{i:02}" for i in range(1, 25)] if "--all" in sys.argv else [b["property"]]
            o = run(b, checks)
            if "--save" in sys.argv:
                p = "/verif/tools/seed_results.json"
                res = json.load(open(p)) if os.path.exists(p) else {}
                res[b["id"]] = ", ".join(f"{c} ({v[2]} s)" for c, v in o.items() if v[0] == 1) or "missed"
                json.dump(res, open(p, "w"), indent=1, sort_keys=True)
            print(b["id"], b["property"], "CAUGHT" if o.get(b["property"], (0,))[0] == 1 else "MISSED", o if "--all" not in sys.argv else [c for c, v in o.items() if v[0] == 1] + [f"{c}!{v[0]}" for c, v in o.items() if v[0] not in (0, 1)], flush=True)
main()
