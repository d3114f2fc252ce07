#!/usr/bin/env python3
"""filter.py MUTS.jsonl OUT.jsonl: keeps the changes that compile and pass the stable tests (8 copies of /repo in parallel)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
muts = [json.loads(l) for l in open(sys.argv[1])]
root = tempfile.mkdtemp(prefix="mutf.", dir="/tmp")
q = Queue()
for i in range(8):
    subprocess.run(["cp", "-a", "/repo", f"{root}/{i}"], check=True); q.put(f"{root}/{i}")
def one(m):
    r = q.get()
    p = f"{r}/{m['file']}"
    src = open(p, "rb").read()
    try:
        open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        e = dict(ENV)
        if "wasm" in m["file"]:
            b = subprocess.run("GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm", shell=True, cwd=r, env=e, capture_output=True)
        else:
            b = subprocess.run("go build ./...", shell=True, cwd=r, env=e, capture_output=True)
        if b.returncode: return None
        try:
            t = subprocess.run("go test -json -vet=off ./...", shell=True, cwd=r, env=e, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        passed = set()
        for l in t.stdout.splitlines():
            try: ev = json.loads(l)
            except ValueError: continue
            if ev.get("Action") == "pass" and ev.get("Test"): passed.add(ev["Package"] + "/" + ev["Test"])
        return m if STABLE <= passed else None
    finally:
        open(p, "wb").write(src); q.put(r)
with ThreadPoolExecutor(8) as ex: out = [m for m in ex.map(one, muts) if m]
open(sys.argv[2], "w").write("".join(json.dumps(m) + "\n" for m in out))
print(len(muts), "->", len(out))
shutil.rmtree(root)
