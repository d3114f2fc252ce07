#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl [SECONDS [CHECKS,..]]: runs the checks, SECONDS each, on every change until one reports a violation (8 copies, one core each)."""
import json, os, subprocess, sys, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
secs = sys.argv[3] if len(sys.argv) > 3 else "10"
only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", MC_BUDGET=secs, GOFLAGS_EXTRA="")
muts = [json.loads(l) for l in open(sys.argv[1])]
ORDER = {
 "pkg/world": "C03,C04,C01,C05,C02,C12,C14,C20,C21,C06,C07,C10,C17,C15,C18,C16",
 "pkg/app": "C12,C15,C16,C14,C13,C20,C11,C21,C18,C19,C22",
 "pkg/persistence": "C08,C09,C10,C24",
 "pkg/errors": "C21,C13,C12,C14,C18",
 "cmd/cli": "C22", "cmd/wasm": "C19", "pkg/grammar": "C11,C13,C12,C19,C07",
}
NP = int(os.environ.get("NP", "8"))
root = tempfile.mkdtemp(prefix="mutr.", dir="/tmp")
q = Queue()
for i in range(NP):
    d = f"{root}/{i}"; os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
    subprocess.run(["bash", f"{HERE}/scratch.sh", f"{d}/repo", f"{d}/w"], check=True, capture_output=True)
    q.put(i)
out = open(sys.argv[2], "a"); lock = threading.Lock()
def one(m):
    i = q.get(); d = f"{root}/{i}"; p = f"{d}/repo/{m['file']}"
    pin = ["taskset", "-c", str(i)] if NP == 8 else []
    src = open(p, "rb").read()
    try:
        open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        b = subprocess.run(pin + ["bash", f"{d}/w/mcsrc/build.sh", f"{d}/w/b"], env=ENV, capture_output=True, text=True)
        rec = {**m, "by": None, "odd": []}
        if b.returncode: rec["by"] = "build"
        else:
            key = next(k for k in ORDER if m["file"].startswith(k))
            for c in only or ORDER[key].split(","):
                try: r = subprocess.run(pin + [f"{d}/w/b/mc", "check", c, "quick", f"{d}/w"], env=ENV, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired: rec["odd"].append([c, "timeout"]); continue
                if r.returncode == 1: rec["by"] = c; break
                if r.returncode: rec["odd"].append([c, r.returncode, r.stderr[-300:]])
        with lock: out.write(json.dumps(rec) + "\n"); out.flush()
    finally:
        open(p, "wb").write(src); q.put(i)
with ThreadPoolExecutor(NP) as ex: list(ex.map(one, muts))
shutil.rmtree(root)
