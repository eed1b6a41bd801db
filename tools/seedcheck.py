#!/usr/bin/env python3
"""Development aid: which checks catch which planted bug. seedcheck.py [--all] [id...]
Works on scratch copies under /tmp/seed; appends to /tmp/seed/caught.jsonl"""
import sys, os, subprocess, json, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, V = "/tmp/seed/repo", "/tmp/seed/verif"
def sh(c, cwd=None, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
os.makedirs(V + "/mc", exist_ok=True)
sh(f"rm -rf {V}/mc/src; cp -a {ROOT}/mc/src {ROOT}/mc/Cargo.* {V}/mc/; cp {ROOT}/known_findings.txt {ROOT}/check.sh {V}/; sed -i 's|/repo\"|{W}\"|' {V}/mc/Cargo.toml")
head = sh("git rev-parse HEAD", "/repo")[1].strip()
sh(f"git fetch -q /repo HEAD; git checkout -qf {head}", W)
for i in ids:
    d = f"{ROOT}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git checkout -q -- .", W)
    rc, o = sh(f"git apply {d}/patch.diff", W)
    if rc: print(i, "does not apply", o); continue
    props = [prop] + ([f"C{k:02d}" for k in range(1, 24) if f"C{k:02d}" != prop] if every else [])
    out = {}
    for p in props:
        t = time.time()
        rc, o = sh(f"./check.sh {p} quick", V, {"MC_REPO": W})
        ok = rc == 1 and f"VIOLATION property={p} " in o
        out[p] = ("caught" if ok else "quiet" if rc == 0 else f"rc {rc}")
        if p == prop:
            print(i, out[p], round(time.time() - t), [l for l in o.split("\n") if "VIOLATION" in l or rc not in (0, 1)][:2], flush=True)
    if every: print("   ", " ".join(p for p in props if out[p] == "caught"), [p for p in props if out[p].startswith("rc")], flush=True)
    open("/tmp/seed/caught.jsonl", "a").write(json.dumps({"id": i, "out": out}) + "\n")
sh("git checkout -q -- .", W)
