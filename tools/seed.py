#!/usr/bin/env python3
"""Development aid: builds seeded/<id>/ from (file, old, new) edits and a demonstration, and confirms it.
seed.py FILE.py [id...]   FILE.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo)}"""
import sys, os, subprocess, json, runpy, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed/repo"
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds for the case in demo.rs; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/mqtt_demo_{id}/src || exit 3
cp "$here/demo.rs" /tmp/mqtt_demo_{id}/src/main.rs
cat > /tmp/mqtt_demo_{id}/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mqtt_packet_3_5 = {{ path = "$PWD"{feat} }}
{deps}
END
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/mqtt_demo_{id}/target
cargo run -q --offline --manifest-path /tmp/mqtt_demo_{id}/Cargo.toml
rc=$?
rm -rf /tmp/mqtt_demo_{id}
exit $rc
'''
def sh(c, cwd=None, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
head = sh("git rev-parse HEAD", "/repo")[1].strip()
sh(f"git fetch -q /repo HEAD; git checkout -qf {head}; git clean -fdq -e target", W)
base = sh("git rev-parse f333d08", W)[1].strip()
for id, b in bugs.items():
    if only and id not in only: continue
    sh("git checkout -q -- .", W)
    err = None
    for f, old, new in b["edits"]:
        s = open(f"{W}/{f}").read()
        if s.count(old) < 1: err = f"text not found in {f}: {old[:60]!r}"; break
        if s.count(old) > 1 and not b.get("first"): err = f"text not unique in {f}"; break
        open(f"{W}/{f}", "w").write(s.replace(old, new, 1))
    if err: print(id, "ERROR", err); continue
    rc, diff = sh("git diff", W)
    # which lines does it remove, and are they original?
    mine = []
    for f in {e[0] for e in b["edits"]}:
        bl = sh(f"git blame -s -l HEAD -- {f}", W)[1].split("\n")
        d = sh(f"git diff -U0 -- {f}", W)[1].split("\n")
        import re
        for l in d:
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                    if int(m[2] or 1) and not bl[k - 1].lstrip("^").startswith(base[:39]): mine.append((f, k))
                if m[2] == "0": mine.append((f, "pure insertion"))
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(b["demo"])
    serde = b.get("serde")
    open(d + "/demo.sh", "w").write(DEMO_SH.format(id=id.replace("-", "_"), feat=', features = ["serde_support"]' if serde else "", deps=("bincode = \"1\"" if b.get("bincode") else "serde_json = \"1\"") if serde else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("CARGO_TARGET_DIR=/tmp/seed/repo/target cargo test --offline -q --workspace -- --test-threads 8", W)
    tests = "ok" if rc == 0 else "FAIL"
    rc2, o2 = sh("CARGO_TARGET_DIR=/tmp/seed/repo/target cargo check --offline -q --all-features --all-targets", W)
    if rc2: tests += " (features do not build)"
    rb, ob = sh(d + "/demo.sh", W)
    sh("git checkout -q -- .", W)
    rg, og = sh(d + "/demo.sh", W)
    good = tests == "ok" and rg == 0 and rb not in (0, 3, 124)
    # a broken demo fails to build
    if "error[" in ob or "could not compile" in ob: good = False
    print(id, "GOOD" if good else "BAD", "tests", tests, "demo patched", rb, "clean", rg, "not-original:", mine)
    if not good: print((o[-600:] if tests != "ok" else "") + "\n--patched " + ob[-900:] + "\n--clean " + og[-500:])
