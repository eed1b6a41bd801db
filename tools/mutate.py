#!/usr/bin/env python3
"""Development aid (no check uses it): mutation campaign on scratch copies of /repo under /tmp/mut.
mutate.py list            print all mutants
mutate.py run W N OUT     worker W of N: every mutant that compiles and passes the tests is given to the checks
"""
import re, sys, os, subprocess, json, shutil, hashlib
BASE = os.environ.get("MUT_BASE", "/repo")
SRC = BASE + "/src"
FILES = sorted(os.path.relpath(os.path.join(d, f), SRC) for d, _, fs in os.walk(SRC) for f in fs if f.endswith(".rs"))
OPS = [(r"(?<![<>=!-])==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?!\s*[{\w])", ["&&"]),
       (r"(?<=\s)<(?=\s)", ["<=", ">="]), (r"(?<=\s)>(?=\s)", [">=", "<"]), (r"(?<=\s)<=(?=\s)", ["<"]), (r"(?<=\s)>=(?=\s)", [">"]),
       (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\+=(?=\s)", ["-="]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"<<", [">>"]), (r"(?<=\s)>>(?=\s)", ["<<"]),
       (r"(?<=[\s)])&(?=\s)", ["|"]), (r"(?<=[\s)])\|(?=\s\()", ["&"]),
       (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]),
       (r"\bSome\((\w+)\) =>", None), (r"\bi?f !", ["if "])]
def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join(SRC, f)).read().split("\n")
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "pub fn", "fn ", "impl", "pub struct", "pub enum", "pub trait")): continue
            code = l.split("//")[0]
            if "format!" in code or '.to_string()' in code and "Err(" in code: continue
            for pat, reps in OPS:
                if reps is None: continue
                for m in re.finditer(pat, code):
                    for r in reps:
                        out.append((f, i, code[:m.start()] + r + code[m.end():]))
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
                v = int(m.group(1), 0)
                for w in ({v + 1, v - 1, v ^ 0x80 if v > 15 else v + 2} - {v}):
                    if w >= 0: out.append((f, i, code[:m.start()] + (hex(w) if m.group(1).startswith("0x") else str(w)) + code[m.end():]))
            if t.endswith(";") and not t.startswith(("let ", "return", "}", "break", "continue", "pub ", "static", "const")):
                out.append((f, i, "// deleted"))
            if t.startswith("return ") and t.endswith(";"): out.append((f, i, "// deleted"))
            if re.match(r"if .*\{$", t) and "if let" not in t:
                out.append((f, i, re.sub(r"if (.*) \{$", r"if false && (\1) {", code.rstrip())))
                out.append((f, i, re.sub(r"if (.*) \{$", r"if true || (\1) {", code.rstrip())))
    # swapped neighbouring statements and match arms
        for i in range(len(lines) - 1):
            a, b = lines[i].strip(), lines[i + 1].strip()
            if a.endswith(";") and b.endswith(";") and not a.startswith(("let", "use", "//", "pub", "return")) and not b.startswith(("let", "use", "//", "pub", "return", "}")):
                out.append((f, i, lines[i + 1] + "\n" + lines[i], 2))
            m1, m2 = re.match(r"(.*?=> )(.*)", lines[i]), re.match(r"(.*?=> )(.*)", lines[i + 1])
            if m1 and m2 and a.endswith(",") and b.endswith(",") or (m1 and m2 and "// '" in a):
                out.append((f, i, m1.group(1) + m2.group(2) + "\n" + m2.group(1) + m1.group(2), 2))
    return [(x if len(x) == 4 else x + (1,)) for x in out]

def sh(cmd, cwd, t, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, capture_output=True, text=True, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"

def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms: print(m)
        print(len(ms)); return
    w, n, outp = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    base = f"/tmp/mut/w{w}"
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(base + "/repo"):
        subprocess.run(["cp", "-a", BASE, base + "/repo"])
    os.makedirs(base + "/verif", exist_ok=True)
    subprocess.run(f"rm -rf {base}/verif/mc/src; mkdir -p {base}/verif/mc; cp -a /verif/mc/src /verif/mc/Cargo.* {base}/verif/mc/; cp /verif/known_findings.txt {base}/verif/; sed -i 's|/repo\"|{base}/repo\"|' {base}/verif/mc/Cargo.toml", shell=True)
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["key"] for l in open(outp)}
    order = sorted(ms, key=lambda m: hashlib.md5(repr(m).encode()).hexdigest())[::step]
    for k, (f, i, new, cnt) in enumerate(order):
        if k % n != w: continue
        key = hashlib.md5(repr((f, i, new)).encode()).hexdigest()[:10]
        if key in done: continue
        path = f"{base}/repo/src/{f}"
        lines = open(f"{SRC}/{f}").read().split("\n")
        old = "\n".join(lines[i:i + cnt])
        lines[i:i + cnt] = new.split("\n")
        open(path, "w").write("\n".join(lines))
        res = {"key": key, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            rc, o = sh("cargo test --offline --no-run -q", base + "/repo", 300, {"CARGO_TARGET_DIR": base + "/repo/target", "CARGO_BUILD_JOBS": "3"})
            if rc: res["r"] = "nobuild"; continue
            rc, o = sh("cargo test --offline -q --tests --lib -- --test-threads 4", base + "/repo", 60, {"CARGO_TARGET_DIR": base + "/repo/target"})
            if rc: res["r"] = "tests"; continue
            rc, o = sh("cargo build --offline --release -q", base + "/verif/mc", 600, {"CARGO_TARGET_DIR": base + "/target", "CARGO_BUILD_JOBS": "3"})
            if rc: res["r"] = "harness-nobuild"; continue
            res["r"] = "SURVIVED"
            for c in ["C16", "C13", "C14", "C20", "C12", "C07", "C09", "C08", "C21", "C11", "C19", "C04", "C05", "C17", "C02", "C01", "C15", "C03", "C06", "C10"]:
                rc, o = sh(f"{base}/target/release/mc check {c} quick", base, 400, {"MC_CAP": "8"})
                if rc == 1: res["r"] = "caught"; res["by"] = c; break
                if rc: res["r"] = f"error {c} {rc}"; res["o"] = o[-300:]; break
        finally:
            shutil.copy(f"{SRC}/{f}", path)
            open(outp, "a").write(json.dumps(res) + "\n")
main()
