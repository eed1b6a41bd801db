#!/usr/bin/env python3
"""RUNS.md: every run of every check with its bound and size, from the evidence of the last (quick) runs."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def n(x):
    return str(x) if x < 10000 else f"{x/1e6:.1f} M" if x >= 1e6 else f"{x//1000} k"
titles = {p["id"]: p["title"] for p in map(json.loads, open(R + "/properties.jsonl"))}
out = ["# The runs of every check (quick tier)", "",
       "Generated by tools/gen_runs.py from the evidence files. `dev` is the deviation bound; all choices within it are explored.", ""]
for i in sorted(titles):
    e = json.load(open(f"{R}/evidence/{i}.json"))
    assert e["tier"] == "quick", i
    out += [f"## {i} {titles[i]}", "", "| run | explores | dev | executions |", "|---|---|---|---|"]
    for r in e["coverage"]["runs"]:
        d = " ".join(r["explores"].split()).replace("|", "\\|")
        out.append(f"| {r['run']} | {d} | {r['deviation_bound']} | {n(r['executions'])} |")
    out.append("")
open(R + "/RUNS.md", "w").write("\n".join(out))
