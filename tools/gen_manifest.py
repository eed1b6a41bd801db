#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit-state model checking: exhaustive bounded enumeration of executions of the real code against an executable reference model"
FAULT = "exhaustive bounded enumeration of environment schedules (read splits, interrupts, failures, cuts) on the real code against a reference model"
NOTE = {
 "C01": "Every packet value within the deviation bound and the full product of optional parts is encoded and decoded by the real code and compared with the value itself.",
 "C02": "Every encoding of the same value spaces is parsed by the reference model, which must see exactly one well-formed packet with the same fields.",
 "C03": "Every value is classified by the reference model (must encode, must be refused, no claim) and the real encoder has to agree, every limit at and one past it.",
 "C04": "Every frame of the deviating reference writer, all short frames, all one-byte mutants: the model's value must be the decoder's value.",
 "C05": "The same frames, rejecting direction, plus exhaustive UTF-8 and CONNECT flag spaces: what the model finds malformed must be refused.",
 "C06": "Streams of accepted and rejected packets in all pairs and triples, and all short ones between two sentinels; consumption observed through what follows.",
 "C07": "Every cut position of every packet of the catalogue, of the deviating writer and of pairs of packets.",
 "C08": "Every way to split and interrupt short streams within the bounds, all single cuts and interrupts of long ones, all buffer capacities of interest.",
 "C09": "Every failing read position, error kind, one-shot or persistent, on every catalogue and deviating packet.",
 "C10": "Every byte string to a length, every mutant, misframed packets, every version number; panics, overflow and endless loops are violations.",
 "C11": "Every sequence of reader operations to a depth on every small source, in lock-step with a model of nested windows.",
 "C12": "Every number class exhaustively (thorough: every number to 2^28-1), every encoding of up to five bytes, in every place where such numbers occur.",
 "C13": "Every property code in every section, every pair, every order of small sets, all repeat patterns, all section lengths.",
 "C14": "All 256 bytes of every enumerated type, all 256 first bytes, all enumerators back to bytes.",
 "C15": "Every packet value is encoded next to its stripped twin, every frame decoded under every version.",
 "C16": "Every subset of the properties of every section, every short form of every packet.",
 "C17": "Every frame decoded, encoded, parsed by the model, decoded and encoded again.",
 "C18": "Every packet value through four serializer paths; a digest of decoding and encoding compared between the builds with and without the feature.",
 "C19": "A counting allocator measures every decode of every announced length against every delivered length; retained memory over long runs of packets.",
 "C20": "Every message id with every code and every constructor; property sets and granted lists within bounds.",
 "C21": "Every history of up to three packets and versions on one decoder against a fresh decoder; all entry points compared on every value.",
 "C22": "Every 8- and 16-bit number, 32-bit numbers bytewise, strings and binaries of every length class, through every cut and capacity of interest, against byte strings computed by the model.",
 "C23": "Every sequence of packets of two endpoints up to the bound, in every version, run through an endpoint's decode loop with the version taken from the decoded CONNECT.",
}
TRUST = " Trusted: the reference model's reading of MQTT 3.1/3.1.1/5.0 and the bounds recorded in the evidence; beyond them nothing is claimed."
checks = []
for i in range(1, 24):
    id = f"C{i:02d}"
    fault = id in ("C07", "C08", "C09")
    checks.append({"property": id, "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
                   "technique": FAULT if fault else TECH,
                   "level": "fault_enumeration" if fault else "model_checking",
                   "level_note": NOTE[id] + TRUST})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API, scripted byte sources and a counting allocator. "
              "All checks are one Rust binary (mc/), rebuilt from /repo's working tree by check.sh. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
