#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below: one line per claimed check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE1 = "exhaustive bounded exploration of the real code against an executable reference model"
BASE = ("Every case within the bounds of DESIGN.md is executed on the code built from /repo and compared with the reference "
        "model; nothing is sampled. Trusted: the model, the harness's own formats and types (conformance-checked), serde, erased-serde. ")
CHECKS = {
    "C01": (ENGINE1, "All shapes to depth 3 (thorough 4) x boundary values x external/adjacent traits, and long, wide, deep and odd values, recorded call by call."),
    "C02": (ENGINE1, "As C01 for internal tagging; the layout model allows exactly the documented re-encoding."),
    "C03": (ENGINE1, "All candidate values of the tag field x positions x sibling fields; one listed finding (declared length)."),
    "C04": (ENGINE1, "Shapes to depth 2 (thorough 3), and long, wide, deep and odd values, through five document styles x three text modes and serde_json, Value and CBOR."),
    "C05": (ENGINE1, "Shapes to depth 3 (thorough 4), and long, wide, deep and odd values, through a strict non-self-describing tape, postcard and bincode."),
    "C06": (ENGINE1, "All positions of tag, content and ignorable entries x styles x text modes; contents the type accepts and all others."),
    "C07": (ENGINE1, "Tags and near-misses x contents x shapes, and lookups among 0 to 70 tags; the outcome compared with the direct decode."),
    "C08": (ENGINE1, "All documents to a size over a key/value alphabet, per representation, lookups among 0 to 70 tags, and their error messages."),
    "C10": (ENGINE1, "All documents with and without the tag; defaults that exist, do not, and none."),
    "C11": (ENGINE1, "150 names x 80 values of unknown entries x positions x adjacent traits, denied or skipped; 3 to 4097 (thorough 66,000) entries at once."),
    "C12": ("fault enumeration at every call of every execution, on the real code, against the model",
            "A format fault at every call and a type's failure at every leaf, both directions; shapes to depth 2 (thorough 3)."),
    "C13": ("stateless model checking: preemption-bounded exhaustive schedule search over the real instrumented code, with vector-clock race detection",
            "2-3 threads, 1-2 operations each on fresh traits, every schedule to 2-3 preemptions (sequentially consistent interleavings; "
            "weaker behaviours show as data races). std is built instrumented too; the allocator is the harness's own."),
    "C14": ("exhaustive enumeration of operation histories, each in a process of its own, compared with the operation alone",
            "All histories to length 3 (thorough 4) over 29 operations on five pairs of traits, and 300 (1500) repetitions of each followed by each."),
    "C19": (ENGINE1, "Shapes that read the flag at every place, to depth 4 (thorough 5) x representations x positions x formats of both kinds."),
    "C21": (ENGINE1, "Trait objects in containers in trait objects, to depth 2 (thorough 3), all tag positions."),
    "C23": (ENGINE1, "Documents x orders x seven announced lengths at every level, memory counted; documents growing in width and depth to 5000."),
    "C25": (ENGINE1, "Every trait next to the enum serde derives over the same types, in 36 places for a value: documents written compared, and decoded by both, with every order of the entries, in every style and in JSON text, JSON values and CBOR."),
    "C24": (ENGINE1, "Calls of every type and bytes still held counted after every operation, with a format fault at every call."),
}
PROGRAMS = {}
exec(open(os.path.join(HERE, "tools", "programs_table.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "programs_table.py")) else None
CHECKS.update(PROGRAMS)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash ./setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks are needed in /repo: the checks drive the public macros and the public API only. Known and repaired defects are in known-findings.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "model checking: " + t,
            "level": "model_checking",
            "level_note": (BASE if t == ENGINE1 else "") + note,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
