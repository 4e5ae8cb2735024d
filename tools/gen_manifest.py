#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below and the rules that exist."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
have = set(subprocess.run([sys.executable, os.path.join(R, "vf/check.py"), "--list"], capture_output=True, text=True).stdout.split())
AI = "abstract interpretation of MIR (value numbering, loop summaries)"
TECH = {
 "C20": "abstract interpretation of MIR + comparison of regular-expression constants as character sets",
 "C14": "abstract interpretation of MIR per feature set + feature table",
 "C17": "constant propagation + character-set inclusion",
 "C18": AI + " over a character-set domain", "C19": AI + " over a character-set domain",
 "C23": AI + " of the serializers to event grammars", "C24": "writer/reader schema inference on MIR and comparison", "C25": AI + " of the serializers to event grammars",
 "C26": "type-directed key and value analysis of the serializers",
 "C27": "effect analysis on the call graph + hash-iteration-order taint on value numbers",
 "C28": "call-graph recursion analysis + recursive-type operations",
 "C29": "panic-site reachability under path facts (abstract interpretation of MIR)",
 "C30": "visibility, mutability and escape analysis of item tables and call graph",
 "C35": AI + ", the library call as an opaque term", "C36": AI + ", the segmenter's result as an opaque sequence",
 "C21": AI + ", stepwise summaries on words with symbolic endings",
 "C22": AI + ", path-wise comparison with the table of suffixes", "C34": AI + ", path-wise comparison with the documented rules",
}
NOTE_AI = "Decides the rule for every input on the compiler's MIR of the current tree; no execution, no solver. Trusts rustc's MIR, the models of std/regex/serde calls in vf/model.py, and that 64-bit counters do not overflow. A construct the analysis cannot normalise is printed as UNDECIDED and does not fail the check."
NOTE = {
 "C27": "Whole call graph of the crate (no external effects: time, environment, randomness, addresses, threads) and every hash-ordered iteration whose order reaches a result. Dependencies' own bodies (regex, serde, rust_stemmers) are trusted to be deterministic.",
 "C28": "Every call-graph cycle through the crate and every operation derived for a type that contains itself. Six structural recursions (IndexItem derives and drop) are recorded as known findings.",
 "C30": "Item visibility, reference types returned by public functions, interior mutability and unsafe code for every public item of the crate.",
}
NA = {
 "C31": "equality with another program's output for every word quantifies over unbounded strings through ~60 interacting rewrite rules; elasticlunr.js works on UTF-16 units with regular expressions, and no sound static abstraction in reach decides that its result and this one are the same string (C21, C22 and C34 decide the Rust side against the documented algorithm)",
 "C32": "needs the exact decimal printing and parsing of f64 inside serde_json, a runtime-quantity question about a dependency, not this source",
 "C33": "asymptotic running time is a runtime quantity; amortised costs of the maps and of regex matching are not bounded by any static argument available here",
}
m = {"version": 1, "setup_cmd": "python3 vf/build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 vf/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vf/check.py " + i,
                            "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE.get(i, NOTE_AI)})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
