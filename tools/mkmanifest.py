#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
T = {
 "C01": "exhaustive bounded enumeration of executions of the real NFD iterator against a reference model",
 "C02": "exhaustive bounded enumeration of executions of the real NFKD iterator against a reference model",
 "C03": "exhaustive bounded enumeration of executions of the real NFC iterator against a reference model",
 "C04": "exhaustive bounded enumeration of executions of the real NFKC iterator against a reference model",
 "C05": "exhaustive bounded enumeration of words; algebraic laws checked on every one",
 "C06": "exhaustive bounded enumeration of words against the model's membership predicate",
 "C07": "exhaustive bounded enumeration of words against the model's quick-check automaton",
 "C08": "exhaustive bounded enumeration of executions of the real adapter against the D4 counter automaton",
 "C09": "exhaustive bounded enumeration of words against the model predicate",
 "C10": "exhaustive bounded enumeration of two-stage pipelines, closure invariant on every one",
 "C11": "complete enumeration of the finite input space (all scalar values) against the UCD",
 "C12": "complete enumeration of composition pairs (participants x all scalars, BMP x BMP; thorough: all pairs)",
 "C13": "complete enumeration of the finite input space (all scalar values) against the UCD",
 "C14": "exhaustive bounded enumeration of executions against the UCD variant mapping; invariant under all forms",
 "C15": "exhaustive enumeration of iterator operation sequences to a bound on the real adapters",
 "C16": "exhaustive enumeration of (word, source hint, step) states of the real adapters, checked build",
 "C17": "exhaustive enumeration of clone points and interleavings of original and clone on the real adapters",
 "C18": "exhaustive enumeration of adapter steps over counting (also unending) sources against the model's lookahead bound",
 "C19": "exhaustive bounded enumeration of words through every entry point, compared with each other",
}
NOTE = {
 "word": "Every case inside the stated families is executed on the real code; nothing is sampled. Outside: words longer or more varied than the families. Trusts ucd/ucd16.txt and the reference model (re-validated on the official vectors each run).",
 "full": "The finite input space is enumerated completely. Trusts ucd/ucd16.txt.",
 "iter": "Every operation sequence inside the bounds is executed on the real adapters. Outside: other words, longer operation sequences.",
}
KIND = {i: "word" for i in T}
for i in ("C11", "C12", "C13"): KIND[i] = "full"
for i in ("C15", "C16", "C17", "C18"): KIND[i] = "iter"
EXTRA = {}
try:
    from mkmanifest_extra import EXTRA_T, EXTRA_NOTE
except ImportError:
    EXTRA_T, EXTRA_NOTE = {}, {}
T.update(EXTRA_T)
checks = []
for i in sorted(T):
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": T[i],
        "level": "model_checking",
        "level_note": EXTRA_NOTE.get(i) or NOTE[KIND[i]],
    })
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: everything is reached through the public API."},
          open("/verif/MANIFEST.json", "w"), indent=1)
