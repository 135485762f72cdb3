#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: every call of a random history is checked online against a reference model"
T = {
 "C01": (MODEL, "forest compared link by link with a reference forest after every call"),
 "C02": ("runtime monitoring: iterator event sequences checked against the sequence computed from the tree", "every iterator of every node run to exhaustion from both ends"),
 "C03": (MODEL, "back references compared as multisets with the forward links of every node after every call"),
 "C04": (MODEL, "result of every link call compared with the rule, whole document compared for unchanged state after refusals"),
 "C05": (MODEL, "structure, links, attributes and membership of every node, removed ones included, compared after every call"),
 "C06": (MODEL, "every accessor of every touched node compared with a map after every call"),
 "C07": (MODEL, "copies and originals compared with independent model nodes after every call"),
 "C08": ("runtime monitoring: hostile and mutated inputs in watched worker processes (panic hook, signals, CPU and memory limits), AddressSanitizer and Miri in the thorough tier", "every input ends with a document or an error that formats; a crash counts only if it repeats alone"),
 "C09": ("runtime monitoring: parse results checked by an oracle that builds the expected tree from the abstract document", "kept structure compared node by node"),
 "C10": ("runtime monitoring: parse results checked by an independent cascade evaluator", "final attribute values compared with the cascade of sources computed by the oracle"),
 "C11": ("runtime monitoring: parse results checked by a link-resolution oracle", "every reference of the source compared with the link found, its target, and the back references"),
 "C12": ("runtime monitoring: element x attribute x value sweep checked by a typed-value oracle", "type and value compared with an independent table and value reader"),
 "C13": ("runtime monitoring: text of parsed documents checked against whitespace conservation rules", "character conservation and space rules per xml:space evaluated on every text node"),
 "C14": ("runtime monitoring: written text checked by a strict XML checker and by re-parsing", "well-formedness, document equality after re-parsing and write-parse-write fixpoint"),
 "C15": ("runtime monitoring: outputs under random option sets re-parsed and compared", "snapshots of the re-parsed documents compared with that of the default options; the document compared before and after writing"),
 "C16": ("runtime monitoring: written text compared with an independent layout model", "byte-for-byte prediction of the output from the model document and the options"),
 "C17": ("runtime monitoring: complete name tables swept and near misses sampled against an independent list", "all 80 x 270 names in both directions, API, parser and writer"),
 "C18": ("runtime monitoring: counting allocator around random histories; LeakSanitizer and Miri in the thorough tier", "live bytes and blocks before and after compared; handles examined after the drop"),
 "C19": ("runtime monitoring: formatted text compared with an independent formatter", "byte-for-byte prediction of Debug and Display of nodes and attributes"),
 "C20": ("runtime monitoring: complete predicate tables swept against independent lists", "every predicate x every element, attribute and value type"),
 "C22": (MODEL, "everything read, written and formatted while borrows are held; whole document compared after every refused call"),
 "C23": ("runtime monitoring: the real generator run on the repository's and random lists, its output compiled and the tables observed", "every listed name converted both ways, near misses refused, two runs compared, own lists compared with the library"),
 "C24": ("runtime monitoring: log events recorded while parsing, checked offline against the planted losses (exactly-once matching)", "recorded warnings matched one to one with the losses the generator planted; errors compared with those of the XML parser"),
 "C25": ("runtime monitoring: histories of several documents interleaved in one thread and run on concurrent threads, traces compared with the solo run and with a reference model", "trace of every document (written text, display forms, errors, warnings, model comparison) equal alone, interleaved and concurrent; Miri's data-race detector in the thorough tier"),
 "C21": ("runtime monitoring: pairs of spellings of one abstract document parsed and compared (metamorphic oracle)", "snapshots of the results compared"),
}
checks = []
for i in sorted(T):
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": "Held on every execution observed, not proved: " + note + ". Trusts the reference model or oracle in harness/src and the generators' reach, "
                      "which the counters in the evidence show; runs that observe too little give no verdict.",
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API, the global allocator and the worker processes. "
          "/repo carries fix: commits only, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
