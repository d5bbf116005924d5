#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
AI = "abstract interpretation of monomorphised MIR (relational Boolean/BDD domain, own rustc driver)"
COMMON = ("Decided from the MIR rustc builds from /repo on each run; nothing is executed. For every analysed pair of lengths and "
          "feature set the verdict covers all source contents; lengths are a finite list (evidence: entry_lengths), and lengths beyond it "
          "are assumed to behave alike. Trusts rustc's MIR and the intrinsic models in driver/src/intrin.rs.")
T = {
 "C01": ("every load, store, copy and deallocation is an obligation: in bounds of its object, on every path", ""),
 "C02": ("resolved-call-path feature rule: callee features and intrinsics covered by the detected feature set on each abstract path", ""),
 "C03": ("reachability of panics, failed assertions, unreachable terminators and overflow checks", "Overflow checks are on, debug assertions of std are off; allocation is assumed to succeed."),
 "C04": ("definite initialisation per byte", ""),
 "C05": ("typestate of the appended vector at every return (length, prefix, contents)", ""),
 "C20": ("equality of canonical forms (ROBDDs) across instruction sets and build configurations", ""),
 "C21": ("equality of canonical forms of the copying and the in-place operation", ""),
 "C23": ("write effects on the destination, and equality of outcomes across destination lengths", ""),
 "C24": ("rayon's own parallel iterators analysed with a sequential thread pool; thread count is an input; result compared with the encoding as canonical Boolean functions",
         "Thread counts 0-8 (and absurd ones); lengths around the splitting threshold. Assumes rayon's join runs each task exactly once; chunk independence is decided by ownership (each worker's destination is disjoint)."),
 "C25": ("every primitive of the SIMD layer on every instruction set compared, as canonical Boolean functions of all operand bits, with its lane-wise meaning",
         "Products of two unknowns are compared as uninterpreted values, and exactly for listed constant second operands; immediates are a list."),
 "C28": ("composition of the two operations on abstract values equals the identity", ""),
}
F = "abstract result of every path compared with the specification as canonical Boolean functions"
NA = {
 "C29": "Speed is a run-time quantity of a particular machine; no static argument in reach bounds it.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(props.VERIF, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in props.PROPS:
            how, note = T.get(i, (F, ""))
            tech, common = AI + ": " + how, COMMON
            if i in props.INFO:
                tech, common = props.INFO[i]
            checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                           "thorough_cmd": f"python3 tools/check.py {i} thorough",
                           "technique": tech, "level": "other", "level_note": (note + " " + common).strip()})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: private code is reached through the public API and through MIR."}
    json.dump(m, open(os.path.join(props.VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])
main()
