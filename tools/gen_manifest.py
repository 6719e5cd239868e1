#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
# id -> technique
T = {}
def t(ids, s):
    for i in ids.split(): T[i] = s
t("C01 C02 C03 C04 C06 C07 C08 C11 C12 C13 C14 C28", "stateful model-based random testing against an ordered-tree model, with shrinking")
t("C09", "generated programs: every tuple shape up to 7 nodes, every arity and random larger shapes, built and then edited at random against an ordered-tree model")
t("C10", "generated programs: the visitors, sizes, heights and level counts of every tuple shape up to 7 nodes, every arity and random larger shapes against a recursive reference")
t("C05", "stateful random testing under a checking allocator (quarantine, red zones, leak accounting) and AddressSanitizer")
t("C33", "stateful model-based random testing with allocator block tracking")
t("C34", "metamorphic random testing: the same history with both storage kinds")
t("C21 C22 C23 C25 C26 C27", "stateful model-based random testing of shared handles against an arena model, with shrinking")
t("C24", "stateful random testing of shared handles under a checking allocator (quarantine, red zones, leak accounting) and AddressSanitizer")
t("C15 C16 C17", "stateful model-based random testing of walkers: cursor jumps against an ordered-tree model with a cursor, with shrinking")
t("C18 C19 C20", "differential random testing against plain reference definitions over pairs of small trees built along different routes")
t("C29", "fault injection into random histories: the n-th call of user code (clone, compare, hash, format, destructor, closure, iterator) panics; model-based oracle, checking allocator, AddressSanitizer")
t("C30", "structured fuzzing of breadth-first input with wrong sizes under a checking allocator and AddressSanitizer, with and without overflow checks")
t("C31", "differential random testing: the same histories with the library built with and without no_std")
t("C32", "random multi-threaded programs over pieces of common constructions, run natively, under ThreadSanitizer and under Miri with random schedules; ordered-tree model, drop accounting, leak accounting, race detection")
claimed = [p["id"] for p in props if p["id"] in T]
checks = []
for i in claimed:
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": T[i],
        "level": "exploration",
        "level_note": "Random search with an explicit oracle over generated inputs and histories: no violation within what the evidence counts; not a proof. Trusts the harness's model, its instrumented data type and its allocator.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "The check for this property is not built yet."} for p in props if p["id"] not in T],
    "notes": "No hooks in /repo: the harness uses the public interface only. Each check rebuilds the harness against /repo's working tree.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
