#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: mass execution on shadow pairing engines and BLS12-381, acceptance and size oracle",
 "C02": "runtime monitoring: verdicts judged against values extracted from commitments with the CRS trapdoor (shadow discrete logarithms)",
 "C03": "runtime monitoring: differential oracle, verification equation recomputed on shadow discrete logarithms",
 "C04": "runtime monitoring: shape-fault injection into accepted proofs, acceptance is a violation",
 "C05": "runtime monitoring: trapdoor extraction and recorded-randomness oracle on every commitment",
 "C06": "runtime monitoring: complete enumeration of the random generator's outcomes on tiny shadow groups, distribution oracle",
 "C07": "runtime monitoring: complete enumeration of the random generator's outcomes on tiny shadow groups, distribution oracle; rank monitor",
 "C08": "runtime monitoring: complete enumeration of the random generator's outcomes on tiny shadow groups, distribution and structure oracle",
 "C09": "runtime monitoring: algebraic-law oracle on shadow discrete logarithms and BLS12-381",
 "C10": "runtime monitoring: algebraic-law oracle on shadow discrete logarithms and BLS12-381",
 "C11": "runtime monitoring: algebraic-law oracle on shadow discrete logarithms and BLS12-381",
 "C12": "runtime monitoring: differential oracle against textbook matrix arithmetic; shape-fault injection",
 "C13": "runtime monitoring: round-trip oracle over recorded bytes",
 "C14": "runtime monitoring: fault injection into encodings, acceptance and canonicity oracle",
 "C15": "runtime monitoring: schedule perturbation (injected delays, pool sizes, nesting, concurrency), byte-equality oracle, watchdog",
 "C16": "runtime monitoring: differential oracle for every (equation, commitments, proof) combination of a shared history",
 "C17": "runtime monitoring: recorded random draws, byte-equality oracle between equivalent histories",
 "C18": "runtime monitoring: shuffled and concurrent operation histories with aborted calls, byte-equality oracle",
 "C20": "runtime monitoring: shape-fault injection into the prover's inputs, a returned proof is a violation",
 "C21": "runtime monitoring: differential oracle, equality against independent descriptions of the objects",
 "C22": "runtime monitoring: fault injection into writers and readers at every byte, byte-equality oracle",
 "C23": "runtime monitoring: differential oracle against an independent encoder, replay of recorded bytes",
 "C24": "runtime monitoring: offline checker over logs of system calls (strace) with marks around library calls; metamorphic oracle on messages",
 "C25": "runtime monitoring: complete enumeration of the random generator's outcomes on tiny shadow groups, real prover against a trapdoor simulator; verdicts on simulated proofs",
 "C26": "runtime monitoring: counters of group operations, pairings and allocations in instrumented engines, growth oracle",
 "C19": "sanitizers: Miri, ThreadSanitizer, AddressSanitizer, overflow and debug assertions, counting allocator",
}
have = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(H, "harness/src/bin")))] + (["C19"] if "def check" in open(os.path.join(H, "san.py")).read() and "not built yet" not in open(os.path.join(H, "san.py")).read() else [])
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
            "level_note": "Holds on the executions explored (numbers and observed states in the evidence file); stages marked exhaustive cover their finite space completely, on shadow engines of tiny order."
            if i != "C19" else "Holds on the executions observed under each sanitizer (numbers in the evidence file)."})
    else:
        m["not_applicable"].append({"property": i, "reason": "the monitor for this property is still being built"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
