#!/usr/bin/env python3
"""Write MANIFEST.json (run by hand after changing what is claimed)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = ("Seeded search over simulated schedules, faults, environments and programs of the real library code; "
        "not exhaustive. Trusts the source-to-source instrumenter, the simulated runtime and the reference model. ")
notes = {
 "C01": "Every value ever produced is re-observed after later steps and at the end of the run (iteration, count, membership, lookup, hash) against a reference model; also after the caller overwrote slices the library returned or passed.",
 "C02": "Results of bulk operations on operands of 0..several thousand elements are compared with a reference model, under all FROZEN_CONCURRENCY/GOMAXPROCS classes, both fan-outs and hash tables with full collisions.",
 "C03": "Vector-clock race detection over every memory access of the instrumented library (slices, maps, fields, captured and package variables), with happens-before from the simulated goroutines, channels, sync and atomics; the standard library is not instrumented.",
 "C04": "Lazy expressions up to depth about 6 with power sets; each query is compared with the denoted finite set before, during and after traversal, with abandoned, interleaved and concurrent iterators.",
 "C05": "One failure (panic with several value kinds, or runtime.Goexit) injected at a seeded invocation of a seeded callback kind per faulty operation; rendering operations are judged by C14.",
 "C06": "Every callback invocation is logged with arguments, goroutine and start/end step and judged against the model.",
 "C07": "Builder histories with reuse after Finish, faults in Equal/Hash, and concurrent readers of the finished values.",
 "C08": "Iterators are opened, advanced, interleaved with others and with operations, and run past the end; the yielded multiset and order are judged against the model.",
 "C09": "Deadlock, step cap and goroutine leak detection by the simulator in every run; termination means within the step cap (4M steps for small programs).",
 "C10": "All pairs of same-typed values alive at the end of a run are compared with the model, in both directions, typed and untyped, with hashes under several seeds.",
 "C11": "Element-wise operations and conversions against a finite set/map model.",
 "C12": "Eight integer types and their extremes; Go map order of the library is under the seeded scheduler.",
 "C13": "Relations of up to a few dozen tuples against a relational-algebra model; nesting is by one attribute group.",
 "C14": "fmt and JSON output tokenised and judged against the model; failing writers and failing element marshalers/formatters injected.",
}
checks = [{
    "property": p,
    "quick_cmd": f"python3 check.py {p} quick",
    "thorough_cmd": f"python3 check.py {p} thorough",
    "evidence_file": f"evidence/{p}.json",
    "technique": "deterministic simulation with fault injection: seeded schedules and faults over instrumented real code, checked against a reference model",
    "level": "exploration",
    "level_note": base + n,
} for p, n in sorted(notes.items())]
json.dump({
 "version": 1,
 "setup_cmd": "bash lib/setup.sh",
 "checks": checks,
 "not_applicable": [
  {"property": "C15", "reason": "The cost of a derivation and the amount of structure it shares are the same under every schedule and fault; a simulator does not measure them, and nothing of theirs depends on concurrency, time, I/O or another party."},
  {"property": "C16", "reason": "Pure functions of one or three machine words with no concurrency, time, I/O, randomness or callbacks in them: deterministic simulation decides nothing about them that a plain test would not."},
 ],
 "notes": "No hooks in /repo: each check instruments a copy of /repo's current working tree (sim/cmd/instrument) and runs it under the simulator in sim/simrt. Known findings: KNOWN_FINDINGS.txt. Replay a violation: python3 check.py replay FILE.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
