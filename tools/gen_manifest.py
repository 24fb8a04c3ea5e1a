#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = " Assumes the simulated file system, heap, clock and scheduler stand for Linux/glibc and sequentially consistent memory; sampling, not proof."
C = {
 "C01": ("seeded preemptive scheduling of real library threads with race detection", "exploration", "Seeded interleavings at instrumented memory accesses with a vector-clock race detector; answers compared with the same calls run alone."),
 "C02": ("seeded call histories with garbage memory against a fresh-handle reference", "exploration", "Every answer in a seeded history is compared with a fresh handle in a pristine simulated process; all heap accesses checked."),
 "C03": ("seeded grammar-check histories against a fresh-handle reference", "exploration", "As C02 for grammar checking through both iteration interfaces."),
 "C04": ("simulated voikkospell worker threads under seeded schedules against -j 1", "exploration", "The real tool with all of its threads runs under seeded schedules; bytes and exit status compared with the serial run."),
 "C05": ("file-system fault injection during initialisation with recovery check", "fault_enumeration", "Seeded faults at every kind of file-system call made during initialisation, then recovery."),
 "C06": ("torn and truncated dictionary files in a simulated file system", "fault_enumeration", "Seeded cut points and lost tails in every dictionary file; guard pages, checked heap, step limit."),
 "C07": ("simulated directory trees, enumeration orders and faults against a priority model", "exploration", "Seeded worlds against an executable model of dictionary discovery."),
 "C08": ("resource accounting over seeded lifecycles with injected faults", "fault_enumeration", "Live blocks, descriptors and mappings counted over repeated seeded lifecycles."),
 "C09": ("simulated input/output streams with injected errors and short transfers", "fault_enumeration", "The real compiler on simulated files; output and status compared with the undisturbed run."),
 "C10": ("simulated standard streams with chunking, errors and full disks", "fault_enumeration", "The real filter tools on simulated streams; output and status compared with one undisturbed run."),
 "C11": ("allocation failure injection in seeded call histories", "fault_enumeration", "Seeded failing allocations; memory checked, later answers compared with an undisturbed handle."),
 "C12": ("controlled scheduling of Java threads over a stub native library", "exploration", "The real Java class over a stub native library that records and checks every call under seeded schedules."),
 "C13": ("live handles under seeded locale, environment and disk changes", "exploration", "Answers before and after seeded changes of the surroundings compared with a pristine reference."),
 "C14": ("seeded threads, collections, interrupts and native failures over the Python class", "exploration", "The real Python class over a stub native library that checks every call; seeded histories, thread switches, garbage collections, interrupts and failing native calls."),
 "C15": ("old-API histories with loading faults against a slot-table model", "exploration", "Seeded histories refined against a small executable table model."),
 "C16": ("seeded histories and native failures over the JavaScript class in a checked linear memory", "exploration", "The real JavaScript file over a stub native library; every native call and memory access checked, every answer compared with the stub's answer for the object's own options."),
 "C17": ("dictionary source generators on simulated files with injected errors, hash seeds and locales", "fault_enumeration", "The real scripts on simulated raw files with at most one seeded fault per run, compared with a faultless run under another hash seed and locale."),
 "C18": ("simulated time as counted steps; seeded histories with failing allocations on ambiguous and cyclic dictionaries", "exploration", "Steps of every call compared with a bound that depends on its argument only and with the same call on a fresh handle. The bounds are 3 to 20 times the largest number seen on the unchanged library, so smaller slow-downs are not seen."),
}
NA = {
 "C20": "Pure function of its text argument: no schedule, clock, I/O, fault or call history for a simulator to control (history independence itself is C02).",
 "C21": "Relation between two pure functions of one input; nothing nondeterministic to simulate. Differential testing on inputs would be another technique.",
 "C22": "Shape of the result of a pure function; nothing nondeterministic to simulate.",
 "C23": "Relation between results of pure functions over one dictionary; nothing nondeterministic to simulate.",
 "C24": "Input/output correctness of a compiler on one file; its I/O behaviour is C09, the relation itself has nothing to schedule or fault.",
}
import sys
have = [p for p in C if p in sys.argv[1:]] if len(sys.argv) > 1 else list(C)
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": []}
for p in have:
    t, l, n = C[p]
    m["checks"].append({"property": p, "quick_cmd": "bash run.sh check %s" % p, "thorough_cmd": "VERIF_TIER=thorough bash run.sh check %s" % p,
                        "technique": "deterministic simulation: " + t, "level": l, "level_note": n + COMMON})
for p in C:
    if p not in have: m["not_applicable"].append({"property": p, "reason": "check under construction"})
for p in NA: m["not_applicable"].append({"property": p, "reason": NA[p]})
m["notes"] = "No hooks in /repo: the seams are compiler instrumentation, symbol interposition and system-call dispatch in /verif/sim. /repo commits are repairs only (known_findings.txt)."
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
