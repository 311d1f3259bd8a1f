#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "Monitor compares every observed call with a reference model over random, structured and exhaustive-small workloads in a checked (debug assertions, overflow checks) and an optimised build; trusts the model (self-tested on each run) and says nothing about inputs not drawn."
T = {
 "C01": ("reference-model monitor on arithmetic calls", MODEL),
 "C02": ("reference-model monitor on division calls", MODEL),
 "C03": ("reference-model monitor on shift calls", MODEL),
 "C04": ("reference-model monitor on bitwise, bit-access and counting calls", MODEL),
 "C05": ("reference-model monitor on casts and assignment", MODEL),
 "C06": ("reference-model monitor on constructors and primitive conversion", MODEL),
 "C07": ("order-axiom and reference-model monitor on comparisons, equality and hash", MODEL),
 "C08": ("reference-model monitor on parsing and printing with hostile text", MODEL),
 "C09": ("round-trip and fault-injecting decoder monitor", "Every valid form and generated malformed, truncated and failing token streams are judged against the data-format rules; held on the streams generated."),
 "C10": ("history monitor: invariant over all observation channels after each call", "Random operation histories; after every call the value must agree through every channel with one built directly. Held on the histories run."),
 "C11": ("error-contract monitor with state snapshots", "Every fallible call with valid and invalid arguments; error kind, error data and surviving operands are compared with the specification, panics are caught. Held on the calls made."),
 "C12": ("AddressSanitizer, Miri and guarded-allocator monitor on histories with injected panics", "Redzones, release-size and poison-differential checks on millions of calls, the same under AddressSanitizer, smaller runs under Miri (Tree Borrows). Held on the histories run; non-adjacent in-arena overflows are left to Miri's smaller runs."),
 "C13": ("history monitor: snapshots of all live values after each call", "Random histories with held clones and errors. Held on the histories run."),
 "C14": ("allocation-count monitor (instrumented global allocator)", "Counts and sizes of heap blocks before and after each call and on each release. Held on the calls made."),
 "C15": ("recording-generator monitor on random draws", "Draws with recorded, constant, sparse and panicking generators judged for width, determinism, use of every bit and amount consumed. Held on the draws made."),
 "C16": ("differential monitor: operator against named call, panics caught", MODEL),
 "C17": ("reference-model monitor on the signed and unsigned types", MODEL),
 "C18": ("differential digest monitor over feature and profile configurations", "The same deterministic workload runs in eleven (thorough: sixteen) configurations, all eight feature sets among them, and must give equal outcome digests per operation. Held for those configurations and calls."),
 "C19": ("ThreadSanitizer, Miri race detector and sequential-oracle monitor on threads", "Shared use under real threads in plain and ThreadSanitizer builds (instrumented std) and under Miri with several schedules; results compared with the sequential ones. Held on the schedules observed."),
 "C20": ("specification monitor on scalar constructors", "All small numbers, all radices, boundary and random numbers; held on those."),
}
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=t, level="exploration", level_note=n) for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: every monitor observes the public interface. known-findings.txt lists recorded and repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
