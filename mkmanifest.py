#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks of legs.py."""
import json, os, sys
sys.dont_write_bytecode = True
import legs as L
T = "deterministic simulation with fault injection: "
TECH = {
 "S01": T + "seeded search over object sequences and delivery schedules of a simulated stream",
 "S02": T + "seeded search over truncation points, device errors and delivery schedules of a simulated input device",
 "S03": T + "seeded search over storage damage to encodings read from a simulated device",
 "S04": T + "seeded search over write refusals, short writes and exceptions of a simulated output device",
 "R01": T + "simulated entropy sources with boundary-rich words and failures",
 "R02": T + "simulated entropy sources under simulated thread schedules",
 "M01": T + "seeded search over thread schedules of the OpenMP regions with a happens-before race detector and a reference model",
 "M02": T + "seeded search over thread schedules of the OpenMP regions with a happens-before race detector and a reference model",
 "T01": T + "seeded search over interleavings of caller threads with a happens-before race detector and solo results",
 "T02": T + "seeded search over interleavings of caller threads with a happens-before race detector and solo results",
 "T03": T + "seeded search over interleavings of caller threads with a happens-before race detector and solo results",
 "P01": T + "simulated clocks with jumps and steps back, simulated thread schedules, executable model of the records",
 "A01": T + "allocation failures injected at drawn points of drawn operations, with retry and leak accounting",
 "I02": T + "seeded search over interleavings of initialising and using threads with a happens-before race detector and clean-process references",
 "I01": T + "drawn histories of complete and interrupted initialisations against clean-process digests",
}
NOTE = {
 "A01": "Samples operations x failing allocations (single, or from one on) in two output modes under AddressSanitizer, and in the multi-threaded build with failures inside the worker threads under drawn schedules. Fails operator new only: GMP ends the process when it cannot allocate, by its design. The reference is the same operation in a process of its own. Profiling counters are off. Leaks are judged by live blocks of operator new and of GMP after a repeated call.",
 "I01": "Samples histories over all five curves and the binary fields in two output modes under AddressSanitizer. References are parameters and results of processes that initialised one curve once, so a wrong constant that is always the same is not seen. Interruptions are allocation failures; there are no other exits from an initialiser.",
 "I02": "Samples programs of initialisations and operations for 2-4 threads and schedules in two builds. Races are happens-before races of the schedule run. References are processes that initialised one curve. Curves that share fields (MNT4 and MNT6) are initialised by one thread.",
 "T01": "Samples programs of operations of every field (shared operands, 1-4 threads) and schedules in two builds; races are happens-before races of the schedule run. The reference is the same operation in a process of its own, so results that are wrong also alone are not seen here. Inline assembly in the asm build does not report the memory it touches; the other build covers the same arithmetic.",
 "T02": "As T01, for every group: arithmetic, scalar multiplication, normalisation, checks and serialization.",
 "T03": "As T01, for precomputations, Miller loops, final exponentiations and pairings (ate, affine and Tate variants), with precomputations shared between threads and the profiling records off, counting and printing.",
 "P01": "Samples histories and schedules in three builds (multi-threaded, assertions on, operation counts). Trusts a small model of the records. Blocks of the same name open at once, and operation counts in the multi-threaded build, are outside the property.",
 "R01": "Samples entropy histories rich in boundary words, stuck words and failures, for every type that can be drawn. Only constant histories, whose candidates are the same in any order of use, are compared exactly; region frequencies use thresholds far beyond chance. Group membership trusts the library's point addition.",
 "R02": "Samples programs of draws, environments and schedules. Statement about the hash-based generator is checked against an independent model (OpenSSL digest).",
 "M01": "Samples schedules (uniform, priority and run-to-completion policies at instrumented accesses and synchronisations), inputs, methods, chunk and thread counts in three builds. Races are happens-before races of the schedule run, so unordered accesses are found even when they did not collide. Reference: double-and-add on the real groups, scalar arithmetic on the toy groups; trusts field arithmetic and point addition. The OpenMP runtime is the simulator's.",
 "M02": "Samples schedules, window and table settings, scalar sizes and thread counts in three builds; races as for M01. Reference: double-and-add or scalar arithmetic, position by position; trusts field arithmetic and point addition. The OpenMP runtime is the simulator's.",
 "S01": "Samples object sequences x delivery schedules in four output modes; every run is one seed and replays exactly. Trusts GMP, libstdc++ formatting and the equality operators of the library (cross-checked by encoding equality).",
 "S02": "Samples truncation offsets x failure kinds x deliveries in four output modes with step, memory and address checking (ASan). Work bound is a budget of instrumented steps with a wide margin.",
 "S03": "Samples damage in four output modes; validity judged by independent canonicity and curve-equation checks; ASan, step and allocation budgets. Trusts the field arithmetic used by the curve-equation check.",
 "S04": "Samples device capacities x failure kinds x buffer sizes in four output modes.",
}
NA = {
 "N01": "a pure function of its inputs: no schedule, clock, fault or I/O for a simulator to decide",
 "N02": "a pure function of its inputs: no schedule, clock, fault or I/O for a simulator to decide",
 "N03": "a pure function of its inputs: no schedule, clock, fault or I/O for a simulator to decide",
 "N04": "a pure function of its input: no schedule, clock, fault or I/O for a simulator to decide (that decompression of damaged points terminates is decided under S03)",
 "N05": "pure conversions: no schedule, clock, fault or I/O for a simulator to decide (decoding of damaged words is decided under S03)",
 "N06": "a fixed set of constants: nothing varies that a simulator could decide (that initialisation always yields the same constants is decided under I01)",
 "N07": "a pure function of its input: no schedule, clock, fault or I/O for a simulator to decide",
}
def main():
    ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
    checks = [dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, technique=TECH[i], level="exploration", level_note=NOTE[i]) for i in ids if i in L.CHECKS]
    na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in L.CHECKS]
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
        notes="No hooks in /repo: every seam is a link-time or compile-time one in /verif (stream buffers, allocator, entropy, clocks, OpenMP and thread runtime). 'python3 check.py --replay FILE' replays a violation; 'python3 check.py --determinism PROPERTY' compares event hashes across processes and job counts.")
    json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
main()
