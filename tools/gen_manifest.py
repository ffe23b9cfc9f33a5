#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
FE, EX = "fault_enumeration", "exploration"
T = "runtime monitoring: "
C = [
("C01", EX, T+"acceptance oracle on random, hostile and large honest runs", "every honest Assign+Prove+Verify run of random circuits, batches, chunkings and worker counts is accepted; sampled, not exhaustive"),
("C02", FE, T+"injected proof faults (every element; forged proofs per verifier check) against a reject oracle", "every proof element and every check of the verifier (per layer and round) of the circuits drawn is attacked once; soundness beyond these attacks rests on the protocol"),
("C03", FE, T+"injected batch faults (every cell, swaps, permutations, other batches) against a reject oracle", "every input and output cell of the small batches is altered; the two linear constructions of KNOWN_FINDINGS are known to be accepted"),
("C04", FE, T+"injected shape faults against a reject-and-no-panic oracle", "every place of the proofs drawn is malformed in every listed way, alone and combined"),
("C05", EX, T+"sumcheck transcripts observed against direct sums over the boolean cube", "all round polynomials, claims and final claims of the instances drawn; small tables, because the oracle sums over the whole cube"),
("C06", FE, T+"transcripts with one injected fault per round against an independent verifier", "accept and reject sides, every round of every transcript drawn"),
("C07", EX, T+"differential monitor over schedules (scheduler noise at gate events, GOMAXPROCS, workers, chunks, concurrent runs)", "interleavings are sampled, not enumerated; the number of distinct ones seen is in the evidence"),
("C08", EX, "Go race detector (ThreadSanitizer) on a build with pure-Go field arithmetic, stress workload with injected yields, result monitors", "a race is seen if both accesses occur in a run of the workload; happens-before detection does not need the bad timing itself; the detector is checked on a planted control race in every run"),
("C09", EX, T+"hooks at gate evaluations count work in flight; goroutine quiescence, deadlock and stall monitors; offline checker of semaphore histories", "limits are checked on observed executions whose gates dwell so that an extra worker overlaps; hangs by the runtime's deadlock detector and a CPU/stall monitor"),
("C10", EX, T+"every value of every assignment against an independent evaluator", "all values of the circuits, batches and chunkings drawn"),
("C11", EX, T+"every instance of the MiMC circuit against the hash package and an independent MiMC", "all instances of the batches drawn; round constants pinned"),
("C12", EX, T+"digests and intermediate states against an independent implementation over pinned constants", "message lengths 0..40 for each hash and size, sampled contents; every message element is perturbed"),
("C13", EX, T+"differential monitor of all evaluation forms, degrees by finite differences, identifier collisions", "built-in gates, all 91 round constants, boundary and random values"),
("C14", EX, T+"table operations and random operation sequences against a value model, argument snapshots", "tables of 1 to 2^9 values (some 2^13), sampled contents and sequences"),
("C15", EX, T+"eq tables and chunked evaluation against the de-interleaved definition", "all chunk counts of the sizes drawn, sampled points"),
("C16", EX, T+"interpolation and evaluation against Newton's formula, dual-basis equations and re-evaluation", "every length 1..12, sampled values; linear maps, so agreement on bases and random values is strong evidence"),
("C17", EX, T+"gnark's solver decides gadget constraint systems with native, wrong and misplaced values", "satisfaction for native values, unsatisfaction for wrong claims; wires that the solver computes itself cannot be set by a cheating prover here, so underconstraint of internal wires is not observable"),
("C18", EX, T+"gnark's solver decides the compiled verifier on honest, altered and forged proofs, compared with the native verifier", "batches 2^0..2^3 (thorough: more), every kind of check; layers and rounds sampled in the quick tier"),
("C19", EX, T+"snapshots of all shared objects (with spare capacity) and of earlier results after every call of random call sequences", "sampled call sequences; every public operation on shared objects occurs"),
("C20", EX, T+"work ranges walked index by index, parallel table arithmetic against element-wise results with watched neighbours", "sizes around all multiples of the minimum chunk size and worker counts 1..130; sampled otherwise"),
("C21", EX, T+"layer widths, gate lists and every wiring table entry against the definition", "sampled wire lists; every table entry of the layers drawn"),
("C22", EX, T+"environment, profiling side effects (files, calls, trace state) and printed values observed in scratch directories", "sampled values; all flag combinations"),
("C23", EX, T+"helper results against defining inequalities; statistics over random arrays", "all integers to 2^17 and around every power of two, sampled beyond"),
]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                 "technique": t, "level": l, "level_note": n} for i, l, t, n in C],
     "not_applicable": [],
     "notes": "No hooks in /repo: the monitors sit in gates, tables and arguments handed in by the harness, in the race detector and in the runtime's goroutine and trace state. DESIGN.md describes each check; KNOWN_FINDINGS lists the findings."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
