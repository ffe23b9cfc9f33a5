#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Honest GKR proofs are always accepted",
  "For every well-formed layered circuit, every batch of inputs, every chunking of that batch and every worker count, proving the circuit's own assignment terminates normally and the resulting proof is accepted by the native verifier for those inputs and the assignment's outputs. Well-formed means consecutive layers agree on their width, sizes are powers of two and gate degrees are at most 10; a wire may read any input, a gate kind may occur several times in a layer, and several wires may feed one output.",
  ["inputs", "configurations", "programs", "schedules"],
  "all well-formed circuits (depth, widths, wiring, gate mix incl. user-defined gates), all field inputs incl. 0/1/-1, all batch sizes 2^bN, all chunk counts 2^k <= 2^bN, all nCore >= 1",
  "The tests prove three fixed circuits, always with two chunks, one worker, right input 0 or one instance per chunk; anything about other wirings, chunk counts or batch sizes is unsampled.",
  ["gkr/prover.go", "gkr/verifier.go", "sumcheck/par.go", "sumcheck/prover.go", "sumcheck/evals.go", "circuit/layers.go", "circuit/circuit.go", "polynomial/chunked.go", "polynomial/eq.go"],
  [("Prover.Prove drives one sumcheck per layer", "gkr/prover.go"), ("Verifier.Verify replays every layer and ends on the inputs", "gkr/verifier.go"), ("Layer.Evaluate and GetStaticTable agree on the wiring", "circuit/layers.go")],
  ["return value of Verifier.Verify on (Prover.Prove(), inputs, outputs)"])

p("C02", "Altered or forged GKR proofs are rejected",
  "The native verifier accepts a proof only if every one of its conditions holds: each round polynomial's values at 0 and 1 sum to the running claim, each layer's final claim equals the gate combination of the two claimed values, and the two last claims match the inputs. So a proof in which any single field element was changed, or that a cheating prover built for false outputs so that exactly one of these conditions fails, at any layer and round, is rejected (up to negligible probability).",
  ["inputs", "programs", "fault_sequences"],
  "all circuits, all layers, all rounds, all proof elements; all single-check forgeries, i.e. false claims carried consistently up to one chosen check and dropped there",
  "No test gives the verifier a bad proof: every test asserts acceptance only, so no verifier condition is exercised on its failing side.",
  ["gkr/verifier.go", "sumcheck/verifier.go", "circuit/gates.go", "polynomial/eq.go"],
  [("round-sum check", "sumcheck/verifier.go"), ("layer combination check, initial and intermediate", "gkr/verifier.go"), ("final check of the claims against the inputs", "gkr/verifier.go")],
  ["return value of Verifier.Verify on mutated and forged proofs"])

p("C03", "A proof is bound to the batch of inputs and outputs it was made for",
  "A proof that the native verifier accepts for one batch of inputs and outputs is rejected when it is presented with a batch in which any input or output value, at any wire and instance, differs (including swapped or shifted values), or whose inputs or outputs are missing, further or unevenly chunked values: the verifier then returns false and does not panic.",
  ["inputs", "configurations"],
  "all circuits and batches, every position of every input and output table, single and multiple changes",
  "The tests never present a proof with a different statement; which positions the verifier really looks at depends on its evaluation point, not on the sampled batch.",
  ["gkr/verifier.go", "gkr/prover.go", "polynomial/chunked.go"],
  [("initial evaluation point of the outputs", "gkr/prover.go GetInitialQPrimeAndQ"), ("final evaluation of the inputs at the last challenges", "gkr/verifier.go")],
  ["return value of Verifier.Verify with an honest proof and altered inputs/outputs"])

p("C04", "The verifier decides every malformed proof without crashing",
  "Given a proof whose shape does not fit the circuit and batch size (missing, extra or empty layers, claims, rounds or polynomials, or polynomials longer than the gates' degree allows), the native GKR verifier returns false; it neither panics nor accepts.",
  ["inputs", "programs"],
  "all structural mutations of proofs: any count of layers, claims, rounds and coefficients, for all circuits",
  "All proofs in the tests come from the honest prover and have the right shape.",
  ["gkr/verifier.go", "sumcheck/verifier.go", "polynomial/lagrange.go"],
  [("shape validation before the protocol is replayed", "gkr/verifier.go"), ("empty polynomial check", "sumcheck/verifier.go")],
  ["return value or panic of Verifier.Verify"])

p("C05", "The sumcheck prover sends exactly the true partial sums",
  "For any tables and gates, the prover's claim is the sum of eq(h')*static_k(hL,hR)*gate_k(vL(hL,h'),vR(hR,h')) over all gates and all boolean points; every round polynomial interpolates the partial sums of that expression with the earlier variables fixed to the earlier challenges; and the reported final claims are the multilinear extensions of the tables at the returned challenge points. This holds for the sequential and for the chunked multi-threaded prover.",
  ["inputs", "configurations", "schedules"],
  "all table contents (dense, sparse, zero rows), all sizes 2^bN and 2^bG incl. 0 variables, all gate sets with degree up to 10, chunkings and worker counts",
  "Tests check one 4-element hand-computed example and one structured table with bG = 1; other shapes, gate mixes and chunkings are never compared with the defining sum.",
  ["sumcheck/prover.go", "sumcheck/evals.go", "sumcheck/par.go", "polynomial/lagrange.go"],
  [("GetClaim / GetEvalsOnHL / HR / HPrime", "sumcheck/evals.go"), ("Fold after each challenge", "sumcheck/prover.go"), ("per-chunk accumulation and merging", "sumcheck/par.go")],
  ["GetClaim and Prove results of both provers"])

p("C06", "The sumcheck verifier accepts exactly the consistent transcripts",
  "Given a claim and any list of at least 2*bG non-empty round polynomials, the sumcheck verifier accepts if and only if each polynomial's values at 0 and 1 sum to the running claim, which starts as the given claim and becomes the polynomial's value at the round's challenge, the MiMC hash of that polynomial's coefficients. On acceptance it returns the challenges split in order into qL, qR and qPrime and the last running claim. Fewer rounds or an empty polynomial are rejected, without a panic.",
  ["inputs", "histories"],
  "all claims, round counts, splits and polynomial lengths; inconsistency at any single round or coefficient",
  "Tests only feed accepted transcripts from the honest prover and hardly look at the returned points.",
  ["sumcheck/verifier.go", "common/challenge.go", "polynomial/lagrange.go"],
  [("P(0)+P(1) check and running claim", "sumcheck/verifier.go"), ("challenge = hash of the round polynomial", "common/challenge.go")],
  ["the five results of sumcheck Verifier.Verify"])

p("C07", "Results do not depend on workers, chunking or scheduling",
  "Assignments, sumcheck claims and proofs, and whole GKR proofs are functions of the circuit and the input values only: they are identical for every worker count, every chunking of the same batch (once de-interleaved), every goroutine schedule and every repetition, and equal to the sequential prover's.",
  ["schedules", "configurations", "inputs"],
  "all nCore >= 1, all power-of-two chunk counts, all goroutine interleavings, all circuits and batches",
  "One test compares one chunking with one worker against the sequential prover, on one schedule.",
  ["sumcheck/par.go", "gkr/prover.go", "circuit/circuit.go", "circuit/layers.go", "polynomial/eq.go"],
  [("accumulation over chunks and indexed merging", "sumcheck/par.go"), ("private copies of shared tables per chunk", "sumcheck/par.go")],
  ["equality of Assign / GetClaim / Prove results across configurations"])

p("C08", "Proving, assigning and verifying are free of data races",
  "No execution of the library's concurrent operations (assignment, table copies and arithmetic, claims, proving, with any worker and chunk count) contains a data race, and circuits, assignments, verifiers, inputs and hash parameters may be shared by concurrent provers, verifiers and hashers.",
  ["schedules", "configurations"],
  "all interleavings of the internal workers and of concurrent API calls on shared circuits and assignments",
  "The suite is run without the race detector, with one worker almost everywhere, and field arithmetic is in assembly that the detector cannot see.",
  ["sumcheck/par.go", "circuit/layers.go", "circuit/circuit.go", "polynomial/book_keeping.go", "polynomial/chunked.go", "common/semaphore.go"],
  [("channel hand-over and semaphores", "sumcheck/par.go"), ("disjoint chunk ranges", "polynomial/book_keeping.go")],
  ["Go race detector reports over a build whose field arithmetic is pure Go"])

p("C09", "Worker limits are honoured and all work terminates",
  "For every worker count n >= 1 and every chunk count, at most n workers evaluate gates at the same time during assignment, claim computation and proving, every such call returns (no deadlock), and no goroutine stays behind once it has finished. The semaphore these rest on never lets more than n holders in and never loses a permit.",
  ["schedules", "configurations", "histories"],
  "all worker and chunk counts (fewer, equal, more workers than chunks), all schedules incl. delays inside gate evaluation",
  "Tests run a handful of configurations and observe only results, never concurrency or leftover goroutines.",
  ["common/semaphore.go", "sumcheck/par.go", "circuit/layers.go", "circuit/circuit.go", "polynomial/book_keeping.go"],
  [("Semaphore.Acquire / Release", "common/semaphore.go"), ("release around the wait for a challenge", "sumcheck/par.go")],
  ["in-flight gate evaluations seen by an instrumented user gate, live goroutines after the call, deadlock detector"])

p("C10", "A circuit assignment equals gate-by-gate evaluation",
  "Layer 0 of an assignment is the inputs, and in every later layer, for every instance of the batch, the value of each output is the sum over the wires feeding it of the wire's gate applied to the values at that wire's left and right inputs in the same instance of the layer below. The tables the assignment hands out for a layer hold these values, chunk by chunk; those of the copying variant may be overwritten without changing the assignment.",
  ["inputs", "programs", "configurations"],
  "all wirings (any left/right index, repeated and missing outputs), all gates, batch sizes, chunkings and worker counts",
  "Tests evaluate circuits whose right input index is 0 or whose chunks hold a single instance, so index arithmetic across instances is unsampled.",
  ["circuit/layers.go", "circuit/circuit.go", "circuit/gates.go"],
  [("Layer.Evaluate index arithmetic", "circuit/layers.go"), ("Circuit.Assign feeds each layer from the one below", "circuit/circuit.go")],
  ["Assignment.Values"])

p("C11", "The MiMC circuit computes the MiMC permutation for every instance",
  "For every batch, chunking and instance, the output of the example MiMC GKR circuit on (state, key) equals the MiMC permutation of the hash package keyed by that key and started from state minus key, plus the key; so compression values and whole-message hashes computed through the circuit equal the native hash.",
  ["inputs", "configurations"],
  "all field pairs (state, key) incl. 0, 1, -1, all batch sizes, chunkings, positions in the batch, and message chains",
  "The test checks one instance (the first of the first chunk) of one random batch.",
  ["examples/mimc.go", "hash/mimc.go", "hash/ark.go", "circuit/gates.go", "circuit/layers.go"],
  [("91 cipher layers with the hash round constants", "examples/mimc.go"), ("MimcPermutationInPlace", "hash/mimc.go")],
  ["last layer of Assignment.Values against hash.MimcPermutationInPlace / MimcHash"])

p("C12", "The native hash functions compute exactly their defined digests",
  "MiMC, GMiMC and Poseidon (sizes 2, 4, 8) map every message to the value given by their definition over the fixed round constants and matrices: absorb the message block by block (zero-padding the last block), run the complete keyed round schedule (MiMC: add key and constant, power 7, 91 rounds; GMiMC: the same on the first lane, then rotate, 91 rounds; Poseidon: add, power 7 on all or one lane, multiply by the Cauchy matrix, 8 full + 82/83/84 partial + 8 full rounds), and add the previous state and the block. Hence every message element influences the digest, hashing is deterministic, and it changes neither the message nor the public parameters.",
  ["inputs", "histories"],
  "all messages of every length (empty, partial last block, many blocks), all element values, any sequence of hash calls",
  "The test only calls each hash once on zeros and asserts nothing about the value.",
  ["hash/mimc.go", "hash/gmimc.go", "hash/poseidon.go", "hash/ark.go", "hash/hash.go"],
  [("MimcUpdateInplace", "hash/mimc.go"), ("GMimcHasher.UpdateInplace", "hash/gmimc.go"), ("PoseidonHasher.Update and the MDS matrix", "hash/poseidon.go")],
  ["digests compared with an independent big-integer implementation with pinned constants"])

p("C13", "All evaluation forms of a gate agree and its degrees are true",
  "For every gate, the single, fixed-right and fixed-left batch evaluations, the native combination of gates, and the in-circuit evaluations (generic and MiMC-specific) yield the same field value for every pair of inputs. The degrees the gate reports bound the actual degrees in the left value, in the right value and in both together, and gates that compute different functions have different identifiers.",
  ["inputs", "programs"],
  "all gates, all round constants, all pairs of field elements, all batch lengths incl. 0",
  "Gates are only exercised indirectly with the constants and values of three circuits; in-circuit gates only through one full circuit.",
  ["circuit/gates.go", "snark/gkr/gate.go"],
  [("Eval / EvalManyVL / EvalManyVR / GnarkEval / Degrees / ID", "circuit/gates.go"), ("CipherGate / CopyGate gadgets", "snark/gkr/gate.go")],
  ["gate results against the mathematical definition; solver verdicts for the gadgets"])

p("C14", "Book-keeping tables are multilinear extensions",
  "Evaluating a table at a point gives the multilinear extension of its values with the first coordinate as the most significant index bit; folding fixes the first variable; evaluating left and right, linear combinations, sums, differences, slopes, deep copies and interleaved chunks agree with that meaning. Operations that do not announce in-place work (evaluation, deep copy, slopes, chunk extraction) leave the table as it was.",
  ["inputs", "histories"],
  "all table sizes 2^k, contents and points incl. boolean and repeated coordinates, any sequence of operations",
  "Tests fold one 4-element table and check a linear combination of 2-element tables.",
  ["polynomial/book_keeping.go"],
  [("Fold / Evaluate / EvaluateLeftAndRight / LinearCombinationOfBookKeepingTables", "polynomial/book_keeping.go")],
  ["table contents and returned values against the defining sum"])

p("C15", "The eq table and chunked tables equal their unchunked definition",
  "The eq table at q holds eq(q,b) for every boolean b, its chunked form is the interleaved split of the same table for every chunk and worker count, and evaluating a chunked table (plain or left/right) equals evaluating the de-interleaved table, for every power-of-two chunk count including one chunk and one element per chunk.",
  ["inputs", "configurations", "schedules"],
  "all points, sizes, chunk counts 1..2^n and worker counts, arbitrary tables",
  "The test samples three shapes, always more than one chunk, at three positions, with one worker.",
  ["polynomial/eq.go", "polynomial/chunked.go", "polynomial/book_keeping.go"],
  [("GetFoldedEqTable / GetChunkedEqTable / EvalEq", "polynomial/eq.go"), ("chunkedEvalRecombine", "polynomial/chunked.go")],
  ["every table entry and evaluation against the definition"])

p("C16", "Interpolation and evaluation of round polynomials are exact",
  "For every list of 1 to 12 values, interpolation on 0,1,2,... returns coefficients of the unique polynomial of that length taking those values, coefficient evaluation equals the power sum at every field point, and the precomputed Lagrange basis is the exact dual basis and stays so.",
  ["inputs", "histories"],
  "all value lists up to the supported domain size, all evaluation points, any order of calls",
  "One test looks at one basis polynomial of one domain.",
  ["polynomial/lagrange.go"],
  [("LagrangeCoefficient / InterpolateOnRange / EvaluatePolynomial", "polynomial/lagrange.go")],
  ["coefficients and evaluations against definition"])

p("C17", "The SNARK gadgets compute the native functions",
  "For every input, the constraint systems produced by the MiMC hash, eq, multilinear (plain and left/right), univariate, sumcheck-verifier and layer-combination gadgets are satisfied by the value the native code computes, and are not satisfied by any other claimed value. Witness assignment puts every value in its own place and refuses a list of the wrong length.",
  ["inputs", "configurations"],
  "all sizes and all field inputs incl. 0/1/-1; any wrong claimed result",
  "Tests check satisfiability for one size per gadget and never check that a wrong value is refused.",
  ["snark/hash/mimc.go", "snark/polynomial/eq.go", "snark/polynomial/multilinear.go", "snark/polynomial/univariate.go", "snark/sumcheck/sumcheck.go", "snark/gkr/circuit.go"],
  [("gadget definitions", "snark/..."), ("length checks in Assign", "snark/polynomial/*.go, snark/sumcheck/sumcheck.go")],
  ["solver verdict of the compiled constraint system on right and wrong values"])

p("C18", "The in-SNARK GKR verifier agrees with the native verifier",
  "For the MiMC circuit and every batch size and chunking, the constraint system of the in-SNARK GKR verifier is satisfied by every honest proof with its inputs, outputs and initial point, and is unsatisfied whenever the native verifier rejects: any altered proof element, input or output, and any forged proof that fails a single check at any layer and round.",
  ["inputs", "configurations", "fault_sequences"],
  "all MiMC batches of size 2^bN, all chunkings, all single-element alterations and single-check forgeries over 91 layers",
  "The test solves one honest witness with one chunk; a verifier circuit with missing constraints would pass it.",
  ["snark/gkr/proof.go", "snark/gkr/circuit.go", "snark/gkr/mimc.go", "snark/gkr/gate.go", "snark/sumcheck/sumcheck.go", "snark/polynomial/multilinear.go"],
  [("Proof.AssertValid", "snark/gkr/proof.go"), ("Layer.Combine / CombineWithLinearComb and static tables", "snark/gkr/circuit.go, snark/gkr/mimc.go"), ("AssignFromChunkedBKT", "snark/polynomial/multilinear.go")],
  ["solver verdict vs native verdict on the same proof"])

p("C19", "Calls leave their arguments and shared parameters unchanged",
  "Assigning, proving, claiming, verifying and hashing leave the caller's inputs, outputs, assignment, proof, circuit and evaluation points and the global round constants and interpolation tables unchanged, so every call can be repeated, in any order, on the same objects with the same result, and results handed out earlier never change afterwards.",
  ["histories", "inputs"],
  "all sequences of API calls over shared circuits, assignments, proofs and batches",
  "Each test makes each call once on fresh objects.",
  ["gkr/prover.go", "gkr/verifier.go", "circuit/circuit.go", "circuit/layers.go", "polynomial/chunked.go", "polynomial/book_keeping.go", "sumcheck/verifier.go"],
  [("LayerAsBKTWithCopy", "circuit/circuit.go"), ("DeepCopy before folding", "polynomial/book_keeping.go"), ("append into fresh slices", "sumcheck/verifier.go, gkr/verifier.go")],
  ["deep snapshots of all arguments and globals before and after each call"])

p("C20", "Work splitting covers every index exactly once",
  "For every number of workers and of entries, the computed chunk ranges are consecutive, non-empty and cover each index exactly once, in chunks of at least the minimum size except the last. Parallel table subtraction and scaling therefore equal the element-wise result for every size, worker count and aliasing of the destination with an operand, and mismatched sizes are refused.",
  ["inputs", "configurations", "schedules"],
  "all (nCore, N) incl. N = 0, N around multiples of the chunk size, N not divisible; all destination aliasing",
  "No test reaches sizes above the minimum chunk size or more than one worker.",
  ["common/chunks.go", "polynomial/book_keeping.go", "common/math.go"],
  [("IntoChunkRanges", "common/chunks.go"), ("BookKeepingTable.Add / Sub / Mul", "polynomial/book_keeping.go"), ("Log2Ceil / Log2Floor / Min / Max", "common/math.go")],
  ["ranges returned and table contents after the operation"])

p("C21", "Layer structure and wiring tables reflect the wires",
  "A layer built from wires reports the smallest widths that hold its wires and lists each distinct gate exactly once, and its wiring table for a gate, folded at q, is the multilinear extension in the output variables of the indicator that counts the wires (output, left, right) using that gate, in the order of the gate list.",
  ["inputs", "programs"],
  "all wire lists incl. repeated gates, repeated wires, gaps in outputs, single-wire layers; all q",
  "Tests use layers in which each gate occurs once.",
  ["circuit/layers.go", "circuit/circuit.go"],
  [("Gates / BGInputs / BGOutputs / NewLayer", "circuit/layers.go"), ("Layer.GetStaticTable", "circuit/layers.go")],
  ["Layer fields and GetStaticTable against the definition"])

p("C22", "Run configuration and profiling wrappers behave as documented",
  "The environment getters return exactly the integer or flag set in their own variable and panic with that variable's name when an integer is missing or malformed; profiling wrappers run the measured function exactly once for every flag combination and produce output only when asked; value printers denote the value they print.",
  ["configurations", "inputs"],
  "all contents of the five environment variables, all flag combinations, all field values and slices",
  "Nothing in the test suite calls these.",
  ["common/env.go", "common/profiling.go", "common/common.go"],
  [("GetBN / GetNChunks / GetProfiled / GetTraced / GetNProcesses", "common/env.go"), ("ProfileTrace", "common/profiling.go"), ("PrettyStringFr and slice printers", "common/common.go")],
  ["return values, panics, files created, number of calls of the measured function"])

p("C23", "Integer helpers, conversions and random values are exact",
  "For every positive integer the floored (ceiled) logarithm is the largest (smallest) exponent whose power of two does not exceed (is not below) it; minimum and maximum return the smaller and the larger argument; conversions keep every value and its position; random arrays have the requested shape and hold reduced field elements, independent of each other and spread over the whole field, never one value twice.",
  ["inputs"],
  "all positive integers, all pairs of integers, all uint64 values and slices, all array shapes",
  "One test checks a few logarithms; the sizes of every table and proof depend on them.",
  ["common/math.go", "common/common.go"],
  [("Log2Floor / Log2Ceil / Min / Max", "common/math.go"), ("Uint64ToFr / FrToGenericArray / RandomFrArray / RandomFrDoubleSlice", "common/common.go")],
  ["return values"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
