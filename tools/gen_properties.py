#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Compiling a Brainfuck source yields exactly its instruction stream",
 "For every source text with balanced brackets, the compiled program is the sequence of its eight command characters in source order, each `[` followed by one operand holding the index just past its matching `]`'s operand, and each `]` followed by one operand holding the index just past its matching `[`'s operand. Characters that are not commands never influence the result, and the field-element form and the 16-bit form of the compilation always agree.",
 ["inputs", "programs"], "every byte string with balanced brackets whose compiled length fits the 16-bit operand (including comments, non-ASCII bytes, deep and wide nesting, the empty string)",
 "One unit test compiles one 12-character program with a single loop; nesting, adjacent loops, comments and long programs are never compiled.",
 ["ckb_bf_vm/src/code.rs"], [("filter + jump stack", "ckb_bf_vm/src/code.rs compile_to_u16/compile")],
 ["compile", "compile_to_u16", "easygen"])

prop("C02", "Running a program computes Brainfuck semantics exactly",
 "For every compiled program and input on which the program halts, the virtual machine produces exactly the output bytes, consumes exactly the input prefix, and ends with exactly the tape, head, instruction pointer and cycle count of the reference Brainfuck semantics with cells that wrap at the configured bit width and a tape that grows to the right. If the program moves left of cell 0 and touches it, or reads past the end of the input, the machine stops with a failure and never reports a completed run.",
 ["programs", "inputs", "configurations"], "every balanced program, every input byte string, every cell width from 1 to 32 bits; programs that do not halt are outside",
 "Two unit tests run two fixed programs; wrap-around, nested loops with zero entry, traps, other widths and long runs are not sampled.",
 ["ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/code.rs"], [("fetch/execute loop", "ckb_bf_vm/src/interpreter.rs Interpreter::run")],
 ["Interpreter::{set_code,set_input,set_bits,run}", "output/input matrices, memory, register"])

prop("C03", "The recorded execution trace is a faithful witness of the run",
 "For every halting run, the recorded processor trace has one row per executed instruction plus a final halted row, and each row holds exactly the state before that instruction (cycle, instruction pointer, current and next code word, head, cell value, and the inverse of the cell value or zero). The memory trace is the same set of (cycle, head, value) triples grouped by ascending head and in cycle order within a head, and the instruction trace is every program word's row plus every processor row, grouped by ascending instruction pointer.",
 ["programs", "inputs"], "every halting (program, input) pair, including one-instruction programs, runs that end inside no loop, runs that never touch some cells",
 "The unit tests check only row counts of one run; the contents and order of the rows are what the proof is about.",
 ["ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/matrix.rs"], [("row recording and sorting", "ckb_bf_vm/src/interpreter.rs Interpreter::run")],
 ["Matrix.{processor_matrix,memory_matrix,instruction_matrix,program,input_matrix,output_matrix}"])

prop("C04", "Every honest execution satisfies the zkVM circuit",
 "For every program and input that halts normally having read all of the input, the circuit built from the recorded trace is satisfied by the public code (with its length) and the public input (with its length), whenever the circuit has room for the trace.",
 ["programs", "inputs", "configurations"], "every halting program and input, including wrap-around in both directions, jumps taken and not taken at every bracket, zero bytes, tape growth, empty input and output",
 "Three fixed programs are checked with the mock prover; instruction/flag combinations outside those three runs are never synthesised.",
 ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/range_table.rs"],
 [("gates, lookups, permutation/evaluation arguments and their witness assignment", "ckb_bf_base/src/*_table.rs"), ("table linking", "ckb_bf_base/src/main_config.rs load_table")],
 ["MockProver over MyCircuit", "an independent constraint evaluator fed by Circuit::synthesize"])

prop("C05", "The zkVM circuit rejects every trace that is not the program's execution",
 "For every program and input, a witness whose execution table differs from the true run (wrong initial state, wrong clock, head, cell value, inverse, instruction pointer or instruction word, a wrong branch, a wrong wrap-around, a value outside the cell range, a stale or forged memory read, an output that was not the cell value) does not satisfy the circuit, even if all dependent running products and sums are recomputed to match.",
 ["programs", "inputs", "fault_sequences"], "every program and input, and every falsified witness for it: single altered cells of any table at any row, consistent rewrites of whole executions, forged memory histories, forged accumulator start values",
 "The tests only ever present honest witnesses, so a dropped gate, selector, lookup or copy constraint leaves them green.",
 ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/range_table.rs"],
 [("B/P/C/M/I gates, range lookup", "ckb_bf_base/src/{processor,memory,instruction}_table.rs"), ("permutation arguments and running sums", "ckb_bf_base/src/*_table.rs configure_second_phase"), ("table linking copies", "ckb_bf_base/src/main_config.rs load_table")],
 ["MockProver verdict on MyCircuit::new(forged matrix)", "verdict after cell-level fault injection through a wrapping Layouter"])

prop("C06", "A proof of execution is bound to the public code and the public input",
 "For every program and input, the circuit and the proof accept only the exact public code (every word, its order and its length) and the exact public input (every byte, its order and its length) of the run; changing, adding, removing or swapping any public word makes the statement unsatisfiable.",
 ["programs", "inputs", "fault_sequences"], "every program and input and every different public code or input, including differences in leading or trailing zero words and in the length words",
 "No test presents a mismatching public instance.",
 ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/instruction_table.rs"],
 [("instance copies and length words", "ckb_bf_base/src/main_config.rs load_table"), ("running evaluation of code and input", "ckb_bf_base/src/{input,program,instruction,processor}_table.rs")],
 ["MockProver verdict with altered instances", "verify_proof with altered instances"])

prop("C07", "What the prover emits is accepted by the on-chain verifier",
 "For every program file and input on which the program halts having read the whole input and which fits the verifier's limits, the prover command succeeds, and the transaction it writes carries parameters, verifying key, proof, code and input that make the on-chain verifier return success; the transaction's lock commits to exactly the verifier binary it embeds. This does not depend on what earlier prover runs left in the parameter cache.",
 ["programs", "inputs", "histories"], "every program/input within the verifier's limits (program up to 1024 words, input up to 1024 bytes), every sequence of prover runs in one directory",
 "Neither the prover command nor the verifier program is ever run by the tests.",
 ["ckb_bf_prover/src/main.rs", "ckb_bf_prover/src/ckb_tx.rs", "ckb_bf_verifier/src/main.rs", "ckb_bf_base/src/utils.rs"],
 [("size choice, key generation, proof, shrinking, serialization", "ckb_bf_prover/src/main.rs prove_and_verify"), ("witness packing", "ckb_bf_prover/src/ckb_tx.rs"), ("witness unpacking and verification", "ckb_bf_verifier/src/main.rs program_entry")],
 ["prover process exit status and res/tx.json", "program_entry return value on the emitted witnesses"])

prop("C08", "The on-chain verifier never accepts a transaction that was tampered with",
 "Starting from any valid transaction, replacing the code, the input, the proof, or the verifying key by different ones, or truncating, extending past the limits, dropping or corrupting the witnesses in a way that alters what they state, never makes the verifier return success. Every such run ends in a rejection code or an abort.",
 ["inputs", "fault_sequences"], "every valid transaction and every mutation of its witnesses: bit and byte changes, truncation, swaps between transactions, missing witnesses, oversize witnesses, identity and off-curve points",
 "The verifier program is not run by any test.",
 ["ckb_bf_verifier/src/main.rs", "ckb_bf_base/src/utils.rs", "halo2_proofs/src/plonk.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/transcript.rs"],
 [("witness loading and length handling", "ckb_bf_verifier/src/main.rs"), ("point and scalar validation", "halo2_proofs/src/helpers.rs, halo2curves/src/derive"), ("proof verification", "halo2_proofs/src/plonk/verifier.rs")],
 ["program_entry return value"])

prop("C09", "Every satisfied circuit yields proofs that verify",
 "For every circuit and witness that satisfies all its gates, lookups, copy constraints and public inputs, key generation and proof creation succeed and the proof verifies, with any number of proofs in one transcript, any number of phases and challenges, every commitment scheme (KZG with either multi-open protocol, IPA), every transcript hash, and every verification strategy (single, accumulating, batch).",
 ["programs", "inputs", "configurations"], "every circuit shape (columns, degrees, rotations, selectors, lookups, permutations, constants, phases), every satisfying assignment, 1..n proofs, all scheme x transcript x strategy combinations",
 "The single proof test runs one hand-written circuit with one assignment.",
 ["halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/evaluation.rs", "halo2_proofs/src/plonk/lookup/", "halo2_proofs/src/plonk/permutation/", "halo2_proofs/src/plonk/vanishing/", "halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/poly/"],
 [("proof creation", "halo2_proofs/src/plonk/prover.rs create_proof"), ("verification", "halo2_proofs/src/plonk/verifier.rs verify_proof"), ("selector compression and quotient evaluation", "halo2_proofs/src/plonk/{circuit/compress_selectors,evaluation}.rs")],
 ["keygen_vk/keygen_pk/create_proof/verify_proof results"])

prop("C10", "False statements and altered proofs are never accepted",
 "For every circuit, a proof made from a witness that violates a gate, lookup, copy constraint or public input never verifies, and neither does a valid proof when any public input, any element of the proof, the verifying key or the parameters are replaced by different ones. Every challenge the verifier draws depends on the verifying key, all public inputs and everything the prover sent before it. The accumulating and the batch verifier accept a set of proofs only if each of them is valid on its own.",
 ["programs", "inputs", "fault_sequences"], "every circuit shape, every violating witness, every single mutation of proof, instance, key or parameters, every mix of valid and invalid proofs in a batch",
 "The tests contain one wrong-instance check on one circuit; constraint classes whose enforcement silently vanished would still pass.",
 ["halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/verifier/batch.rs", "halo2_proofs/src/plonk/lookup/verifier.rs", "halo2_proofs/src/plonk/permutation/verifier.rs", "halo2_proofs/src/plonk/vanishing/verifier.rs", "halo2_proofs/src/poly/kzg/", "halo2_proofs/src/poly/ipa/"],
 [("constraint evaluation at x against the quotient", "halo2_proofs/src/plonk/{verifier,lookup/verifier,permutation/verifier,vanishing/verifier}.rs"), ("multi-open check", "halo2_proofs/src/poly/{kzg,ipa}"), ("batch combination", "halo2_proofs/src/plonk/verifier/batch.rs, poly/kzg/strategy.rs")],
 ["verify_proof / BatchVerifier verdicts"])

prop("C11", "The mock prover's verdict is the truth about the circuit",
 "For every circuit, witness and public input, the mock prover reports success exactly when every gate holds on every usable row, every lookup input appears in its table, every copy constraint relates equal cells, and no enabled gate reads a cell that was never assigned. When it reports failures, each failure names a constraint that is really violated and every violated gate, lookup and copy constraint is named.",
 ["programs", "inputs"], "every circuit shape and every assignment, including ones with several simultaneous violations, negative and wrapping rotations, challenge-dependent gates and lookups over expressions",
 "Four dev tests each check one hand-made failure.",
 ["halo2_proofs/src/dev.rs", "halo2_proofs/src/dev/"], [("cell tracking, gate/lookup/permutation checks", "halo2_proofs/src/dev.rs MockProver::{run,verify}")],
 ["MockProver::verify result compared with an independent evaluator over the same assignment"])

prop("C12", "Keys and parameters survive storage and malformed ones are refused",
 "For every circuit and size, writing a verifying key, proving key, or commitment parameters in any supported format and reading it back yields an object that behaves identically (same bytes when rewritten, same pinned identity, proofs interoperate), and reading stops exactly at the end of the written bytes. In the checked formats, truncated data, coordinates that are not canonical and points that are not on the curve are reported as errors rather than accepted (a corrupted count or selector index may abort the read instead).",
 ["inputs", "configurations", "fault_sequences"], "every circuit shape and k, all three formats, full and shrunk verifier parameters, every truncation point and corrupted byte",
 "One test round-trips KZG parameters at one size; keys are never round-tripped.",
 ["halo2_proofs/src/plonk.rs", "halo2_proofs/src/helpers.rs", "halo2_proofs/src/poly/kzg/commitment.rs", "halo2_proofs/src/poly/ipa/commitment.rs", "halo2_proofs/src/plonk/permutation.rs", "halo2_proofs/src/plonk/circuit.rs", "halo2_proofs/src/plonk/circuit/compress_selectors.rs", "ckb_bf_base/src/utils.rs"],
 [("key (de)serialization", "halo2_proofs/src/plonk.rs"), ("format-aware field/curve/polynomial IO", "halo2_proofs/src/helpers.rs"), ("params IO and shrinking", "halo2_proofs/src/poly/kzg/commitment.rs")],
 ["write/read/to_bytes/from_bytes, verify_proof with the restored objects"])

prop("C13", "Field arithmetic is exact",
 "For the base and scalar fields of bn256 and secp256k1 and the bn256 extension towers, every operation (addition, subtraction, doubling, multiplication, squaring, negation, inversion, exponentiation, square root, comparison, conditional selection, conversion from integers and wide bytes, Frobenius, multiplication by sparse elements and by the non-residue) returns exactly the mathematical result as a canonical element, for the portable and the assembly implementation. Encodings are canonical: decoding accepts exactly the encodings of field elements and is the inverse of encoding.",
 ["inputs", "configurations"], "all elements, weighted to carry and reduction boundaries (0, 1, p-1, values around 2^64k, limbs of all ones, R and R^2 multiples)",
 "Tests sample a few random elements, which practically never reach carry or final-subtraction boundaries; the assembly build is not tested at all.",
 ["halo2curves/src/bn256/", "halo2curves/src/secp256k1/", "halo2curves/src/derive/field.rs", "halo2curves/src/arithmetic.rs", "halo2curves/src/bn256/assembly.rs"],
 [("Montgomery arithmetic macros", "halo2curves/src/derive/field.rs"), ("assembly variant", "halo2curves/src/bn256/assembly.rs"), ("towers", "halo2curves/src/bn256/fq{2,6,12}.rs")],
 ["public field operations compared with arbitrary-precision arithmetic"])

prop("C14", "Curve group operations and point encodings are exact",
 "For bn256 G1 and G2 and secp256k1, addition (all operand forms), doubling, negation, subtraction, scalar multiplication, normalisation, equality, endomorphisms, sums and conditional selection agree with the affine group law in every case including the identity, equal and opposite operands, and any projective representation. Point encodings round-trip, and decoding accepts only canonical encodings of points on the curve.",
 ["inputs"], "all points in all projective representations, all scalars including 0, 1, r-1 and wrap-around; all byte strings offered as encodings",
 "Tests use random points, so exceptional cases occur only where hand-picked.",
 ["halo2curves/src/derive/curve.rs", "halo2curves/src/bn256/curve.rs", "halo2curves/src/secp256k1/curve.rs", "halo2curves/src/serde.rs"],
 [("Jacobian formulas", "halo2curves/src/derive/curve.rs"), ("compressed and raw encodings", "halo2curves/src/derive/curve.rs")],
 ["public group operations compared with an independent affine implementation"])

prop("C15", "The pairing is bilinear, non-degenerate and multi-pairings factor",
 "For all points of the bn256 groups and all scalars, the pairing of multiples equals the pairing raised to the product of the scalars, pairing with an identity gives the identity, generators pair to an element of exact group order, and a multi-pairing equals the product of its individual pairings in any order and with identity terms included. The target-group operations agree with those of the extension field.",
 ["inputs"], "all points and scalars, all list lengths, identities at any position, points built by different operations",
 "Tests check a handful of random scalars.",
 ["halo2curves/src/bn256/engine.rs", "halo2curves/src/pairing.rs"], [("Miller loop and final exponentiation", "halo2curves/src/bn256/engine.rs")],
 ["pairing, multi_miller_loop, final_exponentiation, Gt operations"])

prop("C16", "Multi-scalar multiplication, FFT and polynomial arithmetic are exact",
 "For every input size and value, multi-scalar multiplication equals the sum of individual scalar multiplications, the discrete Fourier transforms over fields and groups equal direct evaluation on the subgroup, domain conversions between coefficient, Lagrange, extended and coset forms are mutually inverse and value preserving, and division, interpolation, evaluation, inner product, batch inversion and Lagrange-basis evaluation (at points outside the domain) equal their definitions. Rational values evaluate to their mathematical value under every sequence of operations.",
 ["inputs", "configurations"], "all lengths (including 0, 1, non powers of two where allowed), scalars with extreme bit patterns, all domain sizes and quotient degrees, rotations beyond the domain size",
 "Unit tests cover single random instances at one or two sizes.",
 ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly.rs", "halo2_proofs/src/poly/domain.rs", "halo2_proofs/src/plonk/assigned.rs"],
 [("bucketed MSM, radix-2 FFT", "halo2_proofs/src/arithmetic.rs"), ("evaluation domain", "halo2_proofs/src/poly/domain.rs")],
 ["best_multiexp, small_multiexp, best_fft, g_to_lagrange, eval_polynomial, kate_division, lagrange_interpolate, EvaluationDomain methods, Assigned ops"])

prop("C17", "Polynomial commitments bind and open only to true evaluations",
 "For every polynomial and size, committing in coefficient and in Lagrange form gives the same homomorphic commitment, and every multi-open proof for true evaluations at any set of points verifies while one with any false evaluation, commitment, point or altered proof element does not. Accumulators of group equations evaluate to the sum of their terms under scaling and addition, and shrinking or restoring parameters never changes what verifies.",
 ["inputs", "configurations", "fault_sequences"], "every set of polynomials and (shared or distinct) opening points, KZG single/multi-open variants and IPA, all sizes; every single falsified evaluation",
 "One fixed three-polynomial query set is tested per scheme.",
 ["halo2_proofs/src/poly/kzg/", "halo2_proofs/src/poly/ipa/", "halo2_proofs/src/poly/query.rs", "halo2_proofs/src/poly/commitment.rs"],
 [("KZG setup/commit", "halo2_proofs/src/poly/kzg/commitment.rs"), ("SHPLONK, GWC, IPA openings", "halo2_proofs/src/poly/{kzg/multiopen,ipa}"), ("MSM accumulators", "halo2_proofs/src/poly/{kzg,ipa}/msm.rs")],
 ["commit/commit_lagrange, create_proof/verify_proof of the multiopen traits"])

prop("C18", "Prover and verifier transcripts stay in lock step and bind everything",
 "For every sequence of absorbed points and scalars and squeezed challenges, the writing and the reading transcript (Blake2b, Keccak and Poseidon, all curves) produce identical challenges and values, and the bytes written are exactly the bytes read. Any change of an absorbed element or of the order of different elements changes all later challenges (for Blake2b and Keccak also a change of an element's kind); non-canonical scalars, invalid points and exhausted input are errors.",
 ["histories", "inputs", "fault_sequences"], "every history of common_point/common_scalar/write/squeeze operations and every alteration of one of its elements or of the proof bytes",
 "No unit test covers the transcripts directly.",
 ["halo2_proofs/src/transcript.rs", "halo2_proofs/src/transcript/poseidon.rs"],
 [("domain-separated absorption and squeeze", "halo2_proofs/src/transcript.rs")],
 ["Transcript{Read,Write} implementations, challenge values"])

prop("C19", "Poseidon and Sinsemilla primitives equal their specifications",
 "For every supported width, round count, input length and input split, the native sponge hashes equal the plain specification (unoptimised rounds, documented padding and capacity value), independent of how inputs are chunked and of earlier squeezes' history as specified. The Sinsemilla and Poseidon primitives used by the gadgets equal a direct implementation of their definitions for every message.",
 ["inputs", "histories", "configurations"], "all states and message lengths around rate multiples, all update/squeeze histories, all supported (width, rate, rounds)",
 "Vectors for one width and padding at a few fixed lengths are tested.",
 ["poseidon/src/", "halo2_gadgets/src/poseidon/primitives.rs", "halo2_gadgets/src/sinsemilla/primitives.rs"],
 [("optimised permutation", "poseidon/src/permutation.rs, spec.rs"), ("sponge", "poseidon/src/poseidon.rs"), ("ConstantLength sponge", "halo2_gadgets/src/poseidon/primitives.rs")],
 ["Poseidon::{update,squeeze}", "primitives::Hash", "HashDomain::hash_to_point"])

prop("C20", "Hash gadgets constrain their outputs to the native hash",
 "For every message and state, the in-circuit Poseidon permutation, sponge and hash, the Sinsemilla hash and commitment and the Merkle path computation output the native result and satisfy the circuit. No satisfied assignment shows any other output for its inputs, however its intermediate cells are chosen. (As documented, nothing is promised for exceptional Sinsemilla messages whose incomplete additions fail, a Merkle node may be hashed under either of its 255-bit encodings, and the siblings and position of a Merkle path are the prover's choice.)",
 ["inputs", "fault_sequences"], "all messages/states, message splits, Merkle positions and depths, and every alteration of the gadget's advice cells",
 "Tests check honest witnesses for one message each and never a dishonest one.",
 ["halo2_gadgets/src/poseidon.rs", "halo2_gadgets/src/poseidon/pow5.rs", "halo2_gadgets/src/sinsemilla.rs", "halo2_gadgets/src/sinsemilla/"],
 [("pow5 chip gates", "halo2_gadgets/src/poseidon/pow5.rs"), ("Sinsemilla chip", "halo2_gadgets/src/sinsemilla/chip/"), ("Merkle chip", "halo2_gadgets/src/sinsemilla/merkle/")],
 ["MockProver verdict on honest and altered assignments"])

prop("C21", "Utility gadgets accept exactly the values they promise",
 "For every value and parameter, the range checks, short range checks, running-sum decompositions, conditional swap, and the boolean, small-range and either-or expressions accept every value that meets their condition and no other, and their outputs equal the decomposition or selection they document. Bit-level helpers round-trip and slice exactly.",
 ["inputs", "configurations", "fault_sequences"], "all values at and around each bound, all window counts and strictness settings, both selector values and non-boolean ones, every altered cell",
 "Tests exercise a few in-range values and few out-of-range ones.",
 ["halo2_gadgets/src/utilities.rs", "halo2_gadgets/src/utilities/"], [("lookup range check, running sum, cond swap", "halo2_gadgets/src/utilities/*.rs")],
 ["the circuit's verdict on honest and forged assignments, and the gadget's input and output cells"])

prop("C22", "The elliptic-curve gadget implements the curve group",
 "For every pair of points and every scalar, the in-circuit point witnessing, complete and incomplete addition, variable-base and fixed-base multiplication yield exactly the group result and satisfy the circuit in all cases they support (including identities, equal and opposite points, zero and wrap-around scalars). No satisfied assignment shows another result: altered intermediate cells or claimed results, points not on the curve and scalars out of range leave the circuit unsatisfied. (Incomplete addition promises nothing for operands with equal x, which the prover refuses; a full-width fixed-base scalar is its window decomposition.)",
 ["inputs", "fault_sequences"], "all points and scalars incl. exceptional ones, and every single altered advice cell",
 "The chip's own tests are not part of the passing test suite here.",
 ["halo2_gadgets/src/ecc.rs", "halo2_gadgets/src/ecc/chip/"], [("add / add_incomplete / mul / mul_fixed gates", "halo2_gadgets/src/ecc/chip/")],
 ["MockProver verdict on honest and altered assignments"])

prop("C23", "Circuit layout never changes a circuit's meaning",
 "For every circuit, both floor planners place every region so that no two regions overlap and relative offsets, copies, constants, tables and instance constraints are preserved; satisfiability and the values cells receive are the same whichever planner is used, and key generation and proving lay the circuit out identically. Circuits that do not fit are reported as errors (not enough rows, or no room left for constants) instead of wrapping.",
 ["programs", "configurations"], "all sequences of regions with arbitrary column sets, heights and interleavings, constants, tables, and all sizes including too small ones",
 "Planner tests check only an error case and one fixed layout.",
 ["halo2_proofs/src/circuit/floor_planner/", "halo2_proofs/src/circuit/layouter.rs", "halo2_proofs/src/circuit.rs"],
 [("single pass planner", "halo2_proofs/src/circuit/floor_planner/single_pass.rs"), ("V1 planner", "halo2_proofs/src/circuit/floor_planner/v1.rs")],
 ["a recording Assignment fed by FloorPlanner::synthesize", "MockProver verdicts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
