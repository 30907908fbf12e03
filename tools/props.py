"""The properties, their anchors and their checks. gen_docs.py turns this into properties.jsonl and MANIFEST.json."""
HOOK_COMMITS = ["55dbb01", "da5c4a9"]
NOTES = ("Every check builds the crates of /repo's working tree (symlinked into /verif/build/ws with offline stand-ins for "
         "three git dependencies) and enumerates a bounded space of behaviours of the real code; DESIGN.md has the bounds.")
TECH = "explicit-state bounded enumeration of the implementation against a reference model (model checking)"
NOTE = "Exhaustive within the bounds that the evidence file states; the oracle is an independent model written from the definition, compared with the implementation on every enumerated behaviour."
PROPS = [
 dict(id="P01", title="Goldilocks arithmetic is the prime field it claims to be",
  statement="Every operation of the 64-bit base field (add, subtract, double, negate, multiply, square, invert, divide, power, square root, Legendre symbol, comparison, conversions from and to integers, text and representations) returns the canonical result of the field with p = 2^64 - 2^32 + 1, for all operands. Integers that are not below p are refused where the conversion is checked, and never yield another element.",
  over=["inputs", "histories"], quant="all pairs of a set of boundary operands (word, carry, modulus and Montgomery edges), all pairs producing boundary results, all operation sequences to a bounded depth",
  why="The tests multiply a handful of random or fixed values; errors in carry, borrow or reduction show only on operands next to word and modulus edges.",
  files=["fields/src/field_gl.rs", "fields/src/lib.rs"],
  mech=[("Montgomery reduction and conditional subtraction", "fields/src/field_gl.rs: mont_reduce, add_assign, sub_assign, reduce"), ("checked conversion", "fields/src/field_gl.rs: from_repr")], tech=TECH, note=NOTE),
 dict(id="P02", title="Cubic and quintic extension fields obey their defining polynomials",
  statement="Elements of the degree-3 and degree-5 extensions, including base-field elements mixed with extension elements, add, subtract, multiply, divide, invert, negate, exponentiate, compare and convert exactly as polynomials modulo x^3 - x - 1 (cubic) and x^5 - 3 (quintic) over the base field. Inverting a list of nonzero elements at once gives the list of their inverses.",
  over=["inputs"], quant="all ordered pairs of a lattice of boundary coordinates and of mixed-dimension elements, under every operation; all short lists for batch inversion",
  why="The tests fix a few elements per operation; wrong coefficients, dimension handling and comparison of high coordinates depend on the operand combination.",
  files=["starky/src/f3g.rs", "starky/src/f5g.rs", "starky/src/polutils.rs"],
  mech=[("schoolbook and Karatsuba products, norm-based inverse", "starky/src/f3g.rs, starky/src/f5g.rs"), ("Montgomery batch inversion", "starky/src/polutils.rs: batch_inverse")], tech=TECH, note=NOTE),
 dict(id="P03", title="Fourier transforms and low-degree extension evaluate the same polynomials",
  statement="Forward and inverse transforms (single polynomial, and column-major over many polynomials) are the evaluation on, and interpolation from, the powers of the root of unity in natural order, for every size, number of columns and number of workers; extending a column evaluates the same polynomial on the coset shifted by 49. The result depends only on the input: not on the previous contents of the output buffer, earlier uses of the transform, or the CPU count.",
  over=["inputs", "configurations", "histories"], quant="every basis polynomial of every size and column count in bounds, full matrices for sizes that split across workers, every CPU count available, every short history of reuse",
  why="The tests compare one random size with itself; block splitting, odd layer counts, transposition and buffer swaps take different code paths per size, column count and worker count.",
  files=["starky/src/fft.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/polutils.rs", "starky/src/constant.rs", "starky/src/helper.rs"],
  mech=[("butterflies, bit reversal, inverse reordering", "starky/src/fft.rs"), ("block splitting by worker count", "starky/src/fft_p.rs: fft_internal, interpolate; starky/src/fft_worker.rs")], tech=TECH, note=NOTE + " Worker counts are varied by CPU affinity of child processes."),
 dict(id="P04", title="Poseidon permutations match their published parameters",
  statement="The Goldilocks (12 words), BN128 and BLS12-381 (widths 2 to 17) Poseidon hashes, in every implementation offered (plain and optimized), return the outputs of the permutation with the published S-box, round numbers, round constants and MDS matrix, for every input, initial state and number of outputs. Inputs of a width that has no parameters are refused.",
  over=["inputs", "configurations"], quant="every width, every input position and boundary value, leading-position patterns, all number of outputs",
  why="The tests hash two or three fixed inputs of few widths; a wrong constant or index in one width or round position is invisible to them.",
  files=["starky/src/poseidon_opt.rs", "starky/src/poseidon_bn128.rs", "starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381.rs", "starky/src/poseidon_bls12381_opt.rs", "starky/src/poseidon_bn128_constants.rs"],
  mech=[("optimized partial rounds with sparse matrices", "starky/src/poseidon_bn128_opt.rs, poseidon_bls12381_opt.rs, poseidon_opt.rs"), ("constant tables", "starky/src/poseidon_*constants*.rs")], tech=TECH, note=NOTE + " BN128/BLS12-381 constants are regenerated from the Grain LFSR; the Goldilocks round constants are a committed copy of the published ones."),
 dict(id="P05", title="Row hashes bind every element of a row of any length",
  statement="The hash of a row of base-field elements (Goldilocks sponge; BN128 and BLS12-381 packings), and of an internal tree node, is the documented function of all its elements in order, for every row length and column layout. Changing any single element of a row changes its hash.",
  over=["inputs"], quant="every row length to a bound, each boundary value at each position, all rows over {0,1,p-1} to a length, all batch sizes and layouts",
  why="Tests hash one or two rows; padding, chunk boundaries and the short-row shortcut only matter at particular lengths.",
  files=["starky/src/linearhash.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
  mech=[("chunking and packing of three elements per scalar", "starky/src/linearhash_bn128.rs: hash_element_matrix, hash_element_array"), ("sponge over blocks of 8", "starky/src/linearhash.rs: hash")], tech=TECH, note=NOTE),
 dict(id="P06", title="Goldilocks Merkle commitments open exactly the committed rows",
  statement="For every matrix, the root is the root of the binary hash tree over its rows; every opening returns the committed row with a path that verifies against the root at that index. An opening with any element of the row, any path digest or the root changed, at another index, or with a path of the wrong shape does not verify.",
  over=["inputs", "configurations"], quant="every height and width in bounds, every index; per small tree all claimed indices and all single-element changes",
  why="Tests open one index of one or two trees and never try to verify anything false.",
  files=["starky/src/merklehash.rs", "starky/src/linearhash.rs", "starky/src/digest.rs"],
  mech=[("level layout and path selection", "starky/src/merklehash.rs: merkelize, merkle_gen_merkle_proof, get_group_proof"), ("recomputation of the root", "starky/src/merklehash.rs: calculate_root_from_group_proof, verify_group_proof")], tech=TECH, note=NOTE),
 dict(id="P07", title="BN128 and BLS12-381 Merkle commitments open exactly the committed rows",
  statement="For every matrix, the root is the root of the 16-ary Poseidon tree over its rows; every opening returns the committed row with a path that verifies against the root at that index. An opening with any element of the row, any sibling that the index does not make redundant or the root changed, at another index, or with levels of the wrong width does not verify.",
  over=["inputs", "configurations"], quant="every height and width in bounds, every index; per small tree all claimed indices and all single-element changes; both curves",
  why="Tests open one index of one tree and the negative direction is not tested at all.",
  files=["starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
  mech=[("16-ary level layout", "starky/src/merklehash_bn128.rs: merkelize, get_group_proof"), ("path recomputation bound to the leaf", "starky/src/merklehash_bn128.rs: calculate_root_from_group_proof, merkle_calculate_root_from_proof")], tech=TECH, note=NOTE),
 dict(id="P08", title="Transcript challenges are the sponge of everything absorbed before",
  statement="For every sequence of absorbing elements and drawing challenges or query positions, each of the three Fiat-Shamir transcripts returns the outputs of the duplex sponge over its permutation. Every challenge depends on every element absorbed before it and on nothing absorbed later; drawn query positions use consecutive output bits and are below two to the number of bits asked for.",
  over=["histories"], quant="all operation sequences to a depth, each single absorbed element changed in turn; all (count, bits) pairs of query positions in bounds; all absorb/squeeze run lengths in bounds",
  why="Tests run one fixed sequence; stale buffered output and block-boundary errors depend on the interleaving of absorbing and squeezing.",
  files=["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
  mech=[("pending/out buffers", "starky/src/transcript*.rs: _add_1, update_state, get_fields1, get_permutations")], tech=TECH, note=NOTE),
 dict(id="P09", title="Digest, limb, scalar and big-integer conversions are exact",
  statement="A curve scalar stored in a digest is recovered unchanged, tree nodes convert to and from their base-field form without loss, and a scalar built from four limbs is the little-endian integer they spell. Conversions between field elements and big integers preserve the value, reduced modulo the field where the integer exceeds it.",
  over=["inputs"], quant="all limb vectors over boundary limbs below (and just above) each modulus",
  why="Tests convert one random value; limb order and range errors depend on the limb values.",
  files=["starky/src/digest.rs", "starky/src/helper.rs", "starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
  mech=[("raw limb container", "starky/src/digest.rs: from_scalar, as_scalar, to_bn128, to_bls12381"), ("big-integer helpers", "starky/src/helper.rs")], tech=TECH, note=NOTE + " Scalars with a Montgomery limb outside Goldilocks are a listed known finding.", hook="starky::mc_hooks::digest"),
 dict(id="P10", title="Serialized elements and digests read back unchanged; bad text is refused",
  statement="Field elements (base, cubic, quintic, BN128, BLS12-381) and digests written as JSON read back as the same value and dimension, in the decimal-string format that the circuits consume. Text that is not such a value - wrong length, not a decimal number, or not below the Goldilocks modulus - is refused with an error, never a panic and never a different value.",
  over=["inputs"], quant="all tuples of boundary values; all texts one edit (short ones two edits) away from a valid text",
  why="Tests round-trip one or two values and never parse malformed text.",
  files=["starky/src/serializer.rs", "starky/src/digest.rs", "starky/src/field_bn128.rs", "starky/src/field_bls12381.rs"],
  mech=[("hand-written serde implementations", "starky/src/serializer.rs, starky/src/digest.rs, starky/src/field_bn128.rs")], tech=TECH, note=NOTE),
 dict(id="P11", title="Every satisfying trace yields a proof that the verifier accepts",
  statement="For every circuit (polynomial constraints, lookups, permutations, connections, public inputs, named expressions) and trace satisfying it, over each of the three hash back ends, setup and proving succeed and the verifier accepts the proof, before and after a JSON round trip, with the proof's public inputs being those computed from the trace. A circuit whose degree does not fit the blowup is refused at setup.",
  over=["inputs", "configurations"], quant="all circuits of a generated family (each constraint kind, selector form and combination) x trace sizes x blowups x every list of FRI layer sizes x query counts x hash back ends, within bounds",
  why="The tests that prove run two to four fixed circuits with one parameter set, and most do not run here; alignment of argument kinds, degrees and layer sizes is combinatorial.",
  files=["starky/src/stark_gen.rs", "starky/src/stark_setup.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_codegen.rs", "starky/src/starkinfo_map.rs", "starky/src/starkinfo_Z.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_fri_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_ver.rs", "starky/src/interpreter.rs", "starky/src/expressionops.rs", "starky/src/fri.rs", "starky/src/stark_verify.rs", "starky/src/serializer.rs"],
  mech=[("prover stages and challenges", "starky/src/stark_gen.rs: stark_gen"), ("section layout of polynomials", "starky/src/starkinfo_map.rs"), ("degree of the quotient", "starky/src/starkinfo_cp_prover.rs, starky/src/stark_setup.rs")], tech=TECH, note=NOTE, hook="starky::mc_hooks"),
 dict(id="P12", title="No altered, mixed or misdirected proof is accepted",
  statement="A STARK proof with any single value changed, removed, added or exchanged, with parts of two proofs mixed, or checked against other public inputs, another circuit, verification key or parameters, is rejected without a panic. Every challenge depends on everything the protocol sent before it, and the opened evaluations and committed columns are the ones the constraints are checked on.",
  over=["inputs", "histories"], quant="every single-place change of the proofs of a generated family, every mixture at section granularity, every committed cell changed before its tree is built, every pair of circuits and parameters in bounds, the whole transcript of prover and verifier",
  why="No test verifies anything false; a check dropped from the verifier leaves every existing test green.",
  files=["starky/src/stark_verify.rs", "starky/src/stark_gen.rs", "starky/src/fri.rs", "starky/src/transcript.rs", "starky/src/merklehash.rs"],
  mech=[("verifier checks", "starky/src/stark_verify.rs: stark_verify"), ("absorb order", "starky/src/stark_gen.rs, starky/src/stark_verify.rs: transcript.put"), ("query and path checks", "starky/src/fri.rs: verify")], tech=TECH, note=NOTE + " Rejection is up to the negligible chance of guessing a challenge; FRI soundness is measured by P14.", hook="starky::mc_hooks"),
 dict(id="P13", title="A trace is provable only if it satisfies the circuit",
  statement="When the prover is given a trace that violates a constraint, lookup, permutation or connection of the circuit in a single cell, in two cells or by exchanged rows, it does not produce a proof that the verifier accepts; when the changed trace still satisfies the circuit, it does. This holds for each of the three hash back ends.",
  over=["inputs", "configurations"], quant="every cell x a set of replacement values, every pair of cells of a column and of rows, on every circuit of the generated family with small traces",
  why="The tests only prove satisfying traces; a constraint silently dropped or evaluated on some rows only goes unnoticed.",
  files=["starky/src/stark_gen.rs", "starky/src/starkinfo_Z.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_fri_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_ver.rs", "starky/src/polutils.rs", "starky/src/interpreter.rs", "starky/src/stark_verify.rs"],
  mech=[("grand products", "starky/src/polutils.rs: calculate_Z, calculate_H1H2"), ("constraint polynomial", "starky/src/starkinfo_cp_prover.rs"), ("verifier evaluation", "starky/src/stark_verify.rs")], tech=TECH, note=NOTE, hook="starky::mc_hooks"),
 dict(id="P14", title="The low-degree test folds and checks exactly as FRI prescribes",
  statement="The FRI prover commits to the folded layers and final polynomial that the protocol defines from the drawn challenges, and the FRI verifier accepts a proof exactly when every queried position is consistent with the previous layer, every path opens its committed layer and the final polynomial has the allowed degree - for every list of layer sizes, number of queries and hash back end.",
  over=["inputs", "configurations"], quant="all layer-size lists of small domains x query counts x polynomials of every degree x every one-place departure of the prover, with the verifier's outcome predicted exactly",
  why="No test runs FRI on a function of too high a degree, nor on a prover that departs from the protocol.",
  files=["starky/src/fri.rs", "starky/src/polutils.rs", "starky/src/merklehash.rs", "starky/src/transcript.rs"],
  mech=[("folding and layer commitments", "starky/src/fri.rs: prove"), ("query consistency and final degree", "starky/src/fri.rs: verify")], tech=TECH, note=NOTE, hook="starky::mc_hooks::fri"),
 dict(id="P15", title="Constraint expressions mean what they say",
  statement="Every expression over committed columns, constant columns, next-row references, numbers (any sign and size, decimal or hexadecimal), public inputs and named expressions, combined by addition, subtraction, multiplication and negation, evaluates to its value in the base field, both as a public computed from a row and as a constraint proved over all rows.",
  over=["inputs"], quant="every expression tree to a bounded depth over all leaf kinds; every boundary number literal",
  why="Tests run a few fixed circuits; operand order, nested subexpressions and boundary literals are not exercised.",
  files=["starky/src/starkinfo_codegen.rs", "starky/src/starkinfo.rs", "starky/src/interpreter.rs", "starky/src/expressionops.rs", "starky/src/types.rs", "starky/src/helper.rs", "starky/src/stark_gen.rs"],
  mech=[("expression to program", "starky/src/starkinfo_codegen.rs: eval_exp, pil_code_gen"), ("program evaluation", "starky/src/interpreter.rs: Block::eval"), ("number literals", "starky/src/helper.rs: parse_pil_number")], tech=TECH, note=NOTE, hook="starky::mc_hooks"),
 dict(id="P16", title="The generated circuit verifier accepts exactly what the verifier accepts",
  statement="For every circuit, parameter set, hash and stage, the circom verifier generated for it accepts a proof file exactly when the native verifier accepts that proof, and outputs the hash of the prover's address and public inputs where it promises one. No choice of the values a prover supplies to the circuit without computing them changes this: arithmetic in the circuit is that of the field, and opened values and challenges can be read in one way only.",
  over=["inputs", "programs", "configurations"], quant="circuits of every constraint kind and every operation on values of either size x three hashes x stages x FRI step lists: honest proofs, every leaf changed, neighbours exchanged; the circuit library's parts on every pair of boundary inputs with every other choice for each unconstrained value",
  why="Tests only generate text for a few circuits; nothing runs it, and no one proof shows that a circuit leaves the prover no choice.",
  files=["starky/src/stark_verifier_circom.rs", "starky/src/stark_verifier_circom_onchain.rs", "starky/src/pil2circom.rs", "starky/src/stark_verify.rs", "stark-circuits/circuits/gl.circom", "stark-circuits/circuits/fft.circom", "stark-circuits/circuits/evalpol.circom", "stark-circuits/circuits/treeselector.circom", "stark-circuits/circuits/merklehash.circom", "stark-circuits/circuits/bn1togl3.circom", "stark-circuits/circuits/poseidon.circom"],
  mech=[("generator, Goldilocks", "starky/src/stark_verifier_circom.rs: render"), ("generator, curves", "starky/src/stark_verifier_circom_onchain.rs: render"), ("circuit library", "stark-circuits/circuits")], tech=TECH,
  note=NOTE + " circom is not installed: an interpreter of the language runs the circuits. Where the generated text includes a library that lives outside the repository (circomlib, pil-stark's Goldilocks and BN128 hashing circuits), that library's specification stands in. Circuits whose constraints need no quotient have no generated verifier.", hook="starky::mc_hooks"),
 dict(id="P17", title="Circuit files are read exactly as written; malformed ones are refused",
  statement="An R1CS circuit, in its binary format (sections in any order, with or without custom gates and unknown sections) or as JSON, is loaded with exactly the wires, public signals, constraints, coefficients, wire map and custom gates that the file says, over each supported field, however the reads are split. A file that is truncated, inconsistent in its sizes, counts or wire numbers, holds a value not below the modulus, or is for another field is refused, without hanging.",
  over=["inputs", "fault_sequences"], quant="all small circuits (header counts, shapes and places of linear combinations, boundary coefficients, section orders, gates) x fields x both readers; every truncation, byte change, word change, insertion, deletion, missing and repeated section of several files, judged by a reference reader of the format",
  why="Tests read two well-formed files; section order, damaged counts and the other field's files are not tried.",
  files=["algebraic/src/r1cs_file.rs", "algebraic-gpu/src/r1cs_file.rs", "algebraic/src/reader.rs", "algebraic-gpu/src/reader.rs"],
  mech=[("section table and readers", "algebraic/src/r1cs_file.rs, algebraic-gpu/src/r1cs_file.rs: from_reader"), ("loading", "algebraic/src/reader.rs, algebraic-gpu/src/reader.rs: load_r1cs, load_r1cs_from_bin")], tech=TECH, note=NOTE + " JSON circuits have no format specification beyond the fields read here; coefficients at or above the modulus are not judged there."),
 dict(id="P18", title="Witnesses are computed from all inputs and stored without loss",
  statement="The witness calculator gives the circuit every value of every input signal reduced into the circuit's field, ignores signals the circuit does not have, and returns exactly the circuit's witness whatever was computed before; when inputs are missing or too many or an assertion fails it returns an error. A witness written to a file reads back unchanged, and a truncated, malformed or non-canonical witness or input file is refused.",
  over=["inputs", "histories", "fault_sequences"], quant="boundary, negative and oversized values at every input; all numbers of values per input in either order with unknown signals at each place; all histories of calculations to a depth; every truncation, byte and word change of witness files; every failing write",
  why="Tests run three well-formed calculations on fresh calculators and read no damaged file.",
  files=["algebraic/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/witness_calculator.rs", "algebraic/src/witness/mod.rs", "algebraic-gpu/src/witness/mod.rs", "algebraic/src/witness/circom.rs", "algebraic-gpu/src/witness/circom.rs", "algebraic/src/reader.rs", "algebraic-gpu/src/reader.rs"],
  mech=[("inputs to the circuit", "algebraic/src/witness/witness_calculator.rs, algebraic-gpu/src/witness/witness_calculator.rs: calculate_witness_circom"), ("witness files", "algebraic/src/reader.rs, algebraic-gpu/src/reader.rs: load_witness_from_bin_reader"), ("input files", "algebraic/src/witness/mod.rs: load_input_for_witness")], tech=TECH, note=NOTE + " Circuits: a small wasm module with circom's interface over three fields, and the multiplier of the repository. Only BN254 witness files can be read by this code."),
 dict(id="P19", title="The constraint system synthesized is the circuit file's",
  statement="Synthesizing a circuit with its witness allocates the public signals then the others with their witness values through the wire map, and enforces every constraint that says anything with its coefficients on those variables; the public inputs reported are the allocated ones. Proofs made from it verify with exactly those public inputs, and a witness that breaks a constraint yields no accepted proof.",
  over=["inputs"], quant="all sizes, wire maps, offsets and shapes of linear combinations in bounds with boundary coefficients and values, over each field, into a recording constraint system; all splits of a small circuit end to end with every public input and witness value changed",
  why="No test synthesizes a circuit.",
  files=["algebraic/src/circom_circuit.rs", "algebraic-gpu/src/circom_circuit.rs", "algebraic/src/utils.rs"],
  mech=[("allocation and constraints", "algebraic/src/circom_circuit.rs, algebraic-gpu/src/circom_circuit.rs: synthesize, get_public_inputs")], tech=TECH, note=NOTE + " Proofs (Groth16 over BLS12-381) exist only for the algebraic-gpu crate here."),
 dict(id="P20", title="Three-wire gates say of a witness what its constraints say",
  statement="A witness of a Goldilocks circuit satisfies the gates and additions derived from the circuit exactly when it satisfies the circuit's constraints. Every intermediate wire has one possible value, and no gate or addition uses a wire that does not exist.",
  over=["programs", "inputs"], quant="all constraints over two wires and the constant with boundary coefficients (explicit zeros included), all lengths of the three combinations to a bound, all sequences of ten kinds of constraints to a length, each with a set of witnesses",
  why="The only test needs a file that is not there and compares nothing but text.",
  files=["recursion/src/r1cs2plonk.rs"],
  mech=[("derivation of gates", "recursion/src/r1cs2plonk.rs: r1cs2plonk")], tech=TECH, note=NOTE),
 dict(id="P21", title="The compressor's columns satisfy it exactly when the witness is valid",
  statement="For every circuit with custom gates (multiply-add, Poseidon, evaluation, transform) the compressor setup writes a circuit, constants and execution file whose columns, computed from a witness, satisfy the written circuit exactly when the witness satisfies the constraints and custom gates. The public values are the circuit's outputs and public inputs in order, and every signal has the same value wherever it occurs. Damaged execution files, and too few rows, are refused and leave no columns.",
  over=["programs", "inputs", "fault_sequences"], quant="all numbers of outputs and inputs to a bound, all orders of constraint kinds to a length, all repetitions of selectors to a bound, all lengths of combinations, every gate alone and in every pair and rotation of the gate list, every forced size; every signal and every cell changed; every truncation and word change of the execution file",
  why="No test sets up a compressor; the few parts tested are the text of one circuit and one round trip of a file.",
  files=["recursion/src/compressor12/plonk_setup.rs", "recursion/src/compressor12/compressor12_exec.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/constants.rs", "recursion/src/io_utils.rs"],
  mech=[("rows, selectors and connections", "recursion/src/compressor12/plonk_setup.rs: plonk_setup_compressor"), ("columns", "recursion/src/compressor12/compressor12_exec.rs: exec"), ("circuit text", "recursion/src/compressor12/compressor12_pil.rs: render")], tech=TECH, note=NOTE + " The written circuit is compiled by a small stand-in compiler, as powdr cannot be built offline."),
 dict(id="P22", title="The final SNARK: keys, proofs and their files from end to end",
  statement="From a circuit file, a witness program and an input, setup and prove leave files with which verification succeeds, and the public inputs they hold are the values of the circuit's public wires, in decimal or hexadecimal as asked, for every satisfied statement; unsatisfied ones give no verifying proof. A proof, key or list of public inputs that was altered, exchanged, cut short, or that holds points outside the prime-order groups is never accepted. A missing, unreadable or unwritable file, an unknown curve or a failed assertion is reported, and the contract generated for a key holds that key's points.",
  over=["inputs", "fault_sequences"], quant="circuits of every number of public wires x boundary witnesses x both spellings; every single value of proofs, keys and public inputs altered in every listed way; all exchanges between statements and keys; every file missing, unwritable or cut at every place (in steps in the quick tier); points of several hundred scalars through both text forms",
  why="The tests prove one circuit once in each configuration, need an accelerator build, and try nothing that should be refused.",
  files=["groth16/src/api.rs", "groth16/src/groth16.rs", "groth16/src/json_utils.rs", "groth16/src/template.rs"],
  mech=[("commands", "groth16/src/api.rs: groth16_setup, groth16_prove, groth16_verify, generate_verifier"), ("text forms", "groth16/src/json_utils.rs: Parser for Bls12")], tech=TECH, note=NOTE + " The BLS12-381 configuration is checked, with the proof system's own CPU implementation in place of the accelerator; the bn254 configuration needs a library that is not here."),
 dict(id="P23", title="Groth16 proofs, keys and public inputs cross the gnark bridge intact",
  statement="Proofs, verification keys and public inputs of BLS12-381 written as JSON or as the bytes shared with gnark read back as the same values, with coordinates in the documented order and form, the point at infinity included, and a failing write is an error. Damaged text or bytes, and points off the curve or outside the prime-order group, are refused without a panic; a proof read from text verifies exactly when it is valid for the key and public inputs read.",
  over=["inputs", "fault_sequences"], quant="proofs, keys and lists over a set of boundary points and scalars (infinity included); every value of each text removed, duplicated or replaced by every kind of wrong value; every truncation and byte-level change of the binary forms; every point at which reading or writing fails; all one-place changes of verifying triples",
  why="The tests read a few well-formed files and one point; infinity, damaged text and points outside the groups are not tried.",
  files=["recursion-gnark/ffi/src/json_util.rs", "recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/proof.rs", "recursion-gnark/ffi/src/verifier.rs"],
  mech=[("text forms", "recursion-gnark/ffi/src/json_util.rs: Serialize and Deserialize of Groth16Proof, JsonVerificationKey, JsonPublicInput"), ("byte forms", "recursion-gnark/ffi/src/traits.rs: ArkworksPairingBridge, ArkworksPrimeFieldBridge, CheckElement")], tech=TECH, note=NOTE + " The calls into Go cannot be built offline; the Rust side of the bridge is what is checked."),
 dict(id="P24", title="Vector builds compute what scalar builds compute",
  statement="Built for processors with AVX2 or AVX-512, every lane of the vector field's operations holds the canonical result of the same operation of the scalar field, and blocks are exchanged as documented. Hashes of rows, Merkle trees and openings, transcripts and proofs are the same as those of a scalar build.",
  over=["configurations", "inputs"], quant="both instruction sets: all pairs of several hundred boundary values in every operation and lane, all pairs of boundary words in the reduction; the row, tree and transcript explorations of the scalar build repeated; honest proofs of every circuit kind",
  why="The test suite is built without these instructions: none of this code is compiled by it, and its own tests use eight fixed values.",
  files=["fields/src/arch/x86_64/avx2_field_gl.rs", "fields/src/arch/x86_64/avx512_field_gl.rs", "fields/src/packed.rs", "fields/src/packable.rs", "starky/src/arch/x86_64/avx2_poseidon_gl.rs", "starky/src/arch/x86_64/avx512_poseidon_gl.rs", "starky/src/linearhash.rs", "starky/src/merklehash.rs"],
  mech=[("vector fields", "fields/src/arch/x86_64"), ("vector hashes", "starky/src/arch/x86_64"), ("two rows at a time", "starky/src/linearhash.rs: hash; starky/src/merklehash.rs")], tech=TECH, note=NOTE + " An instruction set the processor running the check does not have is left out.", hook="starky::mc_hooks"),
 dict(id="P25", title="Results do not depend on the schedule or the number of workers",
  statement="Transforms, extensions, Merkle trees of all three hash back ends, and whole STARK proofs are the same whatever the number of workers, the order in which parallel tasks run and the shape in which partial results are combined. Concurrent calls from several threads, sharing the internal cache, each return what they return alone, and none deadlocks.",
  over=["schedules", "configurations"], quant="sizes x numbers of workers x all orders of the tasks of each parallel region when few (eleven orders when many) x combining shapes; all interleavings at lock operations of two or three concurrent calls, within a preemption bound for the longest",
  why="Tests run on one machine's number of CPUs with whatever order the scheduler picks; inputs are too small to be split among workers at all.",
  files=["starky/src/fft_p.rs", "starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/stark_gen.rs", "starky/src/constant.rs"],
  mech=[("splitting into tasks", "starky/src/merklehash.rs, starky/src/fft_p.rs, starky/src/stark_gen.rs: par_chunks by get_max_workers"), ("shared cache", "starky/src/fft_p.rs: BR_CACHE")], tech="stateless model checking: the implementation under a controlled scheduler (every task order, lock interleaving and worker count within bounds)", note="Exhaustive within the bounds that the evidence file states. rayon, num_cpus and std::sync are replaced by stand-ins that the explorer controls, and tasks are made a few rows long by the mc_small_tasks hook; results are compared with reference models or with the proof of one worker.", hook="cfg(mc_small_tasks) in starky/src/constant.rs"),
 dict(id="P26", title="Joining two proofs keeps both whole and apart",
  statement="Joining the circuit inputs of two proofs yields every entry of the first under the prefix a_, every entry of the second under b_, the first's public inputs without their last four, and the first's verification-key root, all with unchanged values. Inputs that cannot be read or are not such objects, and an output that cannot be written, are errors.",
  over=["inputs", "fault_sequences"], quant="all pairs of inputs over a set of key/value shapes; every number of public inputs to a bound; every truncation of a file; every unreadable or unwritable path",
  why="The test joins two files once and looks at nothing.",
  files=["starky/src/zkin_join.rs"],
  mech=[("prefixing and public inputs", "starky/src/zkin_join.rs: join_zkin")], tech=TECH, note=NOTE),
 dict(id="P27", title="Column files hold exactly the columns and refuse damage",
  statement="Columns saved to a file are laid out row by row in the circuit's order, and loading returns the same values under the same names and indices, whatever sizes the reads and writes are delivered in. Loading a truncated file or one with a word that is not below the Goldilocks modulus, and saving where the write fails, is an error.",
  over=["inputs", "fault_sequences"], quant="every column layout (plain and array columns, namespaces, order) to a bound; every truncation point; every non-canonical word position; every split of reads into pieces; every failing write",
  why="The tests load one well-formed file.",
  files=["starky/src/polsarray.rs"],
  mech=[("layout, buffered load and save", "starky/src/polsarray.rs: new, load, save")], tech=TECH, note=NOTE),
 dict(id="P28", title="Proving from files gives the proof and verifier of exactly those files",
  statement="For each of the three hashes, proving from a parameter file, a circuit file and two column files writes a proof that the verifier accepts against the root of those columns, and the generated verifier text of that very circuit, in the form the options ask for. A missing, cut, malformed or non-canonical input file, an unknown hash name or an output that cannot be written is reported as an error, and columns that break the constraints never give a proof that verifies.",
  over=["inputs", "fault_sequences"], quant="a catalogue of circuits x hashes x output options; each file missing, cut at each point, each word non-canonical; each output failing; every cell of the columns changed",
  why="The tests prove a handful of committed circuits with good files only.",
  files=["starky/src/prove.rs", "starky/src/pil2circom.rs", "starky/src/polsarray.rs", "starky/src/types.rs"],
  mech=[("dispatch on the hash, file loading and writing", "starky/src/prove.rs: stark_prove, prove"), ("verifier text", "starky/src/pil2circom.rs")], tech=TECH, note=NOTE),
 dict(id="P29", title="Circuit descriptions and STARK parameters survive their text form",
  statement="A compiled circuit description or parameter set read from JSON has every field as written, is written back as the same JSON with its references in the order of their names, and reads back equal. Text that lacks a required part, holds a value of the wrong type, is truncated or is followed by more text is refused with an error.",
  over=["inputs"], quant="generated descriptions (every expression form, reference kind and argument); each part removed or replaced by each wrong type; every truncation; all parameter lists in bounds",
  why="Tests read one or two committed files and check no field.",
  files=["starky/src/types.rs"],
  mech=[("serde definitions", "starky/src/types.rs: PIL, StarkStruct, load_json")], tech=TECH, note=NOTE),
 dict(id="P30", title="Shared constants satisfy their algebraic definitions",
  statement="Root of unity i has order exactly two to the i and is the square of root i+1; stored inverses are inverses; the coset shift and all connection coset factors keep their cosets of the two-power subgroup apart; the packing offsets are two to the 64, 128 and 192; the base-two logarithm is its floor for every machine integer.",
  over=["configurations", "inputs"], quant="every table entry; every pair of the first 300 coset factors; all logarithm arguments below a bound and around every power of two",
  why="Tests touch a few entries; a wrong root for a large domain is used by no test.",
  files=["starky/src/constant.rs", "starky/src/helper.rs", "starky/src/polutils.rs"],
  mech=[("root tables and shift", "starky/src/constant.rs"), ("coset factors", "starky/src/helper.rs: get_ks"), ("logarithm", "starky/src/helper.rs: log2_any")], tech=TECH, note=NOTE),
 dict(id="P32", title="No choice of helper columns makes a violating trace provable",
  statement="For every circuit with constraints of high degree, lookups, permutations and connections, alone and side by side, and every trace that violates it, there is no content of the columns the prover adds itself (sorted values, running products, intermediate values) under which everything the verifier's constraint check demands holds on every row; for every trace that satisfies the circuit there is one. So a prover that departs from the protocol gains nothing.",
  over=["inputs", "configurations"], quant="every trace of a few values on two and four rows of single arguments (all selectors) and of up to three side by side; every permutation of the cells of a connection; every small trace of products under every blow-up; every change of one and two cells of the other circuits; per trace every arrangement of the sorted columns over the values that occur, the other unknowns solved for",
  why="A test can only run the protocol's own prover, which stops before it proves anything false: a missing boundary or step constraint changes no test.",
  files=["starky/src/starkinfo_Z.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_codegen.rs", "starky/src/expressionops.rs", "starky/src/helper.rs", "starky/src/stark_verify.rs"],
  mech=[("argument constraints", "starky/src/starkinfo_Z.rs"), ("constraint polynomial and intermediate columns", "starky/src/starkinfo_cp_prover.rs"), ("what the verifier evaluates", "starky/src/starkinfo_cp_ver.rs")], tech=TECH, note=NOTE + " The model is extracted from the code the verifier runs, and is compared with real proofs and with real proofs of a prover that leaves out an accumulator.", hook="starky::mc_hooks"),
 dict(id="P31", title="The command line hands over what it is given and reports failures",
  statement="Every command passes each option's value, or its documented default, unchanged to its operation in the role the option names, whatever the spelling, order and choice of options; a command line that lacks a required option, repeats one, has an unknown or malformed one, or names an unknown command or proof scheme is refused before anything is done. The exit status is zero exactly when the operation succeeded. Compiling a circuit goes through every stage once with the requested prime, libraries and simplification, leaves its outputs under the circuit's name in the folder asked for, and is a failure when any stage fails, whatever an earlier run left there.",
  over=["inputs", "fault_sequences"], quant="all subsets of each command's options x spellings x value sets; all orders (to six options in the quick tier, eight in the thorough one; swaps and rotations of more); every option left out, repeated, without its value or malformed; every operation failing and panicking; compile: all combinations of option values, every stage failing in three ways with and without an earlier run's files",
  why="The command line and the compiler's driver have no tests at all.",
  files=["zkit/src/main.rs", "dsl_compile/src/lib.rs", "dsl_compile/src/input_user.rs", "dsl_compile/src/compilation_user.rs", "dsl_compile/src/execution_user.rs", "dsl_compile/src/parser_user.rs", "dsl_compile/src/type_analysis_user.rs"],
  mech=[("options and dispatch", "zkit/src/main.rs: main"), ("stages of compilation", "dsl_compile/src/lib.rs: circom_compiler"), ("output names and simplification", "dsl_compile/src/input_user.rs")], tech=TECH, note=NOTE + " The real main program runs once per case, over stand-ins for clap, the operations, circom's stages and the assembler, none of which are available or needed here."),
 dict(id="P33", title="Wrapping a BN254 proof succeeds exactly for valid proofs and loses nothing",
  statement="Wrapping a BN254 proof into one over BLS12-381 succeeds exactly when the proof given verifies with the key read from the key file and the public inputs given (decimal or hexadecimal text), and then writes the new proof, its key and its public inputs (the 64-bit limbs of the inner ones, in order) in the form that this repository's own reader and verifier take. A malformed proof or public input, a missing, damaged or cut key file, any step that fails, and an output that cannot be written are never reported as success. The command line hands each option to its role.",
  over=["inputs", "fault_sequences"], quant="all lists of up to 2 (3) public inputs over boundary values and spellings and longer ones; keys and proofs of one another exchanged; every truncation of key and proof; every fallible step failing; every output unwritable; every order, omission and repetition of the options; the conversions one by one",
  why="The Go half and the command line have no tests that run here or that make any step fail.",
  files=["recursion-gnark/ffi/go/eigen/build.go", "recursion-gnark/ffi/go/eigen/utils.go", "recursion-gnark/ffi/go/eigen/recursion.go", "recursion-gnark/ffi/go/main.go", "recursion-gnark/ffi/src/ffi/native.rs", "recursion-gnark/cli/src/main.rs", "recursion-gnark/ffi/src/json_util.rs"],
  mech=[("reading, verifying, wrapping, writing", "recursion-gnark/ffi/go/eigen/build.go: BuildGroth16"), ("public inputs, points and keys as text", "recursion-gnark/ffi/go/eigen/utils.go"), ("wrapping circuit's assignment", "recursion-gnark/ffi/go/eigen/recursion.go"), ("crossing the C boundary", "recursion-gnark/ffi/src/ffi/native.rs")], tech=TECH, note=NOTE + " gnark itself is replaced by a stand-in whose proofs are valid for exactly one key and list of public inputs, and in which every step can be made to fail; the shipped artefacts of the real gnark are checked against the model."),
 dict(id="P34", title="The circuit handed to the prover is the circuit that was analyzed",
  statement="Whatever the source declares and in whatever order, exporting an analyzed circuit gives one whose columns, names, public values, identities, lookups, permutations and connections have the same meaning: every expression takes the same value on every row of every trace, each statement is reported at its own place in its own file, and expressions of too high a degree, and only those, are numbered, consecutively. A trace is provable through the exported circuit exactly when it satisfies the source. Columns outside any namespace and powers of anything but constants are refused.",
  over=["inputs", "configurations"], quant="all expressions of two (three) operations over 18 kinds of operands, in every place an expression can stand; all sequences of up to four (five) statements of 17 kinds, in both numberings and directions of reference; every position in texts; the text of 7 circuits proved with every change of a cell",
  why="The one test of this part compares nothing, and cannot run here.",
  files=["recursion/src/pilcom/export.rs", "recursion/src/pilcom/expression_counter.rs", "recursion/src/pilcom.rs"],
  mech=[("translation of statements and expressions", "recursion/src/pilcom/export.rs: export"), ("numbering of intermediate columns", "recursion/src/pilcom/expression_counter.rs"), ("entry points", "recursion/src/pilcom.rs")], tech=TECH, note=NOTE + " powdr's analyzer is replaced: the analyzed form is built by the harness, or by a small analyzer for the text."),
 dict(id="P35", title="Every chunk of a run is proved from its own inputs with its own verifiers",
  statement="Proving a chunk executes the task's own program on the data given, with exactly the chunk's boot values, leaving for the shutdown routine at exactly the row given, and writes in files of that task, chunk and machine each machine's proof next to the verifier of that very machine, for the parameters it was proved with; the machines with a verifier are the ones reported. Splitting a run returns the chunks unchanged and in order, and proving a run proves every chunk. A step, file or output that fails is never reported as success.",
  over=["inputs", "configurations", "fault_sequences"], quant="all lists of up to two and three machines over a catalogue of sizes and shapes, with and without keys, against each length of the main machine; boot values, shutdown rows, chunk numbers, tasks and data over their bounds; every step of every chunk failing; keys cut; outputs unwritable",
  why="The zkVM's tests are ignored: they take hours and the network.",
  files=["zkvm/src/lib.rs"],
  mech=[("chunks", "zkvm/src/lib.rs: zkvm_generate_chunks, zkvm_prove_only, rust_continuation"), ("machine proofs and verifiers", "zkvm/src/lib.rs: generate_verifier"), ("a whole run", "zkvm/src/lib.rs: zkvm_execute_and_prove")], tech=TECH, note=NOTE + " powdr's compiler, executor and backend are replaced by a stand-in that records what each step is given; keys, proofs and the expected verifiers are made by the real prover and the real translation."),
 dict(id="P36", title="Example state machines build satisfying traces, and only right ones pass",
  statement="Every finished example state machine (Fibonacci in both its forms, permutation, lookup, connection, Poseidon) builds, at every size and for every input it is given, a trace that satisfies its own circuit, starts from that input and exposes the public values it names, and whose proof with the example's own parameters verifies. A trace satisfies the circuit exactly when it is a right computation of what the machine is for: any other value in a cell that matters is refused, and the public values of the Fibonacci and Poseidon machines are tied to their cells. The circuit and columns written to files are the ones that were built; a step that fails is never reported as success, and more hashes than the machine has room for are refused.",
  over=["inputs", "configurations", "fault_sequences"], quant="all machines at each size of 2 to 64 rows (256 for the lookup) and at full size; boundary inputs; every single cell changed to several values; every small trace over small domains; every other public value; each step of the script failing",
  why="The examples have no tests; a test would try each at one size on one input.",
  files=["starkjs/src/pil_verifier.js", "starkjs/fibonacci/fibonacci.js", "starkjs/permutation/permutation.js", "starkjs/plookup/plookup.js", "starkjs/connection/connection.js", "starkjs/poseidon/sm_poseidong.js"],
  mech=[("building a trace", "starkjs/src/pil_verifier.js: generate"), ("machines", "starkjs/*/*.js: buildConstants, execute"), ("circuits", "starkjs/*/*.pil"), ("compiling", "recursion/src/pilcom.rs")], tech=TECH, note=NOTE + " pilcom's columns and files and powdr's analyzer are replaced by stand-ins; the translation of the circuit and the prover are the real ones."),
]
NA = []
