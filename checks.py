"""Registry of checks: one entry per claimed property."""
CHECKS = {
 "P01": dict(bin="p01", features=["base", "pairing"],
   technique="property-based testing: operator programs against a coefficient-map model",
   note="Random programs over every operator form, compared with a map model, on random assignments, and structurally (sorted, one term per variable). Trusts ark-ff field arithmetic."),
 "P02": dict(bin="p02", features=["groth16"], variants=["seq", "par"],
   technique="property-based testing: generated satisfied constraint systems, completeness oracle, in both builds",
   note="Random constraint systems with satisfying assignments (sizes, empty rows, repeated and unused variables), every proving entry point, sequential and multi-threaded build."),
 "P03": dict(bin="p03", features=["groth16"],
   technique="property-based testing: adversarial generation, component mutation, and a trapdoor reference model of keys and proofs",
   note="Violating assignments, wrong publics/keys/lengths, every proof element mutated; keys and proofs recomputed in the exponent from the trapdoor. Soundness is tested against these adversaries, not proved."),
 "P04": dict(bin="p04", features=["bulletproofs"],
   technique="property-based testing: generated satisfied constraint systems, completeness oracle, two curves",
   note="Random constraint systems with satisfying assignments over BLS12-381 G1 and Curve25519."),
 "P05": dict(bin="p05", features=["bulletproofs"],
   technique="property-based testing: adversarial generation, component mutation and hand-written forgers",
   note="Violating assignments, wrong publics, altered/missing/regrouped components and witness-free forgers that drive the transcript. Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P06": dict(bin="p06", features=["marlin"], variants=["seq", "par"],
   technique="property-based testing: generated satisfied constraint systems, completeness oracle, in both builds",
   note="Random constraint systems with satisfying assignments (any number of public inputs, tall, wide, dense, empty matrices), under the smallest or a larger universal string, sequential and multi-threaded build."),
 "P07": dict(bin="p07", features=["marlin"],
   technique="property-based testing: adversarial generation, component mutation and a cheating prover",
   note="Violating assignments, wrong publics, keys of sibling circuits, altered and regrouped components, and a prover of our own that cheats on degree bounds, evaluations and sums. Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P08": dict(bin="p08", features=["marlin"],
   technique="property-based testing: random polynomials, bounds and points against direct evaluation; false claims and forged shifts",
   note="Commit, open and check (single and batched) through the guarded hook; every single claim falsified in turn; forged degree bounds by a holder of the universal string."),
 "P09": dict(bin="p09", features=["plonk"], variants=["seq", "par"],
   technique="property-based testing: generated satisfied gate programs, completeness oracle, in both builds",
   note="Random programs of composer operations (and translated rank-1 systems) with satisfying values; keys from a blank copy; sequential and multi-threaded build."),
 "P10": dict(bin="p10", features=["plonk"],
   technique="property-based testing: adversarial generation, component mutation and a cheating prover",
   note="Broken gates and copies, wrong publics, sibling circuits, altered and regrouped components, and a prover of our own with 19 cheats (lies, cancelling openings, omitted transcript entries). Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P11": dict(bin="p11", features=["spartan"],
   technique="property-based testing: generated satisfied constraint systems, completeness oracle, both modes and two curves",
   note="Random constraint systems with satisfying assignments around power-of-two sizes, NIZK and SNARK, BLS12-381 G1 and Curve25519."),
 "P12": dict(bin="p12", features=["spartan"],
   technique="property-based testing: adversarial generation, component mutation and hand-written forgers",
   note="Violating assignments, wrong publics, altered components, sibling circuits and forgers that drive the transcript (NIZK). Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P13": dict(bin="p13", features=["spartan"],
   technique="property-based testing: adversarial generation, component mutation and regrouping, foreign keys",
   note="Violating assignments, wrong publics, altered, regrouped and exchanged components, keys and commitments of sibling circuits (SNARK). Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P14": dict(bin="p14", features=["libra"],
   technique="property-based testing: generated layered circuits against gate-by-gate evaluation; completeness oracle",
   note="Random layered circuits (depth, widths around powers of two, wiring, unequal public and private parts), plain and zero-knowledge proofs, BLS12-381 G1 and Curve25519."),
 "P15": dict(bin="p15", features=["libra"],
   technique="property-based testing: adversarial generation, component mutation and hand-written forgers",
   note="Wrong outputs, inputs, circuits and parameters, altered components, a plain forger that violates one verification equation at a time, and every commitment sub-proof. Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P16": dict(bin="p16", features=["hyrax"],
   technique="property-based testing: generated layered circuits and batches against gate-by-gate evaluation; completeness oracle",
   note="Random layered circuits and batches of 1 to 16 instances, BLS12-381 G1 and Curve25519."),
 "P17": dict(bin="p17", features=["hyrax"],
   technique="property-based testing: adversarial generation, component mutation and hand-written forgers",
   note="Wrong outputs, inputs, batches, circuits and parameters, altered components, a prover for chosen outputs, and every commitment sub-proof. Under challenges fixed in advance, every component alone (and neighbouring scalars agreeing at a challenge) must be bound by an equation. Soundness is tested against these adversaries, not proved."),
 "P18": dict(bin="p18", features=["asvc"],
   technique="stateful property-based testing: random update histories against a plain vector model and fresh recomputation",
   note="Histories of updates, single and multi-position proofs, aggregation; commitments and proofs compared with freshly made ones; keys and commitments compared with naive polynomial arithmetic."),
 "P19": dict(bin="p19", features=["asvc"],
   technique="property-based testing: false position claims of every kind, altered proofs, commitments and update keys",
   note="Each kind of false claim generated against honest proofs of random position sets. Soundness is tested against these adversaries, not proved."),
 "P20": dict(bin="p20", features=["fs"],
   technique="property-based testing: generated statements, single-component alterations, observed challenges against a protocol script (metamorphic relation)",
   note="Every challenge of prover and verifier is recorded (recording copies of merlin and rand_chacha); each altered component has to change the challenges that follow it in the protocol, by a script per system. Where the verifier stops before that challenge, only absorption is checked (or, for some points, nothing; such cases are labelled)."),
 "P22": dict(bin="p22", features=["gadgets"],
    technique="property-based testing: generated circuit programs against a machine-arithmetic model, search for forged assignments",
    note="Each circuit is recorded; honest values are compared with native arithmetic, and a search (propagation plus guessing) looks for another satisfying assignment with a different result. Where the search ends undecided the case is labelled open."),
 "P29": dict(bin="p29", features=["curve", "bigint"],
   technique="property-based differential testing against big-integer arithmetic",
   note="Every operation and constant of the scalar field wrapper against num-bigint modulo the group order, with boundary-heavy operands."),
 "P30": dict(bin="p30", features=["group"],
   technique="property-based differential testing against curve25519-dalek and the group laws",
   note="Every operation of the group wrapper against the wrapped Ristretto implementation, and interfaces against each other."),
 "P23": dict(bin="p23", features=["gadgets"],
    technique='property-based testing: published vectors and generated messages against independent SHA-256/BLAKE2s implementations, search for forged assignments',
    note='The circuits run on messages of generated lengths; digests are compared with reference implementations, and on recorded circuits a search looks for another satisfying assignment with another digest.'),
 "P24": dict(bin="p24", features=["gadgets"],
    technique='property-based testing: generated preimages against a field-arithmetic model, blank synthesis, search for forged assignments',
    note='MiMC, Rescue and Poseidon circuits against the native functions on generated inputs; circuits built without values must equal those built with them; a search looks for satisfying assignments with another image.'),
 "P25": dict(bin="p25", features=["gadgets"],
    technique='property-based testing: exhaustive table positions over generated tables, search for forged assignments',
    note='Every lookup gadget on generated tables and every selector value; a search looks for satisfying assignments returning another entry.'),
 "P26": dict(bin="p26", features=["gadgets"],
    technique='property-based testing: generated bounds, values and widths against integer comparison, search for forged assignments',
    note='Range and comparison gadgets against integer arithmetic on boundary-heavy operands; circuits for false statements are searched for satisfying assignments.'),
 "P27": dict(bin="p27", features=["gadgets"],
    technique='property-based testing: Merkle trees over free terms and mixing hashes against a recursive reference',
    note="Trees, roots and proofs for generated leaf counts against a reference; over spelled-out (free term) hashes every generated claim is decided from the root's text."),
 "P28": dict(bin="p28", features=["gadgets"],
    technique='property-based testing: generated trees and false membership claims, search for forged assignments',
    note='The Merkle membership circuit on true claims and on altered leaves, paths, roots and widths; a search looks for satisfying assignments of false claims.'),
 "P35": dict(bin="p35", features=["gadgets"],
    technique='property-based metamorphic testing: changing any byte of a generated input',
    note='Native MiMC/Rescue/Poseidon on generated byte strings: every byte must count, chunking against a reference.'),
 "P21": dict(bin="p21", features=["all"],
    technique="property-based testing: generated witnesses proved repeatedly under forced challenges, linear-algebra oracle over the proofs",
    note="With challenges fixed (recording copies of merlin and rand_chacha), no component, no linear combination of scalars, no sum or difference of points and no point-scalar pair may be the same in proofs of other randomness. Plonk has no blinding and is left out; Over a group with open discrete logarithms (the field itself), the components of the proofs of one statement must have full rank, so that no linear relation holds among them beyond the implied ones. Non-linear leaks are searched for only as repeated values."),
 "P31": dict(bin="p31", features=["all"],
    technique="property-based testing: round trips of generated keys and proofs, verdict equality",
    note="Every serializable type of every scheme through compressed, uncompressed and unchecked forms; announced sizes, bytes read, re-serialization, and verdicts of the restored objects on true and false statements."),
 "P32": dict(bin="p32", features=["all"], mem_gb=24,
    technique="structure-aware fuzzing of proof encodings against decoder and verifier",
    note="Truncations, extensions, bit flips, length fields, list edits, special values and random bytes; the oracle is: error or verdict, never a panic, abort, hang or memory exhaustion, and never acceptance unless the decoded object re-serializes to a valid proof's encoding."),
 "P33": dict(bin="p33", features=["cli"], extra_bins=["cli-setup", "cli-prove", "cli-verify"],
    technique="property-based testing of the command-line tools as processes: generated claims, false claims, altered files, library verdict as reference",
    note="setup, zkp-prove and zkp-verify are built from /repo/cli and run in scratch directories; every verdict is compared with the library's."),
 "P34": dict(bin="p34", features=["all"], variants=["seq", "par"], run_variants=["par"],
    technique="differential property-based testing of the sequential against the multi-threaded build",
    note="The multi-threaded binary draws statements and asks the sequential one for the same keys and proofs, byte for byte, in pools of 1 to 16 threads; each verifies the other's."),
 "P36": dict(bin="p36", features=["gadgets"],
    technique="differential property-based testing of the native hashes against independent models of the constructions",
    note="Digests of generated byte strings and blocks of generated elements against models with their own copy of the tables, also under altered constants."),
 "P37": dict(bin="p37", features=["all"], extra_crates=["contracts"],
    technique="property-based testing of the on-chain scripts as processes: generated keys, proofs and public values, altered cells, the library with full checks as reference",
    note="The Groth16, Plonk, Marlin and Bulletproofs scripts are built (no_std features) from /repo/ckb-contracts with a stand-in for the chain's system library; the four scripts whose sources do not fit this tree's interfaces, and the two for the absent clinkv2, cannot be built."),
 "P38": dict(bin="p38", features=["all", "asvc"],
    technique="property-based testing of the setups over a group with visible discrete logarithms, with a search for relations as oracle",
    note="The setups run over the scalar field's additive group, where generators and trapdoors are read off, and (for what shows there) over Curve25519 and BLS12-381."),
 "P39": dict(bin="p39", features=["all", "gadgets"],
    technique="metamorphic property-based testing: keys from one way of writing a generated circuit, proofs from another; injected synthesis failures",
    note="The same generated circuit is written in many ways (namespaces, borrowed and wrapped systems, spellings of combinations) and proved across them; synthesis is made to fail at every kind of step."),
}
