import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Linear combinations behave as a vector space over the circuit's variables",
"Adding, subtracting, negating and scaling linear combinations in any order and any mix of operand forms always yields the combination whose coefficient for each variable is the field sum of what was put in. Evaluating such a combination on any assignment gives the same value as evaluating the expression that built it, and combining equal variables never loses, duplicates or reorders a term in a way that changes that value.",
["inputs","programs"],"Every sequence of linear-combination operations over every set of input and auxiliary variables, of any length, including duplicates and combinations longer and shorter than the small-size fast path, and every assignment.",
"No unit test exercises the operators at all; circuits in the tests use combinations of one to three distinct variables, so merging, the binary-search path and mixed operand forms are never compared with a model.",
["r1cs/src/impl_lc.rs","r1cs/src/impl_constraint_var.rs","r1cs/src/lib.rs"],
[("term lookup and merge","r1cs/src/impl_lc.rs: get_var_loc, op_impl"),("conditional lc/variable sum","r1cs/src/impl_constraint_var.rs")])

p("P02","Groth16 accepts every proof honestly made for a satisfied circuit",
"For every constraint system and every assignment that satisfies it, a proof created from freshly generated keys verifies against the same public inputs. This holds whatever the number of public inputs, private variables and constraints, whether or not zero-knowledge blinding is used, and in the sequential and the multi-threaded build alike.",
["inputs","programs","configurations"],"Every satisfiable constraint system (any shape, sparse or dense, with unused variables, constant-only or empty constraints, zero public inputs), every satisfying assignment, every trapdoor and blinding factor, both build variants.",
"The tests prove one or two fixed circuits, and only in the multi-threaded build; domain sizes, chunking, unused variables and the sequential path are never reached.",
["groth16/src/generator.rs","groth16/src/prover.rs","groth16/src/verifier.rs","groth16/src/r1cs_to_qap.rs"],
[("QAP instance and witness maps","groth16/src/r1cs_to_qap.rs"),("proof assembly","groth16/src/prover.rs: create_proof")])

p("P03","Groth16 rejects every wrong statement and every altered proof",
"A Groth16 proof verifies only for the exact circuit keys and the exact public-input vector it was made for: a different value, length, order, key or proof element is refused, and a prover holding an assignment that violates any single constraint cannot obtain an accepted proof. The keys and proofs equal, group element by group element, what the trapdoor and the circuit's polynomials prescribe.",
["inputs","programs","fault_sequences"],"Every circuit, every violating assignment (one constraint or many), every mutation of proof, key or public inputs.",
"The tests change one public value of one circuit; they never run the prover on a violating assignment, and never compare keys or proofs to their definition.",
["groth16/src/generator.rs","groth16/src/prover.rs","groth16/src/verifier.rs","groth16/src/r1cs_to_qap.rs"],
[("pairing equation","groth16/src/verifier.rs"),("CRS generation","groth16/src/generator.rs: generate_parameters")])

p("P04","Bulletproofs accepts every proof honestly made for a satisfied circuit",
"For every constraint system with at least one constraint and every satisfying assignment, the arithmetic-circuit Bulletproof made for it verifies against its public inputs. This holds for every number of multiplication constraints and public inputs, for linear combinations of any length, and for variables that occur repeatedly or not at all.",
["inputs","programs"],"Every satisfiable constraint system and satisfying assignment, including repeated variables within a combination, constants, long combinations and sizes on either side of powers of two.",
"The tests prove two tiny fixed circuits; repeated variables, unused inputs, padding sizes and long combinations are not reached.",
["bulletproofs/src/arithmetic_circuit.rs","bulletproofs/src/inner_product_proof.rs","bulletproofs/src/lib.rs"],
[("constraint-matrix extraction","bulletproofs/src/arithmetic_circuit.rs: Generators/ProvingAssignment"),("inner-product argument","bulletproofs/src/inner_product_proof.rs")])

p("P05","Bulletproofs rejects every wrong statement and every altered proof",
"An arithmetic-circuit Bulletproof verifies only if the prover knows an assignment satisfying the circuit for exactly the given public inputs. Proofs from violating assignments, proofs with any altered component, proofs checked against other public inputs or another circuit, and proofs assembled without a witness are all refused.",
["inputs","programs","fault_sequences"],"Every circuit, violating assignment, mutation of each proof component, and proofs fabricated from public data only.",
"The tests only check that honest proofs verify and that one wrong public value fails.",
["bulletproofs/src/arithmetic_circuit.rs","bulletproofs/src/inner_product_proof.rs"],
[("verification equations","bulletproofs/src/arithmetic_circuit.rs: verify_proof"),("inner-product verification","bulletproofs/src/inner_product_proof.rs")])

p("P06","Marlin accepts every proof honestly made for a satisfied circuit",
"For every constraint system that fits the universal reference string and every satisfying assignment, indexing succeeds and the Marlin proof made for it verifies against its public inputs. This holds for any number of public inputs, any matrix shape or density, and in the sequential and the multi-threaded build alike.",
["inputs","programs","configurations"],"Every satisfiable constraint system and satisfying assignment, all counts of public inputs (power of two or not), tall, wide, dense and sparse matrices, both build variants.",
"One fixed circuit is proved, with one or three public inputs, only in the multi-threaded build; the padding and balancing code is not reached.",
["marlin/src/lib.rs","marlin/src/ahp/indexer.rs","marlin/src/ahp/prover.rs","marlin/src/ahp/constraint_systems.rs","marlin/src/ahp/arithmetic.rs"],
[("indexing and padding","marlin/src/ahp/constraint_systems.rs, marlin/src/ahp/indexer.rs"),("three-round prover","marlin/src/ahp/prover.rs")])

p("P07","Marlin rejects every wrong statement and every altered proof",
"A Marlin proof verifies only for the exact indexed circuit and public inputs it was made for and only if the assignment satisfies the circuit. Proofs from violating assignments, with any altered, missing, added or regrouped component, or checked against other public inputs or another circuit's key, are refused.",
["inputs","programs","fault_sequences"],"Every circuit, violating assignment, and mutation (value, length or grouping) of each commitment, evaluation and opening.",
"The tests only verify the honest proof and one wrong public value.",
["marlin/src/lib.rs","marlin/src/ahp/verifier.rs","marlin/src/ahp/mod.rs","marlin/src/pc/mod.rs"],
[("verifier and equality checks","marlin/src/lib.rs: verify_proof; marlin/src/ahp/verifier.rs"),("batched opening check","marlin/src/pc/mod.rs")])

p("P08","Polynomial commitments open to exactly the committed polynomial's values",
"For every polynomial within the supported degree, with or without hiding and with or without a degree bound, an opening at any point verifies for the polynomial's true value there and for no other value, point, commitment or claimed degree bound. Batched openings of many polynomials at many points verify exactly when every single claimed value is right.",
["inputs","configurations"],"Every polynomial (zero, constant, low, full degree, with zero low-order coefficients), every hiding bound and degree bound, every point set, every false claim.",
"There is no test of the commitment scheme by itself; it is reached only with the fixed polynomials of one circuit.",
["marlin/src/pc/kzg10.rs","marlin/src/pc/mod.rs","marlin/src/pc/data_structures.rs"],
[("commit/open/check","marlin/src/pc/kzg10.rs"),("degree-bound shift and batching","marlin/src/pc/mod.rs")])

p("P09","Plonk accepts every proof honestly made for a satisfied circuit",
"For every circuit built with the composer, whatever its mix of gates, constants, shared wires and public inputs, keys derived from it and a proof made for a satisfying assignment verify with the public inputs the circuit reports; a universal string too short for the circuit is refused with an error. This holds in the sequential and the multi-threaded build alike.",
["inputs","programs","configurations"],"Every program of composer operations (and every rank-1 circuit translated to it) with a satisfying assignment, any number of gates and public inputs, both build variants.",
"Two fixed gate lists are proved; wire-permutation shapes, padding and the sequential path are not varied.",
["plonk/src/lib.rs","plonk/src/composer/mod.rs","plonk/src/composer/arithmetic.rs","plonk/src/composer/permutation.rs","plonk/src/composer/synthesize.rs","plonk/src/ahp/prover.rs"],
[("gate composer","plonk/src/composer/arithmetic.rs"),("permutation argument","plonk/src/composer/permutation.rs, plonk/src/ahp/prover.rs")])

p("P10","Plonk rejects every wrong statement and every altered proof",
"A Plonk proof verifies only for the circuit key and public inputs it was made for and only if every gate equation and every wire equality holds. Proofs made while breaking one gate or one wire equality, proofs with any altered, missing, added or regrouped component, and proofs checked against another circuit or other public inputs are refused.",
["inputs","programs","fault_sequences"],"Every circuit, every violation of one gate or one copy of one variable, every mutation of each commitment, evaluation and opening.",
"The tests only verify honest proofs.",
["plonk/src/lib.rs","plonk/src/ahp/verifier.rs","plonk/src/ahp/mod.rs","plonk/src/composer/permutation.rs"],
[("verifier","plonk/src/lib.rs: verify; plonk/src/ahp/verifier.rs"),("quotient and permutation equations","plonk/src/ahp/mod.rs")])

p("P11","Spartan accepts every proof honestly made for a satisfied circuit",
"For every constraint system and satisfying assignment, both Spartan variants (the witness-only one and the one with a preprocessed circuit commitment) produce proofs that verify against the public inputs. This holds for any number of public inputs including none, any number of private variables and constraints, and over both supported curves.",
["inputs","programs","configurations"],"Every satisfiable constraint system and satisfying assignment, all size relations between inputs, variables and constraints, both variants, both curves.",
"One fixed circuit shape per variant is proved; empty public inputs, repeated variables and padding to other sizes are not reached.",
["spartan/src/prover.rs","spartan/src/verify.rs","spartan/src/r1cs.rs","spartan/src/setup.rs","spartan/src/spark.rs","spartan/src/polynomial.rs"],
[("sum-check provers","spartan/src/prover.rs"),("matrix evaluation","spartan/src/polynomial.rs, spartan/src/r1cs.rs, spartan/src/spark.rs")])

p("P12","Spartan (witness-only variant) rejects wrong statements and altered proofs",
"A proof of the witness-only Spartan variant verifies only if the prover knows an assignment satisfying the given circuit for exactly the given public inputs. Violating assignments, altered or missing components, other public inputs (value or length), another circuit, and prover-chosen verification points are all refused.",
["inputs","programs","fault_sequences"],"Every circuit, violating assignment, mutation of each proof component and adversarial choice of any value the verifier should derive itself.",
"The tests check one wrong public value of one circuit at most.",
["spartan/src/verify.rs","spartan/src/inner_product.rs","spartan/src/data_structure.rs"],
[("two-phase sum-check verification","spartan/src/verify.rs: verify_nizk_proof, sumcheck_verify"),("evaluation proof","spartan/src/inner_product.rs")])

p("P13","Spartan (preprocessed variant) rejects wrong statements and altered proofs",
"A proof of the preprocessed Spartan variant verifies only if the committed circuit is satisfied for exactly the given public inputs; the claimed evaluations of the circuit's matrices are tied to the circuit commitment. Violating assignments, altered, missing or extra components, other public inputs, and another circuit's commitment are all refused.",
["inputs","programs","fault_sequences"],"Every circuit, violating assignment, and mutation of each component of the satisfiability part and of the circuit-evaluation part.",
"The tests check one wrong public value of one circuit at most; the circuit-evaluation part is never attacked.",
["spartan/src/verify.rs","spartan/src/prover.rs","spartan/src/spark.rs"],
[("memory-checking and product-circuit verification","spartan/src/verify.rs: evaluation proof verification"),("circuit commitment","spartan/src/spark.rs")])

p("P14","Libra evaluates layered circuits faithfully and accepts honest proofs",
"Evaluating a layered arithmetic circuit gives at every layer the gate-by-gate result on the given public and private inputs, and both the plain and the zero-knowledge proof made from that evaluation verify for the resulting outputs. This holds for every circuit with at least one gate layer that the constructor accepts and every input vector, including public and private parts of different sizes. A gate naming a node or an operation that does not exist has no value: the circuit is refused.",
["inputs","programs"],"Every layered circuit (depth, width, add/multiply wiring, fan-out), every input and witness length and value, both proof forms.",
"One fixed circuit with one fixed input is proved; layer shapes and unequal public/private sizes are not varied.",
["libra/src/circuit.rs","libra/src/evaluate.rs","libra/src/libra_linear_gkr.rs","libra/src/libra_zk_linear_gkr.rs","libra/src/sumcheck.rs"],
[("layer evaluation","libra/src/circuit.rs: evaluate"),("linear-time sum-check","libra/src/sumcheck.rs, libra/src/evaluate.rs")])

p("P15","Libra rejects wrong outputs, wrong inputs and altered proofs",
"A Libra proof verifies only if the claimed outputs are what the given circuit computes on the given public inputs and the prover's private inputs. Any altered output, public input or proof component, or a proof made for a circuit with different wiring, is refused by both the plain and the zero-knowledge verifier.",
["inputs","programs","fault_sequences"],"Every circuit, every false output or input, every re-wiring of one gate, every mutation of each proof component.",
"The tests only verify honest proofs of one circuit.",
["libra/src/libra_linear_gkr.rs","libra/src/libra_zk_linear_gkr.rs","libra/src/sumcheck.rs","libra/src/commitment.rs"],
[("per-layer verification","libra/src/libra_linear_gkr.rs: verify; libra/src/libra_zk_linear_gkr.rs: verify"),("commitment sub-proofs","libra/src/commitment.rs")])

p("P16","Hyrax evaluates layered circuits faithfully and accepts honest proofs",
"Evaluating a batch of instances of a layered circuit gives at every layer the gate-by-gate result on each instance's inputs, and the zero-knowledge proof made for the batch verifies for the resulting outputs. This holds for every circuit with at least one gate layer that the constructor accepts, every power-of-two batch size and every input vector. A gate naming a node or an operation that does not exist has no value: the circuit is refused.",
["inputs","programs"],"Every layered circuit, batch size, input and witness vector, including public and private parts of different sizes.",
"One fixed circuit with a fixed batch is proved.",
["hyrax/src/circuit.rs","hyrax/src/evaluate.rs","hyrax/src/hyrax_proof.rs","hyrax/src/zk_sumcheck_proof.rs"],
[("layer evaluation","hyrax/src/circuit.rs: evaluate"),("batched sum-check","hyrax/src/zk_sumcheck_proof.rs")])

p("P17","Hyrax rejects wrong outputs, wrong inputs and altered proofs",
"A Hyrax proof verifies only if the claimed outputs of every instance are what the given circuit computes on that instance's public inputs and the prover's private inputs. Any altered output, public input or proof component, a proof made for a circuit with different wiring, and a proof fabricated for chosen outputs are refused.",
["inputs","programs","fault_sequences"],"Every circuit and batch, every false output or input, every re-wiring of one gate, every mutation of each proof component, provers that choose any value the verifier should derive.",
"The tests only verify honest proofs of one circuit.",
["hyrax/src/hyrax_proof.rs","hyrax/src/zk_sumcheck_proof.rs","hyrax/src/commitment.rs"],
[("per-layer verification","hyrax/src/hyrax_proof.rs: verify"),("committed sum-check verification","hyrax/src/zk_sumcheck_proof.rs: verify")])

p("P18","Vector commitments and proofs stay correct over any history of updates",
"After any sequence of value updates, the updated commitment equals a fresh commitment to the updated vector, every proof brought up to date equals a freshly made one, and single, multi-position and aggregated proofs all verify for the current values.",
["histories","inputs"],"Every history of updates at any positions with any values (including repeated, zero and own-position updates), every vector size the parameters allow, every set of proved positions.",
"The test performs one update of one vector of fixed size and aggregates one fixed pair of proofs.",
["asvc/src/lib.rs"],
[("proof and commitment updates","asvc/src/lib.rs: update_commit, update_proof"),("aggregation","asvc/src/lib.rs: aggregate_proofs")])

p("P19","Vector-commitment proofs bind positions to the committed values",
"A position proof is accepted only if every claimed value is the committed value at the claimed position: a wrong value, position, proof, commitment or key, a missing or extra claim, or a forged update key is refused.",
["inputs","fault_sequences"],"Every vector, every set of claimed positions and every false claim in values, positions, list lengths, proof, commitment or update keys.",
"The test never presents a false claim beyond one changed value.",
["asvc/src/lib.rs"],
[("position verification","asvc/src/lib.rs: verify_pos"),("update-key verification","asvc/src/lib.rs: verify_upk")])

p("P20","Every verifier challenge depends on the whole transcript before it",
"In every non-interactive proof system here, each verifier challenge is derived from the public statement (public values, circuit and parameter digests or verification key) and from every prover message sent before it: changing any of them changes that challenge and every later one, and prover and verifier derive the same challenges. (Messages are all proof components but the closing responses of a sub-proof, which nothing follows in that sub-proof, and values the verifier recomputes.) Digests of circuits and parameters differ whenever those do, and regrouping a message's parts changes the challenges.",
["inputs","fault_sequences"],"Every transcript-based protocol in the repository, every proof component, every position in the transcript.",
"Tests never look at challenges; an unabsorbed message leaves every honest proof valid.",
["bulletproofs/src/arithmetic_circuit.rs","marlin/src/fs_rng.rs","marlin/src/lib.rs","plonk/src/rng.rs","plonk/src/lib.rs","spartan/src/prover.rs","spartan/src/verify.rs","libra/src/libra_zk_linear_gkr.rs","libra/src/commitment.rs","hyrax/src/hyrax_proof.rs","hyrax/src/commitment.rs","hyrax/src/zk_sumcheck_proof.rs","asvc/src/lib.rs"],
[("transcript absorption","each crate's transcript.append_message calls"),("re-seeded generator","marlin/src/fs_rng.rs, plonk/src/rng.rs")])

p("P21","Proofs are freshly blinded and reveal no witness-determined value",
"Two proofs of one statement from one witness made with independent randomness share no commitment, evaluation or response that depends on the witness, and no combination the verifier sees of two such components is fixed by the witness alone. A prover draws its blinding from the randomness it is given and never reuses or drops a blinding factor.",
["inputs","configurations"],"Every zero-knowledge proof system in the repository, every circuit and witness, every randomness stream.",
"Tests make one proof per statement and never compare two; dropped or repeated blinding leaves every proof valid.",
["groth16/src/prover.rs","bulletproofs/src/arithmetic_circuit.rs","marlin/src/ahp/prover.rs","spartan/src/prover.rs","libra/src/libra_zk_linear_gkr.rs","hyrax/src/hyrax_proof.rs","hyrax/src/zk_sumcheck_proof.rs"],
[("blinding factors","each prover's rng draws")])

p("P22","Boolean and 32-bit integer gadgets compute and enforce their operations",
"For every program of boolean and 32-bit operations over constants and allocated bits, the computed value equals the machine result, the constraints are satisfied by the honest assignment, and no other value of any result bit satisfies them with the same inputs.",
["inputs","programs"],"Every composition of and/or/xor/not/choose/majority/rotate/shift/add on every mix of constants, negations and allocated bits, every number of addends, every forged bit value.",
"Unit tests sample each operation alone with mostly allocated bits; compositions and forged witnesses over all intermediate bits are not tried.",
["gadgets/src/algebra/boolean.rs","gadgets/src/algebra/uint32.rs","gadgets/src/operator/multieq.rs"],
[("boolean gates","gadgets/src/algebra/boolean.rs"),("modular addition and packing","gadgets/src/algebra/uint32.rs, gadgets/src/operator/multieq.rs")])

p("P23","SHA-256 and BLAKE2s circuits compute and enforce the standard digests",
"For every message length and content, and every mix of constant and allocated message bits, the digest bits equal those of an independent implementation of the standard and the honest assignment satisfies the constraints. No other digest bits satisfy the constraints for the same message.",
["inputs"],"Every message length up to several blocks (all padding boundaries), every content, every personalization, every forged intermediate or output bit.",
"The tests cover a few lengths with honest assignments; forged intermediate bits are tried for none.",
["gadgets/src/hashes/sha256.rs","gadgets/src/hashes/blake2s.rs"],
[("compression circuits","gadgets/src/hashes/sha256.rs, gadgets/src/hashes/blake2s.rs"),("hash adapter for Merkle trees","gadgets/src/hashes/sha256.rs: AbstractHashSha256")])

p("P24","Field-friendly hash circuits are tied to their inputs and their native hash",
"For every pair of inputs, the MiMC, Rescue and Poseidon circuits yield the same output as the native hash and are satisfied by the honest assignment. With the inputs fixed, no other output value satisfies the constraints, and every input wire influences the output wire.",
["inputs"],"Every input pair and message, every attempted output value different from the native hash, every substituted constant or intermediate wire.",
"The tests compare the natively computed image with itself and ask only whether the honest assignment satisfies the constraints, which an unconstrained output also does.",
["gadgets/src/hashes/mimc.rs","gadgets/src/hashes/rescue.rs","gadgets/src/hashes/poseidon.rs"],
[("round constraints","gadgets/src/hashes/{mimc,rescue,poseidon}.rs"),("hash adapter","gadgets/src/hashes/abstract_hash.rs")])

p("P25","Table lookup circuits select exactly the addressed constant",
"For every table and every address, the one-, two- and three-bit lookup circuits return the addressed entry and are satisfied by the honest assignment, for constant and allocated address bits alike. No other result value satisfies the constraints for that address.",
["inputs"],"Every table content, every address, every mix of constant, negated and allocated address bits, every forged result.",
"The tests use a random table and honest assignments with allocated bits only.",
["gadgets/src/lookup/table.rs"],
[("lookup gadgets","gadgets/src/lookup/table.rs")])

p("P26","Range, non-zero and packed-equality circuits accept exactly the true cases",
"The range circuit is satisfiable exactly when the second value exceeds the first by at least one and by less than two to the stated bit width, the non-zero circuit exactly when its value is not zero, and packed equality exactly when every enqueued pair of bit strings is equal. Forged witnesses never make a false case satisfiable.",
["inputs"],"Every pair of values and bit width, including boundaries, equal values and wrapped differences; every forged witness; every sequence of packed equalities across the field's capacity.",
"Two fixed value pairs are tried for range; non-zero and overflow of the packing capacity are not.",
["gadgets/src/operator/rangeproof.rs","gadgets/src/algebra/fr.rs","gadgets/src/operator/multieq.rs"],
[("less-than circuit","gadgets/src/operator/rangeproof.rs"),("inverse witness","gadgets/src/algebra/fr.rs"),("accumulating equality","gadgets/src/operator/multieq.rs")])

p("P27","Binary Merkle trees root, prove and verify membership like the reference tree",
"For every list of leaves the root and every membership proof equal those of the complete-binary-tree definition, every proof verifies for its leaves and root, and a proof fails for any other leaf, position, sibling or root. Asking for an absent position yields no proof rather than a failure.",
["inputs","histories"],"Every number of leaves (including none and one), every set of requested positions in any order, every change of leaf, index, sibling or root.",
"The tests use a few fixed sizes and additive toy merging.",
["gadgets/src/merkletree/cbmt.rs"],
[("tree build, proof, verify","gadgets/src/merkletree/cbmt.rs")])

p("P28","The Merkle membership circuit is satisfiable only for true members",
"For every tree, leaf and honest path, the membership circuit computes the native root and is satisfied. With the public root and leaf fixed, no assignment is satisfying when the path does not hash to that root.",
["inputs"],"Every tree height, leaf, path and hash family, every false root, leaf, sibling or forged intermediate wire.",
"The tests only check that honest paths satisfy the circuit and one wrong root does not.",
["gadgets/src/merkletree/cbmt_constraints.rs","gadgets/src/hashes/abstract_hash.rs","gadgets/src/hashes/sha256.rs","gadgets/src/hashes/mimc.rs"],
[("path circuit","gadgets/src/merkletree/cbmt_constraints.rs")])

p("P29","The Curve25519 scalar field is the prime field of the group order",
"Every operation of the wrapped scalar field (arithmetic, inversion, exponentiation, square roots, Legendre symbol, byte and integer conversions, comparison, random sampling, published constants) agrees with arithmetic modulo the group order. Non-canonical encodings are refused or reduced consistently.",
["inputs"],"Every pair of field elements, including zero, one, the order's neighbours and limb boundaries, every exponent, every byte string.",
"The tests compare a few random sums and products with the wrapped library.",
["curve25519/src/fr.rs","curve25519/src/lib.rs"],
[("field wrapper and parameters","curve25519/src/fr.rs")])

p("P30","The Curve25519 group wrapper obeys the group law and its encodings",
"Every operation of the wrapped group (addition of points in either representation, doubling, negation, scalar and multi-scalar multiplication, normalisation, generators, hashing in from bytes, serialization) agrees with the group of prime order it wraps, and all interfaces to one operation give the same result.",
["inputs","programs"],"Every program of group operations on every points and scalars, including the identity and equal or opposite operands, and every encoding.",
"The tests check a handful of identities on random points; doubling, normalisation and identity cases are not called.",
["curve25519/src/group.rs","curve25519/src/lib.rs","curve/src/lib.rs"],
[("group wrapper","curve25519/src/group.rs"),("multi-scalar entry point","curve/src/lib.rs")])

p("P31","Keys and proofs survive serialization unchanged",
"Every key, parameter set and proof of every scheme that can be serialized is restored by its matching deserialization to an equal object of exactly the announced size, compressed or not, and the restored objects verify exactly as the originals do.",
["inputs"],"Every key and proof of every scheme, compressed and uncompressed forms, from circuits of any shape.",
"A round trip is tested for two schemes with one fixed proof.",
["groth16/src/lib.rs","marlin/src/data_structures.rs","marlin/src/pc/data_structures.rs","plonk/src/data_structures.rs","spartan/src/data_structure.rs","libra/src/libra_zk_linear_gkr.rs","hyrax/src/hyrax_proof.rs","bulletproofs/src/arithmetic_circuit.rs","asvc/src/lib.rs","curve25519/src/group.rs"],
[("derived and manual serialization","each crate's CanonicalSerialize/CanonicalDeserialize implementations")])

p("P32","Malformed proofs are refused with an error or a negative verdict",
"For every byte string offered as a proof, decoding returns an error or an object, and verifying that object returns an error or a verdict: the process never aborts, hangs or exhausts memory. No byte string other than an encoding of a valid proof is accepted.",
["inputs","fault_sequences"],"Every truncation, extension, bit flip, length-field change, list-length change and random byte string for every scheme's proof decoder and verifier.",
"No test feeds a malformed proof to any decoder or verifier.",
["groth16/src/lib.rs","groth16/src/verifier.rs","bulletproofs/src/arithmetic_circuit.rs","bulletproofs/src/inner_product_proof.rs","marlin/src/lib.rs","marlin/src/ahp/verifier.rs","plonk/src/lib.rs","spartan/src/verify.rs","libra/src/libra_linear_gkr.rs","libra/src/libra_zk_linear_gkr.rs","hyrax/src/hyrax_proof.rs"],
[("proof verification entry points","each crate's verify function")])

p("P33","The command-line tools accept true claims, refuse false ones, and agree",
"For every scheme, curve and circuit the command-line tools offer, setting up, proving a true claim and verifying its file reports success, and a proof file whose claim, proof or key was changed to another one, or which was made for a false claim, is never reported as valid.",
["inputs","configurations","fault_sequences"],"Every offered scheme, curve and circuit, every claim value, every altered field of the proof file, every mismatch of key and proof.",
"There is no test of the tools.",
["cli/src/setup.rs","cli/src/zkp_prove.rs","cli/src/zkp_verify.rs","cli/src/circuits/mini.rs","cli/src/circuits/hash.rs"],
[("command drivers","cli/src/*.rs"),("built-in circuits","cli/src/circuits/*.rs")])

p("P34","Sequential and multi-threaded builds give identical results",
"Given the same randomness and inputs, the sequential and the multi-threaded build produce byte-identical keys, indices and proofs in every scheme, whatever the number of worker threads, and each build accepts what the other produces.",
["configurations","schedules","inputs"],"Every scheme, circuit shape and size (including those smaller than the number of threads), every thread count.",
"The suite runs the multi-threaded build only, with one thread count.",
["groth16/src/prover.rs","groth16/src/generator.rs","groth16/src/r1cs_to_qap.rs","marlin/src/ahp/prover.rs","marlin/src/ahp/arithmetic.rs","marlin/src/pc/kzg10.rs","plonk/src/ahp/prover.rs","plonk/src/lib.rs"],
[("conditional parallel iterators","cfg(feature = \"parallel\") sections")])

p("P35","Native field-friendly hashes distinguish messages and never fail",
"Hashing any byte string, including the empty one, with the native MiMC, Rescue and Poseidon functions returns a digest that is deterministic and depends on every byte of the message. Two different messages of equal length never share a digest because part of a message was ignored.",
["inputs"],"Every message of every length (empty, shorter than, equal to and longer than a block, ragged tails) and every single-byte change.",
"The tests hash one fixed short message against itself.",
["gadgets/src/hashes/mimc.rs","gadgets/src/hashes/rescue.rs","gadgets/src/hashes/poseidon.rs"],
[("byte-chunk absorption","gadgets/src/hashes/{mimc,rescue,poseidon}.rs: hash")])

p("P36","Native field-friendly hashes are the fixed functions their constructions define",
"The native MiMC digest is the chained 322-round cubing Feistel network with constants drawn from the fixed seed; the Rescue and Poseidon digests are the chained sponge blocks with the published round constants, mixing matrices, round schedule and S-boxes; messages enter as 32-byte little-endian chunks reduced into the field, the empty message as one zero chunk. Every digest, for every message and for both supported scalar fields, equals that definition, so stored digests and Merkle roots keep their meaning; blocks computed under caller-given constants use exactly those.",
["inputs"],"Every byte string, every pair of field elements, every single constant changed.",
"The tests compare the functions with circuits that share their constants and code, never with a fixed definition.",
["gadgets/src/hashes/mimc.rs","gadgets/src/hashes/rescue.rs","gadgets/src/hashes/poseidon.rs"],
[("MiMC","gadgets/src/hashes/mimc.rs: constants, mimc_block, mimc_hash"),("Rescue","gadgets/src/hashes/rescue.rs: constants, rescue_block, rescue_hash"),("Poseidon","gadgets/src/hashes/poseidon.rs: constants, poseidon_block, poseidon_hash")])
p("P37","On-chain verifier scripts succeed exactly on valid cells",
"The Groth16, Plonk, Marlin and Bulletproofs verifier scripts, given the output cells (key, proof, public values) of an honest proof, end with success; they end with a failure when a cell is missing or cut short, when the proof is altered, holds points off the curve or outside the prime-order group, or belongs to another statement, when the public values are others, and when the cells are exchanged. For a well-formed key their verdict is that of the library with every decoding check on. A claim about the script's own circuit cannot be proved with a circuit of the prover's making.",
["inputs","programs","fault_sequences"],"Every circuit, assignment and randomness; every alteration of every cell.",
"The scripts are outside the workspace and need a chain simulator and network to be tested at all; their sample tests run one honest proof each.",
["ckb-contracts/contracts","groth16/src","plonk/src","marlin/src","bulletproofs/src"],
[("Groth16 script","ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs: main"),("Plonk script","ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs: main"),("Marlin script","ckb-contracts/contracts/universal_marlin_verifier/src/entry.rs: main"),("Bulletproofs script","ckb-contracts/contracts/mini_bulletproofs_verifier/src/entry.rs: main")])
p("P38","Setups hold no shortcut: unrelated generators, fresh trapdoors",
"Whatever circuit or size a setup is asked for, the generators of every commitment key it draws (Bulletproofs, Libra, Hyrax, Spartan), the blinding generator included, are members of the prime-order group, none neutral, and none follows from others: no repetitions, negatives, small multiples, sums, or progressions among their logarithms; and every key has a generator for each value it commits to. The trapdoors of Groth16 (alpha, beta, gamma, delta, evaluation point), of the universal setup of Marlin (the evaluation point, the logarithm of the blinding generator) and of the vector commitment are non-zero, no roots of unity, unrelated to each other, the same in both groups, and fresh in every key; the blinding generator is no power of the key.",
["inputs","programs"],"Every circuit shape and size and all randomness a setup is given.",
"The tests prove and verify under keys whose logarithms nobody can see: a key with a known relation works as well as a sound one.",
["bulletproofs/src/arithmetic_circuit.rs","libra/src/params.rs","hyrax/src/params.rs","spartan/src/setup.rs","groth16/src/generator.rs","marlin/src/pc/kzg10.rs","asvc/src/lib.rs"],
[("Bulletproofs generators","bulletproofs/src/arithmetic_circuit.rs: create_random_proof, create_generators"),("Libra and Hyrax parameters","libra/src/params.rs, hyrax/src/params.rs: Parameters::new"),("Spartan parameters","spartan/src/setup.rs: generate_setup_nizk_parameters, generate_setup_snark_parameters"),("Groth16 trapdoors","groth16/src/generator.rs: generate_random_parameters"),("universal setup","marlin/src/pc/kzg10.rs: setup"),("vector commitment key","asvc/src/lib.rs: key_gen")])

p("P39","A circuit means the same however it is written down, in every system",
"Keys made from one way of writing a circuit accept the proofs made from any other way of writing it, in Groth16, Marlin, Bulletproofs and both variants of Spartan: with or without (nested) namespaces, through borrowed or wrapped constraint systems, with any spelling of its linear combinations over the same variables (order, split coefficients, sums and differences of combinations, constraint variables), and every constraint system counts its constraints alike; a violated constraint is not hidden by any of them. Where a value of the assignment cannot be computed, or synthesis gives up with an error, key generation and the prover report an error: they neither panic nor yield keys or a proof.",
["inputs","programs"],"Every circuit, every two ways to write it, every step at which synthesis can fail.",
"The tests write each circuit in one way, under one key, with a full assignment: whether the key generator, the prover and the wrappers see the same constraints under another writing, and what a failing synthesis does, is not run.",
["r1cs/src/constraint_system.rs","r1cs/src/impl_lc.rs","gadgets/src/operator/multieq.rs","groth16/src/generator.rs","groth16/src/prover.rs","marlin/src/ahp/constraint_systems.rs","bulletproofs/src/arithmetic_circuit.rs","spartan/src/r1cs.rs","spartan/src/prover.rs"],
[("namespaces and borrows","r1cs/src/constraint_system.rs: Namespace, &mut CS"),("Groth16","groth16/src/generator.rs: KeypairAssembly; groth16/src/prover.rs: ProvingAssignment"),("Marlin","marlin/src/ahp/constraint_systems.rs"),("Bulletproofs","bulletproofs/src/arithmetic_circuit.rs: ProvingAssignment"),("Spartan","spartan/src/r1cs.rs: R1CSInstance; spartan/src/prover.rs: ProvingAssignment")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
