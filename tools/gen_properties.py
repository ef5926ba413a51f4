#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
DS, GEN, ST, VER, COM, PRV = ("src/data_structures.rs", "src/generator.rs", "src/statement.rs", "src/verifier.rs",
                              "src/prover/commit.rs", "src/prover/prove.rs")

p("C01", "Every honest proof of a satisfied equation is accepted",
  "For each of the four equation types, any number (at least one) of variables on each side, any constants, exponents and witness values (zero, identity, repeated and negated ones included) that satisfy the equation, and any well-formed CRS, whether binding or hiding, the proof obtained by committing and proving is accepted by the verifier for that equation and CRS. "
  "The proof carries one commitment per variable, and its size depends only on the equation type: 2+2 elements for pairing products, 2+1 and 1+2 for the multi-scalar types, 1+1 for quadratic equations.",
  ["inputs", "configurations"], "all equation types, dimensions >= 1, satisfying assignments, CRSs and prover randomness",
  "tests/prover.rs proves one 2x1 instance per type, always with the same sparse exponent matrix, one fixed RNG seed and a binding CRS.",
  [PRV, VER, COM, DS], [("prove/commit_and_prove for the four types", PRV), ("verify for the four types", VER), ("linear maps and matrix products", DS)],
  ["commit_and_prove, prove and verify on the public API"])

p("C02", "Under a binding CRS an accepted proof implies the statement is true",
  "Under any CRS made by the generator (or any other binding CRS), whenever the verifier accepts a set of commitments and a proof for an equation, the values that those commitments determine satisfy that equation. "
  "This holds for proofs made by the library for unsatisfied equations and for proofs computed by an adversary who knows every discrete logarithm, including proofs that satisfy all but one component of the verification equation: all of these are rejected when the committed values do not satisfy the equation.",
  ["inputs", "configurations"], "all equations, commitments, adversarial proof elements and binding CRSs",
  "No test ever calls the verifier on anything it should reject; a verifier that returns true unconditionally passes the whole suite.",
  [VER, DS, GEN], [("the four verify implementations", VER), ("equality and sums in the target commitment group", DS), ("binding key generation", GEN)],
  ["return value of verify, commitments in the proof, CRS elements"])

p("C03", "The verdict is exactly the Groth-Sahai verification equation",
  "For every well-shaped equation, list of commitments, proof and CRS (honest or not), the verifier returns true exactly when the Groth-Sahai verification equation of that type holds in all four components. "
  "So any change to a constant, exponent, target, commitment, proof element or key element that breaks the equation turns acceptance into rejection, a change that does not break it leaves the verdict alone, and the verdict never depends on the prover's secret randomness carried along with commitments and proofs.",
  ["inputs", "configurations"], "all equations, commitments, proof elements and CRS elements of matching shapes",
  "The tests only see four accepting runs; no test perturbs any component, so no test relates the verdict to most of the terms.",
  [VER, DS], [("verify for PPE, MSMEG1, MSMEG2, QuadEqu", VER), ("pairing_sum, linear maps into BT, ComT equality", DS)],
  ["return value of verify against an independent evaluation on discrete logarithms"])

p("C04", "Malformed or mismatched proofs are never accepted",
  "A proof is never accepted if its declared type differs from the equation's type, if it carries no equation proof or more than one, or if the number of its commitments or proof elements, or the dimensions of the equation's constants or exponent matrix (ragged rows included), do not match what the equation type requires. "
  "The verifier then returns false or aborts the call with a panic, and the library stays fully usable afterwards.",
  ["inputs", "histories"], "all combinations of equation and proof with at least one shape, count or type mismatch",
  "No test passes a malformed proof to the verifier; with optimisation the debug-only checks would also vanish unnoticed.",
  [VER, DS, PRV], [("type and count assertions at the head of verify", VER), ("length checks in pairing_sum, left_mul and right_mul", DS)],
  ["return value or panic of verify"])

p("C05", "Commitments bind: the CRS trapdoor recovers exactly the committed value",
  "Under a CRS made by the generator, for every group element or scalar (zero, identity, repeated values included) and every randomness, the commitment, single or at any position of a batch of any length, opens to exactly that value: extraction with the trapdoor returns it, and the commitment equals the value's linear map plus the recorded randomness times the key. "
  "A batch keeps the order and number of the values, and appending one list of commitments to another keeps all of them in order and empties the second.",
  ["inputs", "histories"], "all values, batch lengths, randomness, CRSs and append sequences",
  "The tests compare batches of 3 small multiples of the generator with single commitments for one seed; a common error in both, or one in longer batches, is invisible and nothing is ever extracted.",
  [COM, DS, GEN], [("commit_* and batch_commit_* functions", COM), ("append", COM), ("linear_map / scalar_linear_map", DS)],
  ["coms of the returned commitments, their serialized randomness"])

p("C06", "Commitments perfectly hide under a hiding CRS",
  "Under a hiding CRS the joint distribution of a list of commitments, over the caller's random generator, is uniform over the span of the commitment keys (all commitment-group elements for group values) and is the same for every list of committed values, for single and batch commitments of any length. "
  "Each committed group element is masked with two and each committed scalar with one freshly and independently drawn field element.",
  ["inputs", "configurations"], "all values, batch lengths, hiding CRSs, and all outcomes of the random generator",
  "A distribution cannot be seen by tests that run each commitment once with a fixed seed; reused or constant randomness would pass all of them.",
  [COM, DS], [("random matrices R, S, r, s in the commit functions", COM)],
  ["coms of the returned commitments over enumerated generator outcomes"])

p("C07", "Proofs are perfectly witness-indistinguishable under a hiding CRS",
  "Under a hiding CRS, for any equation and any two witnesses that satisfy it, the joint distribution of commitments and proof elements over the caller's random generator is the same. "
  "For given commitments, the proof elements are uniform over all proof elements that the verifier would accept with them.",
  ["inputs", "configurations"], "all equations, witness pairs, hiding CRSs and all outcomes of the random generator",
  "Tests produce one proof per equation type with a fixed seed; a proof without randomization, or with reused randomness, still verifies.",
  [PRV, COM], [("pf_rand (T) terms of pi and theta in each prove", PRV), ("commitment randomness", COM)],
  ["coms, pi and theta over enumerated generator outcomes"])

p("C08", "CRS generation yields well-formed, independent, binding keys",
  "Every generated CRS consists of non-trivial generators of both groups, the target generator equal to their pairing, and per side a two-element key whose first element starts with that side's generator and whose second element is a multiple of the first (so that the key is binding). "
  "All generators and exponents of both sides are drawn independently and uniformly from the caller's random generator: no trapdoor value is shared between the two sides, between the two key elements, or between two CRSs.",
  ["inputs", "configurations"], "all outcomes of the caller's random generator",
  "The tests look at a single seed, check the target generator and non-triviality, and recompute one coordinate per side with the library's own helper.",
  [GEN], [("generate_crs, prepare_real_binding_key", GEN)], ["fields of the returned CRS, as discrete logarithms"])

p("C09", "The maps into the commitment groups are linear and commute with pairings",
  "The maps from group elements and from scalars into the commitment groups are additive and compatible with scalar multiplication for all inputs (zero and identity included), injective under a binding CRS, and their batch forms map every element in order for any length. "
  "For each of the four equation types, mapping two values and pairing them in the commitment groups gives the same result as pairing the values and mapping the result into the target commitment group, for every CRS.",
  ["inputs", "configurations"], "all values and all CRSs",
  "tests/commit.rs checks one random pair per type; linearity, zero and identity inputs and batches longer than two are not covered.",
  [DS], [("linear_map, scalar_linear_map, batch_* on Com1/Com2", DS), ("linear_map_PPE/MSMEG1/MSMEG2/quad on ComT", DS)], ["returned commitment-group elements"])

p("C10", "The commitment groups obey the laws of abelian groups and modules",
  "In each of the three commitment groups, addition is associative and commutative with the zero element as identity, negation gives inverses, subtraction, in-place forms and sums over any number of elements agree with addition, and scalar multiplication is a module action; all act entry-wise. "
  "Equality and the zero test are exact: two elements are equal if and only if every component is equal, and conversions to and from vectors and matrices are lossless: a matrix that is not of the shape of an element is refused rather than read in part.",
  ["inputs"], "all group elements, including identity entries, equal and opposite operands, and all scalars",
  "The tests use a few random elements; coincident, opposite, partially zero operands and elements that differ in a single component are never tried.",
  [DS], [("impl_base_commit_groups!, ComT operators, Zero, Sum, From<Matrix>", DS), ("scalar_mul on Com1/Com2", DS)], ["values returned by the operators"])

p("C11", "The commitment pairing is bilinear, entry-wise and sums exactly",
  "Pairing two commitment-group elements yields the four pairings of their entries in fixed positions, is linear in both arguments, maps zero to zero, and distinguishes different arguments. "
  "The pairing sum of two lists of equal length, of any length including zero, equals the sum of the individual pairings, and lists of different length are refused.",
  ["inputs"], "all pairs of elements and all list lengths",
  "The tests pair a few random elements and sum two pairs; other lengths, repeated, opposite or identity entries and length mismatches are not covered.",
  [DS], [("pairing, pairing_sum on ComT", DS)], ["returned target-group elements, panics on length mismatch"])

p("C12", "Matrix operations equal the mathematical definition for every shape",
  "For non-empty matrices of scalars or of commitment-group elements of every compatible rectangular shape, addition, negation, scalar multiplication, transposition and multiplication by a scalar matrix from the left or right equal the textbook definition, and sequential and parallel multiplication agree entry by entry. "
  "Products and sums whose operands have incompatible shapes (ragged rows included) are refused rather than silently truncated, products with an empty operand are empty, and conversion between vectors and column matrices is lossless.",
  ["inputs", "schedules"], "all shapes, entries and thread-pool sizes",
  "The tests use a handful of matrices of at most 3 rows or columns; larger or unusual shapes, where parallel splitting starts to matter, and shape errors are never exercised.",
  [DS], [("impl Mat for Matrix<F>, Matrix<Com1>, Matrix<Com2>", DS), ("vec_to_col_vec, col_vec_to_vec", DS)], ["returned matrices, panics on shape mismatch"])

p("C13", "Serialization is lossless, canonical and sized as announced",
  "Every CRS, commitment element, commitment list with its randomness, proof, equation of each type and equation-type tag survives serialization and deserialization unchanged in both the compressed and the uncompressed form, for all sizes and values (identity points and empty lists included). "
  "The announced size is exactly the number of bytes written, equal values give equal bytes, the reader consumes exactly those bytes, and a deserialized object behaves like the original: proofs verify and commitments can still be proved about.",
  ["inputs", "histories"], "all values of all serializable types, both encodings",
  "The tests round-trip one object of each kind with one or two elements; identity points, longer and empty lists, announced sizes and behaviour after the round trip are not checked.",
  [ST, COM, PRV, GEN, DS], [("CanonicalSerialize/CanonicalDeserialize derives and the manual EquType impl", ST), ("derives on Commit1/Commit2", COM), ("derive on EquProof", PRV), ("derive on CRS", GEN)],
  ["bytes written, values read back"])

p("C14", "Deserialization never accepts invalid encodings",
  "Validated deserialization of any of the library's types never succeeds on bytes that contain a point off the curve or outside the prime-order subgroup, a target element outside the pairing's image group, a scalar or coordinate that is not reduced, an unknown equation-type tag, or fewer bytes than needed, wherever in the object this occurs. "
  "Any byte string that is accepted decodes to a value that encodes to the same bytes again.",
  ["inputs", "fault_sequences"], "all byte strings (with length prefixes small enough to allocate), every position of a fault",
  "The tests only deserialize bytes that the library has just written.",
  [ST, COM, PRV, GEN, DS], [("derived CanonicalDeserialize and Valid", DS), ("EquType::deserialize_with_mode", ST)], ["result of deserialize_compressed / deserialize_uncompressed"])

p("C15", "Results do not depend on threads or schedules",
  "Commitments, proofs, matrix products and verdicts are a function of their inputs and the random generator only: they are identical for every size of the thread pool, inside or outside of it, under every interleaving and delay of the parallel tasks, and when many calls run concurrently on shared inputs. "
  "Every such call terminates on every pool size, including a single thread and nested use.",
  ["schedules", "configurations"], "all thread-pool sizes, interleavings of parallel tasks and numbers of concurrent callers",
  "Each test runs once on the default pool with matrices of at most three rows, whose tasks finish too fast to be reordered.",
  [DS, PRV, VER], [("nested into_par_iter/collect in left_mul and right_mul", DS), ("is_parallel = true in prove and verify", PRV)], ["serialized outputs under perturbed schedules"])

p("C16", "Statements of several equations share one set of commitments",
  "For any list of equations of mixed types over shared group and scalar variables, the variables can be committed once (in one batch, one by one, or in parts that are appended) and each equation proved against these same commitments; every equation's proof verifies with them when the equation is satisfied. "
  "A proof made for one equation, or against one set of commitments, is rejected with another equation that differs in its constants, exponents or target, or with other commitments to the same values, unless it happens to satisfy that verification equation as well.",
  ["inputs", "histories", "programs"], "all lists of equations, ways of building the commitments, and orders of proving",
  "No test proves about more than one equation, reuses commitments, or combines separately made commitments in a proof.",
  [PRV, COM, VER, ST], [("prove against given commitments", PRV), ("append", COM), ("statement documentation", ST)], ["verdicts for proofs over shared commitments"])

p("C17", "All randomness comes from the caller's generator, fresh for every call",
  "CRS generation, committing and proving are deterministic functions of their inputs and of the values drawn from the generator passed in, and use no other source of randomness. "
  "A batch commitment gives the same result as committing to the values one by one with the same generator, the one-step commit-and-prove equals committing to the first-side variables, then the second-side variables, and proving, and successive calls on the same inputs use fresh draws, so that their commitments and proofs differ.",
  ["inputs", "histories"], "all inputs, generator streams and sequences of calls",
  "The tests compare batch and single forms for three values and one seed; nothing observes how many values are drawn, whether draws are reused, or that repeated proofs differ.",
  [COM, PRV, GEN], [("rng parameters of commit, prove and generate_crs", COM), ("commit_and_prove", PRV)], ["outputs under recorded and replayed generators"])

p("C18", "Operations have no memory: results do not depend on earlier calls",
  "Any operation gives the same result no matter which operations were performed before it, in what order, on which thread, with which other CRSs and equations, on which objects dropped or moved in memory since, and whether or not earlier calls panicked. "
  "Arguments passed by reference are left unchanged.",
  ["histories", "schedules"], "all sequences and interleavings of operations in one process",
  "Every test performs one short fixed sequence of operations on one CRS.",
  [PRV, VER, COM, DS, GEN], [("absence of global state: all operations take their CRS and inputs explicitly", VER)], ["outputs of the same operations replayed in different histories"])

p("C19", "Execution is free of undefined behaviour, data races and leaks",
  "Every execution of CRS generation, committing, proving, verifying, matrix arithmetic and (de)serialization through the safe interface, sequential or concurrent and for every accepted shape of input, is free of out-of-bounds and use-after-free accesses, reads of uninitialised memory, aliasing violations, data races and arithmetic overflow, and memory in use does not grow with the number of completed calls.",
  ["inputs", "schedules", "histories"], "all operations, shapes and interleavings",
  "Ordinary test runs do not notice undefined behaviour, races or leaks that leave the tested results intact.",
  [DS, PRV, VER, COM, GEN, ST], [("safe Rust; rayon's parallel iterators in left_mul and right_mul", DS)], ["Miri, ThreadSanitizer, AddressSanitizer reports; allocation counters"])

p("C20", "The prover refuses inputs of disagreeing shape",
  "For an equation with at least one variable on each side, proving (with or without committing first) never returns a proof when the numbers of values, commitments, constants, or rows or columns of the exponent matrix disagree, when that matrix is ragged, or when a list of commitments is of the other kind than the equation type calls for or has scalar commitments where group commitments are called for: the call is refused instead. "
  "Appending commitment lists refuses lists whose numbers of commitments and of random values differ. "
  "A refused call leaves all its arguments unchanged and the library usable.",
  ["inputs", "fault_sequences"], "all equations, witnesses and commitment lists of disagreeing shape, all positions of a fault",
  "No test gives the prover inputs that do not fit together.",
  [PRV, COM, ST, DS], [("assertions at the start of prove and commit_and_prove", PRV), ("assertions in append", COM)], ["panics, returned proofs, arguments after the call"])

p("C21", "Equality of library objects is exact and copies are independent",
  "Two commitment-group elements, commitment lists, proofs, proof components, equations or equation-type tags compare equal if and only if they agree in every component: every value, the length and order of every list, the type tag and the recorded randomness. "
  "Equality and inequality are consistent with each other; a copy equals its original, and changing either does not affect the other.",
  ["inputs"], "all pairs of objects of one type, including pairs that differ in a single component, length or order",
  "The tests compare objects that are equal; objects that differ in one place, or where one is a prefix of the other, are never compared.",
  [DS, COM, ST, PRV], [("PartialEq for Com1, Com2, ComT", DS), ("PartialEq for Commit1, Commit2", COM), ("derived PartialEq and Clone", ST)], ["results of == and !=, components after clone and change"])

p("C22", "Faults while bytes are transferred are reported",
  "Writing or reading any of the library's objects through a writer or reader that fails at some byte reports an error, whichever byte that is: it never claims success and never yields an object, and the bytes transferred before the fault are those of the normal encoding. "
  "Transfers that proceed in pieces or are interrupted and resumed give the same bytes and objects as undisturbed ones, and objects that lie completely before a fault in a stream remain readable.",
  ["crash_points", "fault_sequences"], "all objects, encodings and bytes at which a transfer fails, all divisions into pieces",
  "The tests write to and read from vectors in memory, which never fail and never deliver less than asked.",
  [ST, DS, COM, PRV, GEN], [("manual serialization of EquType", ST), ("derived serialization", DS)], ["results of serialize and deserialize, bytes that reached the writer"])

p("C23", "The byte encoding is fixed",
  "Every object is encoded as its components in a fixed order and nothing else (a CRS as u, v, g1_gen, g2_gen, gt_gen; an equation as a_consts, b_consts, gamma, target; a list of commitments as the commitments, then the recorded randomness; a proof as pi, theta, type, recorded randomness; group elements of B1, B2, BT entry by entry): group elements, target elements and scalars in arkworks' compressed or uncompressed form, lists and matrix rows preceded by their length as a 64-bit little-endian number, the equation type as one byte (0 PPE, 1 MSMEG1, 2 MSMEG2, 3 quadratic). "
  "So what one build of the library writes every other build reads as the same object, and recorded CRSs, statements, commitments and proofs stay valid.",
  ["inputs", "histories"], "all objects of all types and sizes, both forms, and encodings written by earlier builds",
  "The tests decode only what the same build has just encoded, so a change of the format on both sides goes unnoticed.",
  [ST, DS, COM, PRV, GEN], [("'The order of the variants must be preserved for serialization.'", ST), ("derived serialization of Commit1, Commit2, EquProof, CRS and the equations", COM)], ["bytes written; objects read from bytes of an independent encoder and from recorded bytes"])

p("C24", "Operations touch nothing outside of the process and disclose no secrets",
  "CRS generation, committing, proving, verifying, matrix arithmetic and (de)serialization, whether they return or refuse, act only through their arguments, their results and the caller's random generator, reader or writer: they write no output and no files, use no network, look at no files, environment variables or clock, and leave the settings of the process (working directory, environment, signal handling, panic hook, global thread pool) as they were; no thread they start outlives them, but for those of a thread pool. "
  "The message of a refused call is the same whatever the secret witness and randomness are.",
  ["inputs", "fault_sequences", "histories"], "all operations with valid and invalid arguments, inside and outside of thread pools",
  "Tests look at results only; a write to a stream or file, a look at the environment or a secret in a message passes them.",
  [PRV, VER, COM, GEN, DS, ST], [("all operations take their inputs explicitly", PRV), ("assertion messages of prove and append", PRV)], ["system calls made inside of library calls; environment and clock lookups; messages of refused calls"])

p("C25", "Proofs are zero-knowledge under a hiding CRS",
  "Whoever knows the trapdoor of a hiding CRS can produce, without any witness, commitments and proofs for every statement of multi-scalar multiplication and quadratic equations and of pairing-product equations whose target is the identity: commitments to zeros, and proofs in which each target is a term with the image of one as a commitment that opens to zero. "
  "The verifier accepts them, also when no witness is known or the equations are not satisfiable, and commitments and proofs of the whole statement together are distributed exactly as those of a prover who uses a witness, which therefore reveal nothing about it.",
  ["inputs"], "all statements (also of several equations of different types over shared lists of variables), witnesses and outcomes of the random generator",
  "A simulator and the distribution of proofs do not occur in any test; a leak of the witness leaves all proofs acceptable.",
  [PRV, COM, VER, GEN], [("prove of the four equation types", PRV), ("batch_commit_*", COM), ("'zero-knowledge proofs' in README.md", "README.md"), ("prepare_simulated_hinding_key", GEN)], ["distribution of commitments and proofs over all outcomes of the generator", "verdicts on simulated proofs"])

p("C26", "Work and memory are bounded by the size of what is processed",
  "The number of group operations, pairings and field multiplications and the memory that committing, proving, verifying, refusing, matrix arithmetic, (de)serialization, comparison and copying take grow at most in proportion to the number of entries of the lists and matrices involved (m + n + m*n for an equation with m and n variables), CRS generation takes a constant amount, and a call costs the same however many calls have been made before; nothing is kept between calls.",
  ["inputs", "histories"], "all operations, sizes of statements and numbers of earlier calls",
  "Tests run single small instances and measure nothing; a superlinear step or a slowly growing store leaves their results intact.",
  [PRV, VER, COM, DS, GEN, ST], [("left_mul, right_mul, pairing_sum", DS), ("verify of the four equation types", VER), ("append", COM)], ["operations of the instrumented engine per call", "bytes allocated, in use and kept per call"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
