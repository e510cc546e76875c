#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so wording and anchors stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "sunscreen_tfhe/src/"
R = "parasol_runtime/src/"
C = "parasol_cpu/src/"
M = "mux_circuits/src/"
S = "sunscreen_math/src/"

# ------------------------------------------------------------------ CPU
p("C01", "Out-of-order execution of a program equals in-order execution",
  "For every program, input memory and thread schedule, running the program on the computer ends with exactly the return value and memory contents (after decryption) that executing its instructions one at a time in program order gives, whichever operands are plaintext and whichever are encrypted. Every program that halts in order also halts on the computer.",
  ["programs", "schedules", "inputs"], "all instruction sequences (register and memory hazards, branches, mixes of plaintext and encrypted operands), all completion orders of asynchronous operations, all inputs",
  "The tests run a few straight-line programs whose hazards are incidental; they cannot cover the product of hazards, branches and completion orders.",
  [C+"tomasulo/tomasulo_processor.rs", C+"tomasulo/registers.rs", C+"tomasulo/scoreboard.rs", C+"proc/fhe_processor.rs", C+"proc/ops"],
  [("register renaming and reorder-buffer references", C+"tomasulo/registers.rs"), ("dependency capture at dispatch", C+"tomasulo/tomasulo_processor.rs"), ("memory dependency table", C+"proc/fhe_processor.rs"), ("branch resolution", C+"proc/fhe_processor.rs")],
  [("rename table", "newest producer of every architectural register", C+"tomasulo/registers.rs"), ("in-flight memory operations", "last writers/readers per byte address", C+"proc/fhe_processor.rs")],
  ["FheComputer::run_program result", "Memory contents after the run"], "optional schedule perturbation in the shared concurrency primitives")
p("C02", "Each instruction computes its defined result at every operand width",
  "For every instruction, every legal operand width and every operand value, the result written to the destinations is the instruction's mathematical definition truncated to the destination width (two's complement where signed), and an encrypted operand gives, after decryption, the same result as the plaintext operand. Operand combinations outside the definition (mismatched widths, a rotation of an operand whose width is not a power of two by an encrypted amount) end in an error, never in a wrong value or an abort.",
  ["inputs", "programs"], "all opcodes x operand widths (1..128) x values x plaintext/encrypted operand kinds",
  "Tests exercise a handful of widths (mostly 8/16/32) and a few values per opcode, so width-dependent masks, carries, sign extensions and shift amounts at or beyond the width are never reached.",
  [C+"proc/ops", C+"proc/fhe_processor.rs", R+"circuits", M+"lib.rs"],
  [("per-opcode execution", C+"proc/ops"), ("width checks", C+"proc/mod.rs"), ("circuit construction for encrypted operands", R+"circuits")],
  None, ["values stored to memory and returned by a program"])
p("C03", "Faults, gas limits and halting are exact and leave the computer reusable",
  "A program that stays within its gas limit and performs only legal operations returns its value and the gas it used; any other program that ends returns an error and no value, and never hangs or aborts. When nothing encrypted is being computed the error is of the class (gas, memory, width, encryption mismatch, bad instruction) of the first fault in program order; while encrypted operations are pending it may be that of a later instruction. After either outcome the same computer runs the next program exactly as a new computer would.",
  ["programs", "fault_sequences", "histories"], "all programs, gas limits and sequences of successful and failing runs on one computer",
  "Tests check single faults on fresh computers; sequences of failing and succeeding runs, limits that sit exactly on the consumption, and faults racing in-flight encrypted operations are not sampled.",
  [C+"proc/fhe_processor.rs", C+"tomasulo/tomasulo_processor.rs", C+"error.rs"],
  [("fault cell, first error wins", C+"proc/mod.rs"), ("gas accounting at dispatch", C+"proc/fhe_processor.rs"), ("reset at program start", C+"tomasulo/tomasulo_processor.rs")],
  [("gas", "units consumed by dispatched instructions", C+"proc/fhe_processor.rs")],
  ["Result of FheComputer::run_program(_with_options)"])
p("C04", "Guest memory behaves as a byte map with disjoint allocations",
  "Over any history of mapping, allocation, stack and read/write calls, live allocations never overlap and are fully mapped, aligned as requested, and initialised; a read returns the last bytes written to those addresses; and any access touching an unmapped or wrapping address fails with an access error and changes nothing.",
  ["histories", "inputs"], "all sequences of allocation, allocation-at-address, stack push/pop and load/store calls, all sizes, alignments and addresses including page edges and the ends of the address space",
  "Tests make a few allocations of convenient sizes; page-boundary, end-of-space and interleaved histories are out of reach.",
  [C+"memory/mod.rs"],
  [("page table lookup", C+"memory/mod.rs"), ("allocators", C+"memory/mod.rs")],
  [("page map", "virtual page to storage", C+"memory/mod.rs")],
  ["Memory public methods"])
p("C05", "Instruction encoding is lossless and illegal words are rejected",
  "Decoding the 64-bit encoding of any well-formed instruction yields that same instruction, distinct instructions have distinct encodings, and a word that is no instruction's encoding (up to the bits the format declares unused) makes the program fail with an illegal-instruction error rather than executing something or aborting.",
  ["inputs"], "all instructions with all field values; all 64-bit words",
  "Tests round-trip a few fixed instructions; they do not cover field boundaries for every opcode or non-encodings.",
  [C+"proc/assembly.rs"],
  [("encode/decode generated from the field table", C+"proc/assembly.rs")],
  None, ["IsaOp conversions to and from u64", "run_program on raw words"])
p("C06", "Calling convention round-trips every argument list and return value",
  "For any list of arguments of supported types (plaintext or encrypted integers of each width, pointers, arrays), the callee observes exactly the argument values at the places the convention assigns, each naturally aligned and not overlapping, and the caller gets back exactly the returned value; repeated calls on the same memory behave like the first one.",
  ["inputs", "histories"], "all argument lists (types, order, counts), all return types, repeated calls",
  "Tests use a few fixed signatures, once each.",
  [C+"proc/args.rs", C+"memory/mod.rs", C+"proc/fhe_processor.rs"],
  [("argument layout and padding", C+"proc/args.rs"), ("pushing call data on the guest stack", C+"memory/mod.rs")],
  None, ["what a guest program loads from its stack pointer", "values returned by run_program"])
# ------------------------------------------------------------------ runtime
p("R01", "The parallel circuit executor delivers the dataflow result exactly once",
  "For every acyclic circuit of homomorphic operations, every worker count, every backlog limit and every schedule, each operation runs exactly once and only after all its inputs are complete, the outputs decrypt to what the circuit's dataflow defines, completion is signalled exactly once and only after every operation finished, and an invalid circuit gives an error instead of a result. The executor can then run further circuits, also concurrently submitted ones, with the same guarantees.",
  ["schedules", "programs", "histories"], "all DAGs, all interleavings of dispatcher and workers, all backlog limits, all sequences of submissions",
  "Tests run a few circuits under whatever schedule happens; lost wake-ups and double completions need a precise interleaving of dispatch and completion.",
  [R+"circuit_processor/mod.rs", R+"circuit_processor/task.rs", R+"circuit_processor/completion_handler.rs"],
  [("dependency counters and subscription under lock", R+"circuit_processor/mod.rs"), ("backlog channel", R+"circuit_processor/mod.rs"), ("completion handler", R+"circuit_processor/completion_handler.rs")],
  [("remaining dependency count", "inputs not yet complete, plus one while dispatching", R+"circuit_processor/task.rs")],
  ["outputs of run_graph_blocking/spawn_graph", "completion callbacks"], "event callbacks at execute/complete; scheduler hook in the concurrency primitives")
p("R02", "Encrypted integer expressions evaluate to wrapping integer arithmetic",
  "For every expression over encrypted and plaintext signed or unsigned integers of any width (add, subtract, multiply, compare, select, resize, pack/unpack, and any mixture of ciphertext representations), compiling it to a circuit and running it gives, after decryption, the value of the same expression in wrapping two's-complement arithmetic (resizing a signed value to fewer bits keeps its sign bit and low bits). Reusing an intermediate value or an input several times never changes any result.",
  ["programs", "inputs"], "all expression graphs, widths, signedness, representations and operand values",
  "Tests evaluate single operators at one or two widths; compositions, conversions between representations and shared subexpressions are not sampled.",
  [R+"fluent", R+"circuits", R+"fhe_circuit.rs"],
  [("graph node types per representation", R+"fluent"), ("conversion insertion and pruning", R+"fhe_circuit.rs")],
  None, ["decrypted outputs of circuits built with the fluent API"])
p("R03", "Threshold-style recryption and client encryption reveal only the message",
  "Any value encrypted under the public key or the secret key decrypts under the secret key to that value, a ciphertext masked with a one-time pad and recrypted opens with that pad to the original value and with nothing else, and a pad or ciphertext of the wrong kind, size or key parameters is refused.",
  ["inputs", "histories"], "all values, widths, pad/ciphertext pairings including mismatched ones",
  "Tests take one value through each path; mismatched pairings and boundary values are not tried.",
  [R+"crypto/recryption.rs", R+"crypto/encryption.rs"],
  [("one-time-pad derivation and application", R+"crypto/recryption.rs")],
  None, ["recryption API results"])
p("R04", "Serialized keys and ciphertexts round-trip and corrupt ones are refused",
  "Deserializing the serialization of any key, ciphertext or packed integer yields an object that behaves identically, and bytes that are truncated, oversized, or carry dimensions other than the parameters' are rejected with an error instead of being accepted, aborting, or allocating without bound.",
  ["inputs", "fault_sequences"], "all serializable objects; all truncations and length-field corruptions",
  "Tests round-trip some objects and reject none or one malformed variant each.",
  [R+"safe_bincode.rs", R+"crypto/keys.rs", R+"crypto/ciphertext.rs", T+"entities"],
  [("size limits", R+"safe_bincode.rs"), ("validity checks after deserialization", R+"crypto")],
  None, ["safe deserialization API"])
# ------------------------------------------------------------------ mux circuits
p("M01", "Multiplexer circuits compute their integer functions, optimised or not",
  "For every width, each generated multiplexer circuit (add, subtract, multiply, negate, bitwise, shift and rotate, comparisons, signed and unsigned, with or without carry) evaluates on every input to the integer function it is named for. Optimisation, input remapping and serialization of any well-formed circuit never change its evaluated outputs.",
  ["inputs", "configurations"], "all circuit families, widths and inputs; all sequences of circuit transformations",
  "Tests sample a few widths and inputs per family; transformations are checked on one or two circuits.",
  [M+"lib.rs", M+"add.rs", M+"sub.rs", M+"mul.rs", M+"bitshift.rs", M+"comparisons.rs", M+"opt.rs"],
  [("circuit builders", M+"add.rs"), ("common-subexpression elimination", M+"opt.rs")],
  None, ["evaluation of the generated circuit"])
# ------------------------------------------------------------------ concurrency
p("L01", "The shared cell never aliases a mutable borrow, even after failed borrows",
  "Under every interleaving of borrows, mutable borrows and releases by any number of threads, including borrow attempts that are refused by a panic which the caller survives, a mutable borrow never coexists with any other borrow, and everything written through a mutable borrow is visible to the next borrower. A borrow is refused only when a conflicting borrow is live, and once all borrows are released every kind of borrow succeeds again.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of borrow/borrow_mut/drop on any number of threads, with refused borrows anywhere in the history",
  "Tests use one thread or a loose race and stop at the first refused borrow; what a refused borrow leaves behind, and the memory orderings, cannot be sampled by running on x86.",
  ["parasol_concurrency/src/lib.rs"],
  [("atomic borrow state", "parasol_concurrency/src/lib.rs"), ("guard drops", "parasol_concurrency/src/lib.rs")],
  [("borrow state", "free, n shared borrows, or one mutable borrow", "parasol_concurrency/src/lib.rs")],
  ["borrow/borrow_mut outcomes", "data accesses through guards"], "atomics routed through a schedulable shim")
p("L02", "The spinlock gives mutual exclusion and every release is seen",
  "Under every interleaving, at most one thread holds the lock, try-lock fails only while another holder exists, an unlocked lock can always be acquired again, a lock deliberately kept locked stays locked forever, and data written under the lock is visible to the next holder.",
  ["schedules", "histories"], "all interleavings of lock/try_lock/unlock/keep_locked on any number of threads",
  "Tests race a few threads on strongly ordered hardware; missing acquire/release edges and rare interleavings do not show.",
  ["parasol_concurrency/src/lib.rs"],
  [("compare-exchange acquire and release store", "parasol_concurrency/src/lib.rs")],
  [("lock word", "held or free", "parasol_concurrency/src/lib.rs")],
  ["lock/try_lock outcomes", "data accesses under the lock"], "atomics routed through a schedulable shim")
# ------------------------------------------------------------------ TFHE
p("T01", "Linear operations on ciphertexts act exactly on the plaintexts",
  "For every history of linear ciphertext operations (addition, subtraction, negation, plaintext addition and multiplication, monomial rotation, coefficient extraction, trivial encryption) over LWE and GLWE ciphertexts whose noise stays within bounds, decrypting any register gives the value the same history computes on the plaintexts modulo the plaintext space.",
  ["histories", "inputs"], "all operation sequences over a register file, all messages, rotations, extraction indices, parameter sets",
  "Tests apply one operation to one pair of messages with fixed parameters.",
  [T+"ops/ciphertext", T+"high_level.rs", T+"ops/encryption"],
  [("component-wise ciphertext arithmetic", T+"ops/ciphertext"), ("encode/decode", T+"math/torus.rs")],
  None, ["decryption of every register"])
p("T02", "Encrypted multiplexing selects exactly the chosen message",
  "For every history of encrypted selection and external products (selector bits in GGSW form, data in GLWE or GLev form), the output decrypts to the branch chosen by the selector bit, respectively to the product, for all messages, polynomial positions and parameter sets, in both the standard and Fourier representations.",
  ["histories", "inputs", "configurations"], "all selector/data combinations, nested selections and multiplexer trees, parameter sets",
  "Tests use one selection per test with constant polynomials.",
  [T+"ops/fft_ops.rs", T+"ops/ciphertext/glwe_ciphertext_ops.rs", T+"ops/encryption/ggsw_encryption.rs"],
  [("external product by decomposition", T+"ops/fft_ops.rs")],
  None, ["decryption of cmux/external product outputs"])
p("T03", "Programmable bootstrapping evaluates the lookup table on every input",
  "For every lookup table (univariate, bivariate and multi-output), every message in the padded plaintext space and every parameter set, programmable bootstrapping yields a fresh encryption of the table's entry for that message. This holds regardless of what the input ciphertext went through, as long as its noise was within bounds.",
  ["inputs", "histories", "configurations"], "all tables and messages of each plaintext width, input ciphertexts produced by any history",
  "Tests evaluate a fixed handful of tables and messages.",
  [T+"ops/bootstrapping/programmable_bootstrapping.rs", T+"ops/bootstrapping/blind_rotation.rs"],
  [("table layout and half-window shift", T+"ops/bootstrapping/programmable_bootstrapping.rs"), ("blind rotation", T+"ops/bootstrapping/blind_rotation.rs")],
  None, ["decryption of bootstrap outputs"])
p("T04", "Circuit bootstrapping yields a usable selector for the encrypted bit",
  "For every encrypted bit, circuit bootstrapping (through scheme switching or through private functional keyswitching) yields a selector ciphertext equivalent to a fresh encryption of that bit: multiplexing with it picks the branch the bit names, for every data and every chain of further operations within the noise budget.",
  ["inputs", "histories", "configurations"], "all bits, input histories, radix parameters and uses of the result",
  "Tests bootstrap a bit and decrypt the result once.",
  [T+"ops/bootstrapping/circuit_bootstrapping.rs", T+"ops/bootstrapping/scheme_switch.rs", T+"ops/automorphisms"],
  [("multi-digit bootstrapping", T+"ops/bootstrapping/circuit_bootstrapping.rs"), ("scheme switch", T+"ops/bootstrapping/scheme_switch.rs")],
  None, ["decryption after multiplexing with the result"])
p("T05", "Key switching, trace and scheme switching preserve the message",
  "Switching any ciphertext from one key to another (LWE or GLWE) leaves its message unchanged under the new key, the functional key switches apply exactly their linear function to the messages, the trace keeps exactly the constant coefficient scaled by the degree, and scheme switching turns an encryption of digits into a selector for the same message.",
  ["inputs", "histories", "configurations"], "all messages, polynomial positions, key pairs, parameter sets",
  "Tests switch one message per test at one parameter set.",
  [T+"ops/keyswitch", T+"ops/automorphisms/mod.rs", T+"ops/bootstrapping/scheme_switch.rs"],
  [("decomposition against switching keys", T+"ops/keyswitch")],
  None, ["decryption under the target key"])
p("T06", "Polynomial arithmetic is exact in the negacyclic ring",
  "For all operands and power-of-two degrees, polynomial addition, subtraction, negation, scalar multiplication, multiplication and multiply-accumulate, multiplication by positive and negative powers of X, and exponentiation substitution of X agree exactly with arithmetic modulo X^N+1 over the torus integers, on every vectorised code path and for every degree.",
  ["inputs", "configurations"], "all degrees, coefficients over the whole 32- and 64-bit range, exponents beyond N and 2N",
  "Tests use small coefficients at one or two degrees.",
  [T+"entities/polynomial.rs", T+"math/polynomial.rs", T+"math/simd", T+"ops/polynomial"],
  [("sign flip on wrap-around", T+"entities/polynomial.rs"), ("vector kernels", T+"math/simd")],
  None, ["coefficients of the results"])
p("T07", "Torus encoding, distance and modulus switching round correctly",
  "For every plaintext width below the torus width and every message, decoding an encoding perturbed by less than half a step returns the message; torus addition, subtraction, negation and scalar multiplication wrap exactly modulo the torus size; the torus distance is the shortest wrap-around distance; modulus switching of ciphertexts rounds to the nearest representable value, and narrowing a torus element gives a representable value adjacent to it.",
  ["inputs", "configurations"], "all widths (1..63), messages, perturbations, both torus sizes",
  "Tests cover a few widths and no perturbation at the rounding boundary.",
  [T+"math/torus.rs", T+"math/basic.rs", T+"ops/ciphertext/lwe_ciphertext_ops.rs"],
  [("round-half step in decode", T+"math/torus.rs")],
  None, ["return values of the torus operations"])
p("T08", "Radix decomposition yields bounded digits that recompose to the rounding",
  "For every value and every legal radix and digit count, decomposition yields exactly the configured number of digits, each within half a radix of zero, whose weighted recombination equals the value rounded to the represented precision; scalar and polynomial decompositions agree coefficient by coefficient.",
  ["inputs", "configurations"], "all values, all (radix, count) with product at most the torus width",
  "Tests check a few values at a few radices.",
  [T+"math/radix.rs"],
  [("balanced digit carry", T+"math/radix.rs")],
  None, ["digit sequences and recomposition"])
p("T09", "Scratch buffers handed out at the same time never overlap",
  "Under any nesting and release order that the interface allows, on any number of threads, every live scratch buffer has the requested length and alignment, overlaps no other live buffer, and keeps its contents until released; releasing makes the space reusable without invalidating other live buffers.",
  ["histories", "schedules", "inputs"], "all allocation/release histories, sizes, element types and threads",
  "Tests allocate a few buffers of fixed sizes.",
  [T+"scratch.rs"],
  [("thread-local pool of aligned blocks", T+"scratch.rs")],
  [("free blocks", "per-thread stack of reusable blocks", T+"scratch.rs")],
  ["addresses, lengths and contents of live buffers"], "accessor for the private allocator")
p("T10", "Structured views of keys and ciphertexts tile their storage exactly",
  "For every parameter set, the views of a structured object (rows, columns, mask and body, per-digit and per-key parts; shared, mutable, reversed or parallel traversal) are pairwise disjoint, together cover the object's storage, appear in the same order whichever traversal is used, and have lengths that match the declared sizes.",
  ["configurations", "inputs"], "all entity kinds, parameter sets, traversal kinds",
  "Tests look at a few entities and one traversal.",
  [T+"dst.rs", T+"entities", T+"macros.rs"],
  [("size formulas", T+"entities"), ("stride iterators", T+"dst.rs")],
  None, ["contents reached through each view"])
p("T11", "Operations fully determine their outputs, whatever the output held before",
  "Every operation that writes a caller-provided output leaves in it the same decrypted result whether the output was fresh, zero, or held the result of any earlier operation, and never modifies its inputs. Repeating an operation on the same inputs gives the same decrypted result.",
  ["histories", "inputs"], "all operations with caller-provided outputs, all prior contents, all reuse histories",
  "Tests write into freshly allocated, zeroed outputs almost everywhere.",
  [T+"ops", T+"high_level.rs", R+"crypto/evaluation.rs"],
  [("outputs cleared before accumulation", T+"ops")],
  None, ["decryption of reused outputs"])
p("T12", "Fourier-domain products agree with exact ring products",
  "For every supported degree (multiply-accumulate needs at least 16) and all operands inside the precision budget, transforming to the Fourier domain and back returns the operand, products and multiply-accumulate in the Fourier domain agree with the exact negacyclic products up to the documented rounding, and linear operations commute with the transform; cyclic transforms invert likewise.",
  ["inputs", "configurations"], "all power-of-two degrees supported, coefficient ranges, accumulation lengths",
  "Tests transform a few polynomials at a couple of degrees.",
  [T+"math/fft", T+"entities/polynomial_fft.rs", T+"math/simd"],
  [("twisted negacyclic transform", T+"math/fft/negacyclic/mod.rs"), ("complex multiply-add kernels", T+"math/simd")],
  None, ["coefficients after the inverse transform"])
p("T13", "Fresh encryptions are randomised with the configured noise",
  "Every encryption draws a new mask and new noise: no two encryptions (also of equal messages, in the same structured ciphertext, or on different threads) share a mask, the noise is centred and has the configured spread and is never omitted, masks and secret keys cover their whole range evenly, and the randomness an encryption hands back is exactly what it used.",
  ["histories", "configurations"], "all encryption routines (LWE, GLWE, GLev, GGSW, public-key, switching and bootstrapping keys), sequences of encryptions, parameter sets",
  "Tests decrypt and compare messages; an encryption without noise or with a repeated mask decrypts just as well.",
  [T+"ops/encryption", T+"rand.rs", T+"entities/lwe_secret_key.rs", T+"entities/glwe_secret_key.rs"],
  [("sampling of masks and noise", T+"rand.rs")],
  None, ["masks and phases of fresh ciphertexts"])
# ------------------------------------------------------------------ math
p("S01", "Combination ranking, unranking and enumeration agree",
  "For every set size and choice size, enumeration yields every combination exactly once in lexicographic order, the count equals the binomial coefficient, ranking and unranking are mutually inverse and match the enumeration order, and sequences of the wrong length or with elements outside the set, and ranks out of range, are refused.",
  ["inputs", "histories"], "all n, t, ranks, and arbitrary index sequences",
  "Tests enumerate a few small (n, t) and rank valid combinations only.",
  [S+"combination.rs"],
  [("lexicographic successor", S+"combination.rs"), ("combinadic", S+"combination.rs")],
  None, ["Combinations API results"])
p("S02", "Modular ring arithmetic is exact for every modulus",
  "For every admissible modulus and all operands, addition, subtraction, negation, multiplication, equality and serialization of ring elements agree with integer arithmetic modulo the modulus, results are always the canonical representative, and conversion from signed or unsigned integers of any size gives the congruent element or a range error where documented.",
  ["inputs", "configurations"], "all moduli (tiny, large, power-of-two word, multi-limb), all operands including signed values larger than the modulus",
  "Tests use a few large moduli and random operands; conversions of values exceeding the modulus are not covered.",
  [S+"ring/mod.rs", S+"ring/barrett.rs", "sunscreen_math_macros/src/lib.rs"],
  [("Barrett reduction with derived constants", S+"ring/barrett.rs")],
  None, ["ring element values"])
p("S03", "Polynomials over a ring satisfy ring laws, equality and division",
  "For all polynomials over any supported ring, sums, differences, products, negation and evaluation agree with coefficient arithmetic, equality holds exactly when all coefficients agree up to leading zeros, and division by a monic polynomial returns the unique quotient and remainder of smaller degree, while other divisors are refused.",
  ["inputs"], "all polynomials and rings, with leading zeros, zero polynomials, equal and higher degrees",
  "Tests check a few products and divisions.",
  [S+"poly/mod.rs"],
  [("long division", S+"poly/mod.rs"), ("normalising equality", S+"poly/mod.rs")],
  None, ["polynomial API results"])
p("S04", "Running statistics and half-space tests match their definitions",
  "After any sequence of samples the running mean, variance and deviation equal those of the whole sample set, and a point is inside a convex region exactly when it violates none of its half-spaces, the reported violations being exactly those half-spaces.",
  ["histories", "inputs"], "all sample sequences; all half-space sets and points",
  "Tests feed one sequence and a couple of points.",
  [S+"stats.rs", S+"geometry.rs"],
  [("incremental update", S+"stats.rs"), ("half-space test", S+"geometry.rs")],
  None, ["mean/variance after each sample; inside/violations results"])
p("S05", "Security estimates invert each other and refuse unvalidated parameters",
  "Within the validated region, converting a noise level to a security level and back returns the noise level, more noise or a larger dimension never lowers the security, and parameters outside the validated region are refused with an error naming the region; the Gaussian tail estimate falls as the distance grows and is continuous where its two methods meet.",
  ["inputs"], "all dimensions, noise levels and security levels inside and outside the validated region",
  "Tests compare a few points with reference values.",
  [S+"security.rs"],
  [("fitted polynomials with validity polytopes", S+"security.rs")],
  None, ["results of the conversion functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
