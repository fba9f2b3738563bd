"""The properties; tools/gen_meta.py writes properties.jsonl and MANIFEST.json from this."""

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None):
  P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                text=" ".join(text.split()), why=" ".join(why.split()), files=files, mech=mech,
                note=" ".join(note.split()), technique=technique))


prop("C01", "Boolean gates and lookup tables compute their truth tables",
     """For every gate (not, and, nand, or, nor, xor, xnor, andny, andyn, orny, oryn, cmux) and every 2- and
     3-input lookup table, evaluating it on ciphertexts and decrypting gives the truth-table entry of the plaintext
     inputs, whether each operand is a fresh encryption, a constant, a negation or another gate's output. The result's
     noise stays within a fixed margin, so it decrypts with certainty rather than by luck.""",
     ["inputs", "programs", "configurations"],
     "all gates, all truth tables of 1-3 inputs, all input combinations, all operand origins",
     """The tests run a few gates on a few inputs (and the gate tests are not among the stable ones); the truth tables
     have 256 x 8 cases, times operand origins.""",
     ["jaxite/jaxite_bool/jaxite_bool.py", "jaxite/jaxite_bool/lut.py", "jaxite/jaxite_bool/bool_encoding.py",
      "jaxite/jaxite_bool/bool_params.py"],
     [("linear combination of operands and table lookup by programmable bootstrap", "jaxite_bool.py: _lut2, _lut3, and_, cmux_, ..."),
      ("construction of lookup tables and test polynomials", "lut.py: lut_by_name, generate_*; jaxite_bool.py: *_lut"),],
     "Every truth table and input executed on the real code with small real keys; noise values are those of seeded sources.")

prop("C02", "Circuits of any depth decrypt to their cleartext evaluation",
     """Any sequence of gate evaluations over encrypted bits decrypts, at every wire, to the cleartext evaluation of the
     same circuit. The noise of a gate's output does not depend on the depth, origin or noise of its inputs, so the
     guarantee holds for circuits of unbounded depth.""",
     ["programs", "histories"],
     "all operation sequences up to a depth over a register machine, from all initial assignments; closure of operand classes",
     "Tests evaluate fixed circuits on fixed inputs; sequences of operations over shared registers are never enumerated.",
     ["jaxite/jaxite_bool/jaxite_bool.py", "jaxite/jaxite_cggi/bootstrap.py"],
     [("bootstrap at every gate resets the noise", "bootstrap.py: bootstrap, jit_bootstrap"),],
     "Explicit-state exploration of a register machine on the real gates, with an inductive noise invariant.")

prop("C03", "Parallel lookup tables equal the sequential ones row by row",
     """Evaluating a batch of lookup tables in parallel over devices gives, in row i, what the sequential evaluation of
     row i's inputs and truth table gives, for every batch size, row order and mix of truth tables.""",
     ["schedules", "configurations", "inputs"],
     "every batch size up to the device count x every rotation of the (inputs, table) schedule",
     "The stable tests do not include the parallel ones (they need several devices).",
     ["jaxite/jaxite_bool/jaxite_bool.py", "jaxite/jaxite_bool/lut.py"],
     [("device-parallel map of the bootstrap", "jaxite_bool.py: pmap_lut3, pmap_lut2"),],
     "All batch sizes and row placements on a multi-device CPU host.")

prop("C04", "Conversions between values and encrypted-bit lists are lossless",
     """Converting an unsigned integer, byte, byte string or text to its list of bits and back returns the same value,
     least significant bit first, for every value and width; every bit, the top one included, is kept in both
     directions.""",
     ["inputs"], "every value of every width in bounds, every byte, every pair of adjacent bytes, every length",
     "Tests convert a handful of values.",
     ["jaxite/jaxite_bool/type_converters.py"],
     [("bit slicing", "type_converters.py: *_to_bit_slice, bit_slice_to_*"),],
     "Exhaustive over values in the bound.")

prop("C05", "Encodings tolerate every error below half a message step",
     """Decoding an encoded message to which any error of magnitude below half a message step has been added returns the
     message, noise extraction returns that error with its sign, and messages (or test-polynomial coefficients) that do
     not fit the encoding are rejected, not silently truncated.""",
     ["inputs", "configurations"], "every split into padding, message and error bits x every message x every error",
     "Tests use one encoding layout and sample errors.",
     ["jaxite/jaxite_cggi/encoding.py", "jaxite/jaxite_cggi/test_polynomial.py"],
     [("rounding to the message step", "encoding.py: encode, decode, extract_noise"),],
     "All layouts of narrow widths exhaustively; boundary alphabet for 16 and 32 bits.")

prop("C06", "Gadget decompositions are small and recompose to the value",
     """Decomposing any word in base B into L levels gives balanced digits (signed decomposition: within [-B/2, B/2],
     unsigned: below B) that recompose, with the gadget weights, to the value up to the truncation that L levels leave
     out; this holds for every base, level count and word width the API accepts, for ciphertext and matrix forms and for
     the gadget matrix and its inverse, negative entries included.""",
     ["inputs", "configurations"], "every (base, levels, width) in bounds x every value of narrow widths, carry alphabets for 32 bits",
     "Tests cover selected values for a couple of bases.",
     ["jaxite/jaxite_cggi/decomposition.py"],
     [("digit extraction with carries", "decomposition.py: decompose, signed_decomposition, decompose_rlwe_ciphertext, inverse_gadget"),],
     "Exhaustive on narrow words; alphabet of digit/carry patterns on 32-bit words.")

prop("C07", "Ring arithmetic agrees with the schoolbook definition",
     """Polynomial products, monomial multiplications, vector-matrix polynomial products, wide-integer dot products and
     rounding divisions return exactly the result of schoolbook arithmetic modulo X^N+1 and 2^32, for every operand
     (carries, signs and the largest words included), every shape, and on both the portable and the accelerator-kernel
     code paths.""",
     ["inputs", "configurations"], "all polynomial pairs over a carry alphabet, all monomial pairs and degrees, all shapes in bounds, both code paths",
     "Tests compare random operands of a few shapes; kernels are tested at single shapes.",
     ["jaxite/jaxite_cggi/matrix_utils.py", "jaxite/jaxite_cggi/polymul_kernel.py"],
     [("Toeplitz/limb-split polynomial products", "matrix_utils.py: poly_mul*, i32_as_u8_matmul; polymul_kernel.py"),
      ("monomial multiplication, integer division", "matrix_utils.py: monomial_mul*, integer_div"),],
     "Bilinearity makes the monomial-pair enumeration cover the index maps; word carries by alphabet.")

prop("C08", "Encrypt-decrypt returns the message; ciphertexts add like messages",
     """For LWE, RLWE and RGSW encryption, decrypting an encryption returns the message for every message, key, mask and
     noise below the decoding radius, and sums, differences and integer multiples of ciphertexts decrypt to the same
     combination of the messages while the noise stays below the radius.""",
     ["inputs", "configurations"], "every message x every small key x mask alphabet x extreme noises",
     "Tests draw random keys and noises, never the extreme ones.",
     ["jaxite/jaxite_cggi/lwe.py", "jaxite/jaxite_cggi/rlwe.py", "jaxite/jaxite_cggi/rgsw.py"],
     [("encryption and decryption", "lwe.py, rlwe.py, rgsw.py: encrypt, decrypt, noiseless_embedding, gen_key"),],
     "Random draws are scripted, so all keys and extreme noises are enumerated.")

prop("C09", "External product, CMUX, blind rotation and extraction are exact",
     """The external product multiplies the message by the encrypted bit, CMUX returns the selected ciphertext's message,
     blind rotation rotates the test polynomial by the encrypted index in the negacyclic ring, and sample extraction
     returns the constant coefficient, each up to the decomposition truncation and key noise, for every selector, index,
     ring and key format (plain, loop-unrolled, byte-expanded).""",
     ["inputs", "configurations"], "every selector, every rotation index in [0, 2N), every small LWE key, every key format and parameter set in bounds",
     "Tests rotate by a few indices under one random key.",
     ["jaxite/jaxite_cggi/rgsw.py", "jaxite/jaxite_cggi/bootstrap.py", "jaxite/jaxite_cggi/rlwe.py"],
     [("external product and CMUX", "rgsw.py: external_product, cmux"), ("blind rotation", "bootstrap.py: blind_rotate, gen_bootstrapping_key; sample_extract"),],
     "All phases computed independently from the secret key.")

prop("C10", "Modulus and key switching keep the message with bounded added noise",
     """Switching a ciphertext to another modulus rounds every coefficient to the nearest value of the new modulus, and
     switching it to another key keeps its phase up to the truncation and key-noise bound, for every pair of moduli,
     keys and decomposition parameters.""",
     ["inputs", "configurations"], "every modulus pair, every coefficient/rounding boundary, every pair of small keys, every (base, levels)",
     "Tests use random ciphertexts and one parameter set.",
     ["jaxite/jaxite_cggi/key_switch.py", "jaxite/jaxite_cggi/bootstrap.py", "jaxite/jaxite_cggi/lwe.py"],
     [("modulus switch", "bootstrap.py/lwe.py: switch_modulus"), ("key switch", "key_switch.py: gen_key, switch_key"),],
     "Exact rational rounding and worst-case bound as oracle.")

prop("C11", "Programmable bootstrapping evaluates its table and resets the noise",
     """Bootstrapping a ciphertext of message m with the test polynomial of a function f gives a ciphertext of f(m), for
     every function, message and input noise below the radius, with an output noise bound that does not depend on the
     input noise; the jitted and step-by-step forms and all key formats agree.""",
     ["inputs", "configurations", "programs"], "every table over 2-bit messages, structured tables over 1 and 3 bits, every message, extreme noises, all key formats",
     "Tests bootstrap a few messages with one function.",
     ["jaxite/jaxite_cggi/bootstrap.py", "jaxite/jaxite_cggi/test_polynomial.py"],
     [("bootstrap pipeline", "bootstrap.py: bootstrap, jit_bootstrap, blind_rotate"), ("test polynomials", "test_polynomial.py"),],
     "Real bootstraps at small dimensions, all tables.")

prop("C12", "Random sources keep their contract and no hiding draw is reused",
     """Every random source returns values of the requested shape, type and range, replays exactly from its seed, and
     never repeats a value because two calls shared a state; and in every key, ciphertext and public key of both
     schemes each mask word and each noise coefficient is a fresh draw of its own, added to exactly one place.""",
     ["histories", "configurations"], "every source class x shape x operation sequence; every kind of ciphertext and key with a source whose draws are all distinct",
     "Reused randomness passes every decrypt test; tests never look at which draw ends up where.",
     ["jaxite/jaxite_cggi/random_source.py", "jaxite/jaxite_ckks/random.py", "jaxite/jaxite_cggi/rgsw.py",
      "jaxite/jaxite_cggi/rlwe.py", "jaxite/jaxite_cggi/lwe.py", "jaxite/jaxite_cggi/key_switch.py", "jaxite/jaxite_ckks/key_gen.py",
      "jaxite/jaxite_ckks/encrypt.py"],
     [("random sources", "random_source.py, ckks random.py"), ("draws during key generation and encryption", "gen_key/encrypt functions"),],
     "Distribution quality of the underlying generator is not examined, only how draws are used.")

prop("C13", "Chunked batch mapping equals one big map",
     """Mapping a function over a batch in bounded chunks gives exactly what mapping it over the whole batch gives, for
     every batch length (including lengths that are not a multiple of the chunk), chunk size, input/output axis and
     argument container.""",
     ["inputs", "configurations"], "every length 1..9 x chunk 1..5 x axes, unmapped arguments, nested containers",
     "Tests map one or two lengths.",
     ["jaxite/jaxite_cggi/jax_helpers.py"], [("chunking", "jax_helpers.py: batch_vmap")],
     "Exhaustive within the stated shape bounds.")

prop("C14", "CKKS modular reduction and byte-split products are exact",
     """Barrett reduction returns z mod m, fully reduced, for every modulus up to 31 bits and every z in its documented
     range, byte-split matrix products equal integer matrix products, and the number-theoretic helpers (primality,
     roots of unity, bit reversal) satisfy their definitions.""",
     ["inputs", "configurations"], "every z < m^2 for small moduli; every quotient boundary for larger ones; byte alphabets in every operand position",
     "Off-by-one quotient estimates occur only at isolated boundaries that random tests do not hit.",
     ["jaxite/jaxite_ckks/barrett.py", "jaxite/jaxite_ckks/bat_utils.py", "jaxite/jaxite_ckks/math.py", "jaxite/jaxite_ckks/ntt.py"],
     [("Barrett constants and reduction", "barrett.py"), ("byte-aligned transformation", "bat_utils.py"), ("number theory", "math.py")],
     "Quotient boundaries cover the only places the estimate can change.")

prop("C15", "Every NTT is the exact evaluation map and its inverse undoes it",
     """The forward transform of a polynomial is its evaluation at the odd powers of one primitive 2N-th root modulo each
     prime, the inverse transform returns the polynomial, and pointwise products correspond to negacyclic products; the
     host and the accelerator implementations agree for every ring degree, row/column split, prime and list of primes.""",
     ["inputs", "configurations"], "all polynomials of the smallest rings; all scaled unit vectors and pairs for larger ones; all splits and prime sizes",
     "Tests round-trip random polynomials at one or two sizes.",
     ["jaxite/jaxite_ckks/ntt.py", "jaxite/jaxite_ckks/ntt_cpu.py"],
     [("three-step matrix NTT", "ntt.py"), ("butterflies", "ntt_cpu.py")],
     "Linearity: a basis plus extreme vectors decide the transform on large rings.")

prop("C16", "RNS values and polynomials behave like integers modulo the product",
     """Residue decomposition and CRT reconstruction are inverse bijections, and any sequence of negation, addition,
     subtraction, multiplication and representation changes of RNS polynomials gives what the same sequence on integer
     polynomials modulo the product gives, without modifying its operands; the element-wise addition and multiplication
     kernels are exact modulo each prime.""",
     ["inputs", "histories"], "every value of small bases; every operation sequence up to length 4; every residue pair of small moduli",
     "Tests check single operations on a few values.",
     ["jaxite/jaxite_ckks/rns.py", "jaxite/jaxite_ckks/rns_utils.py", "jaxite/jaxite_ckks/add.py", "jaxite/jaxite_ckks/mul.py"],
     [("RNS polynomials", "rns.py: RnsPolynomial"), ("CRT", "rns_utils.py"), ("kernels", "add.py, mul.py")],
     "Explicit-state exploration of operation histories.")

prop("C17", "Basis conversion returns x plus a small multiple of Q in each modulus",
     """Converting a value x from one RNS basis (product Q) to another gives residues of x + u*Q for a single integer u
     with 0 <= u < number of source limbs, the same u in every target modulus, for every x, basis, order of moduli,
     batch shape and registered pair of bases.""",
     ["inputs", "configurations"], "every x of small bases in every permutation, boundary values of large ones",
     "Tests compare with the same formula on random inputs of one basis pair.",
     ["jaxite/jaxite_ckks/basis_conversion.py"], [("conversion kernel", "basis_conversion.py")],
     "Exact integer oracle.")

prop("C18", "Rescaling divides by the dropped moduli with exact centred rounding",
     """Rescaling a ciphertext removes the requested number of limbs and leaves, in each remaining modulus, the exact
     centred rounding of the value divided by each dropped modulus in turn, for every value, chain of moduli (in any
     order of sizes), degree, row/column split and number of ciphertext elements.""",
     ["inputs", "configurations"], "every value of small chains in every coefficient, every rounding boundary of large chains, all orderings",
     "Tests rescale random ciphertexts on one decreasing chain.",
     ["jaxite/jaxite_ckks/rescale.py"], [("rescale kernel", "rescale.py")],
     "Exact rational oracle; a ciphertext is compared coefficient by coefficient.")

prop("C19", "CKKS encode/decode and encrypt/decrypt return the message",
     """Encoding complex slots and decoding returns the slots up to rounding at the scale, using the canonical embedding
     at the powers of five; decrypting a public- or secret-key encryption returns exactly the message plus the key and
     encryption noise, for every key (binary or ternary), mask, noise and message in range.""",
     ["inputs", "configurations"], "every unit slot and coefficient, sign patterns, every key and mask of the smallest ring, extreme noises",
     "Tests encode random vectors and allow loose tolerances.",
     ["jaxite/jaxite_ckks/encode.py", "jaxite/jaxite_ckks/encrypt.py", "jaxite/jaxite_ckks/key_gen.py"],
     [("canonical embedding", "encode.py"), ("encryption", "encrypt.py"), ("key generation", "key_gen.py")],
     "Direct evaluation oracle; scripted randomness.")

prop("C20", "CKKS programs decrypt to the same program on cleartexts",
     """Any sequence of homomorphic operations (addition, addition to itself, multiplication with relinearisation and
     rescaling in either order, squaring, plaintext multiplication, conjugation, dropping a level) decrypts at every step
     to the result of the same sequence on the cleartext polynomials and slots, within the accumulated worst-case noise
     bound, at every level of the chain, and no operation changes its operands.""",
     ["programs", "histories"], "every operation sequence up to a depth from fresh encryptions, all levels of the chain",
     "Tests run single operations on fresh ciphertexts; sequences of operations across levels are never enumerated.",
     ["jaxite/jaxite_ckks/add.py", "jaxite/jaxite_ckks/mul.py", "jaxite/jaxite_ckks/rescale.py", "jaxite/jaxite_ckks/conjugate.py",
      "jaxite/jaxite_ckks/encode.py", "jaxite/jaxite_ckks/encrypt.py"],
     [("multiplication and relinearisation", "mul.py: Mul"), ("level change", "rescale.py: Rescale"),
      ("conjugation", "conjugate.py: Conjugation"), ("addition", "add.py")],
     "Explicit depth-first exploration on real ciphertexts; exact rational model with a proven error bound.")

prop("C21", "Key switching, conjugation and relinearisation keep the message",
     """Every generated switching, relinearisation or conjugation key encrypts, in each partition of the limbs, P times
     the source key on exactly that partition's limbs, with fresh masks and noise and each limb in exactly one partition.
     Switching a ciphertext multiplies its phase by exactly P under the new key up to the keys' noise; conjugation maps
     the message m(X) to m(X^-1); a relinearised product decrypts to the product of the two phases, within a rounding
     bound, for every number of Q limbs, P limbs and partitions, every row/column split and batch shape.""",
     ["inputs", "configurations"],
     "every (Q limbs, P limbs, partition count) in bounds x keys x every value of small Q and boundary values of large Q",
     "Tests use one or two configurations (where partitions divide the limbs) and random inputs.",
     ["jaxite/jaxite_ckks/key_gen.py", "jaxite/jaxite_ckks/key_switching.py", "jaxite/jaxite_ckks/mul.py",
      "jaxite/jaxite_ckks/conjugate.py"],
     [("key generation", "key_gen.py: gen_key_switching_key, gen_evaluation_key, gen_conjugate_key, extend_secret_key"),
      ("hybrid key switching", "key_switching.py: KeySwitcher; mul.py: Mul.relinearize"),
      ("conjugation", "conjugate.py: Conjugation.conjugate")],
     "Phases computed over the integers; with zero-noise keys the comparison is exact.")

prop("C22", "Blind rotation rotates by the encrypted index",
     """Homomorphic selection-and-rotation returns the rotated message when the encrypted selector bit is one and zero
     otherwise; blind rotation by the multiplexer method rotates the slots by exactly the encrypted index times the
     stride, and the column method returns the message belonging to the selected column, for every index, stride, number
     of Q and P limbs and message, within the rounding bound. The slot permutation equals the automorphism X -> X^g for
     every odd g, and lifting to a larger modulus keeps the value.""",
     ["inputs", "configurations"], "every odd exponent and degree in bounds; every selector bit, rotation, index, stride, column",
     "Tests use one Q limb and one P limb, a few indices, stride one and tolerances as large as the message.",
     ["jaxite/jaxite_ckks/blind_rotate.py", "jaxite/jaxite_ckks/blind_rotate_utils.py", "jaxite/jaxite_ckks/key_gen.py"],
     [("rotation", "blind_rotate.py: hmuxrot, brot_mux, brot_cm"), ("slot permutation", "blind_rotate_utils.py: apply_automorphism_ntt"),
      ("keys", "key_gen.py: gen_hmuxrot_key, gen_mux_rotation_key, gen_cm_keys")],
     "Single-partition keys (the only ones the key generator makes). Phases compared over the integers.")

prop("C24", "Number formats of the curve library are lossless",
     """Converting integers to limb arrays (8-, 16- or 32-bit limbs, any length), to residue vectors and to packed point
     arrays gives exactly the positional digits or residues, converting back gives the integer, in every packing order
     and batch shape, and a value that does not fit the requested length is refused rather than truncated.""",
     ["inputs", "configurations"], "all small integers, all powers of two and neighbours, all limb-extreme patterns, all small modulus sets",
     "Tests convert a handful of random 377-bit integers.",
     ["jaxite_ec/util.py", "jaxite_ec/algorithm/util.py"],
     [("integer and limb conversion", "util.py: int_to_array, array_to_int, int_list_to_array, ..."),
      ("residue conversion", "util.py: int_to_array_rns, array_rns_to_int, ..."), ("point packing", "util.py: *_3d*")],
     "Exhaustive over the stated values; oracle is positional notation.")

prop("C25", "Field arithmetic of the curve library is exact modulo p",
     """Limb addition, subtraction, comparison, multiplication and modular multiplication (Barrett, lazy and
     residue-number variants) give, for every pair of operands in their documented range, the integer result or a value
     of the documented range congruent to it modulo the prime, including unreduced operands, carry chains through all
     limbs, zero residues and operands whose product is next to a multiple of p.""",
     ["inputs"], "all ordered pairs of boundary operands; every residue of every modulus through the residue-wise operations",
     "Tests multiply random elements; carries through all limbs and zero residues have negligible probability there.",
     ["jaxite_ec/finite_field.py", "jaxite_ec/util.py"],
     [("limb arithmetic", "finite_field.py: add_2u16, sub_2u16, compare_u16, mul_2u16, ..."),
      ("modular multiplication", "finite_field.py: mod_mul_barrett_2u16, mod_mul_lazy_2u16, mod_mul_rns_2u16"),
      ("residue negation and addition", "finite_field.py: add_rns_2u16, negate_rns_for_var_add, ...")],
     "Boundary operand sets enumerated completely, not sampled; the full operand range is not.")

prop("C26", "Point addition and doubling follow the group law",
     """In every coordinate system (affine-based XYZZ and twisted Edwards, limb and residue-number form, packed or not)
     adding and doubling points returns a valid representation of the sum, whatever the projective scaling and
     unreduced representatives of the operands, and outputs can be fed to further operations for any number of steps.
     The twisted Edwards operations hold for all pairs, including equal, opposite and neutral points; the XYZZ ones for
     distinct, non-opposite points.""",
     ["inputs", "histories"], "addition tables of boundary multiples x scalings x representatives, all operation sequences up to a depth",
     "Tests add a few fixed points once; representatives growing over a chain and the special points are not reached.",
     ["jaxite_ec/elliptic_curve.py", "jaxite_ec/finite_field.py"],
     [("addition and doubling", "elliptic_curve.py: padd_*, pdul_*"), ("negation", "elliptic_curve.py: pneg_*")],
     "Oracle: affine chord-and-tangent arithmetic over Python integers.")

prop("C27", "Multi-scalar multiplication returns the sum of k_i P_i",
     """Every Pippenger class (XYZZ and twisted Edwards, limb and residue-number, signed and unsigned digits) returns
     the sum of k_i P_i for all scalars below the group order, window widths, parallel widths and lengths, including
     zero scalars, empty buckets, empty windows and digits that carry; bucket accumulation, bucket reduction and window
     merge are each exact for every occupancy pattern, in the scanned and the unrolled form; the inputs are not
     modified. Points are distinct and in general position for the XYZZ classes, arbitrary for the twisted ones.""",
     ["inputs", "configurations"],
     "every bucket-choice sequence, every empty-bucket and empty-window pattern in bounds, boundary scalars x window widths 1-11 x parallel widths",
     "The multi-scalar tests are not among the stable ones and use random full-width scalars, which leave no window empty.",
     ["jaxite_ec/pippenger.py", "jaxite_ec/pippenger_rns.py"],
     [("accumulation", "bucket_accumulation_*"), ("reduction", "bucket_reduction_*"), ("merge", "window_merge_*"),
      ("digit selection", "construct_ba_*, construct_br_*")],
     "Exhaustive over occupancy patterns of bounded size; oracle over Python integers. The wide windows run the real bucket machinery over an abstract group (stand-ins for the point operations, which C26 decides); a deviation there is replayed with the real operations before it counts.")

prop("C28", "Reference field and curve classes obey field and group laws",
     """The pure Python field elements (plain, Barrett, Montgomery) behave as the field of integers modulo p: every
     operation returns the canonical element, keeps its operands, and refuses values out of range and mixed fields; the
     affine, projective, XYZZ and twisted Edwards classes add, double and convert points according to the group law in
     every scaling; the twist to Edwards form and back are inverse to each other; the reference matrix and residue
     reductions return a value congruent to the product and within their bound.""",
     ["inputs", "histories"], "all pairs of elements and points of all small fields and curves; operation sequences; boundary values of the real curve",
     "These classes are the oracle of the other tests and only exercised on large random elements, where boundary cases never occur.",
     ["jaxite_ec/algorithm/finite_field.py", "jaxite_ec/algorithm/elliptic_curve.py", "jaxite_ec/algorithm/big_integer.py",
      "jaxite_ec/algorithm/rns_mod_reduce.py", "jaxite_ec/algorithm/lazy_reduction.py", "jaxite_ec/algorithm/config_file.py"],
     [("field elements", "finite_field.py"), ("coordinate systems", "elliptic_curve.py"), ("integers", "big_integer.py"),
      ("reductions", "rns_mod_reduce.py, lazy_reduction.py")],
     "Exhaustive over all elements and curves of the bounded primes; the code is generic in the prime.")

prop("C23", "CKKS kernels depend only on their latest set-up, also under jit",
     """A kernel object (transform, basis conversion, rescaling, addition, plaintext product, product, key switching,
     conjugation, blind rotation) gives, after any history of set-ups for other parameters, uses, pytree round trips and
     compilations, exactly what a newly made kernel with its latest parameters gives; setting up or using one object
     never affects another, operands are not changed, and running a kernel as an argument of a jitted function equals
     running it eagerly. Ciphertexts, plaintexts, keys and constants keep every field through flattening, jit and scan.""",
     ["histories", "configurations"], "every sequence of set-up / round-trip / run / jit actions on two objects up to the depth bound, configurations that differ pairwise in one parameter; the reference of every configuration also from a process of its own",
     "Tests make one kernel, set it up once and use it; stale constants and compilation caches need a second configuration.",
     ["jaxite/jaxite_ckks/ntt.py", "jaxite/jaxite_ckks/basis_conversion.py", "jaxite/jaxite_ckks/rescale.py", "jaxite/jaxite_ckks/mul.py",
      "jaxite/jaxite_ckks/add.py", "jaxite/jaxite_ckks/key_switching.py", "jaxite/jaxite_ckks/conjugate.py",
      "jaxite/jaxite_ckks/blind_rotate.py", "jaxite/jaxite_ckks/types.py", "jaxite/jaxite_ckks/barrett.py"],
     [("set-up", "*.precompute_constants"), ("pytree registration", "*.tree_flatten, tree_unflatten"),
      ("slicing of constants", "barrett.py: slice; ntt.py: slice_moduli")],
     "Explicit-state exploration of the real objects; the reference is a fresh object, itself decided by C15-C22.")
