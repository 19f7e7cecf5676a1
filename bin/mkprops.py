#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that entries stay short and uniform)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
M = "tachyon/math/"; B = "tachyon/base/"; C = "tachyon/crypto/"; Z = "tachyon/zk/"
p("C01", "Prime fields compute exactly the integers modulo p",
  "For every prime field the library ships, every operation (addition, subtraction, multiplication, squaring, doubling, negation, inversion, division, exponentiation, batch inversion, comparison, conversion from and to integers and strings), in-place or not, returns the canonical residue that integer arithmetic modulo the field's prime gives, for all operands including 0, 1, p-1 and values next to word boundaries. Inverting or dividing by zero is reported as absent rather than answered. Equal residues always compare, print and hash equal, whatever sequence of operations produced them.",
  ["inputs", "histories"], "all operand values of every shipped prime field, and all sequences of operations on them",
  "Unit tests check random elements and a handful of constants; carries, final reductions and non-canonical intermediate values fail only on rare operands.",
  [M+"finite_fields/prime_field_fallback.h", M+"finite_fields/small_prime_field.h", M+"finite_fields/small_prime_field_mont.h", M+"finite_fields/prime_field_base.h", M+"finite_fields/finite_field.h", M+"base/groups.h", M+"base/field.h", M+"base/byinverter.h", M+"base/semigroups.h", M+"finite_fields/modulus.h"],
  [("Montgomery multiplication and final subtraction", M+"finite_fields/prime_field_fallback.h"), ("generated moduli and constants", M+"finite_fields/generator/prime_field_generator/prime_field_generator.cc")],
  [("element", "a residue class mod p, stored in Montgomery or plain form", M+"finite_fields/prime_field_fallback.h")], ["public operators of the field classes"])
p("C02", "Extension fields are the declared quotient rings over their base field",
  "Every extension field (quadratic, cubic, quartic, sextic, duodecic) computes exactly polynomial arithmetic modulo its declared irreducible polynomial: products, squares, inverses, division, multiplication by base-field elements and powers. The Frobenius map with exponent k equals raising to the p^k-th power, conjugation and norm are consistent with it, and cyclotomic shortcuts agree with the general operations on the elements they are defined for. Inverting zero is reported as absent.",
  ["inputs"], "all elements of every shipped extension field and all Frobenius exponents",
  "Tests use a few sampled elements and constants over two fields; sparse or special elements (zero coordinates, base-field elements) take separate paths.",
  [M+"finite_fields/quadratic_extension_field.h", M+"finite_fields/cubic_extension_field.h", M+"finite_fields/quartic_extension_field.h", M+"finite_fields/fp2.h", M+"finite_fields/fp3.h", M+"finite_fields/fp4.h", M+"finite_fields/fp6.h", M+"finite_fields/fp12.h", M+"finite_fields/cyclotomic_multiplicative_subgroup.h", M+"finite_fields/generator/ext_field_generator/ext_field_generator.cc"],
  [("Karatsuba/Toom-Cook products, norm based inversion, Frobenius coefficient tables", M+"finite_fields/")])
p("C03", "Binary tower fields compute exact GF(2^(2^k)) arithmetic",
  "Binary fields of every width from 1 to 128 bits add as exclusive-or and multiply as the binary tower they declare (each level adjoins a root of X^2 + X*previous generator + 1), so multiplication is associative, commutative, distributes over addition, and embeds every smaller field in the larger ones. Every non-zero element has an inverse whose product with it is one; inverting zero is reported as absent.",
  ["inputs"], "all elements of all binary field widths",
  "Tests compare a few random products per width.",
  [M+"finite_fields/binary_fields/binary_field.h", M+"finite_fields/binary_fields/binary_tower_operations.h", M+"finite_fields/binary_fields/binary_fields.h"],
  [("recursive tower multiplication and inversion", M+"finite_fields/binary_fields/binary_tower_operations.h")])
p("C04", "Packed (SIMD) fields act lane by lane like the scalar field",
  "Every arithmetic operation, broadcast and accessor on a packed field vector gives in each lane exactly the scalar field's canonical result for that lane's operands, independent of the other lanes.",
  ["inputs", "configurations"], "all lane contents of every packed field the target CPU supports",
  "Tests use random lanes; reductions in vector code go wrong only for boundary values in single lanes.",
  [M+"finite_fields/packed_prime_field32_avx2.h", M+"finite_fields/baby_bear/internal/packed_baby_bear_avx2.cc", M+"finite_fields/koala_bear/internal/packed_koala_bear_avx2.cc", M+"finite_fields/mersenne31/internal/packed_mersenne31_avx2.cc", M+"finite_fields/packed_prime_field_base.h"],
  [("AVX2 Montgomery / Mersenne reduction", M+"finite_fields/packed_prime_field32_avx2.h")])
p("C05", "Fixed-width big integers and their bit views match integer arithmetic",
  "Fixed-width unsigned big integers add, subtract, multiply, divide, shift, compare, and convert to and from strings and byte order exactly as integers modulo 2^width, with carries, borrows, high words and remainders reported truthfully. Bit iteration, bit extraction and signed-digit (NAF, windowed) recodings of an integer reconstruct the same integer, and extended-gcd and modular inversion return values satisfying their defining identities.",
  ["inputs"], "all operand values at all supported widths",
  "Tests use single examples per operator; carry chains across limbs and shifts by multiples of the limb size are corner cases.",
  [M+"base/big_int.h", M+"base/arithmetics.h", M+"base/bit_iterator.h", M+"base/egcd.h", M+"base/byinverter.h", M+"base/gmp/gmp_util.h"],
  [("limb loops with carry/borrow propagation", M+"base/arithmetics.h")])
p("C06", "Square roots, Legendre symbols and roots of unity are correct",
  "For every prime or quadratic field that offers it, the Legendre symbol of x is 0, 1 or -1 exactly as x is zero, a square, or a non-square; a square root is returned exactly for squares and its square is x. The root of unity offered for n has order exactly n whenever the field has one, and is reported absent otherwise.",
  ["inputs"], "all elements, all requested orders",
  "Tests check a few squares per field and one or two orders.",
  [M+"finite_fields/square_root_algorithms/shanks.h", M+"finite_fields/square_root_algorithms/tonelli_shanks.h", M+"finite_fields/legendre_symbol.h", M+"finite_fields/prime_field_base.h", M+"finite_fields/quadratic_extension_field.h"],
  [("Shanks / Tonelli-Shanks", M+"finite_fields/square_root_algorithms/"), ("GetRootOfUnity", M+"finite_fields/prime_field_base.h")])
p("C07", "Elliptic-curve points obey the group law in every coordinate system",
  "Affine, projective, Jacobian and extended-Jacobian points add, subtract, double, negate, convert, compare and multiply by scalars as the chord-and-tangent group of the curve, for every pair of points including the identity, equal points, opposite points and different representatives of the same point. Conversions (single and batch) preserve the point, equality means same point, and reconstruction from x picks the requested y or reports that none exists.",
  ["inputs", "histories"], "all points of the curve in all representations and all sequences of operations",
  "Tests use a curve of a few points with hand-picked pairs and random points elsewhere.",
  [M+"elliptic_curves/short_weierstrass/affine_point.h", M+"elliptic_curves/short_weierstrass/affine_point_impl.h", M+"elliptic_curves/short_weierstrass/jacobian_point_impl.h", M+"elliptic_curves/short_weierstrass/point_xyzz_impl.h", M+"elliptic_curves/short_weierstrass/projective_point_impl.h", M+"elliptic_curves/short_weierstrass/sw_curve.h", M+"geometry/point_conversions.h", M+"base/groups.h", M+"base/semigroups.h"],
  [("complete case analysis in Add/Double", M+"elliptic_curves/short_weierstrass/")])
p("C08", "Multi-scalar multiplication equals the sum of the scalar multiples",
  "Every multi-scalar multiplication (variable base by buckets with any window size or NAF, thread-split adapters, fixed base tables, endomorphism decomposition) returns the group element sum of scalar_i times base_i for every list of scalars and bases, including zero and maximal scalars, repeated, opposite and identity bases, and any length; mismatched lengths are refused. The endomorphism decomposition recombines to the original scalar.",
  ["inputs", "configurations"], "all scalar and base lists, all lengths, window sizes and strategies",
  "Tests use a few random lists of fixed sizes with one window size.",
  [M+"elliptic_curves/msm/algorithms/pippenger/pippenger.h", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h", M+"elliptic_curves/msm/algorithms/pippenger/pippenger_base.h", M+"elliptic_curves/msm/variable_base_msm.h", M+"elliptic_curves/msm/fixed_base_msm.h", M+"elliptic_curves/msm/glv.h", M+"elliptic_curves/msm/msm_ctx.h"],
  [("bucket accumulation, window recombination", M+"elliptic_curves/msm/algorithms/pippenger/pippenger.h")])
p("C09", "Pairings are bilinear, non-degenerate and multiplicative over lists",
  "For BN254 and BLS12-381, the pairing of a*P and b*Q equals the pairing of P and Q raised to a*b for all scalars; pairing with the identity gives one, pairing of the generators does not; and the multi-pairing of lists equals the product of the individual pairings in any order.",
  ["inputs"], "all points of the two source groups and all scalars",
  "The tests check one random instance of bilinearity per curve.",
  [M+"elliptic_curves/pairing/pairing.h", M+"elliptic_curves/bn/bn_curve.h", M+"elliptic_curves/bls12/bls12_curve.h", M+"elliptic_curves/bn/g2_prepared.h", M+"elliptic_curves/bls12/g2_prepared.h", M+"elliptic_curves/pairing/g2_projective.h"],
  [("Miller loop and final exponentiation", M+"elliptic_curves/pairing/")])
p("C10", "Univariate polynomials form the exact polynomial ring",
  "Dense and sparse univariate polynomials, in any combination, add, subtract, negate, scale, multiply, divide with remainder, evaluate, fold, and build from roots or point-value pairs exactly as polynomials over the field, with the degree and zero-ness of the result correct even when leading terms cancel. Quotient and remainder satisfy a = q*b + r with deg r < deg b; dividing by zero is reported as absent; interpolation through n distinct points gives the unique polynomial of degree below n.",
  ["inputs"], "all coefficient lists, all operand shapes (dense/sparse, zero, constant, cancelling)",
  "Tests use two or three fixed polynomials per operator.",
  [M+"polynomials/univariate/univariate_polynomial.h", M+"polynomials/univariate/univariate_polynomial_ops.h", M+"polynomials/univariate/univariate_dense_coefficients.h", M+"polynomials/univariate/univariate_sparse_coefficients.h", M+"polynomials/univariate/lagrange_interpolation.h", M+"polynomials/univariate/support_poly_operators.h"],
  [("dense/sparse operator implementations", M+"polynomials/univariate/univariate_polynomial_ops.h")])
p("C11", "Evaluation domains evaluate and interpolate exactly",
  "For every domain size the field supports (radix-2 or mixed radix, plain or coset, any coefficient count up to or beyond the size), the forward transform of a polynomial lists its values at the domain's points in order, the inverse transform recovers it, vanishing polynomial, Lagrange coefficients, domain elements and coset/low-degree extension agree with their definitions, and pointwise arithmetic on evaluations equals arithmetic on the polynomials.",
  ["inputs", "configurations"], "all sizes, all polynomials, all coset offsets",
  "Tests run a few sizes with random polynomials.",
  [M+"polynomials/univariate/radix2_evaluation_domain.h", M+"polynomials/univariate/mixed_radix_evaluation_domain.h", M+"polynomials/univariate/univariate_evaluation_domain.h", M+"polynomials/univariate/univariate_evaluation_domain_factory.h", M+"polynomials/univariate/univariate_evaluations_ops.h", M+"polynomials/univariate/univariate_evaluations.h", M+"polynomials/univariate/evaluations_utils.h", M+"polynomials/univariate/two_adic_subgroup.h", M+"polynomials/univariate/naive_batch_fft.h"],
  [("in-order and out-of-order butterflies, bit reversal", M+"polynomials/univariate/radix2_evaluation_domain.h")])
p("C12", "Multilinear and multivariate polynomials evaluate exactly",
  "Multilinear extensions agree with their table on the hypercube, interpolate linearly in each variable, and fixing variables then evaluating equals evaluating at once; sparse multivariate polynomials and linear combinations of multilinear terms add, subtract, negate, multiply and evaluate as the polynomials they denote, with like terms merged and vanishing terms dropped.",
  ["inputs"], "all tables, terms, points and operand combinations",
  "Tests use fixed examples with 2 to 4 variables.",
  [M+"polynomials/multivariate/multilinear_extension.h", M+"polynomials/multivariate/multilinear_extension_ops.h", M+"polynomials/multivariate/multilinear_dense_evaluations.h", M+"polynomials/multivariate/multivariate_polynomial.h", M+"polynomials/multivariate/multivariate_polynomial_ops.h", M+"polynomials/multivariate/multivariate_sparse_coefficients.h", M+"polynomials/multivariate/linear_combination.h", M+"polynomials/multivariate/linear_combination_term.h"],
  [("term normalisation and merging", M+"polynomials/multivariate/multivariate_sparse_coefficients.h")])
p("C13", "Sparse and dense matrices compute exact linear algebra",
  "Sparse matrices in every supported layout (ELL, CSR, Eigen) represent exactly the dense matrix they were built from through every chain of conversions, sorts and comparisons; dense helpers (circulant construction, row packing, bit-reversal of rows, splitting, dot products with extension powers, matrix-vector and matrix-matrix products, serial or parallel) equal their definitions over the field, and matrices serialise to equal matrices or are refused for the wrong shape.",
  ["inputs"], "all matrix shapes and contents", "Tests use one fixed matrix per operation.",
  [M+"matrix/sparse/sparse_matrix.h", M+"matrix/matrix_operations.h", M+"matrix/matrix_utils.h", M+"matrix/matrix_types.h"],
  [("CSR/ELL conversions", M+"matrix/sparse/sparse_matrix.h")])
p("C14", "Transcripts and challengers derive challenges from exactly what was absorbed",
  "A sponge, challenger or proof transcript is a deterministic function of the ordered sequence of absorbed values and squeezed outputs: the same history gives the same challenges for prover and verifier, every absorbed value and its position influences all later challenges, and no challenge depends on anything not yet absorbed. Absorbing after squeezing starts a fresh block with pending outputs discarded, squeezed values are never repeated, and values written to a proof are read back in order with the same challenges.",
  ["histories", "inputs"], "all interleavings of absorb, squeeze, write and read",
  "Tests fix one short interleaving per transcript; buffer boundaries and mode switches depend on history.",
  [C+"challenger/duplex_challenger.h", C+"challenger/hash_challenger.h", C+"challenger/multi_field32_challenger.h", C+"hashes/sponge/sponge.h", C+"hashes/sponge/duplex_sponge_mode.h", C+"hashes/sponge/sponge_state.h", C+"hashes/sponge/poseidon/poseidon_sponge_base.h", C+"hashes/sponge/padding_free_sponge.h", C+"transcripts/transcript.h", C+"transcripts/simple_transcript.h", Z+"plonk/halo2/poseidon_transcript.h", Z+"plonk/halo2/snark_verifier_poseidon_transcript.h", Z+"plonk/halo2/blake2b_transcript.h", Z+"plonk/halo2/sha256_transcript.h"],
  [("duplex input/output buffers", C+"challenger/duplex_challenger.h"), ("absorbing/squeezing mode with position", C+"hashes/sponge/duplex_sponge_mode.h")],
  [("mode", "absorbing or squeezing and next position", C+"hashes/sponge/duplex_sponge_mode.h"), ("input_buffer/output_buffer", "pending inputs, unread outputs", C+"challenger/duplex_challenger.h")])
p("C15", "Poseidon permutations follow their published round structure",
  "The Poseidon and Poseidon2 permutations apply, for every configuration and input state, the configured number of full and partial rounds of constant addition, power map and linear layer, so the optimised evaluation equals the textbook one; the parameter generator yields the round constants and matrices its seed determines, and optimised sparse matrices equal the dense ones they factor.",
  ["inputs", "configurations"], "all states, widths, rates, exponents and round numbers",
  "Tests compare one known-answer vector per parameter set.",
  [C+"hashes/sponge/poseidon/poseidon.h", C+"hashes/sponge/poseidon/poseidon_config.h", C+"hashes/sponge/poseidon/poseidon_config_base.h", C+"hashes/sponge/poseidon/poseidon_grain_lfsr.h", C+"hashes/sponge/poseidon/sparse_mds_matrix.h", C+"hashes/sponge/poseidon2/poseidon2.h", C+"hashes/sponge/poseidon2/poseidon2_horizen_external_matrix.h", C+"hashes/sponge/poseidon2/poseidon2_plonky3_external_matrix.h", C+"hashes/sponge/poseidon2/poseidon2_horizen_internal_matrix.h", C+"hashes/sponge/poseidon2/poseidon2_plonky3_internal_matrix.h"],
  [("round scheduling", C+"hashes/sponge/poseidon/poseidon.h")])
p("C16", "Merkle commitments open exactly to what was committed",
  "Committing to leaves (one vector, or several matrices of different heights) yields a root that is the hash tree of exactly those leaves; opening any index returns the committed row(s) with a path that verifies against the root and that index, and changing the opened value, any path element, the index, the dimensions or the root makes verification fail.",
  ["inputs", "configurations"], "all leaf contents, tree sizes, matrix height mixes, indices and single modifications",
  "Tests open one or a few indices of one or two tree shapes.",
  [C+"commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h", C+"commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h", C+"commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h", C+"commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h", C+"commitments/mixed_matrix_commitment_scheme.h"],
  [("layer construction with injection of shorter matrices", C+"commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h")])
p("C17", "FRI accepts low-degree commitments and rejects altered proofs",
  "For every polynomial batch within the claimed degree, every configuration and query index, an honestly generated FRI proof verifies with opened values equal to the polynomials' true evaluations; changing any opened value, commitment, query answer, final polynomial or the claimed points makes verification fail, and folding a codeword equals evaluating the folded polynomial.",
  ["inputs", "configurations"], "all polynomials, degrees, blow-up factors, query indices and single proof modifications",
  "Tests run one random instance each.",
  [C+"commitments/fri/two_adic_fri.h", C+"commitments/fri/prove.h", C+"commitments/fri/verify.h", C+"commitments/fri/simple_fri.h", C+"commitments/fri/fri_config.h", C+"commitments/fri/two_adic_multiplicative_coset.h"],
  [("commit phase folding and query consistency", C+"commitments/fri/")])
p("C18", "KZG-family and Pedersen commitments bind, open and batch correctly",
  "Commitments are additively homomorphic and equal the commitment formula for coefficient and evaluation forms alike; honest openings (KZG-based GWC and SHPlonk for any set of polynomials, points and repeated queries) verify, and proofs for any altered value, point, commitment or proof element are refused. Batched commitments equal the individual ones in order.",
  ["inputs", "configurations"], "all polynomial batches, query point sets and single modifications",
  "Tests run one random polynomial batch per scheme.",
  [C+"commitments/kzg/kzg.h", C+"commitments/kzg/kzg_family.h", C+"commitments/kzg/gwc.h", C+"commitments/kzg/shplonk.h", C+"commitments/pedersen/pedersen.h", C+"commitments/polynomial_openings.h", C+"commitments/batch_commitment_state.h"],
  [("grouping of openings by point and by polynomial", C+"commitments/polynomial_openings.h")])
p("C19", "Sumcheck proves exactly the true sum",
  "For every list of products of multilinear polynomials, the honest prover's round messages make the verifier accept exactly when the claimed sum is the sum over the hypercube, and the point and value the verifier outputs agree with evaluating the polynomial there; a wrong claimed sum or an altered round message is rejected or leads to a subclaim the polynomial does not satisfy.",
  ["inputs", "histories"], "all multilinear product lists, variable counts, challenges and single modifications",
  "Tests run random instances of fixed shape.",
  [C+"sumcheck/multilinear/multilinear_sumcheck.h", C+"sumcheck/multilinear/sumcheck_prover.h", C+"sumcheck/multilinear/sumcheck_verifier.h", C+"sumcheck/multilinear/sumcheck_prover_msg.h"],
  [("per-round message computation and fixing of variables", C+"sumcheck/multilinear/sumcheck_prover.h")],
  [("round", "number of bound variables", C+"sumcheck/multilinear/sumcheck_prover.h")])
p("C20", "Seeded random generators are reproducible streams",
  "Each seeded generator outputs the stream its algorithm and seed define; the stream does not depend on how draws of different sizes are grouped as documented, serialising a generator at any point and restoring it continues the same stream, and a wrong-sized seed is refused. Field elements drawn from a generator are canonical and a function of the stream.",
  ["histories", "inputs"], "all seeds, all sequences of draws, saves and restores",
  "Tests compare the first outputs for one seed.",
  [C+"random/rng.h", C+"random/block_rng.h", C+"random/xor_shift/xor_shift_rng.h", C+"random/cha_cha20/cha_cha20_rng.h", Z+"plonk/halo2/random_field_generator.h"],
  [("block buffering and index", C+"random/block_rng.h")])
p("C21", "R1CS circuits are satisfied exactly by valid assignments and Groth16 proves them",
  "The rank-1 constraint system records variables, linear combinations and constraints so that it is reported satisfied exactly when every constraint's product holds, its exported matrices equal the recorded constraints whatever the optimisation goal, its QAP reduction agrees with them, and Groth16 accepts proofs of satisfied instances for the right public inputs and rejects altered inputs or proofs.",
  ["inputs", "histories"], "all sequences of variable/constraint additions, assignments and modifications",
  "Tests use one multiplication circuit.",
  [Z+"r1cs/constraint_system/constraint_system.h", Z+"r1cs/constraint_system/linear_combination.h", Z+"r1cs/constraint_system/matrix.h", Z+"r1cs/constraint_system/quadratic_arithmetic_program.h", Z+"r1cs/groth16/prove.h", Z+"r1cs/groth16/verify.h"],
  [("symbolic linear combination inlining", Z+"r1cs/constraint_system/constraint_system.h")])
p("C22", "Every evaluator of a circuit expression computes the same value",
  "For every gate expression (constants, columns with rotations, challenges, selectors, negation, sum, product, scaling) the direct evaluators used for proving and verifying and the compiled calculation graph give the expression's algebraic value at every row with rotations wrapping around, its reported degree is the algebraic degree bound, and simplifications and selector replacement never change the value.",
  ["inputs", "programs"], "all expression trees, table contents and rows",
  "Tests evaluate one node type at a time with fixed values.",
  [Z+"expressions/expression.h", Z+"expressions/expression_factory.h", Z+"expressions/evaluator.h", Z+"plonk/expressions/proving_evaluator.h", Z+"plonk/expressions/verifying_evaluator.h", Z+"plonk/vanishing/graph_evaluator.h", Z+"plonk/vanishing/calculation.h", Z+"plonk/vanishing/value_source.h", Z+"plonk/expressions/evaluator/selector_replacer.h", Z+"plonk/expressions/evaluator/simple_selector_extractor.h", Z+"plonk/expressions/compress_expression.h", Z+"base/rotation.h"],
  [("common-subexpression reuse in the calculation graph", Z+"plonk/vanishing/graph_evaluator.h")])
p("C23", "PLONK constraint-system bookkeeping is consistent",
  "However a circuit is configured, columns, selectors and challenges get distinct consecutive indices; each queried (column, rotation) has exactly one query index that every lookup of it returns; the per-column query counts, the permutation column list, the required degree, the number of blinding factors and the minimum rows are exactly those implied by the recorded gates, lookups, shuffles and equalities.",
  ["histories"], "all sequences of configuration calls",
  "Tests configure a couple of columns and one gate.",
  [Z+"plonk/constraint_system/constraint_system.h", Z+"plonk/constraint_system/virtual_cells.h", Z+"plonk/permutation/permutation_argument.h", Z+"plonk/constraint_system/query.h", Z+"lookup/argument.h", Z+"shuffle/argument.h"],
  [("query interning", Z+"plonk/constraint_system/constraint_system.h")],
  [("queries", "one entry per distinct (column, rotation)", Z+"plonk/constraint_system/constraint_system.h")])
p("C24", "Copy constraints yield exactly the permutation of their equivalence classes",
  "After any sequence of copy constraints between cells, following the permutation from any cell visits exactly the cells declared (transitively) equal to it and returns, distinct classes never mix, repeated or self copies change nothing, and copies naming unknown columns or out-of-range rows are refused; the permutation polynomials encode exactly this mapping.",
  ["histories"], "all sequences of copy constraints", "Tests merge two or three fixed cycles.",
  [Z+"plonk/permutation/cycle_store.h", Z+"plonk/permutation/cycle_store.cc", Z+"plonk/permutation/permutation_assembly.h", Z+"plonk/permutation/permutation_argument.h", Z+"plonk/permutation/unpermuted_table.h", Z+"plonk/permutation/permuted_table.h", Z+"plonk/permutation/permutation_table_store.h"],
  [("union by size of cycles", Z+"plonk/permutation/cycle_store.cc")],
  [("mapping/aux/sizes", "next cell, class representative, class size", Z+"plonk/permutation/cycle_store.h")])
p("C25", "Floor planners place regions without overlap",
  "For every circuit's sequence of regions, both floor planners give every region a start row such that no two regions use the same row of the same column, every region fits below the reported end, constants get free cells of the constant columns, and cells are assigned at region start plus offset; equal inputs give equal layouts, and lookup tables are filled with their default value and refused when columns are uneven.",
  ["histories", "inputs"], "all sequences of regions, shapes and constants",
  "Tests cover the region columns' order and one circuit.",
  [Z+"plonk/layout/floor_planner/v1/v1_strategy.cc", Z+"plonk/layout/floor_planner/v1/v1_plan.h", Z+"plonk/layout/floor_planner/allocations.h", Z+"plonk/layout/floor_planner/allocated_region.h", Z+"plonk/layout/floor_planner/single_chip_layouter.h", Z+"plonk/layout/region_shape.h", Z+"plonk/layout/floor_planner/simple_lookup_table_layouter.h"],
  [("first-fit slot search over free intervals", Z+"plonk/layout/floor_planner/v1/v1_strategy.cc")],
  [("column allocations", "disjoint [start, start+length) intervals per column", Z+"plonk/layout/floor_planner/allocations.h")])
p("C26", "Selector compression preserves which gates are active",
  "For every set of selectors with activation rows and gate degrees, each selector is assigned to exactly one combined column so that at every row its replacement expression is non-zero exactly where that selector is enabled and zero elsewhere, selectors active in a common row never share a column, and no combined gate exceeds the maximum degree.",
  ["inputs"], "all activation patterns, degrees and degree limits", "Tests use one fixed selector set.",
  [Z+"plonk/constraint_system/selector_compressor.h", Z+"plonk/constraint_system/exclusion_matrix.h", Z+"plonk/constraint_system/selector_assignment.h", Z+"plonk/constraint_system/selector_description.h"],
  [("greedy exclusion based grouping", Z+"plonk/constraint_system/selector_compressor.h")])
p("C27", "Lookup permutation and multiplicities are faithful",
  "When every input value occurs in the table, permuting an input/table pair returns rearrangements of the same multisets in which every input equals its table neighbour or its predecessor, leaving blinding rows aside; if some input is missing from the table the attempt is refused. Grand products and running sums of lookup, shuffle and permutation arguments close exactly when the relation holds.",
  ["inputs"], "all input and table columns", "Tests use one random permuted column.",
  [Z+"lookup/halo2/permute_expression_pair.h", Z+"lookup/halo2/prover_impl.h", Z+"lookup/log_derivative_halo2/prover_impl.h", Z+"shuffle/prover_impl.h", Z+"plonk/permutation/grand_product_argument.h"],
  [("sorting and leftover distribution", Z+"lookup/halo2/permute_expression_pair.h")])
p("C28", "Halo2 proofs verify exactly for satisfied circuits",
  "For every satisfied circuit and witness, the created proof verifies with its instance and verifying key, deterministically for equal randomness; a proof of an unsatisfied witness, or a proof changed in any byte or checked against changed instances, is rejected without crashing. Reading a proof consumes exactly the bytes written, in the order of the protocol.",
  ["inputs", "programs"], "all circuits, witnesses and single-element modifications",
  "Tests replay fixed example circuits with fixed proofs.",
  [Z+"plonk/halo2/prover.h", Z+"plonk/halo2/verifier.h", Z+"plonk/halo2/proof_reader.h", Z+"plonk/halo2/argument_data.h", Z+"plonk/halo2/witness_collection.h", Z+"plonk/keys/proving_key.h", Z+"plonk/keys/verifying_key.h", Z+"plonk/vanishing/vanishing_argument.h", Z+"plonk/permutation/permutation_prover_impl.h"],
  [("protocol rounds over the transcript", Z+"plonk/halo2/prover.h")])
p("C29", "Serialised values read back equal and never overrun their buffer",
  "Writing any supported value (builtins, strings, arrays, vectors, big integers, field elements, points, polynomials, matrices, keys) to a buffer in either byte order and reading it back yields an equal value and consumes exactly the bytes written, which equal the estimated size; reads and writes beyond a fixed buffer, or whose offset overflows, fail without touching memory or the cursor, and growable buffers keep everything already written.",
  ["inputs", "histories"], "all values and all sequences of cursor moves, reads and writes",
  "Tests write one fixed sequence and read it back.",
  [B+"buffer/buffer.h", B+"buffer/buffer.cc", B+"buffer/read_only_buffer.h", B+"buffer/read_only_buffer.cc", B+"buffer/vector_buffer.h", B+"buffer/string_buffer.h", B+"buffer/copyable.h", B+"buffer/endian_auto_reset.h"],
  [("bounds check before every access", B+"buffer/read_only_buffer.cc")],
  [("buffer/offset/len/endian", "byte sequence, cursor and byte order", B+"buffer/read_only_buffer.h")])
p("C30", "The circular deque behaves as a sequence under every history",
  "Whatever sequence of push, pop, insert, emplace, erase, resize, shrink, clear, copy, move, assign and swap is applied, size, element order, iteration in both directions, random access and returned iterators are those of a plain sequence, and each element is constructed and destroyed exactly once.",
  ["histories"], "all operation sequences with all internal wrap-around positions",
  "Tests exercise selected layouts; wrap-around position depends on the whole history.",
  [B+"containers/circular_deque.h", B+"containers/vector_buffer.h"],
  [("begin/end indices modulo capacity", B+"containers/circular_deque.h")],
  [("begin_/end_", "ring positions", B+"containers/circular_deque.h")])
p("C31", "Parallel helpers cover every element exactly once with any thread count",
  "Splitting work over a container or size by chunk size or thread count calls the callback on disjoint chunks that together cover every element exactly once, with correct chunk indices and lengths, for every size, chunk size and thread count; mapped results come back in chunk order, parallel fill/resize equal the sequential ones, and parallel algorithms built on them give the same result with any number of threads.",
  ["schedules", "inputs", "configurations"], "all sizes, chunk sizes, thread counts and schedules",
  "The stable tests run without OpenMP, with one size each.",
  [B+"parallelize.h", B+"openmp_util.h", B+"containers/chunked_iterator.h", B+"containers/adapters.h", B+"containers/zipped_iterator.h"],
  [("chunk arithmetic", B+"parallelize.h")])
p("C32", "Checked and saturating numerics never wrap silently",
  "For all integer types, range checks, checked casts, checked arithmetic and clamped arithmetic agree with exact integer arithmetic: a checked result is valid exactly when the true result is representable and then equals it, a clamped or saturated result is the nearest representable value, and invalidity propagates through any chain of operations.",
  ["inputs", "histories"], "all values and type combinations, all operation chains", "No test of the repository covers these headers directly.",
  [B+"numerics/checked_math.h", B+"numerics/checked_math_impl.h", B+"numerics/clamped_math.h", B+"numerics/clamped_math_impl.h", B+"numerics/safe_conversions.h", B+"numerics/safe_conversions_impl.h", B+"numerics/safe_math_shared_impl.h", B+"numerics/safe_math_clang_gcc_impl.h"],
  [("overflow builtins and range relations", B+"numerics/")])
p("C33", "Time values saturate and convert consistently",
  "Durations and time points add, subtract, scale, divide, compare and convert between units exactly on representable values and saturate to infinity instead of wrapping; conversions to and from timespec, timeval, civil time and text invert each other where representable, and an interval measurer's elapsed time equals the difference of the clock readings.",
  ["inputs", "histories"], "all 64-bit durations and chains of operations", "Tests use selected constants.",
  [B+"time/time.h", B+"time/time.cc", B+"time/time_stamp.h", B+"time/time_interval.h", B+"time/time_conversion_posix.cc", B+"time/time_delta_flag.h"],
  [("clamped arithmetic with infinities", B+"time/time.h")])
p("C34", "File operations behave as operations on a file-system tree",
  "Creating, writing, appending, reading, copying, moving, replacing, deleting (recursively or not), enumerating and memory-mapping files have exactly the effect of the corresponding operation on a tree of names and byte strings, report success exactly when they took effect, never touch anything outside their operands, and path algebra (base name, directory, extension, append, parent test) is consistent with it.",
  ["histories", "inputs"], "all sequences of operations on small trees and all path strings",
  "Tests run single operations on fresh temporary files.",
  [B+"files/file_util.cc", B+"files/file_util_posix.cc", B+"files/file.cc", B+"files/file_posix.cc", B+"files/file_path.cc", B+"files/file_enumerator_posix.cc", B+"files/scoped_temp_dir.cc", B+"files/memory_mapped_file.cc", B+"files/bin_file.cc"],
  [("POSIX wrappers", B+"files/")])
p("C35", "Scoped owners release each resource exactly once",
  "Through any history of construction, move, swap, reset, release and destruction of scoped owners (handles, files, temporary directories, value resets, maybe-owned references), each acquired resource is released exactly once, by its last owner, never while still owned elsewhere, and temporarily replaced values are restored in reverse order.",
  ["histories"], "all histories of ownership operations", "Tests run a few moves and resets.",
  [B+"scoped_generic.h", B+"auto_reset.h", B+"maybe_owned.h", B+"ref.h", B+"files/scoped_file.h", B+"files/scoped_temp_dir.h", B+"test/scoped_environment.cc"],
  [("invalid value after transfer", B+"scoped_generic.h")])
p("C36", "Command-line flags parse exactly the declared grammar",
  "For every declared set of positional, optional, repeated, choice and sub-command flags and every argument vector, parsing succeeds exactly when the arguments fit the declaration, sets each flag to the value(s) given, leaves others at their defaults, and otherwise reports an error naming the cause without accepting the vector.",
  ["inputs", "configurations"], "all flag declarations and argument vectors", "Tests use about fifteen fixed command lines.",
  [B+"flag/flag_parser.cc", B+"flag/flag_parser.h", B+"flag/flag.h", B+"flag/flag.cc", B+"flag/flag_value_traits.h", B+"flag/numeric_flags.h"],
  [("argument matching loop", B+"flag/flag_parser.cc")])
p("C37", "The C and C++ binding APIs compute what the core library computes",
  "Every exported C (and C++ wrapper) function on field elements, extension fields, points, polynomials, matrices and containers returns the result the core library defines for the same operands, conversions between the representations preserve the value, and created objects live until destroyed exactly once with clones independent of the original.",
  ["inputs", "histories"], "all operands and call sequences of the exported API", "Tests compare random operands once.",
  ["tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.cc.tpl", "tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.cc.tpl", "tachyon/c/math/elliptic_curves/generator/point.cc.tpl", "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations.cc", "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations.cc", "tachyon/c/math/matrix/baby_bear_row_major_matrix.cc", "tachyon/cc/math/elliptic_curves/generator/prime_field.cc.tpl", "tachyon/cc/math/elliptic_curves/generator/g1.cc.tpl", "tachyon/c/base/type_traits_forward.h"],
  [("type-trait casts between C structs and C++ objects", "tachyon/c/base/type_traits_forward.h")])
p("C38", "The tracking allocator accounts for every byte",
  "For every history of allocations and deallocations through the tracking allocator, reported total, high watermark and current bytes, sizes and ids are those of the calls made, and its storage is freed exactly when the last user has released it; allocator registration returns the highest-priority factory registered for a name.",
  ["histories"], "all sequences of allocation, deallocation, statistics and release calls", "No repository test drives it.",
  ["tachyon/device/tracking_allocator.cc", "tachyon/device/tracking_allocator.h", "tachyon/device/allocator.cc", "tachyon/device/allocator.h", "tachyon/device/allocator_registry.cc"],
  [("reference count and in-use map", "tachyon/device/tracking_allocator.cc")],
  [("ref_/in_use_/allocated_", "live users, per-pointer sizes, current bytes", "tachyon/device/tracking_allocator.h")])
p("C39", "Numbers and text convert without loss or silent acceptance",
  "Formatting any integer (decimal or hexadecimal, any width) and parsing it back gives the same integer; parsing accepts exactly the documented number syntax, reports failure on empty, malformed or out-of-range text (white space around a machine integer is ignored) and looks at nothing outside the given text, and string utilities (case mapping, case-insensitive compare, prefix and suffix tests, hexadecimal encoding, formatting of containers) equal their definitions for every byte string.",
  ["inputs"], "all strings and all integers", "Tests list selected strings.",
  [B+"strings/string_number_conversions.cc", B+"strings/string_number_conversions.h", B+"strings/string_number_conversions_internal.h", B+"strings/string_util.cc", B+"strings/string_util.h"],
  [("digit loops with overflow checks", B+"strings/string_number_conversions_internal.h")])
p("C40", "Rational (deferred-division) field values denote exact fractions",
  "Values kept as numerator and denominator add, subtract, multiply, divide, invert, compare and evaluate as the fraction they denote for every history of operations; batch evaluation equals evaluating one by one, with a zero denominator denoting zero in batch evaluation and never corrupting its neighbours. A witness value that is unknown stays unknown through every operation, and a known one behaves exactly like the value it holds, comparisons included.",
  ["inputs", "histories"], "all fractions including zero numerators and denominators, and all operation chains", "Tests use two fixed fractions.",
  [M+"base/rational_field.h", M+"base/field.h", M+"base/groups.h"],
  [("lazy denominators and batch inversion", M+"base/rational_field.h"), ("known and unknown values", "tachyon/zk/base/value.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
