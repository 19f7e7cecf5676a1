load("//tachyon/math/finite_fields/generator/prime_field_generator:build_defs.bzl", "generate_fft_prime_fields", "generate_large_fft_prime_fields", "generate_prime_fields", "SMALL_SUBGROUP_ADICITY", "SMALL_SUBGROUP_BASE", "SUBGROUP_GENERATOR")
load("//tachyon/math/finite_fields/generator/ext_field_generator:build_defs.bzl", "generate_fp12s", "generate_fp2s", "generate_fp3s", "generate_fp4s", "generate_fp6s")
load("@bazel_skylib//rules:common_settings.bzl", "string_flag")
string_flag(name = "g11", build_setting_default = "11")
string_flag(name = "g2", build_setting_default = "2")
string_flag(name = "g3", build_setting_default = "3")
string_flag(name = "g13", build_setting_default = "13")
string_flag(name = "a4", build_setting_default = "4")
generate_large_fft_prime_fields(name = "vgoldi", class_name = "VGoldi", modulus = "18446744069414584321", namespace = "tachyon::math::vhf",
    small_subgroup_adicity = "//tachyon/math/finite_fields/goldilocks:" + SMALL_SUBGROUP_ADICITY, small_subgroup_base = "//tachyon/math/finite_fields/goldilocks:" + SMALL_SUBGROUP_BASE,
    subgroup_generator = "//tachyon/math/finite_fields/goldilocks:" + SUBGROUP_GENERATOR)
generate_fft_prime_fields(name = "f12289", class_name = "F12289", modulus = "12289", namespace = "tachyon::math::vhf", subgroup_generator = ":g11")
generate_prime_fields(name = "p64", class_name = "P64", modulus = "18446744073709551557", namespace = "tachyon::math::vhf")
generate_prime_fields(name = "p128", class_name = "P128", modulus = "340282366920938463463374607431768211297", namespace = "tachyon::math::vhf")
generate_prime_fields(name = "p127", class_name = "P127", modulus = "170141183460469231731687303715884105727", namespace = "tachyon::math::vhf")
cc_library(name = "tr", hdrs = ["tr.h"])
cc_binary(name = "deque", srcs = ["deque.cc"], deps = [":tr", "//tachyon/base/containers:circular_deque"])
cc_library(name = "fieldutil", hdrs = ["fieldutil.h", "field.h"], deps = [":tr", "//tachyon/math/base:big_int"])
cc_binary(name = "field1", srcs = ["field1.cc"], deps = [":fieldutil",
  "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/finite_fields/mersenne31", "//tachyon/math/finite_fields/goldilocks",
  "//tachyon/math/elliptic_curves/bn/bn254:fq", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/elliptic_curves/bls12/bls12_381:fq", "//tachyon/math/elliptic_curves/bls12/bls12_381:fr",
  "//tachyon/math/elliptic_curves/secp/secp256k1:fq", "//tachyon/math/elliptic_curves/secp/secp256k1:fr", "//tachyon/math/elliptic_curves/pasta/pallas:fq", "//tachyon/math/elliptic_curves/pasta/vesta:fq",
  "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fq", "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fr", "//tachyon/math/finite_fields/test:gf7", ":vgoldi", ":p64", ":p127", ":p128", ":f12289"])

generate_fp2s(name = "vgoldi2", class_name = "VGoldi2", base_field = "VGoldi", base_field_hdr = "vh/vgoldi.h", non_residue = ["7"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":vgoldi"])
generate_fp2s(name = "x2", class_name = "X2", base_field = "F12289", base_field_hdr = "vh/f12289.h", non_residue = ["11"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":f12289"])
generate_fp3s(name = "x3", class_name = "X3", base_field = "F12289", base_field_hdr = "vh/f12289.h", non_residue = ["11"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":f12289"])
generate_fp4s(name = "x4", class_name = "X4", base_field_degree = 1, base_field = "F12289", base_field_hdr = "vh/f12289.h", non_residue = ["11"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":f12289"])
generate_fp6s(name = "x6a", class_name = "X6A", base_field_degree = 3, base_field = "X3", base_field_hdr = "vh/x3.h", non_residue = ["0", "1", "0"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":x3"])
generate_fp6s(name = "x6b", class_name = "X6B", base_field_degree = 2, base_field = "X2", base_field_hdr = "vh/x2.h", non_residue = ["0", "1"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":x2"])
generate_fp12s(name = "x12", class_name = "X12", base_field = "X6B", base_field_hdr = "vh/x6b.h", non_residue = ["0", "1", "0"], is_packed = False, namespace = "tachyon::math::vhf", deps = [":x6b"])
cc_library(name = "extutil", hdrs = ["extutil.h"], deps = [":fieldutil"])
cc_binary(name = "ext", srcs = ["ext.cc"], deps = [":extutil", ":vgoldi2", ":x4", ":x6a", ":x12",
  "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/koala_bear:koala_bear4", "//tachyon/math/elliptic_curves/bn/bn254:fq12", "//tachyon/math/elliptic_curves/bls12/bls12_381:fq12",
  "//tachyon/math/finite_fields/test:gf7_2", "//tachyon/math/finite_fields/test:gf7_3", "//tachyon/math/circle/m31:fq4"])
cc_binary(name = "koala_probe", srcs = ["koala_probe.cc"], deps = ["//tachyon/math/finite_fields/koala_bear:koala_bear4", "//tachyon/math/finite_fields/koala_bear:packed_koala_bear4"])
cc_binary(name = "bigint", srcs = ["bigint.cc"], deps = [":fieldutil", "//tachyon/math/base:bit_iterator", "//tachyon/math/base:egcd", "//tachyon/math/base:byinverter", "//tachyon/math/base/gmp:gmp_util", "//tachyon/math/elliptic_curves/msm/algorithms/pippenger"])
cc_binary(name = "bintower", srcs = ["bintower.cc"], deps = [":fieldutil", "//tachyon/math/finite_fields/binary_fields"])
cc_binary(name = "sqrt", srcs = ["sqrt.cc"], deps = [":fieldutil",
  "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/finite_fields/mersenne31", "//tachyon/math/finite_fields/goldilocks",
  "//tachyon/math/elliptic_curves/bn/bn254:fq", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/elliptic_curves/bls12/bls12_381:fq", "//tachyon/math/elliptic_curves/bls12/bls12_381:fr",
  "//tachyon/math/elliptic_curves/secp/secp256k1:fq", "//tachyon/math/elliptic_curves/secp/secp256k1:fr", "//tachyon/math/elliptic_curves/pasta/pallas:fq", "//tachyon/math/elliptic_curves/pasta/vesta:fq",
  "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fq", "//tachyon/math/elliptic_curves/bn/bn384_small_two_adicity:fr", "//tachyon/math/finite_fields/test:gf7", ":vgoldi", ":p127", ":f12289"])
load("//tachyon/math/elliptic_curves/short_weierstrass/generator:build_defs.bzl", "generate_ec_points")
generate_prime_fields(name = "q12097", class_name = "Q12097", modulus = "12097", namespace = "tachyon::math::vhf")
generate_prime_fields(name = "q12379", class_name = "Q12379", modulus = "12379", namespace = "tachyon::math::vhf")
generate_ec_points(name = "s0", class_name = "S0", namespace = "tachyon::math::vhf", a = ["0"], b = ["11"], x = ["1"], y = ["2642"], base_field = "F12289", base_field_degree = 1, base_field_dep = ":f12289", base_field_hdr = "vh/f12289.h",
  scalar_field = "Q12097", scalar_field_dep = ":q12097", scalar_field_hdr = "vh/q12097.h")
generate_ec_points(name = "s1", class_name = "S1", namespace = "tachyon::math::vhf", a = ["5"], b = ["48"], x = ["1"], y = ["3700"], base_field = "F12289", base_field_degree = 1, base_field_dep = ":f12289", base_field_hdr = "vh/f12289.h",
  scalar_field = "Q12379", scalar_field_dep = ":q12379", scalar_field_hdr = "vh/q12379.h")
generate_ec_points(name = "s2", class_name = "S2", namespace = "tachyon::math::vhf", a = ["-3"], b = ["4"], x = ["1"], y = ["3100"], base_field = "F12289", base_field_degree = 1, base_field_dep = ":f12289", base_field_hdr = "vh/f12289.h",
  scalar_field = "Q12097", scalar_field_dep = ":q12097", scalar_field_hdr = "vh/q12097.h")
cc_library(name = "ecutil", hdrs = ["ecutil.h"], deps = [":extutil", "//tachyon/math/geometry:point_conversions"])
cc_binary(name = "ec", srcs = ["ec.cc"], deps = [":ecutil", ":s0", ":s1", ":s2", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bn/bn254:g2", "//tachyon/math/elliptic_curves/bls12/bls12_381:g1", "//tachyon/math/elliptic_curves/bls12/bls12_381:g2",
  "//tachyon/math/elliptic_curves/secp/secp256k1:curve", "//tachyon/math/elliptic_curves/pasta/pallas:curve", "//tachyon/math/elliptic_curves/pasta/vesta:curve"])

cc_binary(name = "msm", srcs = ["msm.cc"], deps = [":ecutil", ":s0", ":s1", ":s2", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bn/bn254:g2", "//tachyon/math/elliptic_curves/bls12/bls12_381:g1", "//tachyon/math/elliptic_curves/bls12/bls12_381:g2",
  "//tachyon/math/elliptic_curves/secp/secp256k1:curve", "//tachyon/math/elliptic_curves/msm:variable_base_msm", "//tachyon/math/elliptic_curves/msm:fixed_base_msm", "//tachyon/math/elliptic_curves/msm:glv", "//tachyon/math/elliptic_curves/msm/algorithms/pippenger:pippenger_adapter"])
cc_binary(name = "poly", srcs = ["poly.cc"], deps = [":extutil", ":f12289", ":vgoldi", ":x2", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/univariate:univariate_polynomial", "//tachyon/math/polynomials/univariate:lagrange_interpolation"])
cc_binary(name = "domain", srcs = ["domain.cc"], deps = [":extutil", ":f12289", ":vgoldi", "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/math/polynomials/univariate:naive_batch_fft"])
cc_binary(name = "multi", srcs = ["multi.cc"], deps = [":extutil", ":f12289", ":x2", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/multivariate:multilinear_extension", "//tachyon/math/polynomials/multivariate:multivariate_polynomial", "//tachyon/math/polynomials/multivariate:linear_combination"])
cc_binary(name = "matrix", srcs = ["matrix.cc"], deps = [":extutil", ":f12289", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/baby_bear:packed_baby_bear4", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/matrix:matrix_operations", "//tachyon/math/matrix:matrix_types", "//tachyon/math/matrix:matrix_utils", "//tachyon/math/matrix/sparse:sparse_matrix", "//tachyon/base/buffer:vector_buffer", "@com_google_absl//absl/hash"])
cc_binary(name = "poseidon", srcs = ["poseidon.cc"], deps = [":extutil", ":f12289", "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/finite_fields/mersenne31", "//tachyon/math/finite_fields/goldilocks", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/crypto/hashes/sponge/poseidon", "//tachyon/crypto/hashes/sponge/poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_koala_bear", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_mersenne31", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_bn254", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_goldilocks", "//tachyon/base/buffer:vector_buffer"])
cc_binary(name = "transcript", srcs = ["transcript.cc"], deps = [":extutil", ":f12289", ":x2", ":x4", "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/finite_fields/mersenne31", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/crypto/challenger:duplex_challenger", "//tachyon/crypto/challenger:hash_challenger", "//tachyon/crypto/challenger:multi_field32_challenger", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/hashes/sponge/poseidon", "//tachyon/crypto/hashes/sponge/poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_bn254", "//tachyon/crypto/transcripts:simple_transcript", "//tachyon/zk/plonk/halo2:blake2b_transcript", "//tachyon/zk/plonk/halo2:sha256_transcript", "//tachyon/zk/plonk/halo2:poseidon_transcript", "//tachyon/zk/plonk/halo2:snark_verifier_poseidon_transcript", "//tachyon/base/buffer:vector_buffer"])
cc_library(name = "mmcsutil", hdrs = ["mmcsutil.h"], deps = [":extutil", "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/baby_bear:packed_baby_bear4", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:field_merkle_tree_mmcs", "//tachyon/crypto/commitments/merkle_tree/field_merkle_tree:extension_field_merkle_tree_mmcs", "//tachyon/crypto/hashes/sponge:padding_free_sponge", "//tachyon/crypto/hashes/sponge:truncated_permutation", "//tachyon/crypto/hashes/sponge/poseidon2", "//tachyon/crypto/hashes/sponge/poseidon2/param_traits:poseidon2_baby_bear"])
cc_binary(name = "merkle", srcs = ["merkle.cc"], deps = [":mmcsutil", "//tachyon/crypto/commitments/merkle_tree/binary_merkle_tree", "//tachyon/crypto/commitments/merkle_tree/binary_merkle_tree:simple_binary_merkle_tree_storage"])

cc_binary(name = "buffer", srcs = ["buffer.cc"], deps = [":mmcsutil", ":ecutil", ":f12289", ":vgoldi", ":x2", ":x3", ":s1", "//tachyon/base/buffer:copyable", "//tachyon/base/buffer:endian_auto_reset", "//tachyon/base/buffer:string_buffer", "//tachyon/base/buffer:vector_buffer", "//tachyon/crypto/commitments/kzg", "//tachyon/crypto/commitments/pedersen", "//tachyon/crypto/hashes/sponge:sponge_state", "//tachyon/crypto/sumcheck/multilinear:sumcheck_verifying_key", "//tachyon/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/finite_fields/koala_bear", "//tachyon/math/finite_fields/mersenne31", "//tachyon/math/geometry:dimensions", "//tachyon/math/geometry:point2", "//tachyon/math/geometry:point3", "//tachyon/math/geometry:point4", "//tachyon/math/polynomials/multivariate:linear_combination_term", "//tachyon/math/polynomials/multivariate:multilinear_extension", "//tachyon/math/polynomials/univariate:univariate_polynomial"])
cc_binary(name = "parallel", srcs = ["parallel.cc"], deps = [":fieldutil", ":f12289", "//tachyon/base:parallelize", "//tachyon/base/containers:adapters", "//tachyon/base/containers:container_util", "//tachyon/base/containers:contains", "//tachyon/base/containers:cxx20_erase", "//tachyon/math/finite_fields/test:gf7"])
cc_library(name = "numutil", hdrs = ["numutil.h"], deps = [":tr"])
cc_binary(name = "numerics", srcs = ["numerics.cc"], deps = [":numutil", "//tachyon/base/numerics:checked_math", "//tachyon/base/numerics:clamped_math", "//tachyon/base/numerics:safe_conversions"])
cc_binary(name = "text", srcs = ["text.cc"], deps = [":fieldutil", ":numutil", ":f12289", "//tachyon/base/strings:rust_stringifier", "//tachyon/base/strings:string_number_conversions", "//tachyon/base/strings:string_util", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear"])
cc_binary(name = "time", srcs = ["time.cc"], deps = [":numutil", "//tachyon/base/time", "//tachyon/base/time:time_delta_flag", "//tachyon/base/time:time_interval", "//tachyon/base/time:time_stamp"])
cc_binary(name = "flags", srcs = ["flags.cc"], copts = ["-fno-rtti"], deps = [":tr", "//tachyon/base:environment", "//tachyon/base/files:file_path_flag", "//tachyon/base/flag:flag_parser"])
cc_binary(name = "files", srcs = ["files.cc"], deps = [":tr", "//tachyon/base/files:bin_file", "//tachyon/base/files:file_util", "//tachyon/base/files:memory_mapped_file"])
cc_binary(name = "owners", srcs = ["owners.cc"], deps = [":tr", "//tachyon/base:auto_reset", "//tachyon/base:maybe_owned", "//tachyon/base:ref", "//tachyon/base:scoped_generic", "//tachyon/base/buffer:endian_auto_reset", "//tachyon/base/buffer:vector_buffer", "//tachyon/base/files:scoped_file", "//tachyon/base/files:scoped_temp_dir", "@com_google_absl//absl/hash"])
cc_binary(name = "alloc", srcs = ["alloc.cc"], copts = ["-fno-rtti"], deps = [":tr", "//tachyon/base/memory:aligned_memory", "//tachyon/device:allocator", "//tachyon/device:numa"])
cc_binary(name = "rational", srcs = ["rational.cc"], deps = [":fieldutil", ":f12289", "//tachyon/math/base:rational_field", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/test:gf7", "//tachyon/zk/base:value"])
cc_binary(name = "perm", srcs = ["perm.cc"], deps = [":fieldutil", ":f12289", ":vgoldi", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/zk/plonk/permutation:permutation_assembly", "//tachyon/zk/plonk/permutation:permutation_table_store", "//tachyon/zk/plonk/permutation:permutation_utils"])
cc_library(name = "dies", hdrs = ["dies.h"], deps = [":tr"])
cc_library(name = "exprutil", hdrs = ["exprutil.h"], deps = [":fieldutil", "//tachyon/zk/plonk/expressions:expression_factory"])
cc_binary(name = "expr", srcs = ["expr.cc"], deps = [":dies", ":exprutil", ":f12289", ":vgoldi", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/zk/plonk/expressions:compress_expression", "//tachyon/zk/plonk/expressions:verifying_evaluator", "//tachyon/zk/plonk/expressions:proving_evaluator", "//tachyon/zk/plonk/expressions/evaluator:identifier", "//tachyon/zk/plonk/expressions/evaluator:selector_replacer", "//tachyon/zk/plonk/expressions/evaluator:simple_selector_extractor", "//tachyon/zk/plonk/expressions/evaluator:simple_selector_finder", "//tachyon/zk/plonk/vanishing:graph_evaluator"])
cc_library(name = "csutil", hdrs = ["csutil.h"], deps = [":exprutil", "//tachyon/zk/plonk/constraint_system"])
cc_binary(name = "consys", srcs = ["consys.cc"], deps = [":csutil", ":dies", ":f12289", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/elliptic_curves/bn/bn254:fr"])
cc_binary(name = "selcomp", srcs = ["selcomp.cc"], deps = [":csutil", ":f12289", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/zk/plonk/constraint_system:selector_compressor", "//tachyon/zk/plonk/constraint_system:exclusion_matrix"])
cc_library(name = "fakepcs", hdrs = ["fakepcs.h"], deps = [":fieldutil", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/zk/base/entities:prover_base"])
cc_binary(name = "arguments", srcs = ["arguments.cc"], deps = [":csutil", ":dies", ":fakepcs", ":vgoldi", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/zk/lookup/halo2:permute_expression_pair", "//tachyon/zk/lookup/halo2:prover", "//tachyon/zk/lookup/log_derivative_halo2:prover", "//tachyon/zk/plonk/permutation:permutation_assembly", "//tachyon/zk/plonk/permutation:permutation_prover", "//tachyon/zk/plonk/permutation:permutation_utils", "//tachyon/zk/shuffle:prover"])
cc_binary(name = "rng", srcs = ["rng.cc"], deps = [":dies", ":fieldutil", "//tachyon/c/crypto/random:rng", "//tachyon/crypto/random/cha_cha20:cha_cha20_rng", "//tachyon/crypto/random/xor_shift:xor_shift_rng", "//tachyon/math/elliptic_curves/bls12/bls12_381:fr", "//tachyon/math/elliptic_curves/bn/bn254:fq", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/elliptic_curves/secp/secp256k1:fr", "//tachyon/zk/plonk/halo2:prime_field_conversion", "//tachyon/zk/plonk/halo2:random_field_generator"])
cc_binary(name = "packed", srcs = ["packed.cc"], deps = [":extutil",
  "//tachyon/math/finite_fields/baby_bear:baby_bear4", "//tachyon/math/finite_fields/baby_bear:packed_baby_bear4", "//tachyon/math/finite_fields/koala_bear:koala_bear4", "//tachyon/math/finite_fields/koala_bear:packed_koala_bear4", "//tachyon/math/finite_fields/mersenne31"])
cc_binary(name = "layout", srcs = ["layout.cc"], copts = ["-fno-rtti"], deps = [":dies", ":fieldutil", ":f12289", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/zk/plonk/constraint_system:circuit", "//tachyon/zk/plonk/layout/floor_planner:simple_floor_planner", "//tachyon/zk/plonk/layout/floor_planner/v1:v1_floor_planner"])
cc_binary(name = "sumcheck", srcs = ["sumcheck.cc"], deps = [":extutil", ":f12289", "//tachyon/crypto/sumcheck/multilinear:sumcheck_prover", "//tachyon/crypto/sumcheck/multilinear:sumcheck_verifier", "//tachyon/math/elliptic_curves/bn/bn254:fr", "//tachyon/math/finite_fields/baby_bear", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/polynomials/multivariate:multilinear_extension"])
cc_binary(name = "kzg", srcs = ["kzg.cc"], deps = [":ecutil", ":s1", "//tachyon/base/buffer:vector_buffer", "//tachyon/crypto/commitments/kzg:gwc", "//tachyon/crypto/commitments/kzg:shplonk", "//tachyon/crypto/commitments/kzg", "//tachyon/crypto/commitments/pedersen", "//tachyon/math/elliptic_curves/bn/bn254", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory"])
cc_binary(name = "pairing", srcs = ["pairing.cc"], deps = [":ecutil", "//tachyon/math/elliptic_curves/bn/bn254", "//tachyon/math/elliptic_curves/bls12/bls12_381", "//tachyon/math/elliptic_curves/pairing"])
cc_binary(name = "r1cs", srcs = ["r1cs.cc"], deps = [":dies", ":ecutil", ":f12289", "//tachyon/math/elliptic_curves/bn/bn254", "//tachyon/math/finite_fields/test:gf7", "//tachyon/math/polynomials/univariate:univariate_evaluation_domain_factory", "//tachyon/zk/r1cs/constraint_system:quadratic_arithmetic_program", "//tachyon/zk/r1cs/groth16:prove", "//tachyon/zk/r1cs/groth16:verify"])
cc_binary(name = "capi", srcs = ["capi.cc"], deps = [":dies", ":ecutil", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fq12", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:fr", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:g1", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:g2", "//tachyon/c/math/elliptic_curves/bls12/bls12_381:msm", "//tachyon/c/math/elliptic_curves/bn/bn254:fq12", "//tachyon/c/math/elliptic_curves/bn/bn254:fr", "//tachyon/c/math/elliptic_curves/bn/bn254:g1", "//tachyon/c/math/elliptic_curves/bn/bn254:g2", "//tachyon/c/math/elliptic_curves/bn/bn254:msm", "//tachyon/c/math/finite_fields/baby_bear:baby_bear4", "//tachyon/c/math/matrix:baby_bear_row_major_matrix", "//tachyon/c/math/polynomials/univariate:bn254_univariate_evaluation_domain", "//tachyon/c/math/polynomials/univariate:bn254_univariate_rational_evaluations", "//tachyon/cc/math/elliptic_curves/bls12/bls12_381:fr", "//tachyon/cc/math/elliptic_curves/bls12/bls12_381:g1", "//tachyon/cc/math/elliptic_curves/bn/bn254:fr", "//tachyon/cc/math/elliptic_curves/bn/bn254:g1", "//tachyon/math/elliptic_curves/bls12/bls12_381", "//tachyon/math/elliptic_curves/bn/bn254", "//tachyon/math/finite_fields/baby_bear:packed_baby_bear4"])
