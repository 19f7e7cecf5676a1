#ifndef VH_MMCSUTIL_H_
#define VH_MMCSUTIL_H_
#include "vh/extutil.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
namespace vh {
using namespace tachyon;
using namespace tachyon::math;
using crypto::Poseidon2Vendor;
constexpr size_t kOut = 8, kRateB = 8;
using BB = BabyBear;
using BB4 = BabyBear4;
using PB = PackedBabyBear;
using SP = crypto::Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, BB, 15, 7>;
using PP = crypto::Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, PB, 15, 7>;
using S2 = crypto::Poseidon2Sponge<SP>;
using PS2 = crypto::Poseidon2Sponge<PP>;
using HashB = crypto::PaddingFreeSponge<S2, kRateB, kOut>;
using PHashB = crypto::PaddingFreeSponge<PS2, kRateB, kOut>;
using CompB = crypto::TruncatedPermutation<S2, kOut, 2>;
using PCompB = crypto::TruncatedPermutation<PS2, kOut, 2>;
using Digest = std::array<BB, kOut>;
template <typename F> using TreeOf = crypto::FieldMerkleTree<F, kOut>;
template <typename F> using MmcsOf = crypto::FieldMerkleTreeMMCS<F, HashB, PHashB, CompB, PCompB, kOut>;
template <typename W> std::string VL(const W& v) { std::string s = "["; for (size_t i = 0; i < static_cast<size_t>(v.size()); ++i) { if (i) s += ","; s += FL(v[i]); } return s + "]"; }
template <typename F> std::string ML(const Matrix<F>& m) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i) s += ","; s += "["; for (Eigen::Index j = 0; j < m.cols(); ++j) { if (j) s += ","; s += FL(m(i, j)); } s += "]"; }
  return s + "]";
}
template <typename F> void Flat(const F& x, std::vector<BB>& out) { if constexpr (kIsExt<F>) { for (int i = 0; i < 4; ++i) out.push_back(x[i]); } else out.push_back(x); }
template <typename F> std::string FlatL(const std::vector<F>& v) { std::vector<BB> o; for (auto& x : v) Flat(x, o); return VL(o); }
template <typename F> std::string RowsL(const std::vector<std::vector<F>>& v) { return Seq(v, [](const std::vector<F>& x) { return FlatL(x); }); }
template <typename M> std::string MatL(const M& m) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i) s += ","; std::vector<BB> o; for (Eigen::Index j = 0; j < m.cols(); ++j) Flat(m(i, j), o); s += VL(o); }
  return s + "]";
}
inline std::string DigsL(const std::vector<Digest>& v) { return Seq(v, [](const Digest& d) { return VL(d); }); }
inline void ParamsB() {
  auto cfg = crypto::Poseidon2Config<SP>::CreateDefault(); std::vector<int> sh; for (Eigen::Index i = 0; i < cfg.internal_shifts.size(); ++i) sh.push_back(cfg.internal_shifts[i]);
  Ev("Params").b("two", true).raw("p", ModL<BB>()).i("alpha", SP::kAlpha).i("rf", SP::kFullRounds).i("rp", SP::kPartialRounds).raw("ark", ML(cfg.ark)).raw("shifts", Ints(sh)).i("w", SP::kWidth).i("rate", kRateB).i("out", kOut);
}
}  // namespace vh
#endif
