// Histories of Poseidon and Poseidon2 permutations.
#include "vh/extutil.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "vh/f12289.h"
using namespace vh;
using namespace tachyon;
using namespace tachyon::math;
using crypto::Poseidon2Vendor;
constexpr Poseidon2Vendor kH = Poseidon2Vendor::kHorizen, kP = Poseidon2Vendor::kPlonky3;
template <typename V> std::string VL(const V& v) { std::string s = "["; for (Eigen::Index i = 0; i < v.size(); ++i) { if (i) s += ","; s += FL(v[i]); } return s + "]"; }
template <typename F> std::string ML(const Matrix<F>& m) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i) s += ","; s += "["; for (Eigen::Index j = 0; j < m.cols(); ++j) { if (j) s += ","; s += FL(m(i, j)); } s += "]"; }
  return s + "]";
}
template <typename F> F Max() { if constexpr (F::Config::kUseMontgomery) { auto m = Modulus<F>(); m.SubInPlace(BigInt<F::BigIntTy::kLimbNums>(1)); if constexpr (F::Config::kModulusBits <= 32) return F::FromMontgomery(static_cast<uint32_t>(m[0])); else return F::FromMontgomery(m); } else return -F::One(); }
template <typename F> Vector<F> RandState(size_t n) {
  Vector<F> v(n); int mode = Rn(6); F same = RandE<F>();
  for (size_t i = 0; i < n; ++i) v[i] = mode == 0 ? same : mode == 1 ? (Rn(4) ? Max<F>() : RandE<F>()) : mode == 2 ? (Rn(4) ? F::Zero() : RandE<F>()) : RandE<F>();
  return v;
}
// bits enough for n elements by rejection and what follows
template <typename F> long Avail(size_t n) { return static_cast<long>((n * 5 / 2 + 40) * F::kModulusBits); }
template <typename S> S Reread(const S& s) {
  base::Uint8VectorBuffer buf; CHECK(buf.Grow(base::EstimateSize(s))); CHECK(buf.Write(s)); CHECK(buf.Done()); buf.set_buffer_offset(0);
  S r; CHECK(buf.Read(&r)); return r;
}
template <typename P> void Poseidon(const char* name, size_t skip, int n) {
  using F = typename P::Field;
  T().Shard(name);
  crypto::PoseidonConfigEntry ce(P::kRate, P::kAlpha, P::kFullRounds, P::kPartialRounds, skip);
  auto cfg = crypto::PoseidonConfig<P>::Create(skip);
  crypto::PoseidonGrainLFSRConfig lc; lc.prime_num_bits = F::kModulusBits; lc.state_len = P::kWidth; lc.num_full_rounds = P::kFullRounds; lc.num_partial_rounds = P::kPartialRounds;
  Matrix<F> ark, mds; crypto::FindPoseidonARKAndMDS<F>(lc, skip, ark, mds);
  Ev("Poseidon").raw("p", ModL<F>()).i("nbits", F::kModulusBits).i("w", P::kWidth).i("rf", P::kFullRounds).i("rp", P::kPartialRounds).i("alpha", P::kAlpha).i("skip", skip)
      .i("avail", Avail<F>(P::kWidth * (P::kFullRounds + P::kPartialRounds)) + 2 * P::kWidth * (skip + 1) * F::kModulusBits).raw("ark", ML(ark)).raw("mds", ML(mds)).raw("mds2", ML(cfg.mds)).b("valid", cfg.IsValid());
  crypto::PoseidonSponge<P> s(cfg), s2 = Reread(s);
  for (int i = 0; i < n; ++i) {
    crypto::SpongeState<P> st; st.elements = RandState<F>(P::kWidth); auto in = st.elements;
    (Rn(3) ? s : s2).Permute(st);
    Ev("Perm").raw("v", VL(in)).raw("r", VL(st.elements)).s("dir", st.mode.type == crypto::DuplexSpongeMode::Type::kAbsorbing ? "absorbing" : "squeezing");
    size_t k = 2 + Rn(5); Vector<F> row = RandState<F>(k), col = RandState<F>(k - 1), v = RandState<F>(k), r = v;
    crypto::SparseMDSMatrix<F> m(row, col); m.Apply(r); Matrix<F> mm = m.Construct();
    Ev("Sparse").raw("row", VL(row)).raw("col", VL(col)).raw("v", VL(v)).raw("r", VL(r)).raw("m", ML(mm)).b("same", crypto::SparseMDSMatrix<F>::FromMDSMatrix(mm) == m && Reread(m) == m);
    auto s3 = s; bool same = true;
    switch (Rn(5)) {
      case 0: s3.config.mds(Rn(P::kWidth), Rn(P::kWidth)) += F::One(); same = false; break;
      case 1: s3.config.ark(Rn(P::kFullRounds + P::kPartialRounds), Rn(P::kWidth)) += F::One(); same = false; break;
      case 2: s3.config.pre_sparse_mds(Rn(P::kWidth), Rn(P::kWidth)) += F::One(); same = false; break;
    }
    Ev("Eq").b("eq", s == s3).b("ne", s != s3).b("same", same);
  }
}
template <typename P> constexpr bool UsesShifts() { return P::kInternalMatrixVendor == kP && MaybeUnpack<typename P::Field>::Config::kModulusBits <= 32; }
template <typename P, typename C> void Cfg2(const C& cfg, const std::vector<int>& shifts) {
  using F = typename P::Field; using U = MaybeUnpack<F>;
  std::string ark, diag = "[]";
  if constexpr (FiniteFieldTraits<F>::kIsPackedPrimeField) {
    Matrix<U> a(cfg.ark.rows(), cfg.ark.cols()); for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) a(i, j) = cfg.ark(i, j)[Rn(F::N)];
    ark = ML(a);
  } else { ark = ML(cfg.ark); if (shifts.empty()) diag = VL(cfg.internal_diagonal_minus_one); }
  Ev("Poseidon2").raw("p", ModL<U>()).i("nbits", U::kModulusBits).i("w", P::kWidth).i("rf", P::kFullRounds).i("rp", P::kPartialRounds).i("alpha", P::kAlpha)
      .b("horizen", P::kExternalMatrixVendor == kH).b("mont", U::Config::kUseMontgomery).raw("shifts", Ints(shifts)).raw("diag", diag)
      .i("avail", Avail<U>(P::kWidth * P::kFullRounds + P::kPartialRounds)).raw("ark", ark);
}
template <size_t W, bool H, typename F> void Ext(int n) {
  using X = std::conditional_t<H, crypto::Poseidon2HorizenExternalMatrix<F>, crypto::Poseidon2Plonky3ExternalMatrix<F>>;
  for (int i = 0; i < n; ++i) {
    Vector<F> v = RandState<F>(W), r = v;
    crypto::Poseidon2ExternalMatrix<X>::template Apply<W>(r);
    Matrix<F> m = crypto::Poseidon2ExternalMatrix<X>::template Construct<W>(W);
    Ev("Ext").b("horizen", H).raw("v", VL(v)).raw("r", VL(r)).raw("m", ML(m));
  }
}
template <typename P> void Run2(const crypto::Poseidon2Config<P>& cfg, const std::vector<int>& shifts, int n, bool shipped) {
  using F = typename P::Field;
  Cfg2<P>(cfg, shifts);
  if (shipped) Ev("Shipped").s("id", T().name());
  crypto::Poseidon2Sponge<P> s(cfg);
  if constexpr (FiniteFieldTraits<F>::kIsPackedPrimeField) {
    using U = MaybeUnpack<F>;
    for (int i = 0; i < n; ++i) {
      crypto::SpongeState<P> st; std::vector<Vector<U>> in;
      for (size_t k = 0; k < F::N; ++k) { in.push_back(RandState<U>(P::kWidth)); for (size_t j = 0; j < P::kWidth; ++j) st[j][k] = in[k][j]; }
      s.Permute(st);
      for (int q = 0; q < 3; ++q) { size_t k = Rn(F::N); Vector<U> r(P::kWidth); for (size_t j = 0; j < P::kWidth; ++j) r[j] = st[j][k]; Ev("Perm2").raw("v", VL(in[k])).raw("r", VL(r)).i("lane", k); }
    }
  } else {
    crypto::Poseidon2Sponge<P> s2(Reread(cfg));
    for (int i = 0; i < n; ++i) {
      crypto::SpongeState<P> st; st.elements = RandState<F>(P::kWidth); auto in = st.elements;
      (Rn(3) ? s : s2).Permute(st);
      Ev("Perm2").raw("v", VL(in)).raw("r", VL(st.elements)).i("lane", 0);
      auto s3 = s; bool same = true;
      switch (Rn(4)) {
        case 0: s3.config.ark(Rn(P::kFullRounds / 2), Rn(P::kWidth)) += F::One(); same = false; break;
        case 1: if (shifts.empty()) s3.config.internal_diagonal_minus_one[Rn(P::kWidth)] += F::One(); else s3.config.internal_shifts[Rn(P::kWidth - 1)] += 1; same = false; break;
      }
      Ev("Eq").b("eq", s == s3).b("ne", s != s3).b("same", same);
    }
  }
}
template <typename P> void Shipped2(const char* name, int n) {
  T().Shard(name);
  std::vector<int> sh;
  if constexpr (UsesShifts<P>()) for (auto x : crypto::GetPoseidon2InternalShiftArray<P>()) sh.push_back(x);
  Run2<P>(crypto::Poseidon2Config<P>::CreateDefault(), sh, n, true);
}
template <typename P> void Own2(const char* name, int n) {
  using U = MaybeUnpack<typename P::Field>;
  T().Shard(name);
  if constexpr (UsesShifts<P>()) {
    std::array<uint8_t, P::kWidth - 1> a; std::vector<int> sh; for (auto& x : a) { x = Rn(18); sh.push_back(x); }
    Run2<P>(crypto::Poseidon2Config<P>::Create(a), sh, n, false);
  } else {
    std::array<U, P::kWidth> d; for (auto& x : d) x = RandE<U>();
    Run2<P>(crypto::Poseidon2Config<P>::Create(d), {}, n, false);
    using F = typename P::Field;
    if constexpr (!FiniteFieldTraits<F>::kIsPackedPrimeField) Ext<P::kWidth, P::kExternalMatrixVendor == kH, F>(n);
  }
}
template <Poseidon2Vendor E, Poseidon2Vendor I, typename F, size_t R, uint32_t A, size_t C, size_t RF, size_t RP> using P2 = crypto::Poseidon2Params<E, I, F, R, A, C, RF, RP>;
int main(int argc, char** argv) {
  T().Init(argc, argv);
  PackedBabyBear::Init(); PackedKoalaBear::Init(); PackedMersenne31::Init(); bn254::Fr::Init();
  int k = T().thorough() ? 8 : 1;
  using V = vhf::F12289;
  namespace c = crypto;
  Poseidon<c::PoseidonParams<V, 1, 5, 2, 1>>("w2", 0, 60 * k);
  Poseidon<c::PoseidonParams<V, 2, 5, 4, 3>>("w3", 1, 60 * k);
  Poseidon<c::PoseidonParams<V, 3, 7, 6, 0>>("w4", 2, 40 * k);
  Poseidon<c::PoseidonParams<V, 4, 3, 2, 6>>("w5", 0, 40 * k);
  Poseidon<c::PoseidonParams<V, 2, 5, 8, 5, 2>>("w4c2", 0, 40 * k);
  Poseidon<c::BabyBearPoseidonParams16>("bb16", 0, 4 * k);
  Poseidon<c::BabyBearPoseidonParams24>("bb24", 0, 2 * k);
  Poseidon<c::BN254PoseidonParams5>("bn5", 0, 4 * k);
  Poseidon<c::BN254PoseidonParams9>("bn9", 0, 3 * k);
  Own2<P2<kH, kH, V, 1, 5, 1, 2, 3>>("p2w2", 40 * k);
  Own2<P2<kP, kH, V, 2, 5, 1, 4, 1>>("p2w3", 40 * k);
  Own2<P2<kH, kH, V, 3, 7, 1, 2, 2>>("p2w4h", 40 * k);
  Own2<P2<kP, kH, V, 2, 7, 2, 2, 2>>("p2w4p", 40 * k);
  Own2<P2<kH, kH, V, 7, 5, 1, 6, 0>>("p2w8h", 20 * k);
  Own2<P2<kP, kH, V, 8, 5, 4, 2, 5>>("p2w12p", 20 * k);
  Own2<P2<kP, kH, V, 15, 5, 1, 2, 3>>("p2w16p", 8 * k);
  Own2<P2<kH, kH, V, 19, 5, 1, 2, 3>>("p2w20h", 8 * k);
  Own2<P2<kP, kP, V, 7, 5, 1, 4, 3>>("p2w8pp", 40 * k);
  Own2<P2<kH, kP, BabyBear, 6, 7, 2, 4, 5>>("p2bb8", 20 * k);
  Own2<P2<kP, kP, Mersenne31, 3, 5, 1, 4, 9>>("p2m4", 60 * k);
  Shipped2<c::Poseidon2Params<kH, kH, BabyBear, 15, 7>>("bb16hh", 4 * k);
  Shipped2<c::Poseidon2Params<kP, kP, BabyBear, 15, 7>>("bb16pp", 4 * k);
  Shipped2<c::Poseidon2Params<kH, kP, BabyBear, 23, 7>>("bb24hp", 3 * k);
  Shipped2<c::Poseidon2Params<kH, kH, BabyBear, 23, 7>>("bb24hh", 3 * k);
  Shipped2<c::Poseidon2Params<kP, kP, KoalaBear, 15, 7>>("kb16pp", 4 * k);
  Shipped2<c::Poseidon2Params<kP, kP, KoalaBear, 23, 7>>("kb24pp", 3 * k);
  Shipped2<c::Poseidon2Params<kP, kP, Mersenne31, 15, 7>>("m16pp", 8 * k);
  Shipped2<c::Poseidon2Params<kP, kP, Mersenne31, 23, 7>>("m24pp", 5 * k);
  Shipped2<c::Poseidon2Params<kH, kH, bn254::Fr, 2, 5>>("bn3hh", 8 * k);
  Shipped2<c::Poseidon2Params<kP, kP, PackedBabyBear, 15, 7>>("pbb16", 2 * k);
  Shipped2<c::Poseidon2Params<kH, kP, PackedBabyBear, 23, 7>>("pbb24", 1 * k);
  Shipped2<c::Poseidon2Params<kP, kP, PackedKoalaBear, 15, 7>>("pkb16", 2 * k);
  Shipped2<c::Poseidon2Params<kP, kP, PackedMersenne31, 15, 7>>("pm16", 3 * k);
  return 0;
}
