// Histories of sponges, challengers, hashers and proof transcripts.
#include "vh/extutil.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "vh/f12289.h"
#include "vh/x2.h"
#include "vh/x4.h"
using namespace vh;
using namespace tachyon;
using namespace tachyon::math;
using crypto::Poseidon2Vendor;
using V = vhf::F12289;
template <typename W> std::string VL(const W& v) { std::string s = "["; for (size_t i = 0; i < static_cast<size_t>(v.size()); ++i) { if (i) s += ","; s += FL(v[i]); } return s + "]"; }
template <typename F> std::string ML(const Matrix<F>& m) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i) s += ","; s += "["; for (Eigen::Index j = 0; j < m.cols(); ++j) { if (j) s += ","; s += FL(m(i, j)); } s += "]"; }
  return s + "]";
}
template <typename F> std::vector<F> Vec(size_t n) { std::vector<F> v(n); for (auto& x : v) x = RandE<F>(); return v; }
template <typename P> crypto::PoseidonSponge<P> Sp1() {
  using F = typename P::Field;
  auto cfg = crypto::PoseidonConfig<P>::Create(0);
  crypto::PoseidonGrainLFSRConfig lc; lc.prime_num_bits = F::kModulusBits; lc.state_len = P::kWidth; lc.num_full_rounds = P::kFullRounds; lc.num_partial_rounds = P::kPartialRounds;
  Matrix<F> ark, mds; crypto::FindPoseidonARKAndMDS<F>(lc, 0, ark, mds);
  Ev("Params").b("two", false).raw("p", ModL<F>()).i("alpha", P::kAlpha).i("rf", P::kFullRounds).i("rp", P::kPartialRounds).raw("ark", ML(ark)).raw("mds", ML(mds));
  return crypto::PoseidonSponge<P>(cfg);
}
template <typename P> crypto::Poseidon2Sponge<P> Sp2(const crypto::Poseidon2Config<P>& cfg) {
  using F = typename P::Field;
  Ev("Params").b("two", true).raw("p", ModL<F>()).i("alpha", P::kAlpha).i("rf", P::kFullRounds).i("rp", P::kPartialRounds).raw("ark", ML(cfg.ark)).raw("diag", VL(cfg.internal_diagonal_minus_one)).b("horizen", P::kExternalMatrixVendor == Poseidon2Vendor::kHorizen);
  return crypto::Poseidon2Sponge<P>(cfg);
}
template <typename S> S Reread(const S& s) {
  base::Uint8VectorBuffer buf; CHECK(buf.Grow(base::EstimateSize(s))); CHECK(buf.Write(s)); CHECK(buf.Done()); buf.set_buffer_offset(0);
  S r; CHECK(buf.Read(&r)); return r;
}
// the duplex sponge and the hashers
template <typename S> void Sponge(const S& sp, int n) {
  using P = typename S::Params; using F = typename P::Field;
  Ev("Machine").s("kind", "sponge").i("w", P::kWidth).i("cap", P::kCapacity).i("rate", P::kRate).raw("r", ModL<F>());
  crypto::SpongeState<P> st;
  for (int i = 0; i < n; ++i) {
    size_t len = 1 + Rn(Rn(3) ? P::kRate : 3 * P::kRate + 1);
    switch (Rn(7)) {
      case 0: case 1: { auto v = Vec<F>(len); CHECK(sp.Absorb(st, absl::MakeConstSpan(v))); Ev("In").raw("v", VL(v)); break; }
      case 2: { std::vector<uint32_t> v; std::vector<F> e; for (size_t k = 0; k < len; ++k) { v.push_back(Rn(4) ? Rn(100) : 12288); e.push_back(F(v.back())); }
        if (Rn(2)) { CHECK(sp.Absorb(st, v)); } else { e.resize(1); CHECK(sp.Absorb(st, v[0])); }
        Ev("In").raw("v", VL(e)); break; }
      case 3: { uint32_t nb = 1 + Rn(6); auto r = sp.SqueezeBytes(st, nb); Ev("SqBytes").i("n", nb).raw("r", Bytes(r.data(), r.size())); break; }
      case 4: { uint32_t nb = 1 + Rn(40); auto r = sp.SqueezeBits(st, nb); std::vector<int> b(r.begin(), r.end()); Ev("SqBits").i("n", nb).raw("r", Ints(b)); break; }
      default: { std::vector<F> r; if (Rn(2)) r = sp.SqueezeNativeFieldElements(st, len); else r = sp.template SqueezeFieldElements<F>(st, len); Ev("Out").raw("r", VL(r)); break; }
    }
    if (Rn(12) == 0) st = Reread(st);
    if (Rn(60) == 0) { st = crypto::SpongeState<P>(); Ev("Machine").s("kind", "sponge").i("w", P::kWidth).i("cap", P::kCapacity).i("rate", P::kRate).raw("r", ModL<F>()); }
  }
}
template <size_t Rate, size_t Out, typename S> void Hashing(const S& sp, int n) {
  using P = typename S::Params; using F = typename P::Field;
  crypto::PaddingFreeSponge<S, Rate, Out> h(sp);
  crypto::TruncatedPermutation<S, Out, 2> c(sp);
  for (int i = 0; i < n; ++i) {
    auto v = Vec<F>(Rn(4 * Rate + 2));
    Ev("Hash").i("w", P::kWidth).i("rate", Rate).i("out", Out).raw("v", VL(v)).raw("r", VL(h.Hash(v)));
    std::array<std::array<F, Out>, 2> a; for (auto& x : a) for (auto& y : x) y = RandE<F>();
    Ev("Compress").i("w", P::kWidth).i("chunk", Out).raw("v", "[" + VL(a[0]) + "," + VL(a[1]) + "]").raw("r", VL(c.Compress(a)));
  }
}
// any challenger
template <typename C, typename F, typename Make> void Challenge(Make make, int n) {
  C ch = make();
  for (int i = 0; i < n; ++i) {
    int op = Rn(12);
    if (op < 4) { F x = RandE<F>(); ch.Observe(x); Ev("In").raw("v", "[" + FL(x) + "]"); }
    else if (op == 4) { auto v = Vec<F>(Rn(9)); ch.ObserveContainer(v); Ev("In").raw("v", VL(v)); }
    else if (op == 5) { std::vector<std::vector<F>> v; std::vector<F> e; for (int k = Rn(4); k > 0; --k) { v.push_back(Vec<F>(Rn(4))); for (auto& x : v.back()) e.push_back(x); } ch.ObserveContainer2D(v); Ev("In").raw("v", VL(e)); }
    else if (op < 8) { Ev("Out").raw("r", "[" + FL(ch.Sample()) + "]"); }
    else if (op == 8) { auto r = ch.template SampleArray<7>(); Ev("Out").raw("r", VL(r)); }
    else if (op == 9) { uint32_t b = Rn(13); Ev("Bits").i("b", b).raw("r", L(BigInt<1>(ch.SampleBits(b)))); }
    else if (op == 10) {
      uint32_t b = Rn(4);
      if (Rn(3) == 0) { F w = ch.Grind(b, base::Range<uint32_t>(0, 5000)); Ev("Check").i("b", b).raw("v", FL(w)).b("r", true); }
      else { F w = RandE<F>(); bool r = ch.CheckWitness(b, w); Ev("Check").i("b", b).raw("v", FL(w)).b("r", r); }
    } else if constexpr (std::is_same_v<F, V>) {
      if (Rn(2)) { auto x = ch.template SampleExtElement<vhf::X2>(); Ev("Out").raw("r", "[" + FL(x[0]) + "," + FL(x[1]) + "]"); }
      else { auto x = ch.template SampleExtElement<vhf::X4>(); Ev("Out").raw("r", "[" + FL(x[0]) + "," + FL(x[1]) + "," + FL(x[2]) + "," + FL(x[3]) + "]"); }
    }
    if (Rn(15) == 0) { C c2 = ch; (void)c2.Sample(); C c3 = ch; ch = std::move(c3); }
    if (Rn(50) == 0) ch = make();
  }
}
template <size_t R, typename S> void Duplex(const S& sp, int n) {
  using P = typename S::Params; using F = typename P::Field; using C = crypto::DuplexChallenger<S, R>;
  Challenge<C, F>([&] { Ev("Machine").s("kind", "duplex").i("w", P::kWidth).i("rate", R); return C(S(sp)); }, n);
}
template <size_t Rate, size_t Out, typename S> void HashCh(const S& sp, int n) {
  using P = typename S::Params; using F = typename P::Field; using H = crypto::PaddingFreeSponge<S, Rate, Out>; using C = crypto::HashChallenger<H>;
  Challenge<C, F>([&] {
    auto v = Vec<F>(Rn(2) ? 0 : Rn(6));
    Ev("Machine").s("kind", "hash").i("w", P::kWidth).i("rate", Rate).i("out", Out).raw("init", VL(v));
    H h(sp); return Rn(2) ? C(v, std::move(h)) : C(std::vector<F>(v), std::move(h));
  }, n);
}
template <typename SF, typename S> void Multi(const S& sp, int n) {
  using P = typename S::Params; using F = typename P::Field; using C = crypto::MultiField32Challenger<SF, S>;
  for (int i = 0; i < n; ++i) {
    auto v = Vec<SF>(1 + Rn(7));
    Ev("Pack").raw("v", VL(v)).raw("r", FL(crypto::Reduce<F>(absl::MakeConstSpan(v))));
    F x = RandE<F>(); auto s = crypto::Split<SF>(x);
    Ev("Split").raw("v", FL(x)).raw("q", ModL<SF>()).i("n", s.size()).raw("r", VL(s));
  }
  Challenge<C, SF>([&] { Ev("Machine").s("kind", "multi").i("w", P::kWidth).i("n", C::kNumFElements).raw("q", ModL<SF>()); return C(S(sp)); }, n);
}
// transcripts over a curve
using Pt = bn254::G1AffinePoint;
using Fr = bn254::Fr;
using Fq = bn254::Fq;
Pt RandPt() { if (Rn(6) == 0) return Pt::Zero(); return (RandE<Fr>() * Pt::Generator()).ToAffine(); }
template <typename W, typename R, typename M> void Transcript(const char* kind, M machine, int n) {
  constexpr bool kSimple = std::is_same_v<W, crypto::SimpleTranscriptWriter<Pt>>;
  for (int round = 0; round < n; ++round) {
    bool legacy = Rn(2), mont = Rn(4) == 0;
    zk::plonk::halo2::ProofSerializer<Pt>::s_use_legacy_serialization = legacy;
    base::Copyable<Fr>::s_is_in_montgomery = mont; base::Copyable<Fq>::s_is_in_montgomery = mont;
    machine(legacy, mont);
    W w{base::Uint8VectorBuffer()};
    std::vector<int> plan;
    for (int i = 4 + Rn(14); i > 0; --i) {
      int op = Rn(10); bool pf = Rn(3);
      if (op < 3) { Fr x = RandE<Fr>(); bool ok = pf ? w.WriteToProof(x) : w.WriteToTranscript(x); Ev("Sc").raw("v", FL(x)).b("pf", pf).b("ok", ok); if (pf) plan.push_back(1); }
      else if (op < 6) { Pt p = RandPt(); bool ok = pf ? w.WriteToProof(p) : w.WriteToTranscript(p); Ev("Pt").raw("x", FL(p.x())).raw("y", FL(p.y())).b("pf", pf).b("ok", ok); if (pf) plan.push_back(2); }
      else if (op < 8) { Ev("Out").raw("r", "[" + FL(w.SqueezeChallenge()) + "]"); if (Rn(2)) plan.push_back(0); }
      else if constexpr (!kSimple) {
        if (op == 8) {
          auto s = w.GetState(); W w2{base::Uint8VectorBuffer()};
          if (Rn(2)) (void)w2.SqueezeChallenge();
          w2.SetState(s);
          Ev("State").i("len", w.GetStateLen()).i("got", s.size());
          Ev("Proof").raw("v", Bytes(w.buffer().owned_buffer().data(), w.buffer().buffer_offset()));
          W w3{base::Uint8VectorBuffer()}; // what was written so far is not part of the state
          Ev("Out").raw("r", "[" + FL(w2.SqueezeChallenge()) + "]"); (void)w.SqueezeChallenge();
          plan.push_back(0);
        } else if constexpr (std::is_same_v<W, zk::plonk::halo2::Blake2bWriter<Pt>> || std::is_same_v<W, zk::plonk::halo2::Sha256Writer<Pt>>) {
          if (Rn(2)) { std::vector<uint8_t> v(Rn(Rn(3) ? 40 : 300)); for (auto& x : v) x = Rn(256); w.Update(v.data(), v.size()); Ev("Raw").raw("v", Bytes(v.data(), v.size())); }
          std::vector<uint8_t> d(w.GetDigestLen()); w.Finalize(d.data()); Ev("Digest").raw("r", Bytes(d.data(), d.size()));
        } else {
          if (Rn(2)) { auto v = Vec<Fr>(Rn(12)); w.Update(v.data(), v.size()); Ev("In").raw("v", VL(v)); }
          else Ev("Out").raw("r", "[" + FL(w.Squeeze()) + "]");
        }
      }
    }
    base::Uint8VectorBuffer buf = std::move(w).TakeBuffer();
    std::vector<uint8_t> proof(buf.owned_buffer().begin(), buf.owned_buffer().begin() + buf.buffer_offset());
    Ev("Proof").raw("v", Bytes(proof.data(), proof.size()));
    for (int k = 0; k < 2; ++k) {
      if (k == 1) {
        switch (Rn(5)) {
          case 0: if (!proof.empty()) proof.resize(Rn(proof.size())); break;
          case 1: for (size_t i = 31; i < proof.size(); i += 32) if (Rn(2)) proof[i] ^= 1 << (6 + Rn(2)); break;
          case 2: for (size_t i = 0; i < proof.size(); i += 1 + Rn(40)) proof[i] ^= 1 << Rn(8); break;
          case 3: for (size_t i = 0; i + 32 <= proof.size(); i += 32) if (Rn(2)) { auto m = (Rn(2) ? Modulus<Fr>() : Modulus<Fq>()); BigInt<4> v; memcpy(v.limbs, &proof[i], 32); v.AddInPlace(m); if (Rn(4) == 0) v = m; memcpy(&proof[i], v.limbs, 32); } break;
          default: for (size_t i = 0; i + 32 <= proof.size(); i += 32) if (Rn(2)) { memset(&proof[i], 0, 32); proof[i + 31] = Rn(4) << 6; if (Rn(3) == 0) proof[i + Rn(2)] = Rn(3); } break;
        }
      }
      Ev("Reader").raw("v", Bytes(proof.data(), proof.size()));
      R r{base::Buffer(proof.data(), proof.size())};
      for (int op : plan) {
        if (op == 0) { Ev("Out").raw("r", "[" + FL(r.SqueezeChallenge()) + "]"); continue; }
        if (op == 1) { Fr x; bool ok = r.ReadFromProof(&x); Ev e("RSc"); e.b("ok", ok); if (ok) e.raw("v", FL(x)); if (!ok) break; }
        else { Pt p; bool ok = r.ReadFromProof(&p); Ev e("RPt"); e.b("ok", ok); if (ok) e.raw("x", FL(p.x())).raw("y", FL(p.y())); if (!ok) break; }
      }
    }
  }
}
template <typename F> void SimpleF(int n) {
  for (int i = 0; i < n; ++i) {
    Ev("Machine").s("kind", "simple").raw("r", ModL<F>());
    crypto::SimpleTranscriptWriter<F> w{base::Uint8VectorBuffer()};
    std::vector<F> vals; std::vector<int> plan;
    for (int k = Rn(12); k > 0; --k) {
      if (Rn(3)) { F x = RandE<F>(); bool pf = Rn(2); CHECK(pf ? w.WriteToProof(x) : w.WriteToTranscript(x)); Ev("In").raw("v", "[" + FL(x) + "]"); vals.push_back(x); plan.push_back(pf ? 1 : 2); }
      else { Ev("Out").raw("r", "[" + FL(w.SqueezeChallenge()) + "]"); plan.push_back(0); }
    }
    auto buf = std::move(w).TakeBuffer(); buf.set_buffer_offset(0);
    Ev("Machine").s("kind", "simple").raw("r", ModL<F>());
    crypto::SimpleTranscriptReader<F> r{base::Buffer(buf.buffer(), buf.buffer_len())};
    size_t at = 0;
    for (int p : plan) {
      if (p == 0) Ev("Out").raw("r", "[" + FL(r.SqueezeChallenge()) + "]");
      else if (p == 1) { F x; CHECK(r.ReadFromProof(&x)); CHECK(x == vals[at]); ++at; Ev("In").raw("v", "[" + FL(x) + "]"); }
      else { CHECK(r.WriteToTranscript(vals[at])); Ev("In").raw("v", "[" + FL(vals[at]) + "]"); ++at; }
    }
  }
}
void Wide(int n) {
  for (int i = 0; i < n; ++i) {
    uint8_t b[64]; int mode = Rn(6); for (auto& x : b) x = mode == 0 ? 255 : mode == 1 ? (Rn(3) ? 255 : Rn(256)) : mode == 2 ? (Rn(3) ? 0 : Rn(256)) : Rn(256);
    Ev("Wide").raw("v", Bytes(b, 64)).raw("p", ModL<Fr>()).raw("r", FL(zk::plonk::halo2::FromUint512<Fr>(b)));
    Ev("Wide").raw("v", Bytes(b, 64)).raw("p", ModL<Fq>()).raw("r", FL(zk::plonk::halo2::FromUint512<Fq>(b)));
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  V::Init(); vhf::X2::Init(); vhf::X4::Init(); bn254::G1Curve::Init(); BabyBear::Init(); KoalaBear::Init(); Mersenne31::Init();
  int k = T().thorough() ? 8 : 1;
  namespace c = crypto;
  using A = c::PoseidonParams<V, 2, 5, 4, 3>; using B = c::PoseidonParams<V, 3, 5, 2, 2, 2>; using D = c::PoseidonParams<V, 1, 5, 2, 1>; using E = c::PoseidonParams<V, 5, 3, 2, 1, 3>;
  constexpr auto kH = Poseidon2Vendor::kHorizen; constexpr auto kP = Poseidon2Vendor::kPlonky3;
  using Q = c::Poseidon2Params<kH, kH, V, 3, 5, 1, 2, 2>; using Q8 = c::Poseidon2Params<kP, kH, V, 4, 5, 4, 2, 2>;
  auto q4 = [] { std::array<V, 4> d; for (auto& x : d) x = RandE<V>(); return Sp2<Q>(c::Poseidon2Config<Q>::Create(d)); };
  auto q8 = [] { std::array<V, 8> d; for (auto& x : d) x = RandE<V>(); return Sp2<Q8>(c::Poseidon2Config<Q8>::Create(d)); };
  T().Shard("sponge-a"); { auto s = Sp1<A>(); Sponge(s, 250 * k); }
  T().Shard("sponge-b"); { auto s = Sp1<B>(); Sponge(s, 250 * k); }
  T().Shard("sponge-d"); { auto s = Sp1<D>(); Sponge(s, 150 * k); }
  T().Shard("sponge-e"); { auto s = Sp1<E>(); Sponge(s, 250 * k); }
  T().Shard("sponge-q"); { auto s = q4(); Sponge(s, 200 * k); }
  T().Shard("sponge-q8"); { auto s = q8(); Sponge(s, 200 * k); }
  T().Shard("hash"); { auto s = Sp1<B>(); Hashing<3, 2>(s, 80 * k); Hashing<2, 1>(s, 40 * k); Hashing<5, 2>(s, 40 * k); auto p = q8(); Hashing<4, 4>(p, 60 * k); Hashing<1, 3>(p, 30 * k); }
  T().Shard("duplex-a"); { auto s = Sp1<A>(); Duplex<2>(s, 300 * k); Duplex<3>(s, 200 * k); Duplex<1>(s, 100 * k); }
  T().Shard("duplex-q8"); { auto s = q8(); Duplex<4>(s, 300 * k); Duplex<7>(s, 200 * k); }
  T().Shard("hashch"); { auto s = Sp1<B>(); HashCh<3, 2>(s, 300 * k); auto p = q8(); HashCh<4, 4>(p, 200 * k); }
  T().Shard("multi-bb"); { using M = c::Poseidon2Params<kH, kH, Fr, 2, 5>; auto s = Sp2<M>(c::Poseidon2Config<M>::CreateDefault()); Multi<BabyBear>(s, 60 * k); }
  T().Shard("multi-kb"); { using M = c::Poseidon2Params<kH, kH, Fr, 2, 5>; auto s = Sp2<M>(c::Poseidon2Config<M>::CreateDefault()); Multi<KoalaBear>(s, 60 * k); }
  T().Shard("multi-m31"); { using M = c::Poseidon2Params<kH, kH, Fr, 2, 5>; auto s = Sp2<M>(c::Poseidon2Config<M>::CreateDefault()); Multi<Mersenne31>(s, 60 * k); }
  T().Shard("simple"); SimpleF<V>(60 * k); SimpleF<Fr>(40 * k); SimpleF<BabyBear>(40 * k);
  T().Shard("wide"); Wide(60 * k);
  auto mach = [](const char* kind, int w) {
    return [=](bool legacy, bool mont) { Ev("Machine").s("kind", kind).i("w", w).raw("r", ModL<Fr>()).raw("p", ModL<Fq>()).raw("b", FL(Fq(3))).b("legacy", legacy).b("mont", mont); };
  };
  namespace h = zk::plonk::halo2;
  T().Shard("simplept"); Transcript<c::SimpleTranscriptWriter<Pt>, c::SimpleTranscriptReader<Pt>>("simple", mach("simple", 0), 25 * k);
  for (int i = 0; i < 2; ++i) {
    T().Shard("blake" + std::to_string(i)); Transcript<h::Blake2bWriter<Pt>, h::Blake2bReader<Pt>>("blake", mach("blake", 0), 25 * k);
    T().Shard("sha" + std::to_string(i)); Transcript<h::Sha256Writer<Pt>, h::Sha256Reader<Pt>>("sha", mach("sha", 0), 25 * k);
    T().Shard("pt" + std::to_string(i)); { Sp1<c::BN254PoseidonParams9>(); Transcript<h::PoseidonWriter<Pt>, h::PoseidonReader<Pt>>("pt", mach("pt", 9), 8 * k); }
    T().Shard("sv" + std::to_string(i)); { Sp1<c::BN254PoseidonParams5>(); Transcript<h::SnarkVerifierPoseidonWriter<Pt>, h::SnarkVerifierPoseidonReader<Pt>>("sv", mach("sv", 5), 10 * k); }
  }
  return 0;
}
