#include "vh/ecutil.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "vh/s0.h"
#include "vh/s1.h"
#include "vh/s2.h"
#if defined(TACHYON_HAS_OPENMP)
#include <omp.h>
#endif
using namespace vh;

std::string Mpz(const mpz_class& v) {
  std::vector<uint64_t> l(mpz_size(v.get_mpz_t()));
  for (size_t i = 0; i < l.size(); ++i) l[i] = mpz_getlimbn(v.get_mpz_t(), i);
  return Limbs(l.data(), l.size());
}

template <typename C>
struct M {
  using A = AffinePoint<C>; using P = ProjectivePoint<C>; using J = JacobianPoint<C>; using X = PointXYZZ<C>;
  using F = typename C::BaseField; using S = typename C::ScalarField;
  static S Scalar(int mode) {
    if (mode == 1) return S(Rn(3));
    if (mode == 2) return -S(1 + Rn(3));
    return RandS<S>();
  }
  template <typename Q> static std::vector<Q> Bases(size_t n) {
    std::vector<Q> x; int mode = Rn(5);
    std::vector<A> pool; for (int i = 0; i < 6; ++i) pool.push_back(RandPoint<C>());
    A g = pool[0];
    for (size_t i = 0; i < n; ++i) {
      A a = mode == 0 ? (Rn(2) ? g : -g) : (n > 8 ? pool[Rn(6)] : RandPoint<C>());
      if (mode == 1 && Rn(2)) a = A::Zero();
      if (n > 8 && mode > 1) { A b = (i % 4) ? a : (J(a.ToJacobian()) + g).ToAffine(); a = b; }
      x.push_back(Rep<Q>(a));
    }
    return x;
  }
  template <typename Q> void Msm(size_t n, bool mism) {
    std::vector<Q> x = Bases<Q>(n);
    size_t m = mism ? (n > 0 && Rn(2) ? n - 1 : n + 1 + Rn(2)) : n;
    int mode = Rn(6); std::vector<S> k; for (size_t i = 0; i < m; ++i) k.push_back(Scalar(mode));
    using B = typename Pippenger<Q>::Bucket;
    B out = Rep<B>(RandPoint<C>()); bool ok; std::string how;
    int w = Rn(8);
    switch (w) {
      case 0: { VariableBaseMSM<Q> v; ok = v.Run(x, k, &out); how = "vb"; break; }
      case 1: { VariableBaseMSM<Q> v; ok = v.Run(x.begin(), x.end(), k.begin(), k.end(), &out); how = "vbi"; break; }
      case 2: case 3: { Pippenger<Q> p; p.SetUseMSMWindowNAForTesting(w == 2); p.SetParallelWindows(Rn(2)); ok = p.Run(x.begin(), x.end(), k.begin(), k.end(), &out); how = w == 2 ? "naf" : "plain"; 
        if (Rn(3) == 0) ok = p.Run(x.begin(), x.end(), k.begin(), k.end(), &out) && ok; break; }
      default: { static constexpr PippengerParallelStrategy st[] = {PippengerParallelStrategy::kNone, PippengerParallelStrategy::kParallelWindow, PippengerParallelStrategy::kParallelTerm, PippengerParallelStrategy::kParallelWindowAndTerm};
        PippengerAdapter<Q> p; ok = p.RunWithStrategy(x.begin(), x.end(), k.begin(), k.end(), st[w - 4], &out); how = "st" + std::to_string(w - 4); }
    }
    Ev e("Msm"); e.s("how", how).raw("x", PLs(x)).raw("ks", FLs(k)).b("ok", ok).raw("v", PL(out));
  }
  template <typename Q> void Fixed() {
    using R = typename FixedBaseMSM<Q>::AddResult;
    FixedBaseMSM<Q> f; Q b = Rep<Q>(RandPoint<C>());
    if (Rn(4) == 0) f.Reset(Rn(50), Rep<Q>(RandPoint<C>()));  // a previous table
    static const size_t sizes[] = {0, 1, 3, 31, 32, 100, 1000, 4096, 70000};
    size_t sz = sizes[Rn(S::Config::kModulusBits < 32 ? 9 : 7)];
    f.Reset(sz, b);
    size_t n = Rn(6); std::vector<S> k; for (size_t i = 0; i < n; ++i) k.push_back(RandS<S>());
    bool fits = Rn(5) != 0; std::vector<R> out(fits ? n : n + 1); bool ok;
    switch (Rn(4)) {
      case 0: ok = f.Run(k, &out); break;
      case 1: ok = f.RunSerial(k, out); break;
      case 2: ok = f.Run(k.begin(), k.end(), out.begin(), out.end()); break;
      default: ok = true; fits = true; out.resize(n); for (size_t i = 0; i < n; ++i) out[i] = f.ScalarMul(k[i]);
    }
    Ev e("Fixed"); e.i("size", sz).raw("x", PL(b)).raw("ks", FLs(k)).b("fits", fits).b("ok", ok).raw("out", PLs(out));
  }
  template <typename Q> void Buckets() {
    using B = typename Pippenger<Q>::Bucket; using PB = PippengerBase<Q>;
    size_t n = Rn(10); std::vector<B> x; for (size_t i = 0; i < n; ++i) x.push_back(Rep<B>(RandPoint<C>()));
    B init = Rep<B>(RandPoint<C>()), out = PB::AccumulateBuckets(x, init);
    { Ev e("Buckets"); e.raw("x", PLs(x)).raw("init", PL(init)).raw("v", PL(out)); }
    if (n == 0) return;
    size_t w = 1 + Rn(5); out = PB::AccumulateWindowSums(x, w);
    { Ev e("Windows"); e.raw("x", PLs(x)).i("w", w).raw("v", PL(out)); }
  }
  template <typename Q> void Glv() {
    using G = GLV<Q>; using Cfg = typename C::Config;
    A a = RandPoint<C>(); Q p = Rep<Q>(a); S k = RandS<S>(); S lam = Cfg::kLambda;
    if (Rn(5) == 0) k = lam * S(Rn(4));
    else if (Rn(5) == 0) k = lam * S(R64() >> Rn(64)) + S(R64() >> Rn(64));
    else if (Rn(6) == 0) k = S(R64() >> Rn(64)) - lam * S(R64() >> Rn(64));
    auto d = G::Decompose(k);
    auto e0 = G::Endomorphism(p);
    { Ev e("Glv"); e.raw("k", FL(k)).raw("lambda", FL(lam)).b("n1", d.k1.sign == Sign::kNegative).b("n2", d.k2.sign == Sign::kNegative).raw("k1", Mpz(d.k1.abs_value)).raw("k2", Mpz(d.k2.abs_value)).raw("r", L(Modulus<S>())); }
    { Ev e("Endo"); e.raw("x", PL(p)).raw("lambda", FL(lam)).raw("v", PL(e0)); }
    auto o = G::Mul(p, k);
    { Ev e("GlvMul"); e.raw("x", PL(p)).raw("k", FL(k)).raw("v", PL(o)); }
  }
  template <typename Fn> void AnyKind(Fn f) { switch (Rn(4)) { case 0: f(A()); break; case 1: f(P()); break; case 2: f(J()); break; default: f(X()); } }
  template <bool kGlv> void Run(const char* name, int steps, int parts, bool prime, size_t big) {
    C::Init();
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k));
      T().Doing(name);
      EvCurve<C>(name, prime);
      for (int i = 0; i < steps; ++i) {
#if defined(TACHYON_HAS_OPENMP)
        omp_set_num_threads(1 + Rn(7));
#endif
        switch (Rn(6)) {
          case 0: case 1: case 2: {
            size_t n = Rn(5) ? Rn(9) : Rn(big);
            bool mism = Rn(8) == 0;
            AnyKind([&](auto q) { Msm<decltype(q)>(n, mism); }); break;
          }
          case 3: AnyKind([&](auto q) { Fixed<decltype(q)>(); }); break;
          case 4: AnyKind([&](auto q) { Buckets<decltype(q)>(); }); break;
          default: if constexpr (kGlv) AnyKind([&](auto q) { Glv<decltype(q)>(); }); else Msm<A>(Rn(6), false);
        }
      }
    }
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 15 : 1;
  M<vhf::S0Curve>().Run<false>("s0", 250, 3 * k, true, 300);
  M<vhf::S0Curve>().Run<false>("s0big", 12, 2 * k, true, 9000);
  M<vhf::S1Curve>().Run<false>("s1", 250, 2 * k, true, 300);
  M<bn254::G1Curve>().Run<true>("bn254_g1", 50, 3 * k, true, 40);
  M<bn254::G2Curve>().Run<true>("bn254_g2", 20, 3 * k, true, 20);
  M<bls12_381::G1Curve>().Run<true>("bls_g1", 40, 3 * k, true, 40);
  M<bls12_381::G2Curve>().Run<true>("bls_g2", 20, 3 * k, true, 20);
}
