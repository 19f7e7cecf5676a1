#include "vh/ecutil.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
using namespace vh;
using namespace tachyon;

template <typename Curve>
struct Pg {
  using C1 = typename Curve::G1Curve; using C2 = typename Curve::G2Curve;
  using A1 = typename C1::AffinePoint; using A2 = typename C2::AffinePoint;
  using S = typename C1::ScalarField; using F12 = typename Curve::Fp12; using Prep = typename Curve::G2Prepared;
  template <typename C> static std::string CJ() {
    using F = typename C::BaseField;
    return "{\"ext\":[" + ExtLevels<F>() + "],\"a\":" + EL(C::Config::kA) + ",\"gx\":" + EL(C::Config::kGenerator.x) + ",\"gy\":" + EL(C::Config::kGenerator.y) + "}";
  }
  template <typename P> static std::string XY(const P& p) { return "[" + EL(p.x()) + "," + EL(p.y()) + "]"; }
  static S Sc() { switch (Rn(7)) { case 0: return S::Zero(); case 1: return S(1 + Rn(5)); case 2: return -S(1 + Rn(5)); default: return S::Random(); } }
  static void Base() {
    F12 v = math::Pairing<Curve>(std::vector<A1>{A1::Generator()}, std::vector<A2>{A2::Generator()});
    Ev e("Base"); e.raw("p", ModL<F12>()).raw("ext", "[" + ExtLevels<F12>() + "]").raw("r", L(Modulus<S>())).raw("c1", CJ<C1>()).raw("c2", CJ<C2>()).raw("v", EL(v));
  }
  static void Pair() {
    size_t n = Rn(4) ? Rn(4) : Rn(10); std::vector<S> as, bs;
    int mode = Rn(5);
    for (size_t i = 0; i < n; ++i) { as.push_back(Sc()); bs.push_back(Sc()); }
    if (n > 1 && mode == 0) { as[1] = -as[0]; bs[1] = bs[0]; }                       // cancels
    if (n > 1 && mode == 1) { as[n - 1] = as[0]; bs[n - 1] = bs[0]; }                // repeated
    if (n == 2 && mode == 2) { as[1] = as[0] * bs[0]; bs[1] = -S::One(); }           // e(aP, bQ) e(abP, -Q) = 1
    std::vector<A1> ps; std::vector<A2> qs;
    for (size_t i = 0; i < n; ++i) { ps.push_back((as[i] * A1::Generator()).ToAffine()); qs.push_back((bs[i] * A2::Generator()).ToAffine()); }
    F12 v; int how = Rn(3);
    if (how == 0) v = math::Pairing<Curve>(ps, qs);
    else {
      std::vector<Prep> pr; for (const A2& q : qs) pr.push_back(Prep::From(q));
      if (how == 1) v = math::Pairing<Curve>(ps, pr);
      else { v = F12::One(); for (size_t i = 0; i < n; ++i) { std::vector<A1> p1{ps[i]}; std::vector<Prep> q1{pr[i]}; v *= math::Pairing<Curve>(p1, q1); } }
      if (Rn(3) == 0) v = math::Pairing<Curve>(ps, pr);                             // prepared points can be used again
    }
    Ev e("Pair"); e.i("how", how).raw("as", FLs(as)).raw("bs", FLs(bs)).raw("ps", Seq(ps, [](const A1& p) { return XY(p); })).raw("qs", Seq(qs, [](const A2& p) { return XY(p); })).raw("v", EL(v));
  }
  static void Final() {
    F12 x = RandE<F12>(), y = RandE<F12>(); if (x.IsZero() || y.IsZero()) return;
    S k = Sc();
    Ev e("Final"); e.raw("ex", EL(Curve::FinalExponentiation(x))).raw("ey", EL(Curve::FinalExponentiation(y))).raw("exy", EL(Curve::FinalExponentiation(x * y))).raw("k", FL(k)).raw("epow", EL(Curve::FinalExponentiation(x.Pow(k.ToBigInt()))));
  }
  static void Run(const std::string& name) {
    for (int s = 0; s < 4; ++s) {
      T().Shard(name + std::to_string(s)); T().Doing("base"); Base();
      for (int i = 0; i < (T().thorough() ? 200 : 40); ++i) { T().Doing("pair"); Pair(); if (i % 5 == 0) { T().Doing("final"); Final(); } T().Flush(); }
    }
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  math::bn254::BN254Curve::Init(); math::bls12_381::BLS12_381Curve::Init();
  Pg<math::bn254::BN254Curve>::Run("bn254");
  Pg<math::bls12_381::BLS12_381Curve>::Run("bls12_381");
  return 0;
}
