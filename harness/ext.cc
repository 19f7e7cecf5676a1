#include <sstream>
#include "absl/hash/hash.h"
#include "vh/extutil.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
namespace tachyon::math {
template <> struct ExtendedPackedFieldTraits<KoalaBear4> { constexpr static bool kIsExtendedPackedField = false; using ExtendedPackedField = PackedKoalaBear4; };
}
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/math/finite_fields/test/gf7_2.h"
#include "tachyon/math/finite_fields/test/gf7_3.h"
#include "tachyon/math/circle/m31/fq4.h"
#include "vh/vgoldi2.h"
#include "vh/x2.h"
#include "vh/x3.h"
#include "vh/x4.h"
#include "vh/x6a.h"
#include "vh/x6b.h"
#include "vh/x12.h"
using namespace vh;
using namespace tachyon::math;

template <typename T, typename = void> struct HasConj : std::false_type {};
template <typename T> struct HasConj<T, decltype(void(std::declval<T>().Conjugate()))> : std::true_type {};
template <typename T, typename = void> struct Has034 : std::false_type {};
template <typename T> struct Has034<T, decltype(void(&T::MulInPlaceBy034))> : std::true_type {};
template <typename T, typename = void> struct Has01 : std::false_type {};
template <typename T> struct Has01<T, decltype(void(&T::MulInPlaceBy01))> : std::true_type {};

template <typename F>
struct M {
  using B = typename ExtensionFieldTraits<F>::BaseField;
  using P = typename ExtensionFieldTraits<F>::BasePrimeField;
  static constexpr uint32_t D = ExtensionFieldTraits<F>::kDegreeOverBaseField;
  static constexpr size_t N = P::BigIntTy::kLimbNums;
  F r[5];
  void Out(const char* op, int d, const F& v, int a = -1, int b = -1, const std::string& k = "", const std::string& x = "") {
    r[d] = v;
    Ev e(op);
    e.i("d", d + 1).raw("v", EL(v));
    if (a >= 0) e.i("a", a + 1);
    if (b >= 0) e.i("b", b + 1);
    if (!k.empty()) e.raw(k.c_str(), x);
  }
  F Rebuild(const F& v, std::vector<P>* flat) {
    Flatten(v, flat);
    return F::FromBasePrimeFields(*flat);
  }
  template <typename G> static void Flatten(const G& v, std::vector<P>* o) { if constexpr (!kIsExt<G>) o->push_back(v); else { auto bs = v.ToBaseFields(); for (auto& x : bs) Flatten(x, o); } }
  void Set(int d, const F& v) {
    std::vector<P> flat; F back = Rebuild(v, &flat);
    std::string it = "["; bool first = true; for (auto i = v.begin(); i != v.end(); ++i) { if (!first) it += ","; first = false; it += EL(*i); } it += "]";
    r[d] = v;
    Ev e("Set"); e.i("d", d + 1).raw("v", EL(v)).raw("flat", FLs(flat)).raw("back", EL(back)).raw("iter", it);
  }
  void Step(bool heavy) {
    int a = Rn(5), b = Rn(8) == 0 ? a : Rn(5), d = Rn(5);
    F& A = r[a]; F& Bv = r[b];
    switch (Rn(heavy ? 26 : 24)) {
      case 0: case 1: case 2: case 3: Set(d, RandE<F>()); break;
      case 4: { F v; if (Rn(2)) v = A + Bv; else { v = A; if (a == b) v += v; else v += Bv; } Out("Add", d, v, a, b); break; }
      case 5: { F v; if (Rn(2)) v = A - Bv; else { v = A; if (a == b) v -= v; else v -= Bv; } Out("Sub", d, v, a, b); break; }
      case 6: case 7: case 8: { F v; if (Rn(2)) v = A * Bv; else { v = A; if (a == b) v *= v; else v *= Bv; } Out("Mul", d, v, a, b); break; }
      case 9: { B c = RandE<B>(); F v; if (Rn(2)) v = A * c; else { v = A; v *= c; } Out("MulBase", d, v, a, -1, "c", EL(c)); break; }
      case 10: case 11: { F v; if (Rn(2)) v = A.Square(); else { v = A; v.SquareInPlace(); } Out("Square", d, v, a); break; }
      case 12: { F v; if (Rn(2)) v = A.Double(); else { v = A; v.DoubleInPlace(); } Out("Double", d, v, a); break; }
      case 13: { F v; if (Rn(2)) v = -A; else { v = A; v.NegateInPlace(); } Out("Neg", d, v, a); break; }
      case 14: case 15: { std::optional<F> v; if (Rn(2)) v = A.Inverse(); else { F x = A; auto q = x.InverseInPlace(); if (q) v = x; } if (v) Out("Inv", d, *v, a); else { Ev e("Inv"); e.i("a", a + 1).i("d", d + 1).s("v", "none"); } break; }
      case 16: { std::optional<F> v; if (Rn(2)) v = A / Bv; else { F x = A; auto q = (x /= Bv); if (q) v = x; } if (v) Out("Div", d, *v, a, b); else { Ev e("Div"); e.i("a", a + 1).i("b", b + 1).i("d", d + 1).s("v", "none"); } break; }
      case 17: { uint64_t e = Rn(2) ? Rn(12) : R64() >> Rn(64); Out("Pow", d, A.Pow(e), a, -1, "e", Limbs(e)); break; }
      case 18: if constexpr (HasConj<F>::value) { F v; if (Rn(2)) v = A.Conjugate(); else { v = A; v.ConjugateInPlace(); } Out("Conj", d, v, a); } break;
      case 19: { // comparisons
        F y = Bv; if (Rn(3) == 0) { y = RandE<F>(); F z = Bv + y; z -= y; Set(a, z); } else if (Rn(2)) { F z = Bv; z[Rn(D)] += B(1); Set(a, z); }
        const F& X = r[a]; const F& Y = r[b]; std::stringstream s1, s2; s1 << X; s2 << Y;
        Ev e("Cmp"); e.i("a", a + 1).i("b", b + 1).b("eq", X == Y).b("ne", X != Y).b("lt", X < Y).b("gt", X > Y).b("le", X <= Y).b("ge", X >= Y).b("hasheq", absl::HashOf(X) == absl::HashOf(Y)).b("streq", s1.str() == s2.str() && X.ToHexString() == Y.ToHexString()).b("z", X.IsZero()).b("o", X.IsOne()).b("m", X.IsMinusOne()); break; }
      case 20: { size_t n = Rn(5); std::vector<F> x; for (size_t i = 0; i < n; ++i) x.push_back(RandE<F>()); F c = Rn(2) ? F::One() : RandE<F>(); std::vector<F> o; bool ok; if (Rn(2)) { o = x; ok = F::BatchInverseInPlace(o, c); } else { o.resize(n); ok = F::BatchInverse(x, &o, c); } Ev e("BatchInv"); e.raw("x", ELs(x)).raw("c", EL(c)).b("ok", ok).raw("out", ELs(o)); break; }
      case 21: { size_t n = Rn(4); std::vector<F> x, y; for (size_t i = 0; i < n; ++i) { x.push_back(RandE<F>()); y.push_back(RandE<F>()); } F v = F::SumOfProducts(x, y), vs = F::SumOfProductsSerial(x, y); Ev e("Dot"); e.raw("x", ELs(x)).raw("y", ELs(y)).raw("v", EL(v)).raw("vs", EL(vs)); break; }
      case 22: { B c = RandE<B>(); Ev e("MulNr"); e.raw("c", EL(c)).raw("v", EL(F::Config::MulByNonResidue(c))); break; }
      case 23: { F v = A; F m = F::Zero();
        if constexpr (Has034<F>::value) {
          using S = typename ExtensionFieldTraits<B>::BaseField; S x = RandE<S>(), y = RandE<S>(), z = RandE<S>();
          if (Rn(2)) { v.MulInPlaceBy034(x, y, z); m[0][0] = x; m[1][0] = y; m[1][1] = z; } else { v.MulInPlaceBy014(x, y, z); m[0][0] = x; m[0][1] = y; m[1][1] = z; }
          Out("Sparse", d, v, a, -1, "m", EL(m));
        } else if constexpr (Has01<F>::value) {
          B x = RandE<B>(), y = RandE<B>();
          if (Rn(2)) { v.MulInPlaceBy01(x, y); m[0] = x; m[1] = y; } else { v.MulInPlaceBy1(y); m[1] = y; }
          Out("Sparse", d, v, a, -1, "m", EL(m));
        } break; }
      case 24: { F v = A; uint32_t k = Rn(3 * F::ExtensionDegree()); v.FrobeniusMapInPlace(k); r[d] = v; Ev e("Frob"); e.i("d", d + 1).i("a", a + 1).i("k", k).i("deg", F::ExtensionDegree()).raw("v", EL(v)); break; }
      case 25: if (Rn(2)) { Ev e("Norm"); e.i("a", a + 1).raw("v", EL(A.Norm())); }
        else if constexpr (HasConj<F>::value) {
          if (A.IsZero()) break;
          F u = A; u.ConjugateInPlace(); u *= *A.Inverse();
          if (F::ExtensionDegree() % 6 == 0) { F w = u; w.FrobeniusMapInPlace(F::ExtensionDegree() / 6); u *= w; }
          if (F::ExtensionDegree() == 6) {
            // u^((p^3-1)(p+1)) as above
          }
          Set(a, u);
          F si = u, ii = u; si.CyclotomicSquareInPlace(); auto q = ii.CyclotomicInverseInPlace(); if (!q) ii = F::Zero();
          BigInt<N> e0 = Corner(BigInt<N>(0)); if (Rn(2)) { e0 = BigInt<N>(Rn(40)); }
          F pw = u.CyclotomicPow(e0); if (Rn(2)) { F z = u; z.CyclotomicPowInPlace(e0); pw = z; }
          Ev e("Cyclo"); e.i("a", a + 1).raw("sq", EL(u.CyclotomicSquare())).raw("sqin", EL(si)).raw("inv", EL(*u.CyclotomicInverse())).raw("invin", EL(ii)).raw("e", L(e0)).raw("pw", EL(pw));
        } break;
    }
  }
  void Run(const char* name, int steps, int parts, int every) {
    F::Init();
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k));
      T().Doing(name);
      { Ev e("Field"); e.s("name", name).raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]").raw("zero", EL(F::Zero())).raw("one", EL(F::One())).raw("minusone", EL(F::MinusOne())).raw("twoinv", EL(F::TwoInv())).i("deg", F::ExtensionDegree()); }
      for (auto& x : r) x = F::Zero();
      { // built from an integer, in memory that held something else
        alignas(F) static unsigned char mem[sizeof(F)];
        for (int i = 0; i < 4; ++i) {
          int k = Rn(7);
          memset(mem, 1 + Rn(6), sizeof(F));
          asm volatile("" ::"r"(mem) : "memory");
          F* f = new (mem) F(k);
          Ev e("FromInt"); e.i("k", k).raw("v", EL(*f));
        }
      }
      for (int i = 0; i < steps; ++i) Step(i % every == 0);
    }
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 20 : 2;
  M<bn254::Fq2>().Run("bn254_fq2", 500 * k, 1, 4);
  M<bn254::Fq6>().Run("bn254_fq6", 160, 2 * k, 8);
  M<bn254::Fq12>().Run("bn254_fq12", 160, 3 * k, 10);
  M<bls12_381::Fq2>().Run("bls_fq2", 400 * k, 1, 4);
  M<bls12_381::Fq6>().Run("bls_fq6", 130, 2 * k, 8);
  M<bls12_381::Fq12>().Run("bls_fq12", 130, 3 * k, 10);
  M<BabyBear4>().Run("baby_bear4", 600 * k, 1, 1);
  M<KoalaBear4>().Run("koala_bear4", 600 * k, 1, 1);
  M<m31::Fq2>().Run("m31_fq2", 600 * k, 1, 1);
  M<m31::Fq4>().Run("m31_fq4", 600 * k, 1, 1);
  M<vhf::VGoldi2>().Run("vgoldi2", 500 * k, 1, 1);
  M<GF7_2>().Run("gf7_2", 500 * k, 1, 1);
  M<GF7_3>().Run("gf7_3", 500 * k, 1, 1);
  M<vhf::X2>().Run("x2", 500 * k, 1, 1);
  M<vhf::X3>().Run("x3", 500 * k, 1, 1);
  M<vhf::X4>().Run("x4", 500 * k, 1, 1);
  M<vhf::X6A>().Run("x6a", 500 * k, 1, 1);
  M<vhf::X6B>().Run("x6b", 500 * k, 1, 1);
  M<vhf::X12>().Run("x12", 300 * k, 1, 1);
}
