// Register machines over the packed fields.
#include <sstream>
#include "absl/hash/hash.h"
#include "vh/extutil.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31.h"
using namespace vh;
using namespace tachyon::math;

// P: packed type; S: the scalar type of a lane
template <typename P, typename S, typename PP = P>
struct M {
  static constexpr bool kE = kIsExt<S>;
  using B = typename ExtensionFieldTraits<S>::BasePrimeField;
  static constexpr size_t N = PP::N;
  P r[6];
  static S Get(const P& v, size_t i) {
    if constexpr (kE) { S s = S::Zero(); for (uint32_t j = 0; j < S::ExtensionDegree(); ++j) s[j] = v[j][i]; return s; } else return v[i];
  }
  static void Put(P& v, size_t i, const S& s) {
    if constexpr (kE) { for (uint32_t j = 0; j < S::ExtensionDegree(); ++j) v[j][i] = s[j]; } else v[i] = s;
  }
  static std::vector<S> Vec(const P& v) { std::vector<S> o; for (size_t i = 0; i < N; ++i) o.push_back(Get(v, i)); return o; }
  static std::string PL(const P& v) { return ELs(Vec(v)); }
  static std::string PLs(const std::vector<P>& v) { return Seq(v, [](const P& f) { return PL(f); }); }
  static P Rand() {
    P v = P::Zero();
    int mode = Rn(6);
    for (size_t i = 0; i < N; ++i) Put(v, i, mode == 0 && Rn(2) ? S::Zero() : RandE<S>());
    if (mode == 1) for (size_t i = 1; i < N; ++i) Put(v, i, Get(v, 0));
    if (mode == 2) { S c = Get(v, 0); for (size_t i = 0; i < N; ++i) if (i % 2) Put(v, i, c); }
    return v;
  }
  static P NonZeroLanes() { P v = Rand(); for (size_t i = 0; i < N; ++i) if (Get(v, i).IsZero()) Put(v, i, S::One()); return v; }
  void Out(const char* op, int d, const P& v, int a = -1, int b = -1, const std::string& k = "", const std::string& x = "") {
    r[d] = v;
    Ev e(op);
    e.i("d", d + 1).raw("v", PL(v));
    if (a >= 0) e.i("a", a + 1);
    if (b >= 0) e.i("b", b + 1);
    if (!k.empty()) e.raw(k.c_str(), x);
  }
  void Set(int d, const P& v) {
    P w = P::Zero();
    if constexpr (kE) {
      for (uint32_t j = 0; j < S::ExtensionDegree(); ++j) w[j] = PP::From([&v, j](size_t i) { return v[j][i]; });
    } else {
      w = P::From([&v](size_t i) { return v[i]; });
    }
    std::vector<S> read;
    if constexpr (kE) read = Vec(v); else { const P& c = v; for (const auto& x : c.values()) read.push_back(x); }
    r[d] = v;
    Ev e("Set"); e.i("d", d + 1).raw("v", PL(v)).raw("gen", PL(w)).raw("read", ELs(read));
  }
  void Step() {
    int a = Rn(6), b = Rn(8) == 0 ? a : Rn(6), d = Rn(6);
    P& A = r[a]; P& Bv = r[b];
    switch (Rn(25)) {
      case 0: case 1: case 2: case 3: Set(d, Rand()); break;
      case 4: { P v; if (Rn(2)) v = A + Bv; else { v = A; if (a == b) v += v; else v += Bv; } Out("Add", d, v, a, b); break; }
      case 5: { P v; if (Rn(2)) v = A - Bv; else { v = A; if (a == b) v -= v; else v -= Bv; } Out("Sub", d, v, a, b); break; }
      case 6: case 7: case 8: { P v; if (Rn(2)) v = A * Bv; else { v = A; if (a == b) v *= v; else v *= Bv; } Out("Mul", d, v, a, b); break; }
      case 9: { P v; if (Rn(2)) v = A.Square(); else { v = A; v.SquareInPlace(); } Out("Square", d, v, a); break; }
      case 10: { P v; if (Rn(2)) v = A.Double(); else { v = A; v.DoubleInPlace(); } Out("Double", d, v, a); break; }
      case 11: { P v; if (Rn(2)) v = -A; else { v = A; v.NegateInPlace(); } Out("Neg", d, v, a); break; }
      case 12: { P x = A; if constexpr (kE) { for (size_t i = 0; i < N; ++i) if (Get(x, i).IsZero()) Put(x, i, S::One()); Set(a, x); }
        P v; if (Rn(2)) v = *r[a].Inverse(); else { v = r[a]; auto q = v.InverseInPlace(); if (!q) v = P::Zero(); } Out("Inv", d, v, a); break; }
      case 13: { if constexpr (kE) Set(b, NonZeroLanes()); P v; if (Rn(2)) v = *(r[a] / r[b]); else { v = r[a]; P y = r[b]; auto q = (v /= y); if (!q) v = P::Zero(); } Out("Div", d, v, a, b); break; }
      case 14: { uint64_t e = Rn(2) ? Rn(12) : R64() >> Rn(64); Out("Pow", d, A.Pow(e), a, -1, "e", Limbs(e)); break; }
      case 15: { S c = RandE<S>(); size_t i = Rn(N); P v = A; Put(v, i, c); r[d] = v; Ev e("Lane"); e.i("d", d + 1).i("a", a + 1).i("i", static_cast<int>(i) + 1).raw("c", EL(c)).raw("v", PL(v)); break; }
      case 16: if constexpr (!kE) { B c = RandF<B>(); Out("Broadcast", d, P::Broadcast(c), -1, -1, "c", FL(c)); }
        else { PP c = PP::Zero(); for (size_t i = 0; i < N; ++i) c[i] = RandF<B>(); P v; if (Rn(2)) v = A * c; else { v = A; v *= c; } Out("MulBase", d, v, a, -1, "c", Seq(std::vector<B>(c.values().begin(), c.values().end()), [](const B& f) { return FL(f); })); } break;
      case 17: if constexpr (!kE) { uint32_t n = Rn(2) ? Rn(5) : static_cast<uint32_t>(R64() % B::Config::kModulus); Out("FromInt", d, P(n), -1, -1, "n", Limbs(uint64_t{n})); } break;
      case 18: Out("Random", d, P::Random()); break;
      case 19: {
        int k = Rn(4);
        if (k == 0) Set(a, Bv);
        else if (k == 1) { P z = Bv; size_t i = Rn(N); Put(z, i, Get(z, i) + S::One()); Set(a, z); }
        else if (k == 2) Set(a, Rn(3) == 0 ? P::Zero() : Rn(2) ? P::One() : P::MinusOne());
        else if (Rn(2)) { P z = Rn(3) == 0 ? P::Zero() : Rn(2) ? P::One() : P::MinusOne(); Put(z, Rn(N), RandE<S>()); Set(a, z); }
        const P& X = r[a]; const P& Y = r[b]; std::stringstream s1, s2; s1 << X; s2 << Y;
        Ev e("Cmp"); e.i("a", a + 1).i("b", b + 1).b("eq", X == Y).b("ne", X != Y).b("lt", X < Y).b("gt", X > Y).b("le", X <= Y).b("ge", X >= Y).b("hasheq", absl::HashOf(X) == absl::HashOf(Y)).b("streq", s1.str() == s2.str() && X.ToHexString() == Y.ToHexString()).b("z", X.IsZero()).b("o", X.IsOne()).b("m", X.IsMinusOne()); break; }
      case 20: { size_t n = Rn(4); std::vector<P> x, y; for (size_t i = 0; i < n; ++i) { x.push_back(Rand()); y.push_back(Rand()); } P v = P::SumOfProducts(x, y), vs = P::SumOfProductsSerial(x, y); Ev e("Dot"); e.raw("x", PLs(x)).raw("y", PLs(y)).raw("v", PL(v)).raw("vs", PL(vs)); break; }
      case 21: { size_t n = Rn(4); std::vector<P> x; for (size_t i = 0; i < n; ++i) x.push_back(Rn(4) == 0 ? P::Zero() : NonZeroLanes()); P c = Rn(2) ? P::One() : Rand(); std::vector<P> o; bool ok; if (Rn(2)) { o = x; ok = P::BatchInverseInPlace(o, c); } else { o.resize(n); ok = P::BatchInverse(x, &o, c); } Ev e("BatchInv"); e.raw("x", PLs(x)).raw("c", PL(c)).b("ok", ok).raw("out", PLs(o)); break; }
      case 22: case 23:
        if constexpr (kE) { S c = RandE<S>(); size_t n = 1 + Rn(4); auto v = S::GetExtendedPackedPowers(c, n); Ev e("Powers"); e.raw("c", EL(c)).i("n", static_cast<int>(n)).raw("v", PLs(v)); }
        else if constexpr (!std::is_same_v<B, Mersenne31>) { int k = Rn(3); P v = k == 0 ? A.Exp3() : k == 1 ? A.Exp5() : A.Exp7(); Out("Pow", d, v, a, -1, "e", Limbs(uint64_t(k == 0 ? 3 : k == 1 ? 5 : 7))); }
        break;
      case 24: if constexpr (!kE) { P v = A; v.FrobeniusMapInPlace(Rn(4)); Out("Frob", d, v, a); } break;
    }
  }
  void Run(const char* name, int steps, int parts) {
    P::Init(); S::Init();
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k));
      T().Doing(name);
      { Ev e("Field"); e.s("name", name).raw("p", ModL<S>()).raw("ext", "[" + ExtLevels<S>() + "]").i("lanes", N).raw("zero", PL(P::Zero())).raw("one", PL(P::One())).raw("minusone", PL(P::MinusOne())).raw("twoinv", PL(P::TwoInv())); }
      for (auto& x : r) x = P::Zero();
      if constexpr (!kE) if (k == 0) { // lanes that are zero in one entry of a list only
        P x0 = P::One(), x1 = P::One(); x0[0] = B::Zero();
        std::vector<P> x{x0, x1}, o(2); bool ok = P::BatchInverse(x, &o);
        Ev e("BatchInv"); e.s("id", std::string(name) + "-zero-lane").raw("x", PLs(x)).raw("c", PL(P::One())).b("ok", ok).raw("out", PLs(o));
      }
      for (int i = 0; i < steps; ++i) Step();
      T().Flush();
    }
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int n = T().thorough() ? 4000 : 500;
  M<PackedBabyBear, BabyBear>().Run("packed_baby_bear", n, 2);
  M<PackedKoalaBear, KoalaBear>().Run("packed_koala_bear", n, 2);
  M<PackedMersenne31, Mersenne31>().Run("packed_mersenne31", n, 2);
  M<PackedBabyBear4, BabyBear4, PackedBabyBear>().Run("packed_baby_bear4", n, 1);
  M<PackedKoalaBear4, KoalaBear4, PackedKoalaBear>().Run("packed_koala_bear4", n, 1);
}
