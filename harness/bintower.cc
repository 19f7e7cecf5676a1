#include "vh/fieldutil.h"
#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"
using namespace vh;
using namespace tachyon::math;
template <typename F> F RB() {
  auto v = Corner(BigInt<F::N>(0));
  if constexpr (F::kBits < 64) v[0] &= (uint64_t{1} << F::kBits) - 1;
  return F::FromBigInt(v);
}
template <typename F> std::string BL(const F& f) { return L(f.ToBigInt()); }
template <typename F> std::string BLs(const std::vector<F>& v) { return Seq(v, [](const F& f) { return BL(f); }); }
template <typename F, typename S>
void Embed() {
  S x = RB<S>(), y = RB<S>();
  auto up = [](S s) { if constexpr (F::kBits == 128) { if constexpr (S::kBits == 128) return s; else return F(BigInt<2>{uint64_t{s.value()}, uint64_t{0}}); } else return F(s.value()); };
  Ev e("Embed"); e.raw("x", BL(x)).raw("y", BL(y)).raw("small", BL(x * y)).raw("large", BL(up(x) * up(y)));
}
template <typename F>
struct M {
  F r[5];
  void Out(const char* op, int d, F v, int a, int b = -1) { r[d] = v; Ev e(op); e.i("d", d + 1).raw("v", BL(v)).i("a", a + 1); if (b >= 0) e.i("b", b + 1); }
  void Step() {
    int a = Rn(5), b = Rn(6) == 0 ? a : Rn(5), d = Rn(5);
    F A = r[a], B = r[b];
    switch (Rn(20)) {
      case 0: case 1: case 2: { F v = RB<F>(); r[d] = v; auto s = F::FromDecString(v.ToString()); auto h = F::FromHexString(v.ToHexString()); Ev e("Set"); e.i("d", d + 1).raw("v", BL(v)).b("rt", s && *s == v && h && *h == v); break; }
      case 3: { F v; if (Rn(2)) v = A + B; else { v = A; v += B; } Out("Add", d, v, a, b); break; }
      case 4: { F v; if (Rn(2)) v = A - B; else { v = A; v -= B; } Out("Add", d, v, a, b); break; }
      case 5: case 6: case 7: { F v; if (Rn(2)) v = A * B; else { v = A; if (a == b) v *= v; else v *= B; } Out("Mul", d, v, a, b); break; }
      case 8: { F v; if (Rn(2)) v = A.Square(); else { v = A; v.SquareInPlace(); } Out("Square", d, v, a); break; }
      case 9: { F v; if (Rn(2)) v = A.Double(); else { v = A; v.DoubleInPlace(); } Out("Double", d, v, a); break; }
      case 10: { F v; if (Rn(2)) v = -A; else { v = A; v.NegateInPlace(); } Out("Neg", d, v, a); break; }
      case 11: { F v = BinaryTowerOperations<F>::MulByAlpha(A); Out("Alpha", d, v, a); break; }
      case 12: case 13: { std::optional<F> v; if (Rn(2)) v = A.Inverse(); else { F x = A; if (x.InverseInPlace()) v = x; } if (v) Out("Inv", d, *v, a); else { Ev e("Inv"); e.i("a", a + 1).i("d", d + 1).s("v", "none"); } break; }
      case 14: { std::optional<F> v; if (Rn(2)) v = A / B; else { F x = A; if (x /= B) v = x; } if (v) Out("Div", d, *v, a, b); else { Ev e("Div"); e.i("a", a + 1).i("b", b + 1).i("d", d + 1).s("v", "none"); } break; }
      case 15: { BigInt<F::N> e0 = Corner(BigInt<F::N>(0)); if (Rn(2)) e0 = BigInt<F::N>(Rn(20)); F v = A.Pow(e0); r[d] = v; Ev e("Pow"); e.i("d", d + 1).i("a", a + 1).raw("v", BL(v)).raw("e", L(e0)); break; }
      case 16: if constexpr (F::kBits >= 16) { auto [lo, hi] = A.Decompose(); Ev e("Compose"); e.i("a", a + 1).raw("lo", BL(lo)).raw("hi", BL(hi)).raw("v", BL(F::Compose(lo, hi))); } break;
      case 17: { Embed<F, BinaryField1>(); if constexpr (F::kBits >= 2) Embed<F, BinaryField2>(); if constexpr (F::kBits >= 4) Embed<F, BinaryField4>(); if constexpr (F::kBits >= 8) Embed<F, BinaryField8>(); if constexpr (F::kBits >= 16) Embed<F, BinaryField16>(); if constexpr (F::kBits >= 32) Embed<F, BinaryField32>(); if constexpr (F::kBits >= 64) Embed<F, BinaryField64>(); break; }
      case 18: { if (Rn(2)) { int i = d; F v = B; Out("Neg", i, -v, b); } F X = r[a], Y = r[b]; Ev e("Cmp"); e.i("a", a + 1).i("b", b + 1).b("eq", X == Y).b("ne", X != Y).b("lt", X < Y).b("gt", X > Y).b("le", X <= Y).b("ge", X >= Y).b("z", X.IsZero()).b("o", X.IsOne()).b("streq", X.ToString() == Y.ToString()); break; }
      case 19: { size_t n = Rn(6); std::vector<F> x, y; for (size_t i = 0; i < n; ++i) { x.push_back(Rn(5) ? RB<F>() : F::Zero()); y.push_back(RB<F>()); }
        if (Rn(2)) { F c = Rn(2) ? F::One() : RB<F>(); std::vector<F> o = x; if (!F::BatchInverseInPlace(o, c)) o.clear(); Ev e("BatchInv"); e.raw("x", BLs(x)).raw("c", BL(c)).raw("out", BLs(o)); }
        else { Ev e("Dot"); e.raw("x", BLs(x)).raw("y", BLs(y)).raw("v", BL(F::SumOfProducts(x, y))); } break; }
    }
  }
  void Text() {
    auto t = [](const char* s, bool want) { Ev e("Text"); e.b("ok", F::FromDecString(s).has_value()).b("want", want); };
    t("", false); t("x", false); t("0", true); t("1", true); t("2", F::kBits > 1); t("4", F::kBits > 2); t("15", F::kBits > 2); t("16", F::kBits > 4); t("255", F::kBits > 4); t("256", F::kBits > 8); t("65535", F::kBits > 8); t("65536", F::kBits > 16); t("4294967295", F::kBits > 16); t("4294967296", F::kBits > 32);
    t("18446744073709551615", F::kBits > 32); t("18446744073709551616", F::kBits > 64); t("340282366920938463463374607431768211455", F::kBits > 64); t("340282366920938463463374607431768211456", false);
  }
  void Run(int k, int n) {
    F::Init();
    T().Shard("bf" + std::to_string(k));
    { Ev e("Field"); e.i("k", k).raw("zero", BL(F::Zero())).raw("one", BL(F::One())).raw("minusone", BL(F::MinusOne())); }
    for (auto& x : r) x = F::Zero();
    Text();
    if constexpr (F::kBits <= 8) for (int x = 0; x < (1 << F::kBits); ++x) { std::vector<int> v; F X = F(x); for (int y = 0; y < (1 << F::kBits); ++y) v.push_back((X * F(y)).value()); Ev e("Row"); e.i("x", x).ints("v", v).i("sq", X.Square().value()).i("inv", x ? X.Inverse()->value() : 0).i("al", BinaryTowerOperations<F>::MulByAlpha(X).value()); }
    for (int i = 0; i < n; ++i) Step();
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int n = T().thorough() ? 20000 : 2500;
  M<BinaryField1>().Run(0, n / 2); M<BinaryField2>().Run(1, n / 2); M<BinaryField4>().Run(2, n); M<BinaryField8>().Run(3, n);
  M<BinaryField16>().Run(4, n); M<BinaryField32>().Run(5, n); M<BinaryField64>().Run(6, n); M<BinaryField128>().Run(7, n);
}
