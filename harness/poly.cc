// Histories of dense and sparse univariate polynomials.
#include "vh/extutil.h"
#include "absl/hash/hash.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "vh/f12289.h"
#include "vh/vgoldi.h"
#include "vh/x2.h"
using namespace vh;
using namespace tachyon::math;
constexpr size_t kMax = 200;
template <typename F>
struct M {
  using D = UnivariateDensePolynomial<F, kMax>;
  using S = UnivariateSparsePolynomial<F, kMax>;
  using DC = UnivariateDenseCoefficients<F, kMax>;
  using SC = UnivariateSparseCoefficients<F, kMax>;
  D d[4];
  S s[4];
  static std::string PL(const D& p) { return ELs(p.coefficients().coefficients()); }
  static std::string PL(const S& p) { return Seq(p.coefficients().terms(), [](const UnivariateTerm<F>& t) { return "[" + std::to_string(t.degree) + "," + EL(t.coefficient) + "]"; }); }
  static std::vector<F> RandV(size_t n) { std::vector<F> v; int mode = Rn(4); for (size_t i = 0; i < n; ++i) v.push_back(mode == 0 && Rn(3) ? F::Zero() : RandE<F>()); return v; }
  static size_t RandLen() { switch (Rn(6)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return Rn(5); case 4: return Rn(9); default: return Rn(17); } }
  static S RandS() {
    std::vector<UnivariateTerm<F>> t; size_t n = Rn(5), deg = 0;
    for (size_t i = 0; i < n; ++i) { if (i || Rn(2)) deg += Rn(2) ? 1 : Rn(6) + 1; t.push_back({deg, RandE<F>()}); }
    return S(SC(std::move(t), true));
  }
  void Put(int o, const D& v) { d[o] = v; }
  void Put(int o, const S& v) { s[o] = v; }
  template <typename P> static constexpr int Off() { return std::is_same_v<P, D> ? 1 : 5; }
  template <typename P> void Out(const char* op, int o, const P& v, int ia, int ib = 0, const std::string& x = "") {
    Ev e(op);
    e.i("d", o + Off<P>()).raw("v", PL(v)).i("a", ia);
    if (ib) e.i("b", ib);
    if (!x.empty()) e.raw("x", x);
    Put(o, v);
  }
  template <typename A, typename B> void Bin(A a, int ia, const B& b, int ib, int o, bool alias) {
    bool in = Rn(2);
    constexpr bool kCanIn = !(std::is_same_v<A, S> && std::is_same_v<B, D>);
    switch (Rn(8)) {
      case 0: case 1: if constexpr (kCanIn) { if (in) { if constexpr (std::is_same_v<A, B>) { if (alias) a += a; else a += b; } else a += b; Out("Add", o, a, ia, ib); break; } } Out("Add", o, a + b, ia, ib); break;
      case 2: case 3: if constexpr (kCanIn) { if (in) { if constexpr (std::is_same_v<A, B>) { if (alias) a -= a; else a -= b; } else a -= b; Out("Sub", o, a, ia, ib); break; } } Out("Sub", o, a - b, ia, ib); break;
      case 4: case 5:
        if (a.Degree() + b.Degree() > 40) break;
        if constexpr (kCanIn) { if (in) { if constexpr (std::is_same_v<A, B>) { if (alias) a *= a; else a *= b; } else a *= b; Out("Mul", o, a, ia, ib); break; } } Out("Mul", o, a * b, ia, ib); break;
      case 6: {
        std::optional<D> q, r; bool z = a.IsZero();
        if constexpr (std::is_same_v<A, D>) {
          if (in) {
            if constexpr (std::is_same_v<A, B>) { if (alias) { D x = a; if (x /= x) q = x; D y = a; if (!z && (y %= y)) r = y; Div(o, q, r, ia, ib); break; } }
            D x = a; if (x /= b) q = x; D y = a; if (!z && (y %= b)) r = y;
            Div(o, q, r, ia, ib); break;
          }
        }
        q = a / b; if (!z) r = a % b;
        Div(o, q, r, ia, ib); break; }
      case 7: {
        if (a.IsZero() && !b.IsZero()) break;  // what % does to zero is recorded separately
        auto q = a.DivMod(b);
        if (q) Div(o, std::optional<D>(q->quotient), std::optional<D>(q->remainder), ia, ib);
        else Div(o, std::nullopt, std::nullopt, ia, ib);
        break; }
    }
  }
  void Div(int o, const std::optional<D>& q, const std::optional<D>& r, int ia, int ib) {
    Ev e("Div"); e.i("a", ia).i("b", ib).i("d", o + 1).b("ok", q.has_value()).b("rok", r.has_value());
    if (q) { e.raw("q", PL(*q)); d[o] = *q; }
    if (r) e.raw("r", PL(*r));
  }
  template <typename P> void Un(P a, int ia, int o) {
    switch (Rn(12)) {
      case 0: { if (Rn(2)) Out("Neg", o, -a, ia); else { a.NegateInPlace(); Out("Neg", o, a, ia); } break; }
      case 1: { F c = RandE<F>(); if (Rn(3) == 0 && !a.IsZero()) c = a.GetLeadingCoefficient(); if (Rn(2)) Out("Scale", o, a * c, ia, 0, EL(c)); else { a *= c; Out("Scale", o, a, ia, 0, EL(c)); } break; }
      case 2: { F c = RandE<F>(); std::optional<P> q; if (Rn(2)) q = a / c; else if (a /= c) q = a; if (q) Out("ScaleInv", o, *q, ia, 0, EL(c)); else { Ev e("ScaleInv"); e.i("a", ia).i("d", o + 1).s("v", "none").raw("x", EL(c)); } break; }
      case 3: case 4: case 5: { F x = RandE<F>(); if (Rn(6) == 0) x = F::Zero(); Ev e("Eval"); e.i("a", ia).raw("x", EL(x)).raw("v", EL(a.Evaluate(x))); break; }
      case 6: case 7: { F x = RandE<F>(); if (Rn(4) == 0) x = F::Zero(); else if (Rn(3) == 0 && a[1] != F::Zero()) x = -*(a[0] / a[1]); Out("Fold", o, a.Fold(x), ia, 0, EL(x)); break; }
      case 8: { auto t = a.ToSparse(); Out("Same", o, t, ia); break; }
      case 9: { auto t = a.ToDense(); Out("Same", o, t, ia); break; }
      case 10: { size_t i = Rn(20); const P& c = a; Ev e("Look"); e.i("a", ia).i("deg", a.Degree()).b("z", a.IsZero()).b("one", a.IsOne()).raw("lead", EL(a.GetLeadingCoefficient())).i("i", i).raw("at", EL(c.at(i))).raw("ix", EL(c[i])).i("n", a.NumElements()); break; }
      case 11: { P b = a; int kind = Rn(3); if (kind == 1) b = b + P::One(); else if (kind == 2) { b = b + P::One(); b = b - P::One(); }
        Ev e("Cmp"); e.i("a", ia).b("same", kind != 1).b("eq", a == b).b("ne", a != b).b("hash", absl::HashOf(a) == absl::HashOf(b)).b("hashds", absl::HashOf(a.ToDense()) == absl::HashOf(a.ToSparse())); break; }
    }
  }
  void Step() {
    int a = Rn(4), b = Rn(4), o = Rn(4);
    switch (Rn(14)) {
      case 0: { std::vector<F> v = RandV(RandLen()); D p(DC(v, true)); Ev e("Set"); e.i("d", o + 1).raw("raw", ELs(v)).raw("v", PL(p)); d[o] = p; break; }
      case 1: { S p = RandS(); if (Rn(6) == 0) p = S::Zero(); if (Rn(8) == 0) p = S::One(); Ev e("SetS"); e.i("d", o + 5).raw("v", PL(p)); s[o] = p; break; }
      case 2: { std::vector<F> x = RandV(Rn(7)); if (Rn(2)) { D p = D::FromRoots(x); Out("Roots", o, p, 0, 0, ELs(x)); } else { S p = S::FromRoots(x); Out("Roots", o, p, 0, 0, ELs(x)); } break; }
      case 3: { std::vector<F> x = RandV(Rn(7)); F p = RandE<F>(); if (!x.empty() && Rn(4) == 0) p = x[Rn(x.size())]; Ev e("Vanish"); e.raw("x", ELs(x)).raw("p", EL(p)).raw("v", EL(D::EvaluateVanishingPolyByRoots(x, p))).raw("vs", EL(D::EvaluateVanishingPolyByRootsSerial(x, p))); break; }
      case 4: { size_t n = Rn(7); std::vector<F> x; for (size_t i = 0; i < n; ++i) { F v = RandE<F>(); bool dup = false; for (auto& y : x) dup |= y == v; if (!dup) x.push_back(v); }
        std::vector<F> y = RandV(x.size()); if (Rn(8) == 0) y.push_back(F::One());
        D p; bool ok = LagrangeInterpolate<kMax>(x, y, &p);
        Ev e("Lagrange"); e.raw("x", ELs(x)).raw("y", ELs(y)).b("ok", ok).raw("v", ok ? PL(p) : "[]").i("d", o + 1); d[o] = p; break; }
      case 5: case 6: case 7: Bin(d[a], a + 1, d[b], b + 1, o, a == b); break;
      case 8: case 9: Bin(d[a], a + 1, s[b], b + 5, o, false); break;
      case 10: Bin(s[a], a + 5, d[b], b + 1, o, false); break;
      case 11: Bin(s[a], a + 5, s[b], b + 5, o, a == b); break;
      case 12: Un(d[a], a + 1, o); break;
      case 13: Un(s[a], a + 5, o); break;
    }
  }
  void Run(const char* name, int steps, int parts) {
    F::Init();
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k));
      T().Doing(name);
      { Ev e("Field"); e.s("name", name).raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]"); }
      for (auto& x : d) x = D::Zero();
      for (auto& x : s) x = S::Zero();
      for (int i = 0; i < steps; ++i) { T().Doing(name + std::to_string(i)); Step(); }
    }
  }
  // 0 % b for a fixed b, in each form
  void ZeroMod() {
    T().Shard("zeromod");
    { Ev e("Field"); e.s("name", "zeromod").raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]"); }
    D b(DC(std::vector<F>{F(3), F(1)})); S bs = b.ToSparse(); D z; S zs;
    auto Z = [&](const char* form, const std::optional<D>& r) { Ev e("ZeroMod"); e.s("form", form).raw("b", PL(b)).raw("r", r ? PL(*r) : "\"none\""); };
    Z("d%d", z % b); Z("d%s", z % bs); Z("s%d", zs % b); Z("s%s", zs % bs);
    { D t; std::optional<D> r; if (t %= b) r = t; Z("d%=d", r); }
    { D t; std::optional<D> r; if (t %= bs) r = t; Z("d%=s", r); }
    Z("divmod dd", z.DivMod(b)->remainder); Z("divmod ds", z.DivMod(bs)->remainder);
    Z("divmod sd", zs.DivMod(b)->remainder); Z("divmod ss", zs.DivMod(bs)->remainder);
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 40 : 4;
  M<GF7>().Run("gf7", 900, 4 * k);
  M<vhf::F12289>().Run("f12289", 900, 2 * k);
  M<vhf::VGoldi>().Run("vgoldi", 700, 1 * k);
  M<vhf::X2>().Run("x2", 500, 1 * k);
  M<bn254::Fr>().Run("bn254_fr", 600, 2 * k);
  M<vhf::F12289>().ZeroMod();
}
