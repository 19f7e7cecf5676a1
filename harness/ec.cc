#include <variant>
#include "vh/ecutil.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "vh/s0.h"
#include "vh/s1.h"
#include "vh/s2.h"
using namespace vh;

template <typename C>
struct M {
  using A = AffinePoint<C>; using P = ProjectivePoint<C>; using J = JacobianPoint<C>; using X = PointXYZZ<C>;
  using F = typename C::BaseField; using S = typename C::ScalarField;
  using V = std::variant<A, P, J, X>;
  V r[5];
  static constexpr bool kPrime = ExtensionFieldTraits<F>::kDegreeOverBaseField == 1;
  template <typename Q> void Out(const char* op, int d, const Q& v, int a = -1, int b = -1, const std::string& x = "") {
    r[d] = v;
    Ev e(op); e.i("d", d + 1).raw("v", PL(v));
    if (a >= 0) e.i("a", a + 1);
    if (b >= 0) e.i("b", b + 1);
    if (!x.empty()) e.raw("e", x);
  }
  A Aff(int i) { return std::visit([](const auto& p) -> A { if constexpr (std::is_same_v<std::decay_t<decltype(p)>, A>) return p; else return p.ToAffine(); }, r[i]); }
  void SetRep(int d, const A& a) {
    switch (Rn(4)) { case 0: Out("Set", d, a); break; case 1: Out("Set", d, Rep<P>(a)); break; case 2: Out("Set", d, Rep<J>(a)); break; default: Out("Set", d, Rep<X>(a)); }
  }
  template <typename Q> void Batch() {
    size_t n = Rn(6); std::vector<Q> x; for (size_t i = 0; i < n; ++i) x.push_back(Rep<Q>(RandPoint<C>()));
    bool fits = Rn(5) != 0; std::vector<A> out(fits ? n : n + 1 - 2 * (n > 0 && Rn(2)));
    bool ok = Rn(2) ? Q::BatchNormalize(x, &out) : Q::BatchNormalizeSerial(x, &out);
    Ev e("Batch"); e.raw("x", PLs(x)).b("fits", fits).b("ok", ok).raw("out", PLs(out));
  }
  template <typename Q, typename R> void Batch2() {
    size_t n = Rn(4); std::vector<Q> x; for (size_t i = 0; i < n; ++i) x.push_back(Rep<Q>(RandPoint<C>()));
    bool fits = Rn(5) != 0; std::vector<R> out(fits ? n : n + 1);
    bool ok = ConvertPoints(x, &out);
    Ev e("Batch"); e.raw("x", PLs(x)).b("fits", fits).b("ok", ok).raw("out", PLs(out));
  }
  template <typename Q> void Multi(bool heavy) {
    using R = std::conditional_t<std::is_same_v<Q, A>, J, Q>;
    size_t n = Rn(heavy ? 4 : 2); std::vector<Q> x; std::vector<S> k; A base = RandPoint<C>(); S one = RandS<S>(); int mode = Rn(3);
    for (size_t i = 0; i < n; ++i) { x.push_back(Rep<Q>(mode == 1 ? base : RandPoint<C>())); k.push_back(mode == 2 ? one : RandS<S>()); }
    bool fits = Rn(5) != 0; std::vector<R> out(fits ? n : n + 1); bool ok;
    Q bq = Rep<Q>(base);
    if (mode == 0) { if (!fits && Rn(2)) { out.resize(n); if (n) x.pop_back(); else { x.push_back(bq); } ok = Q::MultiScalarMul(k, x, &out); } else ok = Q::MultiScalarMul(k, x, &out); }
    else if (mode == 1) ok = Q::MultiScalarMul(k, bq, &out);
    else ok = Q::MultiScalarMul(one, x, &out);
    Ev e("Multi"); e.raw("x", PLs(x)).raw("ks", FLs(k)).b("fits", fits).b("ok", ok).raw("out", PLs(out));
  }
  void Step(bool heavy) {
    int a = Rn(5), b = Rn(6) == 0 ? a : Rn(5), d = Rn(5);
    switch (Rn(heavy ? 20 : 14)) {
      case 0: SetRep(d, RandPoint<C>()); break;
      case 1: { A p = Aff(a); SetRep(d, Rn(2) ? p : -p); break; }
      case 2: case 3: case 4:
        std::visit([&](auto x, auto y) {
          using Q = decltype(x); using R = decltype(y);
          if constexpr (std::is_same_v<R, A> && !std::is_same_v<Q, A>) { if (Rn(2)) { x += y; Out("Add", d, x, a, b); } else Out("Add", d, x + y, a, b); }
          else if constexpr (std::is_same_v<Q, R> && !std::is_same_v<Q, A>) { if (Rn(2)) { if (a == b) x += x; else x += y; Out("Add", d, x, a, b); } else Out("Add", d, x + y, a, b); }
          else if constexpr (std::is_same_v<Q, A>) Out("Add", d, x + y, a, b);
        }, r[a], r[b]); break;
      case 5: case 6:
        std::visit([&](auto x, auto y) {
          using Q = decltype(x); using R = decltype(y);
          if constexpr (!std::is_same_v<Q, A> && (std::is_same_v<R, A> || std::is_same_v<Q, R>)) { if (Rn(2)) { if constexpr (std::is_same_v<Q, R>) { if (a == b) x -= x; else x -= y; } else x -= y; Out("Sub", d, x, a, b); } else Out("Sub", d, x - y, a, b); }
          else if constexpr (std::is_same_v<Q, A>) Out("Sub", d, x - y, a, b);
        }, r[a], r[b]); break;
      case 7:
        std::visit([&](auto x) {
          using Q = decltype(x);
          if constexpr (std::is_same_v<Q, A>) { int k = Rn(3); if (k == 0) Out("Double", d, x.Double(), a); else if (k == 1) Out("Double", d, x.DoubleProjective(), a); else Out("Double", d, x.DoubleXYZZ(), a); }
          else { if (Rn(2)) { x.DoubleInPlace(); Out("Double", d, x, a); } else Out("Double", d, x.Double(), a); }
        }, r[a]); break;
      case 8: std::visit([&](auto x) { if (Rn(2)) { x.NegateInPlace(); Out("Neg", d, x, a); } else Out("Neg", d, -x, a); }, r[a]); break;
      case 9: case 10:
        std::visit([&](auto x) {
          using Q = decltype(x);
          switch (Rn(4)) {
            case 0: if constexpr (!std::is_same_v<Q, A>) { if (Rn(2)) Out("Conv", d, x.ToAffine(), a); else Out("Conv", d, ConvertPoint<A>(x), a); } break;
            case 1: if constexpr (!std::is_same_v<Q, P>) { if (Rn(2)) Out("Conv", d, x.ToProjective(), a); else Out("Conv", d, ConvertPoint<P>(x), a); } break;
            case 2: if constexpr (!std::is_same_v<Q, J>) { if (Rn(2)) Out("Conv", d, x.ToJacobian(), a); else Out("Conv", d, ConvertPoint<J>(x), a); } break;
            default: if constexpr (!std::is_same_v<Q, X>) { if (Rn(2)) Out("Conv", d, x.ToXYZZ(), a); else Out("Conv", d, ConvertPoint<X>(x), a); }
          }
        }, r[a]); break;
      case 11: case 12: {
        if (Rn(3)) { A q = Aff(b); if (Rn(3) == 0) q = -q; std::visit([&](auto x) { Out("Set", a, Rep<decltype(x)>(q)); }, r[a]); }
        std::visit([&](auto x, auto y) { if constexpr (std::is_same_v<decltype(x), decltype(y)>) { Ev e("Cmp"); e.i("a", a + 1).i("b", b + 1).b("eq", x == y).b("ne", x != y).b("az", x.IsZero()).b("bz", y.IsZero()); } }, r[a], r[b]);
        break;
      }
      case 13: {
        std::visit([&](auto x) {
          using Q = decltype(x);
          if (Rn(3) == 0) { // disturb a coordinate
            F u = NonZero<F>();
            if constexpr (std::is_same_v<Q, A>) x = Q(x.x() + u, x.y());
            else if constexpr (std::is_same_v<Q, X>) x = Q(x.x() + u, x.y(), x.zz(), x.zzz());
            else x = Q(x.x() + u, x.y(), x.z());
          }
          bool on = x.IsOnCurve();
          Ev e("OnCurve"); e.raw("x", PL(x)).b("on", on);
        }, r[a]); break;
      }
      case 14: case 15: case 16: {
        std::visit([&](auto x) {
          using Q = decltype(x);
          S k = RandS<S>();
          switch (Rn(6)) {
            case 0: Out("Mul", d, x * k, a, -1, FL(k)); break;
            case 1: Out("Mul", d, k * x, a, -1, FL(k)); break;
            case 2: { if constexpr (!std::is_same_v<Q, A>) { x *= k; Out("Mul", d, x, a, -1, FL(k)); } break; }
            case 3: { BigInt<4> e(0); for (int i = 0; i < 4; ++i) e[i] = Rn(3) ? R64() : (Rn(2) ? ~uint64_t{0} : 0); if (Rn(2)) e = BigInt<4>(Rn(9)); Out("Mul", d, x.ScalarMul(e), a, -1, L(e)); break; }
            case 4: { uint64_t e = R64() >> Rn(64); Out("Mul", d, x.ScalarMul(e), a, -1, Limbs(e)); break; }
            default: if constexpr (!std::is_same_v<Q, A>) { switch (Rn(12)) {
              case 0: Out("Mul", d, x.template ConstScalarMul<0>(), a, -1, "[]"); break;
              case 1: Out("Mul", d, x.template ConstScalarMul<3>(), a, -1, "[3]"); break;
              case 2: Out("Mul", d, x.template ConstScalarMul<5>(), a, -1, "[5]"); break;
              case 3: Out("Mul", d, x.template ConstScalarMul<6>(), a, -1, "[6]"); break;
              case 4: Out("Mul", d, x.template ConstScalarMul<7>(), a, -1, "[7]"); break;
              case 5: Out("Mul", d, x.template ConstScalarMul<8>(), a, -1, "[8]"); break;
              case 6: Out("Mul", d, x.template ConstScalarMul<4>(), a, -1, "[4]"); break;
              case 7: Out("Mul", d, x.template ConstScalarMul<9>(), a, -1, "[9]"); break;
              case 8: Out("Mul", d, x.template ConstScalarMul<12>(), a, -1, "[12]"); break;
              case 9: Out("Mul", d, x.template ConstScalarMul<100>(), a, -1, "[100]"); break;
              default: Out("Mul", d, x.template ConstScalarMul<2>(), a, -1, "[2]"); } }
          }
        }, r[a]); break;
      }
      case 17: switch (Rn(7)) { case 0: Batch<P>(); break; case 1: Batch<J>(); break; case 2: Batch<X>(); break; case 3: Batch2<A, X>(); break; case 4: Batch2<J, P>(); break; case 5: Batch2<X, J>(); break; default: Batch2<P, A>(); } break;
      case 18: if (Rn(3) == 0) {
          size_t n = 1 + Rn(4); A g = RandPoint<C>(); std::vector<S> k; for (size_t i = 0; i < n; ++i) k.push_back(RandS<S>());
          bool fits = Rn(4) != 0; std::vector<A> out(fits ? n : n + 1); bool ok = A::BatchMapScalarFieldToPoint(g, k, &out);
          Ev e("BatchMap"); e.raw("x", PL(g)).raw("ks", FLs(k)).b("fits", fits).b("ok", ok).raw("out", PLs(out));
        } else switch (Rn(4)) { case 0: Multi<A>(heavy); break; case 1: Multi<P>(heavy); break; case 2: Multi<J>(heavy); break; default: Multi<X>(heavy); } break;
      case 19: if (Rn(2)) { if constexpr (kPrime) {
          F x = RandE<F>(); bool odd = Rn(2); Ev e("FromX"); e.raw("x", EL(x)).b("odd", odd);
          auto o = [&](auto p) { e.b("ok", p.has_value()); if (p) e.raw("v", PL(*p)); else e.raw("v", "0"); };
          switch (Rn(4)) { case 0: o(A::CreateFromX(x, odd)); break; case 1: o(P::CreateFromX(x, odd)); break; case 2: o(J::CreateFromX(x, odd)); break; default: o(X::CreateFromX(x, odd)); }
        } } else if (Rn(2)) {
          size_t n = Rn(4); std::vector<J> x; for (size_t i = 0; i < n; ++i) x.push_back(Rep<J>(RandPoint<C>())); S k = RandS<S>();
          J f = J::template LinearCombination<true>(x, k), g = J::template LinearCombination<false>(x, k); J fi = J::Zero(), gi = J::Zero();
          if (n) { auto y = x; fi = J::template LinearCombinationInPlace<true>(y, k); y = x; gi = J::template LinearCombinationInPlace<false>(y, k); }
          Ev e("Lin"); e.raw("x", PLs(x)).raw("e", FL(k)).raw("fwd", PL(f)).raw("bwd", PL(g)).raw("fwdin", PL(fi)).raw("bwdin", PL(gi));
        } else { std::visit([&](auto x) { if constexpr (!std::is_same_v<decltype(x), A>) { size_t n = 1 + Rn(6); auto o = decltype(x)::GetSuccessiveScalarMuls(n, x); Ev e("Succ"); e.i("a", a + 1).i("n", n).raw("out", PLs(o)); } }, r[a]); }
        break;
    }
  }
  void Run(const char* name, int steps, int parts, bool prime, int every) {
    C::Init();
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k));
      T().Doing(name);
      EvCurve<C>(name, prime);
      for (auto& x : r) x = J::Zero();
      for (int i = 0; i < steps; ++i) Step(i % every == 0);
    }
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 20 : 1;
  M<vhf::S0Curve>().Run("s0", 900, 3 * k, true, 1);
  M<vhf::S1Curve>().Run("s1", 900, 3 * k, true, 1);
  M<vhf::S2Curve>().Run("s2", 900, 3 * k, false, 1);
  M<bn254::G1Curve>().Run("bn254_g1", 300, 3 * k, true, 4);
  M<bn254::G2Curve>().Run("bn254_g2", 200, 3 * k, true, 8);
  M<bls12_381::G1Curve>().Run("bls_g1", 250, 2 * k, true, 5);
  M<bls12_381::G2Curve>().Run("bls_g2", 150, 3 * k, true, 10);
  M<secp256k1::Curve>().Run("secp256k1", 300, 2 * k, true, 4);
  M<pallas::Curve>().Run("pallas", 300, 2 * k, true, 4);
  M<vesta::Curve>().Run("vesta", 300, 2 * k, true, 4);
}
