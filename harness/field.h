// Register machine over a prime field.
#include <sstream>
#include "absl/hash/hash.h"
#include "vh/fieldutil.h"
namespace vh {
template <typename F>
struct FieldMachine {
  static constexpr size_t N = F::BigIntTy::kLimbNums;
  using Big = tachyon::math::BigInt<N>;
  F r[6];
  F Fresh(const F& x) { return F::FromBigInt(x.ToBigInt()); }
  bool Same(const F& x) {
    F f = Fresh(x);
    return x == f && !(x != f) && x.ToString() == f.ToString() && x.ToHexString() == f.ToHexString() && absl::HashOf(x) == absl::HashOf(f) && x.IsZero() == f.IsZero() && x.IsOne() == f.IsOne();
  }
  void Out(const char* op, int d, const F& v, int a = -1, int b = -1, const std::string& extra = "") {
    r[d] = v;
    Ev e(op);
    e.i("d", d + 1).raw("v", FL(v)).b("same", Same(v));
    if (a >= 0) e.i("a", a + 1);
    if (b >= 0) e.i("b", b + 1);
    if (!extra.empty()) e.raw("e", extra);
  }
  template <uint32_t K> void CP(int d, int a) { F v = r[a].template ConstPow<K>(); Out("Pow", d, v, a, -1, Limbs(K)); }
  template <uint64_t K> void CS(int d, int a) { F v = r[a].template ConstScalarMul<K>(); Out("ScalarMul", d, v, a, -1, Limbs(K)); }
  std::vector<F> Vec(size_t n) { std::vector<F> v; for (size_t i = 0; i < n; ++i) v.push_back(Rn(5) == 0 ? r[Rn(6)] : Rn(8) == 0 ? F::Zero() : RandF<F>()); return v; }
  void Step() {
    int a = Rn(6), b = Rn(8) == 0 ? a : Rn(6), d = Rn(6);
    F& A = r[a]; F& B = r[b];
    switch (Rn(30)) {
      case 0: case 1: case 2: { F v = RandF<F>(); Out("Set", d, v); break; }
      case 3: { uint64_t n = Rn(7); auto m = Modulus<F>(); if (N == 1 && n >= m[0]) n = 0; F v = F(Big(n)); r[d] = v; Ev e("FromInt"); e.i("d", d + 1).raw("v", FL(v)).b("same", Same(v)).u64("n", n); break; }
      case 4: if constexpr (F::Config::kUseMontgomery) {
          Big m = Corner(Modulus<F>()); F v; size_t rb;
          if constexpr (F::Config::kModulusBits <= 32) { v = F::FromMontgomery((uint32_t)m[0]); rb = 32; } else { v = F::FromMontgomery(m); rb = 64 * N; }
          r[d] = v; Ev e("FromMont"); e.i("d", d + 1).raw("v", FL(v)).b("same", Same(v)).raw("m", L(m)).i("rbits", rb);
        } break;
      case 5: case 6: { F v; if (Rn(2)) v = A + B; else { v = A; if (a == b && Rn(2)) { v += v; } else v += B; } Out("Add", d, v, a, b); break; }
      case 7: case 8: { F v; if (Rn(2)) v = A - B; else { v = A; if (a == b && Rn(2)) { v -= v; } else v -= B; } Out("Sub", d, v, a, b); break; }
      case 9: case 10: case 11: { F v; if (Rn(2)) v = A * B; else { v = A; if (a == b && Rn(2)) { v *= v; } else v *= B; } Out("Mul", d, v, a, b); break; }
      case 12: { F v; if (Rn(2)) v = A.Square(); else { v = A; v.SquareInPlace(); } Out("Square", d, v, a); break; }
      case 13: { F v; if (Rn(2)) v = A.Double(); else { v = A; v.DoubleInPlace(); } Out("Double", d, v, a); break; }
      case 14: { F v; if (Rn(2)) v = -A; else { v = A; v.NegateInPlace(); } Out("Neg", d, v, a); break; }
      case 15: case 16: { std::optional<F> v; if (Rn(2)) v = A.Inverse(); else { F x = A; auto q = x.InverseInPlace(); if (q) { v = x; if (*q != &x) v = std::nullopt; } }
        if (v) Out("Inv", d, *v, a); else { Ev e("Inv"); e.i("a", a + 1).i("d", d + 1).s("v", "none"); } break; }
      case 17: { std::optional<F> v; if (Rn(2)) v = A / B; else { F x = A; auto q = (x /= B); if (q) v = x; }
        if (v) Out("Div", d, *v, a, b); else { Ev e("Div"); e.i("a", a + 1).i("b", b + 1).i("d", d + 1).s("v", "none"); } break; }
      case 18: { switch (Rn(4)) {
          case 0: { uint64_t e = Rn(2) ? Rn(9) : R64(); Out("Pow", d, A.Pow(e), a, -1, Limbs(e)); break; }
          case 1: { Big e = Corner(Big(0)); Out("Pow", d, A.Pow(e), a, -1, L(e)); break; }
          case 2: Out("Pow", d, A.Pow(B), a, -1, FL(B)); break;
          case 3: { uint32_t k = Rn(10); F v = A.ExpPowOfTwo(k); Out("Pow", d, v, a, -1, Limbs(uint64_t{1} << k)); break; } } break; }
      case 19: { switch (Rn(10)) { case 0: CP<0>(d, a); break; case 1: CP<1>(d, a); break; case 2: CP<2>(d, a); break; case 3: CP<3>(d, a); break; case 4: CP<4>(d, a); break; case 5: CP<5>(d, a); break; case 6: CP<6>(d, a); break; case 7: CP<7>(d, a); break; case 8: CP<8>(d, a); break; default: CP<11>(d, a); } break; }
      case 20: { switch (Rn(13)) { case 0: CS<0>(d, a); break; case 1: CS<1>(d, a); break; case 2: CS<2>(d, a); break; case 3: CS<3>(d, a); break; case 4: CS<4>(d, a); break; case 5: CS<5>(d, a); break; case 6: CS<6>(d, a); break; case 7: CS<7>(d, a); break; case 8: CS<8>(d, a); break;
          case 9: CS<13>(d, a); break; case 10: { uint64_t e = R64(); Out("ScalarMul", d, A.ScalarMul(e), a, -1, Limbs(e)); break; }
          case 11: { Big e = Corner(Big(0)); Out("ScalarMul", d, A.ScalarMul(e), a, -1, L(e)); break; }
          default: Out("ScalarMul", d, A.ScalarMul(B), a, -1, FL(B)); } break; }
      case 21: { uint32_t k = Rn(10); std::vector<F> tab; F x = A; for (int i = 0; i < 64 * (int)N; ++i) { tab.push_back(x); x.SquareInPlace(); } Big e = Corner(Big(0)); if (k) { F v = F::PowWithTable(absl::MakeConstSpan(tab), e); Out("Pow", d, v, a, -1, L(e)); } else { F v = A; v.FrobeniusMapInPlace(k); Out("Frob", d, v, a); } break; }
      case 22: case 23: { // comparisons, sometimes of equal values reached on different ways
        if (Rn(2)) { F x = B; F y = RandF<F>(); x += y; x -= y; Out("Set", a, x); }
        F& X = r[a];
        Ev e("Cmp"); std::stringstream s1, s2; s1 << X; s2 << B;
        e.i("a", a + 1).i("b", b + 1).b("eq", X == B).b("ne", X != B).b("lt", X < B).b("gt", X > B).b("le", X <= B).b("ge", X >= B).b("hasheq", absl::HashOf(X) == absl::HashOf(B)).b("streq", X.ToString() == B.ToString() && s1.str() == s2.str() && X.ToHexString(true) == B.ToHexString(true)).b("z", X.IsZero()).b("o", X.IsOne()).b("m", X.IsMinusOne()); break; }
      case 24: { auto bd = F::FromDecString(A.ToString()), bh = F::FromHexString(A.ToHexString(Rn(2)));
        size_t w = N * 16; if constexpr (F::Config::kModulusBits <= 32) w = 8;
        Ev e("Text"); e.i("a", a + 1).raw("dec", Bytes(A.ToString())).raw("hex", Bytes(A.ToHexString())).raw("hexpad", Bytes(A.ToHexString(true))).i("width", w).raw("backdec", bd ? FL(*bd) : "\"none\"").raw("backhex", bh ? FL(*bh) : "\"none\""); break; }
      case 25: { // parse a number near the modulus
        Big n = Modulus<F>(); uint64_t k = Rn(4); if (Rn(2)) { uint64_t c = 0; Big x = n.Add(Big(k), c); if (c) x = n; n = x; } else if (N > 1 || n[0] > k) n.SubInPlace(Big(k)); if (Rn(4) == 0) { n = Corner(Big(0)); }
        bool hex = Rn(2); std::string s = hex ? n.ToHexString() : n.ToString(); auto v = hex ? F::FromHexString(s) : F::FromDecString(s);
        Ev e("Parse"); e.raw("n", L(n)).b("hexa", hex).raw("v", v ? FL(*v) : "\"none\""); break; }
      case 26: { size_t n = Rn(9); auto x = Vec(n); F c = Rn(2) ? F::One() : RandF<F>(); std::vector<F> out; bool ok, fits = true; 
        switch (Rn(5)) { case 0: out = x; ok = F::BatchInverseInPlace(out, c); break; case 1: out = x; ok = F::BatchInverseInPlaceSerial(out, c); break; case 2: out.resize(n); ok = F::BatchInverse(x, &out, c); break; case 3: out.resize(n); ok = F::BatchInverseSerial(x, &out, c); break; default: out.resize(n + 1); fits = false; ok = Rn(2) ? F::BatchInverse(x, &out, c) : F::BatchInverseSerial(x, &out, c); }
        Ev e("BatchInv"); e.raw("x", FLs(x)).raw("c", FL(c)).b("fits", fits).b("ok", ok).raw("out", FLs(out)); break; }
      case 27: { size_t n = Rn(7); auto x = Vec(n), y = Vec(n); F v = F::SumOfProducts(x, y), vs = F::SumOfProductsSerial(x, y); { Ev e("Dot"); e.raw("x", FLs(x)).raw("y", FLs(y)).raw("v", FL(v)).raw("vs", FL(vs)); }
        if (n) { F c = RandF<F>(); auto x1 = x, x2 = x; F f = F::template LinearCombination<true>(x, c), g = F::template LinearCombination<false>(x, c); F f1 = F::template LinearCombinationInPlace<true>(x1, c), g1 = F::template LinearCombinationInPlace<false>(x2, c);
          Ev e("Lin"); e.raw("x", FLs(x)).raw("c", FL(c)).raw("fwd", FL(f)).raw("bwd", FL(g)).raw("fwdin", FL(f1)).raw("bwdin", FL(g1)); } break; }
      case 28: { size_t k = Rn(4), n = size_t{1} << k; bool p2 = Rn(2); if (!p2) n = 1 + Rn(9); F c = Rn(2) ? F::One() : RandF<F>(); auto pw = F::GetSuccessivePowers(n, A, c); auto mul = F::GetSuccessiveScalarMuls(n, A); std::vector<F> rv, rs; if (p2) { rv = F::GetBitRevIndexSuccessivePowers(n, A, c); rs = F::GetBitRevIndexSuccessivePowersSerial(n, A, c); }
        Ev e("Powers"); e.i("a", a + 1).i("n", n).i("k", p2 ? (int)k : -1).raw("c", FL(c)).raw("pw", FLs(pw)).raw("rev", FLs(rv)).raw("revs", FLs(rs)).raw("mul", FLs(mul)); break; }
      case 29: { size_t n = Rn(5); auto x = Vec(n), y = Vec(n); std::vector<F> o1(n), o2(n), o3(n), o4(n + 1); bool ok = F::MultiScalarMul(x, y, &o1); bool k2 = F::MultiScalarMul(x, A, &o2), k3 = F::MultiScalarMul(A, x, &o3); if (k2 != ok || k3 != ok) ok = !ok; bool bad = F::MultiScalarMul(x, y, &o4) || F::MultiScalarMul(x, A, &o4) || F::MultiScalarMul(A, x, &o4); auto z = y; z.push_back(A); bad = bad || F::MultiScalarMul(x, z, &o1);
        auto v = F::Random(); 
        { Ev e("Multi"); e.i("a", a + 1).raw("x", FLs(x)).raw("y", FLs(y)).raw("msmb", FLs(o1)).raw("mssb", FLs(o2)).raw("ssmb", FLs(o3)).b("ok", ok).b("badlen", bad); }
        Out("Random", d, v); 
        if constexpr (F::Config::kModulusBits > 32) { mpz_class m = A.ToMpzClass(); F back = F::FromMpzClass(m); std::vector<uint64_t> lm(N + 1, 0); for (size_t i = 0; i < N && i < mpz_size(m.get_mpz_t()); ++i) lm[i] = mpz_getlimbn(m.get_mpz_t(), i); Ev e("Mpz"); e.i("a", a + 1).raw("v", Limbs(lm.data(), N)).raw("back", FL(back)); }
        break; }
    }
  }
  void Run(const char* name, int steps) {
    T().Shard(name);
    F::Init();
    T().Doing(name);
    { Ev e("Field"); e.s("name", name).raw("p", L(Modulus<F>())).raw("zero", FL(F::Zero())).raw("one", FL(F::One())).raw("minusone", FL(F::MinusOne())).raw("twoinv", FL(F::TwoInv())); }
    for (auto& x : r) x = F::Zero();
    for (int i = 0; i < steps; ++i) Step();
  }
};
}  // namespace vh
