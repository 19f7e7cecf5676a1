// Range checks, casts, checked and clamped numerics over all integer types.
#include <cmath>
#include <limits>

#include "vh/numutil.h"
#include "tachyon/base/numerics/checked_math.h"
#include "tachyon/base/numerics/clamped_math.h"
#include "tachyon/base/numerics/safe_conversions.h"
using namespace vh;
namespace B = tachyon::base;

template <typename C> std::string CV(const char* op, C c) {
  using I = typename B::internal::UnderlyingType<C>::type;
  I v = 0;
  bool ok = c.IsValid();
  if (ok) v = c.template ValueOrDie<I>();
  return std::string("[\"") + op + "\",\"" + Name<I>() + "\"," + (ok ? "true" : "false") + "," + ZS(v) + "]";
}
template <typename C> std::string KV(const char* op, C c) {
  return std::string("[\"") + op + "\",\"" + Name<typename C::type>() + "\"," + ZS(c.RawValue()) + "]";
}
template <typename A, typename Bt> __attribute__((noinline)) void DoPair(A x, Bt y) {
  T().Doing(std::string("Pair ") + Name<A>() + " " + Name<Bt>() + " " + ZS(x) + " " + ZS(y));
  B::CheckedNumeric<A> cx(x);
  B::ClampedNumeric<A> kx(x);
  std::string chk = "[" + CV("add", cx + y) + "," + CV("sub", cx - y) + "," + CV("mul", cx * y) + "," + CV("div", cx / y) + "," + CV("mod", cx % y) + "," + CV("lsh", cx << y) + "," + CV("rsh", cx >> y) + "," +
      CV("and", cx & y) + "," + CV("or", cx | y) + "," + CV("xor", cx ^ y) + "," + CV("max", cx.Max(y)) + "," + CV("min", cx.Min(y)) + "," + CV("add", B::CheckAdd(x, y)) + "," + CV("sub", x - B::CheckedNumeric<Bt>(y)) + "," + CV("mul", B::CheckMul(x, y)) + "]";
  std::string clp = "[" + KV("add", kx + y) + "," + KV("sub", kx - y) + "," + KV("mul", kx * y) + "," + KV("div", kx / y) + "," + KV("mod", kx % y) + "," + KV("and", kx & y) + "," + KV("or", kx | y) + "," + KV("xor", kx ^ y) + "," +
      KV("max", kx.Max(y)) + "," + KV("min", kx.Min(y));
  if constexpr (!std::is_signed_v<Bt>) { clp += "," + KV("lsh", kx << y) + "," + KV("rsh", kx >> y); }
  clp += "]";
  auto sx = B::MakeStrictNum(x);
  auto bl = [](bool b) { return std::string(b ? "true" : "false"); };
  Ev("Pair").s("lt", Name<A>()).s("rt", Name<Bt>()).raw("x", ZS(x)).raw("y", ZS(y)).raw("chk", chk).raw("clp", clp)
      .raw("cmp", "[" + bl(sx < y) + "," + bl(sx <= y) + "," + bl(sx > y) + "," + bl(sx >= y) + "," + bl(sx == y) + "," + bl(sx != y) + "]")
      .raw("ccmp", "[" + bl(kx < y) + "," + bl(kx <= y) + "," + bl(kx > y) + "," + bl(kx >= y) + "," + bl(kx == y) + "," + bl(kx != y) + "]");
}
template <typename C> std::string OV(C c) {
  using I = typename B::internal::UnderlyingType<C>::type;
  I v = 0;
  bool ok = c.AssignIfValid(&v);
  return std::string("[") + (ok ? "true" : "false") + "," + ZS(v) + "]";
}
template <typename A> __attribute__((noinline)) void DoUn(A x) {
  T().Doing(std::string("Un ") + Name<A>() + " " + ZS(x));
  B::CheckedNumeric<A> c(x), i(x), d(x);
  B::ClampedNumeric<A> k(x), ki(x), kd(x);
  auto o1 = i++; auto& o2 = ++kd; --kd; (void)o2; --d; ++ki; kd = B::ClampedNumeric<A>(x); kd--;
  bool post = o1.IsValid() && (A)o1.ValueOrDie() == x;
  Ev e("Un");
  e.s("t", Name<A>()).raw("x", ZS(x)).raw("neg", OV(-c)).raw("abs", OV(c.Abs())).raw("uabs", OV(c.UnsignedAbs())).raw("sabs", ZS(B::SafeUnsignedAbs(x)))
      .raw("cneg", ZS((-k).RawValue())).raw("cabs", ZS(k.Abs().RawValue())).raw("cuabs", ZS(k.UnsignedAbs().RawValue()))
      .raw("inv", OV(~c)).raw("cinv", ZS((~k).RawValue())).b("isneg", B::IsValueNegative(x)).raw("asu", ZS(B::as_unsigned(x))).raw("ass", ZS(B::as_signed(x)))
      .raw("inc", post ? OV(i) : "[false,[0,99]]").raw("dec", OV(d)).raw("cinc", ZS(ki.RawValue())).raw("cdec", ZS(kd.RawValue()));
}
template <typename S, typename D> __attribute__((noinline)) void DoCast(S x) {
  T().Doing(std::string("Cast ") + Name<S>() + "->" + Name<D>() + " " + ZS(x));
  B::CheckedNumeric<S> cs(x);
  B::CheckedNumeric<D> cd(x), cd2(cs), cd3 = cs.template Cast<D>();
  D v = 0;
  bool as = cs.template AssignIfValid<D>(&v);
  bool in = B::IsValueInRangeForNumericType<D>(x);
  bool ok = cd.IsValid() && cd2.IsValid() && cd3.IsValid() && cs.template IsValid<D>();
  if (!ok && (cd.IsValid() || cd2.IsValid() || cd3.IsValid() || cs.template IsValid<D>())) ok = !in;
  D v2 = ok ? (D)cd.ValueOrDie() : (D)0;
  if (as && v2 != v) v2 = v2 + 1;
  B::ClampedNumeric<S> k(x);
  B::ClampedNumeric<D> kd(k);
  Ev("Cast").s("st", Name<S>()).s("dt", Name<D>()).raw("x", ZS(x)).b("in", in).b("ok", ok).b("assign", as).raw("v", ZS(v2)).raw("cast", ZS(in ? B::checked_cast<D>(x) : (D)0))
      .raw("dflt", ZS((D)cs.template ValueOrDefault<D>(7))).raw("sat", ZS(B::saturated_cast<D>(x))).raw("csat", ZS(kd.RawValue() == (D)k ? kd.RawValue() : (D)(kd.RawValue() + 1)));
}
template <typename F, typename D> __attribute__((noinline)) void DoCastF(F x) {
  T().Doing(std::string("CastF ->") + Name<D>() + " " + std::to_string((double)x));
  int e = 0;
  std::string kind = "num", m = "[0]";
  if (std::isnan(x)) kind = "nan";
  else if (std::isinf(x)) { kind = "inf"; m = x < 0 ? "[1,1]" : "[0,1]"; }
  else { F fr = std::frexp(x, &e); int64_t mi = (int64_t)std::ldexp((double)fr, 54); e -= 54; while (mi && mi % 2 == 0) { mi /= 2; ++e; } if (!mi) e = 0; m = ZS(mi); }
  bool in = B::IsValueInRangeForNumericType<D>(x);
  B::CheckedNumeric<D> c(x);
  Ev("CastF").s("dt", Name<D>()).s("kind", kind).raw("m", m).i("e", e).b("in", in).b("ok", c.IsValid()).raw("v", ZS(c.IsValid() ? (D)c.ValueOrDie() : (D)0)).raw("sat", ZS(B::saturated_cast<D>(x)))
      .raw("fl", ZS(B::ClampFloor<D>(x))).raw("ce", ZS(B::ClampCeil<D>(x))).raw("ro", ZS(B::ClampRound<D>(x)));
}
template <typename F> F FVal() {
  switch (Rn(8)) {
    case 0: return (F)Rn(3) - 1 + (F)(Rn(8)) / 4;
    case 1: return std::numeric_limits<F>::quiet_NaN();
    case 2: return Rn(2) ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity();
    case 3: case 4: { F b = std::ldexp((F)1, 5 + Rn(62)); F v = b + (F)((int)Rn(9) - 4) / 4; if (Rn(3) == 0) v = std::nextafter(b, (F)0); if (std::fabs(v) > std::ldexp((F)1, std::numeric_limits<F>::digits - 4)) v = Rn(2) ? b : std::nextafter(b, (F)(Rn(2) ? 0 : 1e30)); else v = std::round(v * 4) / 4; return Rn(2) ? v : -v; }
    case 5: return (F)((int64_t)Rn(1 << 20) - (1 << 19)) / 8;
    case 6: return (F)((int)Rn(2000) - 1000) / 4;
    default: return std::ldexp((F)((int)Rn(4000) - 2000), (int)Rn(70));
  }
}
template <typename F> F FSafe() {  // exact under +-0.5
  for (;;) { F v = FVal<F>(); if (std::isnan(v) || std::isinf(v)) return v; F a = std::fabs(v); if (a + (F)0.5 - (F)0.5 == a && (a + (F)0.5) - a == (F)0.5) return v; if (a >= std::ldexp((F)1, std::numeric_limits<F>::digits)) return v; }
}
template <typename A, typename U> __attribute__((noinline)) void ChainOp(B::CheckedNumeric<A>& c, B::ClampedNumeric<A>& k) {
  U y = Val<U>();
  if (Rn(3)) y = (U)Rn(5);
  bool yok = Rn(12) != 0;
  B::CheckedNumeric<U> cy(y);
  if (!yok) { cy = B::CheckedNumeric<U>(std::numeric_limits<U>::max()); cy += 1; }
  constexpr bool cl = B::IsTypeInRangeForNumericType<A, U>::value;
  bool clamped = false;
  static const char* ops[] = {"add", "sub", "mul", "div", "mod", "lsh", "rsh", "and", "or", "xor"};
  int o = Rn(10);
  if (o >= 7 && std::is_signed_v<A>) o -= 7;
  if (!yok) {
    switch (o) { case 0: c += cy; break; case 1: c -= cy; break; case 2: c *= cy; break; case 3: c /= cy; break; case 4: c %= cy; break; case 5: c <<= cy; break; case 6: c >>= cy; break; case 7: c &= cy; break; case 8: c |= cy; break; default: c ^= cy; }
  } else {
    switch (o) { case 0: c += y; break; case 1: c -= y; break; case 2: c *= y; break; case 3: c /= y; break; case 4: c %= y; break; case 5: c <<= y; break; case 6: c >>= y; break; case 7: c &= y; break; case 8: c |= y; break; default: c ^= y; }
    if constexpr (cl) {
      clamped = true;
      switch (o) { case 0: k += y; break; case 1: k -= y; break; case 2: k *= y; break; case 3: k /= y; break; case 4: k %= y; break;
        case 5: if constexpr (!std::is_signed_v<U>) k <<= y; else clamped = false; break; case 6: if constexpr (!std::is_signed_v<U>) k >>= y; else clamped = false; break;
        case 7: if constexpr (!std::is_signed_v<A>) k &= y; break; case 8: if constexpr (!std::is_signed_v<A>) k |= y; break; default: if constexpr (!std::is_signed_v<A>) k ^= y; }
    }
  }
  A v = 0;
  bool ok = c.AssignIfValid(&v);
  Ev("Op").s("o", ops[o]).s("rt", Name<U>()).raw("y", ZS(y)).b("yok", yok).b("valid", ok).raw("v", ZS(v)).b("clamped", clamped).raw("w", ZS(k.RawValue()));
}
template <typename A> void Chain(int n) {
  B::CheckedNumeric<A> c(0);
  B::ClampedNumeric<A> k(0);
  for (int i = 0; i < n; ++i) {
    if (i % 12 == 0) { A x = Val<A>(); c = B::CheckedNumeric<A>(x); k = x; Ev("Set").s("t", Name<A>()).raw("x", ZS(x)); }
    switch (Rn(8)) { case 0: ChainOp<A, int8_t>(c, k); break; case 1: ChainOp<A, uint8_t>(c, k); break; case 2: ChainOp<A, int16_t>(c, k); break; case 3: ChainOp<A, uint16_t>(c, k); break;
      case 4: ChainOp<A, int32_t>(c, k); break; case 5: ChainOp<A, uint32_t>(c, k); break; case 6: ChainOp<A, int64_t>(c, k); break; default: ChainOp<A, uint64_t>(c, k); }
  }
}
template <typename A, typename Bt> void Both(int n) {
  for (int i = 0; i < n; ++i) { A x = Val<A>(); Bt y = Rn(3) ? Val<Bt>() : (Bt)Rn(70); DoPair<A, Bt>(x, y); DoCast<A, Bt>(Val<A>()); }
}
template <typename A> void All(int n) {
  T().Shard(std::string("pairs ") + Name<A>());
  Both<A, int8_t>(n); Both<A, uint8_t>(n); Both<A, int16_t>(n); Both<A, uint16_t>(n); Both<A, int32_t>(n); Both<A, uint32_t>(n); Both<A, int64_t>(n); Both<A, uint64_t>(n);
  T().Shard(std::string("unary ") + Name<A>());
  for (int i = 0; i < 3 * n; ++i) { DoUn<A>(Val<A>()); DoCastF<double, A>(FSafe<double>()); DoCastF<float, A>(FSafe<float>()); }
  T().Shard(std::string("chain ") + Name<A>());
  Chain<A>(12 * n);
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int n = T().thorough() ? 400 : 45;
  All<int8_t>(n); All<uint8_t>(n); All<int16_t>(n); All<uint16_t>(n); All<int32_t>(n); All<uint32_t>(n); All<int64_t>(n); All<uint64_t>(n);
  T().Shard("variadic");
  for (int i = 0; i < 10 * n; ++i) {
    int64_t a = Val<int64_t>(), b = Val<int64_t>(), d = Rn(2) ? Val<int64_t>() : (int64_t)Rn(9) - 4;
    static const char* ops[] = {"add", "sub", "mul", "div", "mod", "max", "min"};
    int o = Rn(7);
    auto ev = [&](auto c, auto k) { int64_t v = 0; bool ok = c.AssignIfValid(&v); Ev("Variadic").s("o", ops[o]).raw("a", ZS(a)).raw("b", ZS(b)).raw("d", ZS(d)).b("valid", ok).raw("v", ZS(v)).raw("w", ZS(k.RawValue())); };
    switch (o) { case 0: ev(B::CheckAdd(a, b, d), B::ClampAdd(a, b, d)); break; case 1: ev(B::CheckSub(a, b, d), B::ClampSub(a, b, d)); break; case 2: ev(B::CheckMul(a, b, d), B::ClampMul(a, b, d)); break;
      case 3: ev(B::CheckDiv(a, b, d), B::ClampDiv(a, b, d)); break; case 4: ev(B::CheckMod(a, b, d), B::ClampMod(a, b, d)); break; case 5: ev(B::CheckMax(a, b, d), B::ClampMax(a, b, d)); break; default: ev(B::CheckMin(a, b, d), B::ClampMin(a, b, d)); }
  }
}
