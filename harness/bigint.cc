// Fixed-width integers against integer arithmetic.
#include "vh/fieldutil.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/byinverter.h"
#include "tachyon/math/base/egcd.h"
#include "tachyon/math/base/gmp/gmp_util.h"
#include "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h"
#include "tachyon/math/elliptic_curves/msm/msm_ctx.h"
using namespace vh;
using namespace tachyon::math;
static std::string Digits(const std::string& s) {
  return Seq(s, [](char c) { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return std::to_string(v); });
}
static BigInt<6> g_last(0);
template <size_t N> BigInt<N> RV() { return Corner(BigInt<N>(0)); }
template <size_t N>
void Step() {
  using B = BigInt<N>;
  const int W = 64 * N;
  B a = RV<N>(), b = Rn(10) == 0 ? a : RV<N>();
  if (Rn(12) == 0) { b = a; uint64_t c = 0; if (Rn(2)) b.AddInPlace(B(1), c); else b.SubInPlace(B(1), c); }
  switch (Rn(27)) {
    case 0: { uint64_t c = 0, c2 = 0; B r = a.Add(b, c); B x = a; x.AddInPlace(b, c2); B y = a; y += b; Ev e("Add"); e.i("w", W).raw("a", L(a)).raw("b", L(b)).raw("r", L(r)).u64("c", c).b("same", x == r && c2 == c && y == r && (a + b) == r); break; }
    case 1: { uint64_t c = 0, c2 = 0; B r = a.Sub(b, c); B x = a; x.SubInPlace(b, c2); B y = a; y -= b; Ev e("Sub"); e.i("w", W).raw("a", L(a)).raw("b", L(b)).raw("r", L(r)).u64("c", c).b("same", x == r && c2 == c && y == r && (a - b) == r); break; }
    case 2: case 3: { auto r = a.Multiply(b); BigInt<2 * N> x = a.MulExtend(b); B y = a; y *= b; B z = a * b; bool same = y == r.lo && z == r.lo && a.Mul(b) == r.lo; for (size_t i = 0; i < N; ++i) same = same && x[i] == r.lo[i] && x[N + i] == r.hi[i]; Ev e("Mul"); e.i("w", W).raw("a", L(a)).raw("b", L(b)).raw("lo", L(r.lo)).raw("hi", L(r.hi)).b("same", same); break; }
    case 4: { uint64_t c = 0, c2 = 0; B r = a.MulBy2(c); B x = a; x.MulBy2InPlace(c2); Ev e("MulBy2"); e.i("w", W).raw("a", L(a)).raw("r", L(r)).u64("c", c).b("same", x == r && c2 == c); break; }
    case 5: case 6: { uint32_t n = Rn(3) == 0 ? 64 * Rn(N + 2) : Rn(4) ? Rn(W + 3) : Rn(1000); B x = a; x.MulBy2ExpInPlace(n); B y = a; y <<= n; Ev e("Shl"); e.i("w", W).raw("a", L(a)).i("n", n).raw("r", L(x)).b("same", y == x && (a << n) == x); break; }
    case 7: case 8: { uint32_t n = Rn(3) == 0 ? 64 * Rn(N + 2) : Rn(4) ? Rn(W + 3) : Rn(1000); B x = a; x.DivBy2ExpInPlace(n); B y = a; y >>= n; B h = a; h.DivBy2InPlace(); Ev e("Shr"); e.i("w", W).raw("a", L(a)).i("n", n).raw("r", L(x)).raw("h", L(h)).b("same", y == x && (a >> n) == x); break; }
    case 9: case 10: case 11: { if (Rn(3) == 0) { b >>= Rn(W); } auto q = a / b; if (!q) { Ev e("DivZero"); e.raw("a", L(a)).raw("b", L(b)); break; } DivResult<B> d; bool ok = a.Divide(b, d); B m = a % b; B x = a; auto y = (x /= b); B z = a; z %= b; Ev e("Div"); e.i("w", W).raw("a", L(a)).raw("b", L(b)).raw("q", L(*q)).raw("r", L(m)).b("same", ok && d.quotient == *q && d.remainder == m && y && x == *q && z == m && *a.Div(b) == *q && a.Mod(b) == m); break; }
    case 12: { Ev e("Cmp"); e.raw("a", L(a)).raw("b", L(b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("gt", a > b).b("le", a <= b).b("ge", a >= b).b("z", a.IsZero()).b("o", a.IsOne()).b("even", a.IsEven()).b("odd", a.IsOdd()); break; }
    case 13: { B x = a, y = a, z = a; x &= b; y |= b; z ^= b; Ev e("Bits"); e.raw("a", L(a)).raw("b", L(b)).raw("and", L(a & b)).raw("or", L(a | b)).raw("xor", L(a ^ b)).b("same", x == (a & b) && y == (a | b) && z == (a ^ b)); break; }
    case 14: case 15: { size_t off = Rn(4) == 0 ? 64 * Rn(N) + Rn(2) : Rn(W), cnt = 1 + Rn(64), c32 = 1 + Rn(32); if (off + cnt > size_t(W) && Rn(2)) cnt = W - off; if (off + c32 > size_t(W)) c32 = W - off > 32 ? 32 : W - off; Ev e("Extract"); e.raw("a", L(a)).i("off", off).i("n", cnt).u64("v", a.ExtractBits64(off, cnt)).i("n32", c32).u64("v32", a.ExtractBits32(off, c32)); break; }
    case 16: { std::string d = a.ToString(), h = a.ToHexString(), hp = a.ToHexString(true); auto fd = B::FromDecString(d), fh = B::FromHexString(h), fhp = B::FromHexString(hp); Ev e("Str"); e.raw("a", L(a)).i("w", W).raw("dec", Digits(d)).raw("hex", Digits(h.substr(2))).raw("hexp", Digits(hp.substr(2))).b("same", fd && *fd == a && fh && *fh == a && fhp && *fhp == a && h.substr(0, 2) == "0x" && hp.substr(0, 2) == "0x"); break; }
    case 17: { // too long
      std::string d = "1" + std::string(W / 4, '0'); if (Rn(2)) d = "f" + d; std::string dd = L(a); auto r = B::FromHexString(d); bool ok2 = true; { BigInt<N + 1> t(0); t[N] = 1 + Rn(5); ok2 = !B::FromDecString(t.ToString()); } Ev e("TooLong"); e.b("rej", !r && ok2); break; }
    case 18: { auto le = a.ToBytesLE(); auto be = a.ToBytesBE(); B x = B::FromBytesLE(le), y = B::FromBytesBE(be); size_t n = 1 + Rn(8 * N); std::vector<uint8_t> pl(le.begin(), le.begin() + n), pb(be.begin() + (8 * N - n), be.end()); Ev e("Bytes"); e.raw("a", L(a)).ints("le", le).ints("be", be).i("n", n).raw("pl", L(B::FromBytesLE(pl))).raw("pb", L(B::FromBytesBE(pb))).b("same", x == a && y == a); break; }
    case 19: { auto le = a.ToBitsLE(); auto be = a.ToBitsBE(); auto p = a.template ToBitsLE<37>(); std::vector<int> v, w; for (size_t i = 0; i < le.size(); ++i) { v.push_back(le[i]); w.push_back(be[i]); } Ev e("BitSet"); e.raw("a", L(a)).ints("le", v).ints("be", w).raw("p", L(B::FromBitsLE(p))).b("same", B::FromBitsLE(le) == a && B::FromBitsBE(be) == a); break; }
    case 20: { std::vector<int> be, bs, le, lt; for (auto i = BitIteratorBE<B>::begin(&a); i != BitIteratorBE<B>::end(&a); ++i) be.push_back(*i); for (auto i = BitIteratorBE<B>::begin(&a, true); i != BitIteratorBE<B>::end(&a); ++i) bs.push_back(*i); for (auto i = BitIteratorLE<B>::begin(&a); i != BitIteratorLE<B>::end(&a); ++i) le.push_back(*i); if (!a.IsZero()) for (auto i = BitIteratorLE<B>::begin(&a); i != BitIteratorLE<B>::end(&a, true); ++i) lt.push_back(*i); Ev e("Iter"); e.i("w", W).raw("a", L(a)).ints("be", be).ints("bs", bs).ints("le", le).ints("lt", lt); break; }
    case 21: { Ev e("Naf"); e.raw("a", L(a)).ints("d", a.ToNAF()); break; }
    case 22: { unsigned wb = 1 + Rn(14); unsigned bits = W; if (Rn(2)) { bits = 1 + Rn(W); B t = a; a >>= (W - bits); } std::vector<int64_t> d((bits + wb - 1) / wb); FillDigits(a, wb, &d); Ev e("Window"); e.raw("a", L(a)).i("wb", wb).ints("d", d); break; }
    case 23: { B m = a; if (m.IsZero()) m = B(1); B r = B::Random(m); Ev e("Random"); e.raw("m", L(m)).raw("r", L(r)); break; }
    case 24: { // inversion modulo an odd number
      B m = a; m[0] |= 1; if (m.IsOne() || m.IsZero()) m = B(1000003); B x = Rn(2) ? b % m : B(1 + Rn(50)) % m; B adj = Rn(2) ? B(1) : RV<N>() % m;
      if constexpr (N >= 2) { BYInverter<N> inv(m, adj); B o(0); bool ok = inv.Invert(x, o); Ev e("ByInv"); e.raw("m", L(m)).raw("x", L(x)).raw("adj", L(adj)).b("ok", ok).raw("o", L(o)); }
      break; }
    case 25: { mpz_class z; gmp::WriteLimbs(a.limbs, N, &z); B o(0); gmp::CopyLimbs(z, o.limbs); size_t k = Rn(W); bool tb = gmp::TestBit(z, k); mpz_class s = z, c = z; gmp::SetBit(s, k); gmp::ClearBit(c, k); B so(0), co(0); gmp::CopyLimbs(s, so.limbs); gmp::CopyLimbs(c, co.limbs); Ev e("Gmp"); e.raw("a", L(a)).raw("o", L(o)).i("nb", gmp::GetNumBits(z)).i("k", k).b("tb", tb).raw("s", L(so)).raw("c", L(co)).b("z", gmp::IsZero(z)); break; }
    case 26: { auto x = a.template Extend<N + 1>(); auto y = x.template Shrink<N>(); B s = a; size_t k = Rn(W + 4); bool t = BitTraits<B>::TestBit(a, k); BitTraits<B>::SetBit(s, k, true); B c = a; BitTraits<B>::SetBit(c, k, false); Ev e("Ext"); e.i("w", W).raw("a", L(a)).raw("x", L(x)).raw("y", L(y)).i("k", k).b("t", t).raw("s", L(s)).raw("c", L(c)); break; }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int n = T().thorough() ? 20000 : 2500;
  T().Shard("n1"); for (int i = 0; i < n; ++i) Step<1>();
  T().Shard("n2"); for (int i = 0; i < n; ++i) Step<2>();
  T().Shard("n4"); for (int i = 0; i < n; ++i) Step<4>();
  T().Shard("n6"); for (int i = 0; i < n; ++i) Step<6>();
  T().Shard("n9"); for (int i = 0; i < n / 2; ++i) Step<9>();
  T().Shard("prim");
  for (int i = 0; i < n; ++i) {
    auto c64 = [] { return RV<1>()[0]; };
    uint64_t a = c64(), b = c64(), c = c64(), k = Rn(2);
    auto s = internal::u64::AddWithCarry(a, b, k); auto d = internal::u64::SubWithBorrow(a, b, k); uint64_t kk = c64(); auto m = internal::u64::MulAddWithCarry(a, b, c, kk);
    { Ev e("P64"); e.i("w", 64).u64("a", a).u64("b", b).u64("c", c).u64("k", k).u64("kk", kk).u64("sr", s.result).u64("sc", s.carry).u64("dr", d.result).u64("db", d.borrow).u64("mlo", m.lo).u64("mhi", m.hi); }
    uint32_t a2 = a, b2 = b >> 32, c2 = c; if (Rn(2)) { a2 = a >> 32; b2 = b; } uint32_t kk2 = kk;
    auto s2 = internal::u32::AddWithCarry(a2, b2, k); auto d2 = internal::u32::SubWithBorrow(a2, b2, k); auto m2 = internal::u32::MulAddWithCarry(a2, b2, c2, kk2);
    { Ev e("P64"); e.i("w", 32).u64("a", a2).u64("b", b2).u64("c", c2).u64("k", k).u64("kk", kk2).u64("sr", s2.result).u64("sc", s2.carry).u64("dr", d2.result).u64("db", d2.borrow).u64("mlo", m2.lo).u64("mhi", m2.hi); }
    int64_t x = (int64_t)Rn(30000) - 15000, y = (int64_t)Rn(30000) - 15000; if (Rn(8) == 0) x = 0; if (Rn(8) == 0) y = Rn(2) ? 0 : x;
    auto r = EGCD<int64_t>::Compute(x, y);
    { Ev e("Egcd"); e.i("x", x).i("y", y).i("s", r.s).i("t", r.t).i("r", r.r).b("v", r.IsValid(x, y)); }
  }
}
