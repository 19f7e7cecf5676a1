// Number/text conversions and string utilities.
#include <cmath>

#include "vh/f12289.h"
#include "vh/fieldutil.h"
#include "vh/numutil.h"
#include "tachyon/base/strings/rust_stringifier.h"
#include "tachyon/base/strings/string_number_conversions.h"
#include "tachyon/base/strings/string_util.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace vh;
namespace B = tachyon::base;
namespace M = tachyon::math;

struct VhNamed { int a; std::string b; };
struct VhPair { int a; std::string b; };
namespace tachyon::base::internal {
template <> class RustDebugStringifier<VhNamed> {
 public:
  static std::ostream& AppendToStream(std::ostream& os, RustFormatter& fmt, const VhNamed& v) { return os << fmt.DebugStruct("N").Field("a", v.a).Field("b", v.b).Finish(); }
};
template <> class RustDebugStringifier<VhPair> {
 public:
  static std::ostream& AppendToStream(std::ostream& os, RustFormatter& fmt, const VhPair& v) { return os << fmt.DebugTuple("T").Field(v.a).Field(v.b).Finish(); }
};
}  // namespace tachyon::base::internal

std::string Pick(const std::string& alphabet, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += alphabet[Rn(alphabet.size())]; return s; }
// A view into a longer text.
std::string_view View(const std::string& s) { static std::string keep; keep = s + Pick("0123456789 x", Rn(4)); return std::string_view(keep.data(), s.size()); }
template <typename I> bool ParseDec(std::string_view s, I* v) {
  if constexpr (std::is_same_v<I, int32_t>) return B::StringToInt(s, v);
  else if constexpr (std::is_same_v<I, uint32_t>) return B::StringToUint(s, v);
  else if constexpr (std::is_same_v<I, int64_t>) return B::StringToInt64(s, v);
  else { uint64_t w = 0; size_t x = 0; bool a = B::StringToUint64(s, &w), b = B::StringToSizeT(s, &x); *v = w; return a == b && w == x ? a : !a; }
}
template <typename I> bool ParseHex(std::string_view s, I* v) {
  if constexpr (std::is_same_v<I, int32_t>) return B::HexStringToInt(s, v);
  else if constexpr (std::is_same_v<I, uint32_t>) return B::HexStringToUint(s, v);
  else if constexpr (std::is_same_v<I, int64_t>) return B::HexStringToInt64(s, v);
  else return B::HexStringToUint64(s, v);
}
std::string BigDec(const std::string& digits, int delta) {  // decimal digit string plus a small delta, same sign
  std::string s = digits;
  int i = (int)s.size() - 1, c = delta;
  while (c && i >= 0) { int d = s[i] - '0' + c; c = 0; while (d < 0) { d += 10; --c; } while (d > 9) { d -= 10; ++c; } s[i--] = '0' + d; }
  if (c > 0) s = std::to_string(c) + s;
  return s;
}
template <typename I> std::string GenNum(int base) {
  using L = std::numeric_limits<I>;
  std::string s;
  uint64_t top = (uint64_t)L::max();
  switch (Rn(9)) {
    case 0: s = Pick(base == 10 ? "0123456789" : "0123456789abcdefABCDEF", Rn(25)); break;
    case 1: { uint64_t v = R64() >> Rn(64); char b[40]; snprintf(b, 40, base == 10 ? "%lu" : "%lx", (unsigned long)v); s = b; break; }
    case 2: { s = BigDec(std::to_string(top), (int)Rn(5) - 2); if (base == 16) { char b[40]; snprintf(b, 40, "%lX", (unsigned long)(top + Rn(4) - 1)); s = b; } break; }
    case 3: { s = BigDec(std::to_string(top), (int)Rn(5) - 1); if (base == 16) { char b[40]; snprintf(b, 40, "%lx", (unsigned long)(top + Rn(4))); s = b; } s = "-" + s; break; }
    case 4: s = std::to_string((int64_t)Rn(200) - 100); break;
    case 5: s = std::string(Rn(4), '0') + std::to_string(Rn(1000)); break;
    case 6: s = Pick("0123456789-+ xXaf.e,_", Rn(6)); break;
    case 7: s = std::to_string(top) + Pick("0123456789", 1 + Rn(2)); break;
    default: s = std::to_string(Rn(100000)); s.insert(Rn(s.size() + 1), Pick(" -+x.gG/:@`", 1)); break;
  }
  if (Rn(6) == 0) s = Pick("-+", 1 + Rn(2)) + s;
  if (Rn(6) == 0) s = (Rn(2) ? "0x" : "0X") + s;
  if (Rn(8) == 0) s = Pick(" \t\n\v\f\r", 1 + Rn(2)) + s;
  if (Rn(8) == 0) s += Pick(" \t\n\v\f\r", 1 + Rn(2));
  if (Rn(40) == 0) s.insert(Rn(s.size() + 1), 1, '\0');
  if (Rn(40) == 0) s += (char)(128 + Rn(128));
  return s;
}
template <typename I> void Nums(int n) {
  T().Shard(std::string("numbers ") + Name<I>());
  for (int i = 0; i < n; ++i) {
    I x = Val<I>();
    std::string d = B::NumberToString(x), h = B::HexToString(x);
    bool back = true, hback = true;
    if constexpr (sizeof(I) >= 4) { I y = 0; back = ParseDec<I>(d, &y) && y == x; I z = 0; hback = ParseHex<I>(h, &z) && z == x; }
    Ev("Num").s("t", Name<I>()).raw("x", ZS(x)).raw("dec", Bytes(d)).raw("hex", Bytes(h)).b("back", back).b("hback", hback);
  }
  if constexpr (sizeof(I) >= 4) {
    for (int i = 0; i < 4 * n; ++i) {
      int base = Rn(2) ? 10 : 16;
      std::string s = GenNum<I>(base);
      T().Doing("parse " + s);
      I v = 0;
      bool ok = base == 10 ? ParseDec<I>(View(s), &v) : ParseHex<I>(View(s), &v);
      Ev("Parse").s("t", Name<I>()).i("base", base).raw("s", Bytes(s)).b("ok", ok).raw("v", ZS(ok ? v : (I)0));
    }
  }
}
template <typename F> void Floats(int n) {
  for (int i = 0; i < n; ++i) {
    std::string s = Pick("0123456789", 1 + Rn(Rn(3) ? 4 : 18));
    if (Rn(3)) s += "." + Pick("0123456789", Rn(Rn(3) ? 4 : 15));
    if (Rn(4) == 0) s = "-" + s;
    if (Rn(12) == 0) s += Pick("x.-,", 1);
    if (s.find('.') != s.rfind('.')) s = "..";
    F v = 0;
    bool ok;
    if constexpr (sizeof(F) == 4) ok = B::StringToFloat(s, &v); else ok = B::StringToDouble(s, &v);
    int e = 0;
    F fr = std::frexp(std::fabs(v), &e);
    int dg = std::numeric_limits<F>::digits;
    uint64_t m = (uint64_t)std::ldexp((double)fr, dg);
    e -= dg;
    Ev("Float").raw("s", Bytes(s)).b("ok", ok).raw("m", ok ? Limbs(m) : "[]").i("e", ok ? e : 0).b("neg", v < 0);
  }
}
std::string AnyStr() {
  static const std::string all = [] { std::string s; for (int i = 0; i < 256; ++i) s += (char)i; return s; }();
  switch (Rn(4)) { case 0: return Pick("aAbBzZ", Rn(5)); case 1: return Pick("0xXa", Rn(6)); case 2: return "0x" + Pick("0123aF", Rn(5)); default: return Pick(Rn(2) ? all : std::string("AZaz@[`{/0"), Rn(8)); }
}
template <size_t N> void BigText(int n) {
  using Big = M::BigInt<N>;
  uint64_t l[N + 1] = {0};
  l[N] = 1;
  for (int i = 0; i < n; ++i) {
    int base = Rn(2) ? 10 : 16;
    Big v;
    for (size_t k = 0; k < N; ++k) v[k] = Rn(3) == 0 ? 0 : R64();
    if (Rn(4) == 0) for (size_t k = 0; k < N; ++k) v[k] = ~(uint64_t)0;
    std::string s = base == 10 ? v.ToString() : v.ToHexString();
    switch (Rn(9)) {
      case 0: s = base == 10 ? BigDec(s, 1 + Rn(3)) : s + "0"; break;
      case 1: s = "-" + (base == 16 ? s.substr(2) : s); break;
      case 2: s.insert(Rn(s.size() + 1), Pick("xg.:/-@G", 1)); if (s.substr(0, 2) == "0x" && base == 10) s = "x"; break;
      case 3: s = std::string(Rn(4), '0') + (base == 16 ? s.substr(2) : s); break;
      case 4: s = ""; break;
      case 5: s = Pick("0123456789", 1 + Rn(N * 20 + 1)); break;
      default: break;
    }
    T().Doing("bigint text " + s);
    std::optional<Big> r = base == 10 ? Big::FromDecString(View(s)) : Big::FromHexString(View(s));
    Big z(0);
    if (r) z = *r;
    Ev("Big").i("base", base).raw("s", Bytes(s)).raw("lim", Limbs(l, N + 1)).b("ok", r.has_value()).raw("v", Limbs(z.limbs, N)).raw("dec", Bytes(z.ToString())).raw("hex", Bytes(z.ToHexString()));
  }
}
template <typename F> void FieldText(const char* name, const std::string& modulus_dec, const std::string& lim, int n) {
  F::Init();
  T().Shard(std::string("field text ") + name);
  for (int i = 0; i < n; ++i) {
    int base = Rn(2) ? 10 : 16;
    F x = F::Random();
    std::string s = base == 10 ? x.ToString() : x.ToHexString();
    switch (Rn(6)) { case 0: s = BigDec(modulus_dec, (int)Rn(5) - 2); base = 10; break; case 1: s = "-" + (base == 16 ? s.substr(2) : s); break; case 2: s = modulus_dec + "0"; base = 10; break; default: break; }
    T().Doing(std::string("field text ") + name + " " + s);
    std::optional<F> r = base == 10 ? F::FromDecString(View(s)) : F::FromHexString(View(s));
    F z = r ? *r : F::Zero();
    Ev("Big").i("base", base).raw("s", Bytes(s)).raw("lim", lim).b("ok", r.has_value()).raw("v", FL(z)).raw("dec", Bytes(z.ToString())).raw("hex", Bytes(z.ToHexString()));
  }
}
std::u16string U16() { std::u16string s; size_t n = Rn(6); for (size_t i = 0; i < n; ++i) s += (char16_t)(Rn(3) ? "AZaz@[`{bQ"[Rn(10)] : Rn(65536)); return s; }
std::string U(const std::u16string& s) { return Seq(s, [](char16_t c) { return std::to_string((unsigned)c); }); }

int main(int argc, char** argv) {
  T().Init(argc, argv);
  int n = T().thorough() ? 900 : 120;
  Nums<int16_t>(n); Nums<uint16_t>(n); Nums<int32_t>(n); Nums<uint32_t>(n); Nums<int64_t>(n); Nums<uint64_t>(n);
  T().Shard("floats");
  Floats<float>(2 * n);
  Floats<double>(2 * n);
  T().Shard("hex bytes");
  for (int i = 0; i < 2 * n; ++i) {
    std::string s;
    size_t len = Rn(9);
    for (size_t k = 0; k < len; ++k) s += (char)Rn(256);
    std::vector<uint8_t> v(s.begin(), s.end());
    std::string lo = B::HexEncode(s.data(), s.size(), true), up = B::HexEncode(absl::MakeSpan(v), false), lo2 = B::HexEncode(absl::MakeSpan(v), true);
    std::vector<uint8_t> back;
    bool ok = B::HexStringToBytes(Rn(2) ? lo : up, &back);
    Ev("HexBytes").raw("s", Bytes(s)).raw("low", Bytes(lo)).raw("up", Bytes(up)).raw("low2", Bytes(lo2)).b("backok", ok).raw("back", Bytes(back.data(), back.size()));
    std::string t = Rn(3) ? Pick("0123456789abcdefABCDEF", Rn(10)) : Pick("09afAFgG/:@`x ", Rn(7));
    if (Rn(3) == 0 && !t.empty()) t[Rn(t.size())] = "gG/:@`x -"[Rn(9)];
    size_t m = Rn(5) ? t.size() / 2 : Rn(5);
    std::vector<uint8_t> o1, o3(m, 170);
    std::string o2;
    bool k1 = B::HexStringToBytes(t, &o1), k2 = B::HexStringToString(t, &o2), k3 = B::HexStringToSpan(t, absl::MakeSpan(o3));
    Ev("HexDecode").raw("s", Bytes(t)).i("n", m).b("ok1", k1).b("ok2", k2).b("ok3", k3).raw("out1", Bytes(o1.data(), o1.size())).raw("out2", Bytes(o2)).raw("out3", Bytes(o3.data(), o3.size()));
  }
  T().Shard("strings");
  for (int i = 0; i < 3 * n; ++i) {
    std::string s = AnyStr();
    std::u16string s16 = U16();
    std::string_view v = s;
    bool has = B::ConsumePrefix0x(&v);
    std::string tmp = s;
    std::string add = "[" + Bytes(B::MaybePrepend0x(std::string_view(s))) + "," + Bytes(B::MaybePrepend0x(static_cast<const std::string&>(s))) + "," + Bytes(B::MaybePrepend0x(std::move(tmp))) + "]";
    size_t w = s.size() + Rn(5);
    Ev("Str1").raw("s", Bytes(s)).raw("s16", U(s16)).raw("lower", Bytes(B::ToLowerASCII(s))).raw("upper", Bytes(B::ToUpperASCII(s))).raw("cap", Bytes(B::CapitalizeASCII(s)))
        .raw("lower16", U(B::ToLowerASCII(s16))).raw("upper16", U(B::ToUpperASCII(s16))).raw("cap16", U(B::CapitalizeASCII(s16))).b("has0x", has).raw("no0x", Bytes(std::string(v))).raw("add0x", add).i("n", w).raw("lead", Bytes(B::ToHexStringWithLeadingZero(s, w)));
    std::string a = AnyStr(), b = AnyStr();
    auto flip = [](std::string x) { for (char& c : x) if (Rn(2)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return x; };
    switch (Rn(6)) { case 0: b = a.substr(0, Rn(a.size() + 1)); break; case 1: b = a.substr(Rn(a.size() + 1)); break; case 2: b = flip(a.substr(0, Rn(a.size() + 1))); break; case 3: b = flip(a.substr(Rn(a.size() + 1))); break; case 4: b = flip(a); if (Rn(3) == 0 && !b.empty()) b[Rn(b.size())] ^= 1 << Rn(8); break; default: break; }
    auto I = B::CompareCase::INSENSITIVE_ASCII;
    bool c1, c2, c3, c4;
    std::string_view v1 = a, v2 = a, v3 = a, v4 = a;
    c1 = B::ConsumePrefix(&v1, b); c2 = B::ConsumePrefix(&v2, b, I); c3 = B::ConsumeSuffix(&v3, b); c4 = B::ConsumeSuffix(&v4, b, I);
    auto bl = [](bool x) { return std::string(x ? "true" : "false"); };
    Ev("Str2").raw("a", Bytes(a)).raw("b", Bytes(b)).raw("sw", "[" + bl(B::StartsWith(a, b)) + "," + bl(B::StartsWith(a, b, I)) + "]").raw("ew", "[" + bl(B::EndsWith(a, b)) + "," + bl(B::EndsWith(a, b, I)) + "]")
        .raw("cp", "[" + Bytes(std::string(v1)) + "," + Bytes(std::string(v2)) + "]").raw("cs", "[" + Bytes(std::string(v3)) + "," + Bytes(std::string(v4)) + "]").raw("con", "[" + bl(c1) + "," + bl(c2) + "," + bl(c3) + "," + bl(c4) + "]")
        .i("cmp", B::CompareCaseInsensitiveASCII(a, b)).b("eqi", B::EqualsCaseInsensitiveASCII(a, b));
  }
  T().Shard("containers");
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<std::vector<int>>> x(1 + Rn(2));
    for (auto& a : x) { a.resize(1 + Rn(2)); for (auto& b : a) { b.resize(Rn(4)); for (auto& c : b) c = (int)Rn(2001) - 1000; } }
    if (Rn(4) == 0) x[0].resize(1);
    std::vector<decltype(x)> x4 = {x, x};
    int y = (int)Rn(20001) - 10000;
    std::string s = Pick("ab ", Rn(4));
    absl::btree_map<int, std::string> m;
    std::vector<int> ks;
    int k = -5;
    size_t kn = Rn(4);
    for (size_t j = 0; j < kn; ++j) { k += 1 + (int)Rn(9); ks.push_back(k); }
    for (size_t j = kn; j-- > 0;) m[ks[j]] = s;
    std::string x1 = Seq(x, [](const auto& a) { return Seq(a, [](const auto& b) { return Ints(b); }); });
    Ev("Cont").raw("x", x1).i("y", y).raw("s", Bytes(s)).ints("ks", ks).raw("c1", Bytes(B::ContainerToString(x[0][0]))).raw("c2", Bytes(B::Container2DToString(x[0]))).raw("c3", Bytes(B::Container3DToString(x))).raw("c4", Bytes(B::Container4DToString(x4)))
        .raw("some", Bytes(B::OptionalToString(std::optional<int>(y)))).raw("none", Bytes(B::OptionalToString(std::optional<int>()))).raw("r1", Bytes(B::ToRustDebugString(x[0][0]))).raw("r2", Bytes(B::ToRustDebugString(x[0]))).raw("rs", Bytes(B::ToRustDebugString(s)))
        .raw("ro", "[" + Bytes(B::ToRustDebugString(std::optional<std::string>(s))) + "," + Bytes(B::ToRustDebugString(std::optional<std::string>())) + "]").raw("rm", Bytes(B::ToRustDebugString(m)))
        .raw("rst", Bytes(B::ToRustDebugString(VhNamed{y, s}))).raw("rt", Bytes(B::ToRustDebugString(VhPair{y, s})));
  }
  T().Shard("bigint text");
  BigText<1>(n / 2); BigText<4>(n / 2); BigText<6>(n / 3);
  FieldText<M::vhf::F12289>("f12289", "12289", "[1,3]", n / 2);
  FieldText<M::BabyBear>("babybear", "2013265921", Limbs(2013265921), n / 2);
  uint64_t fr[4] = {0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029};
  FieldText<M::bn254::Fr>("bn254fr", "21888242871839275222246405745257275088548364400416034343698204186575808495617", Limbs(fr, 4), n / 2);
}
