// Histories of byte buffers and serialised values.
#include <memory>
#include "vh/mmcsutil.h"
#include "tachyon/math/finite_fields/quadratic_extension_field.h"
#include "tachyon/math/finite_fields/cubic_extension_field.h"
#include "tachyon/math/finite_fields/quartic_extension_field.h"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/sponge_state.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "vh/f12289.h"
#include "vh/s1.h"
#include "vh/vgoldi.h"
#include "vh/x2.h"
#include "vh/x3.h"
using namespace vh;
using namespace tachyon;
using namespace tachyon::math;
using base::Buffer; using base::Endian; using base::ReadOnlyBuffer; using base::StringBuffer; using base::Uint8VectorBuffer;
using vhf::F12289; using vhf::VGoldi; using vhf::X2; using vhf::X3;

enum class Color8 : uint8_t { kA = 3, kB = 200 };
enum class Color32 : int32_t { kA = -5, kB = 70000 };

std::string Q(const char* t, const std::string& rest) { return std::string("[\"") + t + "\"," + rest + "]"; }
template <typename T> std::string Raw(const T& v) { return Bytes(reinterpret_cast<const uint8_t*>(&v), sizeof(T)); }
std::string U(uint64_t v) { return Q("u", Raw(v)); }
template <typename T, typename S = void> struct X;  // Gen, Ty, Tr
template <typename T> struct X<T, std::enable_if_t<std::is_fundamental_v<T> || std::is_enum_v<T>>> {
  static T Gen() {
    if constexpr (std::is_same_v<T, bool>) return Rn(2);
    else if constexpr (std::is_same_v<T, Color8>) return Rn(2) ? Color8::kA : Color8::kB;
    else if constexpr (std::is_same_v<T, Color32>) return Rn(2) ? Color32::kA : Color32::kB;
    else if constexpr (std::is_floating_point_v<T>) { T a[] = {T(0), T(1.5), T(-2.25e10), T(1e-30), T(-0.0), static_cast<T>(static_cast<int64_t>(R64()) / 3.0)}; return a[Rn(6)]; }
    else { T a[] = {T(0), T(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), static_cast<T>(R64()), static_cast<T>(Rn(4))}; return a[Rn(6)]; }
  }
  static std::string Ty() { return Q("u", std::to_string(sizeof(T))); }
  static std::string Tr(const T& v) { return Q("u", Raw(v)); }
};
template <typename C> struct X<std::basic_string<C>> {
  using S = std::basic_string<C>;
  static S Gen() { S s; size_t n = Rn(4) ? Rn(7) : Rn(24); for (size_t i = 0; i < n; ++i) s += static_cast<C>(R64()); return s; }
  static std::string Ty() { return Q("s", std::to_string(sizeof(C))); }
  static std::string Tr(const S& s) { return Q("s", std::to_string(sizeof(C)) + "," + Bytes(reinterpret_cast<const uint8_t*>(s.data()), s.size() * sizeof(C))); }
};
template <typename T, size_t N> struct X<std::array<T, N>> {
  static std::array<T, N> Gen() { std::array<T, N> a; for (auto& x : a) x = X<T>::Gen(); return a; }
  static std::string Ty() { return Q("n", std::to_string(N) + "," + X<T>::Ty()); }
  static std::string Tr(const std::array<T, N>& a) { return Q("a", Seq(a, [](const T& x) { return X<T>::Tr(x); })); }
};
template <typename T> struct X<std::vector<T>> {
  static std::vector<T> Gen() { std::vector<T> a(Rn(4)); for (auto& x : a) x = X<T>::Gen(); return a; }
  static std::string Ty() { return Q("v", X<T>::Ty()); }
  static std::string Tr(const std::vector<T>& a) { return Q("v", Seq(a, [](const T& x) { return X<T>::Tr(x); })); }
};
template <size_t N> struct X<BigInt<N>> {
  static BigInt<N> Gen() { BigInt<N> b; for (size_t i = 0; i < N; ++i) b[i] = X<uint64_t>::Gen(); return b; }
  static std::string Ty() { return Q("n", std::to_string(N) + "," + X<uint64_t>::Ty()); }
  static std::string Tr(const BigInt<N>& b) { std::string s; for (size_t i = 0; i < N; ++i) s += (i ? "," : "") + U(b[i]); return Q("a", "[" + s + "]"); }
};
template <typename F> constexpr bool kIsPrime = std::is_base_of_v<PrimeFieldBase<F>, F>;
template <typename F> struct X<F, std::enable_if_t<kIsPrime<F>>> {
  static constexpr bool kSmall = F::Config::kModulusBits <= 32;
  static F Gen() { return Rn(4) ? RandE<F>() : Rn(2) ? F::Zero() : -F::One(); }
  static std::string Ty() {
    auto m = Modulus<F>();
    if constexpr (kSmall) return Q("f", "1,4," + Bytes(reinterpret_cast<const uint8_t*>(&m[0]), 4));
    else return Q("f", std::to_string(F::BigIntTy::kLimbNums) + ",8," + Bytes(reinterpret_cast<const uint8_t*>(&m[0]), 8 * F::BigIntTy::kLimbNums));
  }
  static std::string Tr(const F& v) {
    if constexpr (F::Config::kUseMontgomery) { if (base::Copyable<F>::s_is_in_montgomery) {
      if constexpr (kSmall) return Q("u", Raw(static_cast<uint32_t>(v.value())));
      else return X<typename F::BigIntTy>::Tr(v.value()); } }
    auto b = v.ToBigInt();
    if constexpr (kSmall) return Q("u", Raw(static_cast<uint32_t>(b[0])));
    else { std::string s; for (size_t i = 0; i < F::BigIntTy::kLimbNums; ++i) s += (i ? "," : "") + U(b[i]); return Q("a", "[" + s + "]"); }
  }
};
template <typename... T> std::string Trs(const T&... v) { std::string s; ((s += (s.empty() ? "" : ",") + X<T>::Tr(v)), ...); return Q("a", "[" + s + "]"); }
template <typename... T> std::string Tys() { std::string s; ((s += (s.empty() ? "" : ",") + X<T>::Ty()), ...); return Q("a", "[" + s + "]"); }
template <typename F> constexpr bool kExtF = std::is_base_of_v<QuadraticExtensionField<F>, F> || std::is_base_of_v<CubicExtensionField<F>, F> || std::is_base_of_v<QuarticExtensionField<F>, F>;
template <typename F> struct X<F, std::enable_if_t<kExtF<F>>> {
  using B = typename F::BaseField;
  static constexpr size_t kN = F::Config::kDegreeOverBaseField;
  static F Gen() { return RandE<F>(); }
  static std::string Ty() { return Q("n", std::to_string(kN) + "," + X<B>::Ty()); }
  static std::string Tr(const F& v) { std::string s; for (size_t i = 0; i < kN; ++i) s += (i ? "," : "") + X<B>::Tr(v[i]); return Q("a", "[" + s + "]"); }
};
using S1C = vhf::S1Curve; using G1C = bn254::G1Curve;
template <typename P> struct X<P, std::enable_if_t<std::is_same_v<P, AffinePoint<typename P::Curve>>>> {
  using B = typename P::BaseField; static P Gen() { return Rn(5) ? P::Random() : P::Zero(); }
  static std::string Ty() { return Tys<B, B>(); } static std::string Tr(const P& p) { return Trs(p.x(), p.y()); } };
template <typename P> struct X<P, std::enable_if_t<std::is_same_v<P, JacobianPoint<typename P::Curve>> || std::is_same_v<P, ProjectivePoint<typename P::Curve>>>> {
  using B = typename P::BaseField; static P Gen() { return Rn(5) ? P::Random() : P::Zero(); }
  static std::string Ty() { return Tys<B, B, B>(); } static std::string Tr(const P& p) { return Trs(p.x(), p.y(), p.z()); } };
template <typename P> struct X<P, std::enable_if_t<std::is_same_v<P, PointXYZZ<typename P::Curve>>>> {
  using B = typename P::BaseField; static P Gen() { return Rn(5) ? P::Random() : P::Zero(); }
  static std::string Ty() { return Tys<B, B, B, B>(); } static std::string Tr(const P& p) { return Trs(p.x(), p.y(), p.zz(), p.zzz()); } };
template <typename T> struct X<Point2<T>> { static Point2<T> Gen() { return {X<T>::Gen(), X<T>::Gen()}; } static std::string Ty() { return Tys<T, T>(); } static std::string Tr(const Point2<T>& p) { return Trs(p.x, p.y); } };
template <typename T> struct X<Point3<T>> { static Point3<T> Gen() { return {X<T>::Gen(), X<T>::Gen(), X<T>::Gen()}; } static std::string Ty() { return Tys<T, T, T>(); } static std::string Tr(const Point3<T>& p) { return Trs(p.x, p.y, p.z); } };
template <typename T> struct X<Point4<T>> { static Point4<T> Gen() { return {X<T>::Gen(), X<T>::Gen(), X<T>::Gen(), X<T>::Gen()}; } static std::string Ty() { return Tys<T, T, T, T>(); } static std::string Tr(const Point4<T>& p) { return Trs(p.x, p.y, p.z, p.w); } };
template <> struct X<Dimensions> { static Dimensions Gen() { return {static_cast<int64_t>(R64()), static_cast<int64_t>(R64())}; } static std::string Ty() { return Tys<uint64_t, uint64_t>(); }
  static std::string Tr(const Dimensions& d) { return Trs(static_cast<uint64_t>(d.width), static_cast<uint64_t>(d.height)); } };
template <typename F, int R, int C, int O, int MR, int MC> struct X<Eigen::Matrix<F, R, C, O, MR, MC>> {
  using M = Eigen::Matrix<F, R, C, O, MR, MC>;
  static M Gen() { M m; m.resize(R >= 0 ? R : Rn(4), C >= 0 ? C : Rn(4)); for (Eigen::Index i = 0; i < m.size(); ++i) m.data()[i] = X<F>::Gen(); return m; }
  static std::string Ty() { return Q("m", std::to_string(R) + "," + std::to_string(C) + "," + X<F>::Ty()); }
  static std::string Tr(const M& m) {
    std::string s = U(m.rows()) + "," + U(m.cols());
    bool row = M::IsRowMajor; if (m.size() == 0) return Q("a", "[" + s + "]");
    for (Eigen::Index i = 0; i < (row ? m.rows() : m.cols()); ++i) for (Eigen::Index j = 0; j < (row ? m.cols() : m.rows()); ++j) s += "," + X<F>::Tr(row ? m(i, j) : m(j, i));
    return Q("a", "[" + s + "]");
  }
};
template <typename F, int N> struct X<Eigen::DiagonalMatrix<F, N>> {
  using M = Eigen::DiagonalMatrix<F, N>;
  static M Gen() { return M(X<typename M::DiagonalVectorType>::Gen()); }
  static std::string Ty() { return Q("d", std::to_string(N) + "," + X<F>::Ty()); }
  static std::string Tr(const M& m) { std::string s = U(m.diagonal().size()); for (Eigen::Index i = 0; i < m.diagonal().size(); ++i) s += "," + X<F>::Tr(m.diagonal()[i]); return Q("a", "[" + s + "]"); }
};
template <typename F> using Dense = UnivariateDensePolynomial<F, 8>;
template <typename F> using SparseP = UnivariateSparsePolynomial<F, 8>;
template <typename F> using Evals = UnivariateEvaluations<F, 8>;
template <typename F> using Mle = MultilinearExtension<MultilinearDenseEvaluations<F, 3>>;
template <typename F> struct X<Dense<F>> {
  static Dense<F> Gen() { auto v = X<std::vector<F>>::Gen(); if (!v.empty()) v.back() = F::One(); return Dense<F>(UnivariateDenseCoefficients<F, 8>(v)); }
  static std::string Ty() { return X<std::vector<F>>::Ty(); } static std::string Tr(const Dense<F>& p) { return X<std::vector<F>>::Tr(p.coefficients().coefficients()); } };
template <typename F> struct X<UnivariateTerm<F>> { using T = UnivariateTerm<F>; static std::string Ty() { return Tys<uint64_t, F>(); } static std::string Tr(const T& t) { return Trs(static_cast<uint64_t>(t.degree), t.coefficient); } };
template <typename F> struct X<SparseP<F>> {
  static SparseP<F> Gen() { std::vector<UnivariateTerm<F>> v; for (size_t d = 0; d < 8; ++d) if (!Rn(3)) v.push_back({d, F::One() + (Rn(2) ? F::One() : F::Zero())}); return SparseP<F>(UnivariateSparseCoefficients<F, 8>(v)); }
  static std::string Ty() { return Q("v", X<UnivariateTerm<F>>::Ty()); } static std::string Tr(const SparseP<F>& p) { return Q("v", Seq(p.coefficients().terms(), [](const auto& t) { return X<UnivariateTerm<F>>::Tr(t); })); } };
template <typename F> struct X<Evals<F>> { static Evals<F> Gen() { return Evals<F>(X<std::vector<F>>::Gen()); }
  static std::string Ty() { return X<std::vector<F>>::Ty(); } static std::string Tr(const Evals<F>& p) { return X<std::vector<F>>::Tr(p.evaluations()); } };
template <typename F> struct X<Mle<F>> { static Mle<F> Gen() { std::vector<F> v(size_t{1} << Rn(3)); for (auto& x : v) x = X<F>::Gen(); return Mle<F>(MultilinearDenseEvaluations<F, 3>(v)); }
  static std::string Ty() { return X<std::vector<F>>::Ty(); } static std::string Tr(const Mle<F>& p) { return X<std::vector<F>>::Tr(p.evaluations().evaluations()); } };
template <typename F> struct X<LinearCombinationTerm<F>> { using L = LinearCombinationTerm<F>; static L Gen() { return {X<F>::Gen(), X<std::vector<size_t>>::Gen()}; }
  static std::string Ty() { return Tys<F, std::vector<size_t>>(); } static std::string Tr(const L& l) { return Trs(l.coefficient, l.indexes); } };
template <> struct X<crypto::SumcheckVerifyingKey> { using K = crypto::SumcheckVerifyingKey; static K Gen() { return {R64(), Rn(9)}; } static std::string Ty() { return Tys<uint64_t, uint64_t>(); } static std::string Tr(const K& k) { return Trs(static_cast<uint64_t>(k.max_evaluations), static_cast<uint64_t>(k.num_variables)); } };
using PedersenS = crypto::Pedersen<AffinePoint<S1C>, 4>;
template <> struct X<PedersenS> { using A = AffinePoint<S1C>; static PedersenS Gen() { A h = X<A>::Gen(); return PedersenS(h, X<std::vector<A>>::Gen()); } static std::string Ty() { return Tys<A, std::vector<A>>(); } static std::string Tr(const PedersenS& p) { return Trs(p.h(), p.generators()); } };
using KzgS = crypto::KZG<AffinePoint<S1C>, 7>;
template <> struct X<KzgS> { using A = AffinePoint<S1C>; static KzgS Gen() { auto a = X<std::vector<A>>::Gen(); auto b = a; for (auto& x : b) x = X<A>::Gen(); return KzgS(std::move(a), std::move(b)); } static std::string Ty() { return Tys<std::vector<A>, std::vector<A>>(); } static std::string Tr(const KzgS& p) { return Trs(p.g1_powers_of_tau(), p.g1_powers_of_tau_lagrange()); } };
template <> struct X<crypto::DuplexSpongeMode> { using M = crypto::DuplexSpongeMode;
  static M Gen() { return Rn(2) ? M::Absorbing(Rn(9)) : M::Squeezing(Rn(9)); }
  static std::string Ty() { return Tys<decltype(M::type), uint64_t>(); } static std::string Tr(const M& m) { return Trs(m.type, static_cast<uint64_t>(m.next_index)); } };
using SPar = crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, BabyBear, 15, 7>;
template <> struct X<crypto::SpongeState<SPar>> { using S = crypto::SpongeState<SPar>; static S Gen() { S s; s.elements = X<Vector<BabyBear>>::Gen(); s.mode = X<crypto::DuplexSpongeMode>::Gen(); return s; }
  static std::string Ty() { return Tys<Vector<BabyBear>, crypto::DuplexSpongeMode>(); } static std::string Tr(const S& s) { return Trs(s.elements, s.mode); } };

// ---- the buffers of a history
struct Slot { std::string kind; std::unique_ptr<Buffer> b; StringBuffer* s = nullptr; Uint8VectorBuffer* v = nullptr; };
struct Mem { std::vector<uint8_t> m; size_t n; };
std::vector<Slot> g_s;
std::vector<std::unique_ptr<Mem>> g_m;
std::vector<std::pair<int, std::unique_ptr<base::EndianAutoReset>>> g_scopes;
constexpr size_t kGuard = 40;
bool GuardOk() { for (auto& m : g_m) for (size_t i = 0; i < kGuard; ++i) if (m->m[i] != 0xa5 || m->m[kGuard + m->n + i] != 0xa5) return false; return true; }
const char* En(Endian e) { return e == Endian::kBig ? "b" : e == Endian::kLittle ? "l" : "n"; }
Endian RandEn() { Endian e[] = {Endian::kNative, Endian::kBig, Endian::kLittle}; return e[Rn(3)]; }
std::string Off(size_t o) { return std::to_string(static_cast<long long>(o)); }
std::string St(const Slot& s) {
  const Buffer& b = *s.b; size_t n = b.buffer_len(); long shown = n;
  const std::string* own = s.s ? &s.s->owned_buffer() : nullptr; std::string tmp;
  if (s.v) { tmp = std::string(s.v->owned_buffer().begin(), s.v->owned_buffer().end()); own = &tmp; }
  if (own && own->size() != n) shown = -1;
  if (n > 100000) { n = 0; shown = -2; }
  std::string bytes = Bytes(reinterpret_cast<const uint8_t*>(b.buffer()), n);
  if (own && n && Bytes(*own) != bytes) shown = -3;
  return "{\"b\":" + bytes + ",\"o\":" + Off(b.buffer_offset()) + ",\"n\":" + std::to_string(shown) + ",\"e\":\"" + En(b.endian()) + "\",\"done\":" + (b.Done() ? "true" : "false") + "}";
}
void Obs(Ev& e) { std::string s; for (auto& x : g_s) s += (s.empty() ? "" : ",") + St(x); e.raw("st", "[" + s + "]").b("guard", GuardOk()); }
void New(int kind, size_t n) {
  Slot s; std::string bytes = "[]";
  if (kind == 0) {
    auto m = std::make_unique<Mem>(); m->n = n; m->m.assign(n + 2 * kGuard, 0xa5);
    for (size_t i = 0; i < n; ++i) m->m[kGuard + i] = Rn(3) ? 0 : R64();
    s.kind = "fixed"; s.b = std::make_unique<Buffer>(m->m.data() + kGuard, n); bytes = Bytes(m->m.data() + kGuard, n);
    g_m.push_back(std::move(m));
  } else if (kind == 1) { auto p = std::make_unique<StringBuffer>(); s.s = p.get(); s.kind = "string"; s.b = std::move(p); }
  else {
    std::vector<uint8_t> init(n); for (auto& x : init) x = R64();
    auto p = Rn(2) ? std::make_unique<Uint8VectorBuffer>(init) : std::make_unique<Uint8VectorBuffer>(std::vector<uint8_t>(init));
    s.v = p.get(); s.kind = "vector"; s.b = std::move(p); bytes = Bytes(init.data(), n);
  }
  std::string k = s.kind; g_s.push_back(std::move(s));
  Ev e("New"); e.s("kind", k).raw("b", bytes); Obs(e);
}
size_t RandOff(const Slot& s, bool write) {
  size_t n = s.b->buffer_len();
  if (!write && !Rn(6)) return Rn(2) ? ~size_t{0} - Rn(20) : n + Rn(5);
  if (write && s.kind == "fixed" && !Rn(6)) return Rn(2) ? ~size_t{0} - Rn(20) : n + Rn(5);
  return Rn(n + (s.kind == "fixed" || !write ? 1 : 6));
}
struct Past { int i; size_t off; int ty; Endian e; };
std::vector<Past> g_past;
int g_ty;
Ev Base(const char* op, int i, bool at, size_t off) { Ev e(op); e.i("i", i + 1).b("at", at).raw("off", Off(off)); return e; }
#define HEAD(op) Ev e(op); e.i("i", i + 1).b("at", at).raw("off", Off(off))
template <typename V, typename W> void DoWrite(int i, bool at, size_t off, const V& v, const W& w) {
  Buffer& b = *g_s[i].b; size_t pos = at ? off : b.buffer_offset(); Endian en = b.endian();
  bool ok = at ? b.WriteAt(off, w) : b.Write(w);
  HEAD("Write"); e.raw("v", X<V>::Tr(v)).b("ok", ok).i("est", base::EstimateSize(v)); Obs(e);
  if (ok) g_past.push_back({i, pos, g_ty, en});
}
template <typename V> void WriteOne(int i, bool at, size_t off) {
  V v = X<V>::Gen();
  if constexpr (std::is_fundamental_v<V>) {
    Buffer& b = *g_s[i].b; size_t pos = at ? off : b.buffer_offset(); Endian en = b.endian();
    bool ok = at ? b.WriteAt(off, v) : b.Write(v);
    HEAD("Write1"); e.raw("v", X<V>::Tr(v)).b("ok", ok).s("ord", En(en)); Obs(e);
    if (ok) g_past.push_back({i, pos, g_ty, en});
  } else DoWrite(i, at, off, v, v);
}
template <typename V> void ReadOne(int i, bool at, size_t off) {
  Buffer& b = *g_s[i].b; const ReadOnlyBuffer& r = b;
  if constexpr (std::is_fundamental_v<V>) {
    V v, k; memset(&v, std::is_same_v<V, bool> ? 1 : 0x5a, sizeof v); memcpy(&k, &v, sizeof v); Endian en = b.endian();
    bool ok = at ? r.ReadAt(off, &v) : r.Read(&v);
    HEAD("Read1"); e.raw("v", X<V>::Tr(v)).b("ok", ok).b("kept", !memcmp(&v, &k, sizeof v)).s("ord", En(en)); Obs(e);
  } else {
    V v = X<V>::Gen();
    bool ok = at ? r.ReadAt(off, &v) : r.Read(&v);
    HEAD("Read"); e.raw("v", ok ? X<V>::Tr(v) : "[\"u\",[]]").raw("ty", X<V>::Ty()).b("ok", ok); Obs(e);
  }
}
// many values at once, C arrays and character pointers
void WriteMany(int i, bool at, size_t off) {
  Buffer& b = *g_s[i].b;
  uint16_t a = X<uint16_t>::Gen(); std::string s = X<std::string>::Gen(); int64_t arr[3]; for (auto& x : arr) x = X<int64_t>::Gen(); F12289 f = X<F12289>::Gen(); double d = X<double>::Gen();
  std::u16string z = X<std::u16string>::Gen(); for (auto& c : z) if (!c) c = 'x'; const char16_t* zp = z.c_str();
  std::vector<uint8_t> bytes = X<std::vector<uint8_t>>::Gen();
  std::array<int64_t, 3> ar{arr[0], arr[1], arr[2]};
  bool ok; std::string tree; size_t est;
  switch (Rn(4)) {
    case 0: ok = at ? b.WriteManyAt(off, a, s, arr, f) : b.WriteMany(a, s, arr, f); tree = Trs(a, s, ar, f); est = base::EstimateSize(a, s, arr, f); break;
    case 1: ok = at ? b.WriteManyAt(off, d, zp) : b.WriteMany(d, zp); tree = Trs(d, z); est = base::EstimateSize(d, zp); break;
    case 2: { std::string_view sv(s); absl::Span<const uint8_t> sp(bytes); ok = at ? b.WriteManyAt(off, sv, sp, a) : b.WriteMany(sv, sp, a); tree = Trs(s, bytes, a); est = base::EstimateSize(sv, sp, a); break; }
    default: ok = at ? b.WriteManyAt(off, a) : b.WriteMany(a); tree = Trs(a); est = base::EstimateSize(a);
  }
  HEAD("Write"); e.raw("v", tree).b("ok", ok).i("est", est); Obs(e);
}
void ReadMany(int i, bool at, size_t off) {
  const ReadOnlyBuffer& b = *g_s[i].b;
  uint16_t a = 1; std::string s; int64_t arr[3]; F12289 f; double d = 0; std::u32string z; std::vector<uint8_t> y;
  bool ok; std::string tree, ty;
  switch (Rn(3)) {
    case 0: ok = at ? b.ReadManyAt(off, &a, arr, &f) : b.ReadMany(&a, arr, &f); tree = Trs(a, std::array<int64_t, 3>{arr[0], arr[1], arr[2]}, f); ty = Tys<uint16_t, std::array<int64_t, 3>, F12289>(); break;
    case 1: ok = at ? b.ReadManyAt(off, &d, &z) : b.ReadMany(&d, &z); tree = Trs(d, z); ty = Tys<double, std::u32string>(); break;
    default: ok = at ? b.ReadManyAt(off, &s, &y) : b.ReadMany(&s, &y); tree = Trs(s, y); ty = Tys<std::string, std::vector<uint8_t>>();
  }
  HEAD("Read"); e.raw("v", ok ? tree : "[\"u\",[]]").raw("ty", ty).b("ok", ok); Obs(e);
}
void RawWrite(int i, bool at, size_t off) {
  Buffer& b = *g_s[i].b;
  uint64_t v = X<uint64_t>::Gen(); std::vector<uint8_t> y(Rn(6) ? Rn(12) : 0); for (auto& x : y) x = R64();
  int k = Rn(7); bool ok = false; std::string ord = "n", tree;
#define W(bits, E) (at ? b.Write##bits##E##At(off, static_cast<uint##bits##_t>(v)) : b.Write##bits##E(static_cast<uint##bits##_t>(v)))
  switch (k) {
    case 0: ok = at ? b.WriteAt(off, y.data(), y.size()) : b.Write(y.data(), y.size()); tree = Q("u", Bytes(y.data(), y.size())); break;
    case 1: ok = W(16, BE); ord = "b"; tree = X<uint16_t>::Tr(v); break;
    case 2: ok = W(16, LE); tree = X<uint16_t>::Tr(v); break;
    case 3: ok = W(32, BE); ord = "b"; tree = X<uint32_t>::Tr(v); break;
    case 4: ok = W(32, LE); tree = X<uint32_t>::Tr(v); break;
    case 5: ok = W(64, BE); ord = "b"; tree = X<uint64_t>::Tr(v); break;
    default: ok = W(64, LE); tree = X<uint64_t>::Tr(v);
  }
  HEAD("Write1"); e.raw("v", tree).b("ok", ok).s("ord", ord); Obs(e);
}
void RawRead(int i, bool at, size_t off) {
  const ReadOnlyBuffer& b = *g_s[i].b;
  uint8_t y[16]; memset(y, 0x5a, 16); size_t n = 0; bool ok = false; std::string ord = "n";
#define R(bits, E) (n = bits / 8, at ? b.Read##bits##E##At(off, reinterpret_cast<uint##bits##_t*>(y)) : b.Read##bits##E(reinterpret_cast<uint##bits##_t*>(y)))
  switch (Rn(7)) {
    case 0: n = Rn(12); ok = at ? b.ReadAt(off, y, n) : b.Read(y, n); break;
    case 1: ok = R(16, BE); ord = "b"; break;
    case 2: ok = R(16, LE); break;
    case 3: ok = R(32, BE); ord = "b"; break;
    case 4: ok = R(32, LE); break;
    case 5: ok = R(64, BE); ord = "b"; break;
    default: ok = R(64, LE);
  }
  bool kept = true; for (size_t k = ok ? n : 0; k < 16; ++k) kept = kept && y[k] == 0x5a;
  if (ok && !kept) memset(y, 0, 16);  // shows as a wrong value
  HEAD("Read1"); e.raw("v", Q("u", Bytes(y, n))).b("ok", ok && kept).b("kept", kept).s("ord", ord); Obs(e);
}
void ReadPtr(int i, bool at, size_t off) {
  const ReadOnlyBuffer& b = *g_s[i].b; uint32_t* p = nullptr; uint8_t* c = nullptr; bool wide = Rn(2);
  size_t n = Rn(4) ? Rn(5) : (Rn(2) ? (size_t{1} << 62) + Rn(3) : ~size_t{0} - Rn(30));
  bool ok = wide ? (at ? b.ReadPtrAt(off, &p, n) : b.ReadPtr(&p, n)) : (at ? b.ReadPtrAt(off, &c, n) : b.ReadPtr(&c, n));
  bool big = n > 1000;
  HEAD("ReadPtr"); e.i("n", big ? -1 : static_cast<long>(n)).i("w", wide ? 4 : 1).b("ok", ok).raw("b", ok && !big ? Bytes(wide ? reinterpret_cast<uint8_t*>(p) : c, n * (wide ? 4 : 1)) : "[]"); Obs(e);
}
struct Op { void (*w)(int, bool, size_t); void (*r)(int, bool, size_t); };
#define OP(...) Op{WriteOne<__VA_ARGS__>, ReadOne<__VA_ARGS__>}
const Op kBase[] = {OP(bool), OP(char), OP(int8_t), OP(uint16_t), OP(int16_t), OP(uint32_t), OP(int), OP(uint64_t), OP(int64_t), OP(float), OP(double), OP(char16_t), OP(wchar_t)};
const Op kComp[] = {OP(Color8), OP(Color32), OP(std::string), OP(std::u16string), OP(std::u32string), OP(std::wstring), OP(std::vector<uint64_t>), OP(std::vector<int16_t>), OP(std::vector<std::string>), OP(std::vector<std::vector<uint8_t>>), OP(std::array<int, 3>), OP(std::array<std::vector<float>, 2>)};
const Op kMath[] = {OP(BigInt<1>), OP(BigInt<4>), OP(BabyBear), OP(KoalaBear), OP(Mersenne31), OP(F12289), OP(VGoldi), OP(bn254::Fr), OP(X2), OP(X3), OP(BabyBear4), OP(AffinePoint<S1C>), OP(JacobianPoint<S1C>), OP(ProjectivePoint<S1C>), OP(PointXYZZ<S1C>), OP(AffinePoint<G1C>), OP(Point2<int>), OP(Point3<uint16_t>), OP(Point4<int64_t>), OP(Dimensions),
  OP(Matrix<F12289>), OP(RowMajorMatrix<BabyBear>), OP(Vector<VGoldi>), OP(Eigen::Matrix<F12289, 2, 3>), OP(Eigen::Matrix<F12289, 2, Eigen::Dynamic>), OP(Eigen::Matrix<F12289, Eigen::Dynamic, 2>), OP(Eigen::Matrix<uint8_t, Eigen::Dynamic, 1>), OP(Eigen::DiagonalMatrix<F12289, Eigen::Dynamic>), OP(Eigen::DiagonalMatrix<F12289, 3>), OP(Matrix<X2>)};
const Op kCrypto[] = {OP(Dense<F12289>), OP(SparseP<F12289>), OP(Evals<VGoldi>), OP(Mle<F12289>), OP(LinearCombinationTerm<F12289>), OP(crypto::SumcheckVerifyingKey), OP(PedersenS), OP(KzgS), OP(crypto::DuplexSpongeMode), OP(crypto::SpongeState<SPar>), OP(std::vector<Dense<F12289>>)};
template <size_t N> void History(const std::string& name, const Op (&ops)[N], int steps, bool honest = false) {
  T().Shard(name);
  g_scopes.clear(); g_past.clear(); g_s.clear(); g_m.clear();
  int k = 2 + Rn(2);
  for (int i = 0; i < k; ++i) New(honest ? 1 + Rn(2) : i == 0 ? Rn(3) : i == 1 ? 1 + Rn(2) : Rn(3), Rn(3) ? Rn(40) : Rn(4));
  if (steps < 0) return;
  for (int j = 0; j < steps; ++j) {
    int i = Rn(g_s.size()); Slot& s = g_s[i]; bool at = Rn(2); size_t off; int c = Rn(100);
    if (s.b->buffer_len() > 500) { s = Slot(); (void)0; return; }
    T().Doing("step " + std::to_string(j));
    // values with an inner form are only read where they were written
    if (honest) {
      if (c < 50) { g_ty = Rn(N); ops[g_ty].w(i, true, s.b->buffer_len()); continue; }
      if (c < 60) { (Rn(2) ? WriteMany : RawWrite)(i, true, s.b->buffer_len()); continue; }
      if (c < 86 && g_past.empty()) continue;
      if (c < 86) c = 50;
    }
    if (c < 30) { off = RandOff(s, true); if (!at && s.b->buffer_offset() > s.b->buffer_len() + 8) { at = true; if (s.kind != "fixed") off = Rn(s.b->buffer_len() + 1); } g_ty = Rn(N); ops[g_ty].w(i, at, off); }
    else if (c < 36) { off = RandOff(s, true); if (s.kind != "fixed" && !at && s.b->buffer_offset() > s.b->buffer_len() + 8) { at = true; } WriteMany(i, at, off); }
    else if (c < 46) { off = RandOff(s, true); if (s.kind != "fixed" && !at && s.b->buffer_offset() > s.b->buffer_len() + 8) { at = true; } RawWrite(i, at, off); }
    else if (c < 62 && !g_past.empty()) {  // what was written there, possibly overwritten since
      Past p = g_past[Rn(4) ? g_past.size() - 1 : Rn(g_past.size())];
      if (g_s[p.i].b->endian() != p.e) { g_s[p.i].b->set_endian(p.e); Ev e("Endian"); e.i("i", p.i + 1).s("e", En(p.e)); Obs(e); }
      ops[p.ty].r(p.i, true, p.off);
    } else if (c < 70) { off = RandOff(s, false); ops[Rn(N)].r(i, at, off); }
    else if (c < 74) { off = RandOff(s, false); ReadMany(i, at, off); }
    else if (c < 80) { off = RandOff(s, false); RawRead(i, at, off); }
    else if (c < 84) { off = RandOff(s, false); ReadPtr(i, at, off); }
    else if (c < 88) { Endian en = RandEn(); s.b->set_endian(en); Ev e("Endian"); e.i("i", i + 1).s("e", En(en)); Obs(e); }
    else if (c < 91 && g_scopes.size() < 3) { Endian en = RandEn(); g_scopes.emplace_back(i, std::make_unique<base::EndianAutoReset>(*s.b, en)); Ev e("Push"); e.i("i", i + 1).s("e", En(en)); Obs(e); }
    else if (c < 94 && !g_scopes.empty()) { g_scopes.pop_back(); Ev e("Pop"); Obs(e); }
    else if (c < 96) { off = RandOff(s, false); if (s.kind != "fixed") off = Rn(s.b->buffer_len() + 4); s.b->set_buffer_offset(off); Ev e("Seek"); e.i("i", i + 1).raw("off", Off(off)); Obs(e); }
    else {  // move to another buffer of the same kind, made by move construction or assignment
      int d = -1; for (size_t x = 0; x < g_s.size(); ++x) if (static_cast<int>(x) != i && g_s[x].kind == s.kind) d = x;
      if (d < 0) {
        if (s.kind == "fixed") continue;
        bool str = s.s != nullptr; std::string got; 
        if (!g_scopes.empty()) continue;
        if (str) got = std::move(*s.s).TakeOwnedBuffer(); else { auto v = std::move(*s.v).TakeOwnedBuffer(); got = std::string(v.begin(), v.end()); }
        if (str) { auto p = std::make_unique<StringBuffer>(); s.s = p.get(); s.b = std::move(p); } else { auto p = std::make_unique<Uint8VectorBuffer>(); s.v = p.get(); s.b = std::move(p); }
        g_past.clear();
        Ev e("Take"); e.i("i", i + 1).raw("b", Bytes(got)); Obs(e);
      } else {
        Slot& t = g_s[d];
        if (s.s) { if (Rn(2)) { StringBuffer tmp(std::move(*s.s)); *t.s = std::move(tmp); } else *t.s = std::move(*s.s); }
        else if (s.v) { if (Rn(2)) { Uint8VectorBuffer tmp(std::move(*s.v)); *t.v = std::move(tmp); } else *t.v = std::move(*s.v); }
        else { if (Rn(2)) { Buffer tmp(std::move(*s.b)); *t.b = std::move(tmp); } else *t.b = std::move(*s.b); }
        for (auto& p : g_past) if (p.i == i) p.i = d;
        Ev e("Move"); e.i("i", i + 1).i("j", d + 1); Obs(e);
      }
    }
  }
}
template <typename F> bool& Mont() { return base::Copyable<F>::s_is_in_montgomery; }
int main(int argc, char** argv) {
  T().Init(argc, argv);
  BabyBear::Init(); KoalaBear::Init(); Mersenne31::Init(); F12289::Init(); VGoldi::Init(); bn254::Fr::Init(); bn254::Fq::Init(); X2::Init(); X3::Init(); BabyBear4::Init(); vhf::S1Curve::Init(); bn254::G1Curve::Init();
  for (int k = 0; k < (T().thorough() ? 200 : 40); ++k) {
    bool mo = k % 2; Mont<BabyBear>() = Mont<KoalaBear>() = Mont<F12289>() = Mont<VGoldi>() = Mont<bn254::Fr>() = Mont<bn254::Fq>() = mo;
    std::string s = std::to_string(k);
    History("builtin" + s, kBase, 40); History("composite" + s, kComp, 30); History("math" + s, kMath, 30); History("crypto" + s, kCrypto, 30, true);
  }
}
