// The exported C functions (and their C++ wrappers) on field elements, points, polynomials and matrices.
#include <fcntl.h>
#include <unistd.h>
#include <map>
#include <new>
#include <sstream>
#include "vh/dies.h"
#include "vh/ecutil.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/msm.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/msm.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq_type_traits.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations_type_traits.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/g1.h"

// blocks obtained and given back inside calls of the API
static int g_on = 0;
static long g_live = 0;
struct In { In() { ++g_on; } ~In() { --g_on; } };
void* operator new(size_t n) { if (g_on) ++g_live; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (g_on && p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (g_on && p) --g_live; free(p); }

using namespace vh;
namespace cb = tachyon::c::base;
namespace bn = tachyon::math::bn254;
namespace bls = tachyon::math::bls12_381;
namespace cbn = tachyon::cc::math::bn254;
namespace cbls = tachyon::cc::math::bls12_381;
using tachyon::math::BabyBear;
using tachyon::math::BabyBear4;

// ---------------------------------------------------------------- field elements
#define FIELD(N, NT) \
  struct A_##N { using C = tachyon_##N; using T = NT; static constexpr const char* kName = #N; \
    static C zero() { return tachyon_##N##_zero(); } static C one() { return tachyon_##N##_one(); } static C minus_one() { return tachyon_##N##_minus_one(); } static C random() { return tachyon_##N##_random(); } \
    static C un(int k, const C* a) { switch (k) { case 0: return tachyon_##N##_neg(a); case 1: return tachyon_##N##_dbl(a); case 2: return tachyon_##N##_sqr(a); default: return tachyon_##N##_inv(a); } } \
    static C bi(int k, const C* a, const C* b) { switch (k) { case 0: return tachyon_##N##_add(a, b); case 1: return tachyon_##N##_sub(a, b); case 2: return tachyon_##N##_mul(a, b); default: return tachyon_##N##_div(a, b); } } \
    static bool cmp(int k, const C* a, const C* b) { switch (k) { case 0: return tachyon_##N##_eq(a, b); case 1: return tachyon_##N##_ne(a, b); case 2: return tachyon_##N##_gt(a, b); case 3: return tachyon_##N##_ge(a, b); case 4: return tachyon_##N##_lt(a, b); default: return tachyon_##N##_le(a, b); } } };
FIELD(bn254_fq, bn::Fq)
FIELD(bn254_fr, bn::Fr)
FIELD(bn254_fq2, bn::Fq2)
FIELD(bn254_fq6, bn::Fq6)
FIELD(bn254_fq12, bn::Fq12)
FIELD(bls12_381_fq, bls::Fq)
FIELD(bls12_381_fr, bls::Fr)
FIELD(bls12_381_fq2, bls::Fq2)
FIELD(bls12_381_fq6, bls::Fq6)
FIELD(bls12_381_fq12, bls::Fq12)
FIELD(baby_bear, BabyBear)
FIELD(baby_bear4, BabyBear4)

// the same through the C++ wrappers
#define CCFIELD(N, CCT, NT) \
  struct W_##N { using C = tachyon_##N; using T = NT; static constexpr const char* kName = #N " (cc)"; using W = CCT; \
    static C zero() { return W::Zero().value(); } static C one() { return W::One().value(); } static C minus_one() { return W::MinusOne().value(); } static C random() { return W::Random().value(); } \
    static C un(int k, const C* a) { W w(*a); switch (k) { case 0: return (-w).value(); case 1: return w.Double().value(); case 2: return w.Square().value(); default: return w.Inverse().value(); } } \
    static C bi(int k, const C* a, const C* b) { const W w(*a), v(*b); W x(*a); if (Rn(2)) switch (k) { case 0: return (w + v).value(); case 1: return (w - v).value(); case 2: return (w * v).value(); default: return (w / v).value(); } \
      switch (k) { case 0: x += v; break; case 1: x -= v; break; case 2: x *= v; break; default: x /= v; } return *x.value_ptr(); } \
    static bool cmp(int k, const C* a, const C* b) { W w(*a), v(*b); switch (k) { case 0: return w == v; case 1: return w != v; case 2: return w > v; case 3: return w >= v; case 4: return w < v; default: return w <= v; } } };
CCFIELD(bn254_fq, cbn::Fq, bn::Fq)
CCFIELD(bn254_fr, cbn::Fr, bn::Fr)
CCFIELD(bls12_381_fq, cbls::Fq, bls::Fq)
CCFIELD(bls12_381_fr, cbls::Fr, bls::Fr)

template <typename T, typename C> static std::string VJ(const C& c) { static_assert(sizeof(C) == sizeof(T)); T t; memcpy(static_cast<void*>(&t), &c, sizeof(t)); return EL(t); }
template <typename A> static void FieldOps(int n) {
  using C = typename A::C;
  using T = typename A::T;
  static_assert(sizeof(C) == sizeof(T));
  vh::T().Shard(A::kName);
  vh::T().Doing(A::kName);
  T::Init();
  Ev("Field").raw("p", ModL<T>()).raw("ext", "[" + ExtLevels<T>() + "]");
  Ev("Const").raw("zero", VJ<T>(A::zero())).raw("one", VJ<T>(A::one())).raw("minus", VJ<T>(A::minus_one())).raw("random", VJ<T>(A::random()));
  static const char* un[] = {"neg", "dbl", "sqr", "inv"};
  static const char* bi[] = {"add", "sub", "mul", "div"};
  for (int i = 0; i < n; ++i) {
    T x = RandE<T>(), y = Rn(5) ? RandE<T>() : Rn(2) ? x : -x;
    C a, b;
    memcpy(&a, &x, sizeof(a));
    memcpy(&b, &y, sizeof(b));
    const C* q = Rn(6) ? &b : &a;  // the operands may be the same object
    if (q == &a) { y = x; }
    int k = Rn(4);
    if (k < 3 || !x.IsZero()) { C r = A::un(k, &a); Ev("Un").s("how", un[k]).raw("a", EL(x)).raw("v", VJ<T>(r)); }
    k = Rn(4);
    if (k < 3 || !y.IsZero()) { C r = A::bi(k, &a, q); Ev("Bi").s("how", bi[k]).raw("a", EL(x)).raw("b", EL(y)).raw("v", VJ<T>(r)); }
    std::vector<int> c;
    for (int j = 0; j < 6; ++j) c.push_back(A::cmp(j, &a, q));
    Ev("Cmp").raw("a", EL(x)).raw("b", EL(y)).b("eq", c[0]).b("ne", c[1]).b("gt", c[2]).b("ge", c[3]).b("lt", c[4]).b("le", c[5]).b("kept", !memcmp(&a, &x, sizeof(a)));
  }
}

// ---------------------------------------------------------------- points
#define POINT0(PRE, K, NT) \
  struct P_##PRE##_##K { using C = tachyon_##PRE##_##K; using T = NT; \
    static C zero() { return tachyon_##PRE##_##K##_zero(); } static C gen() { return tachyon_##PRE##_##K##_generator(); } static C random() { return tachyon_##PRE##_##K##_random(); } \
    static auto add(const C* a, const C* b) { return tachyon_##PRE##_##K##_add(a, b); } static auto sub(const C* a, const C* b) { return tachyon_##PRE##_##K##_sub(a, b); } \
    static C neg(const C* a) { return tachyon_##PRE##_##K##_neg(a); } static auto dbl(const C* a) { return tachyon_##PRE##_##K##_dbl(a); } \
    static bool eq(const C* a, const C* b) { return tachyon_##PRE##_##K##_eq(a, b); } static bool ne(const C* a, const C* b) { return tachyon_##PRE##_##K##_ne(a, b); }
#define POINT(PRE, K, NT) POINT0(PRE, K, NT) static constexpr bool kMixed = false; };
#define POINTM(PRE, K, NT) POINT0(PRE, K, NT) static constexpr bool kMixed = true; \
    static C addm(const C* a, const tachyon_##PRE##_affine* b) { return tachyon_##PRE##_##K##_add_mixed(a, b); } static C subm(const C* a, const tachyon_##PRE##_affine* b) { return tachyon_##PRE##_##K##_sub_mixed(a, b); } };
#define POINTS(PRE, NS, G) POINT(PRE, affine, NS::G##AffinePoint) POINTM(PRE, projective, NS::G##ProjectivePoint) POINTM(PRE, jacobian, NS::G##JacobianPoint) POINTM(PRE, xyzz, NS::G##PointXYZZ)
POINTS(bn254_g1, bn, G1)
POINTS(bn254_g2, bn, G2)
POINTS(bls12_381_g1, bls, G1)
POINTS(bls12_381_g2, bls, G2)
template <typename DW, typename W> static auto AddSub(W x, const W y, bool add) {
  if constexpr (std::is_same_v<W, DW>) {
    if (Rn(2)) { if (add) x += y; else x -= y; return x.ToCPoint(); }
  }
  return add ? (x + y).ToCPoint() : (x - y).ToCPoint();
}
// the C++ wrappers, seen as functions of C points
#define CCPOINT(PRE, K, W, NT, DW) \
  struct Q_##PRE##_##K { using C = tachyon_##PRE##_##K; using T = NT; \
    static C zero() { return W::Zero().ToCPoint(); } static C gen() { return W::Generator().ToCPoint(); } static C random() { return W::Random().ToCPoint(); } \
    static auto add(const C* a, const C* b) { return AddSub<DW>(W(*a), W(*b), true); } \
    static auto sub(const C* a, const C* b) { return AddSub<DW>(W(*a), W(*b), false); } \
    static C neg(const C* a) { return (-W(*a)).ToCPoint(); } static auto dbl(const C* a) { return W(*a).Double().ToCPoint(); } \
    static bool eq(const C* a, const C* b) { return W(*a) == W(*b); } static bool ne(const C* a, const C* b) { return W(*a) != W(*b); } static constexpr bool kMixed = false; };
#define CCPOINTS(PRE, NS, NN) CCPOINT(PRE, affine, NS::G1AffinePoint, NN::G1AffinePoint, NS::G1JacobianPoint) CCPOINT(PRE, projective, NS::G1ProjectivePoint, NN::G1ProjectivePoint, NS::G1ProjectivePoint) \
  CCPOINT(PRE, jacobian, NS::G1JacobianPoint, NN::G1JacobianPoint, NS::G1JacobianPoint) CCPOINT(PRE, xyzz, NS::G1PointXYZZ, NN::G1PointXYZZ, NS::G1PointXYZZ)
CCPOINTS(bn254_g1, cbn, bn)
CCPOINTS(bls12_381_g1, cbls, bls)

template <typename T, typename C> static C ToC(const T& t) { static_assert(sizeof(C) == sizeof(T)); C c; memcpy(&c, &t, sizeof(c)); return c; }
template <typename C> static std::string PJ(const C& c) { using T = typename cb::TypeTraits<C>::NativeType; T t; memcpy(static_cast<void*>(&t), &c, sizeof(t)); return PL(t); }
template <typename A, typename Affine> static void PointOps(int n) {
  using C = typename A::C;
  using T = typename A::T;
  using CA = typename cb::TypeTraits<Affine>::CType;
  Ev("PConst").raw("zero", PJ(A::zero())).raw("gen", PJ(A::gen())).raw("random", PJ(A::random()));
  for (int i = 0; i < n; ++i) {
    Affine x = RandPoint<typename Affine::Curve>(), y = Rn(4) ? RandPoint<typename Affine::Curve>() : Rn(2) ? x : -x;
    T xt = Rep<T>(x), yt = Rep<T>(y);
    C a = ToC<T, C>(xt), b = ToC<T, C>(yt);
    CA m = ToC<Affine, CA>(y);
    Ev e("Pt");
    e.raw("a", PL(xt)).raw("b", PL(yt));
    int k = Rn(A::kMixed ? 6 : 4);
    switch (k) {
      case 0: e.s("how", "add").raw("v", PJ(A::add(&a, &b))); break;
      case 1: e.s("how", "sub").raw("v", PJ(A::sub(&a, &b))); break;
      case 2: e.s("how", "neg").raw("v", PJ(A::neg(&a))); break;
      case 3: e.s("how", "dbl").raw("v", PJ(A::dbl(&a))); break;
      default:
        if constexpr (A::kMixed) { if (k == 4) e.s("how", "add").raw("v", PJ(A::addm(&a, &m))); else e.s("how", "sub").raw("v", PJ(A::subm(&a, &m))); }
    }
    e.b("eq", A::eq(&a, &b)).b("ne", A::ne(&a, &b));
  }
}
#define CURVE(PRE, NS, G, PRIME, N) { T().Shard(#PRE); T().Doing(#PRE); tachyon_##PRE##_init(); EvCurve<NS::G##AffinePoint::Curve>(#PRE, PRIME); \
  PointOps<P_##PRE##_affine, NS::G##AffinePoint>(N); PointOps<P_##PRE##_projective, NS::G##AffinePoint>(N); PointOps<P_##PRE##_jacobian, NS::G##AffinePoint>(N); PointOps<P_##PRE##_xyzz, NS::G##AffinePoint>(N); }
#define CCCURVE(PRE, NS, N) { T().Shard(#PRE " (cc)"); T().Doing(#PRE " (cc)"); tachyon_##PRE##_init(); EvCurve<NS::G1AffinePoint::Curve>(#PRE, true); \
  PointOps<Q_##PRE##_affine, NS::G1AffinePoint>(N); PointOps<Q_##PRE##_projective, NS::G1AffinePoint>(N); PointOps<Q_##PRE##_jacobian, NS::G1AffinePoint>(N); PointOps<Q_##PRE##_xyzz, NS::G1AffinePoint>(N); }
#define MSM(PRE, NS, N) { T().Shard(#PRE " msm"); T().Doing(#PRE " msm"); tachyon_##PRE##_g1_init(); EvCurve<NS::G1AffinePoint::Curve>(#PRE, true); \
  tachyon_##PRE##_g1_msm_ptr ms[2] = {tachyon_##PRE##_g1_create_msm(4), tachyon_##PRE##_g1_create_msm(0)}; \
  for (int i = 0; i < N; ++i) { \
    size_t sz = Rn(4) ? Rn(7) : Rn(40); \
    std::vector<NS::G1AffinePoint> bs; std::vector<NS::Fr> ks; \
    for (size_t j = 0; j < sz; ++j) { bs.push_back(j && Rn(5) == 0 ? bs[Rn(j)] : RandPoint<NS::G1AffinePoint::Curve>()); ks.push_back(RandS<NS::Fr>()); } \
    const tachyon_##PRE##_fr* kp = reinterpret_cast<const tachyon_##PRE##_fr*>(ks.data()); \
    bool p2 = Rn(2); auto m = ms[Rn(2)]; \
    tachyon_##PRE##_g1_jacobian* r = p2 ? tachyon_##PRE##_g1_point2_msm(m, reinterpret_cast<const tachyon_##PRE##_g1_point2*>(bs.data()), kp, sz) : tachyon_##PRE##_g1_affine_msm(m, reinterpret_cast<const tachyon_##PRE##_g1_affine*>(bs.data()), kp, sz); \
    Ev("Msm").raw("x", PLs(bs)).raw("ks", FLs(ks)).raw("v", PJ(*r)); delete r; } \
  tachyon_##PRE##_g1_destroy_msm(ms[0]); tachyon_##PRE##_g1_destroy_msm(ms[1]); }

// ---------------------------------------------------------------- handles
using Fr = bn::Fr;
#define U(x) tachyon_bn254_univariate_##x
struct Obj { char k; void* p; };  // d domain, p polynomial, e evaluations, r rational evaluations, m matrix
static std::map<int, Obj> objs;
static tachyon_bn254_fr CF(const Fr& f) { return ToC<Fr, tachyon_bn254_fr>(f); }
static U(dense_polynomial)* AsP(const Obj& o) { return static_cast<U(dense_polynomial)*>(o.p); }
static U(evaluations)* AsE(const Obj& o) { return static_cast<U(evaluations)*>(o.p); }
static U(rational_evaluations)* AsR(const Obj& o) { return static_cast<U(rational_evaluations)*>(o.p); }
static U(evaluation_domain)* AsD(const Obj& o) { return static_cast<U(evaluation_domain)*>(o.p); }
static tachyon_baby_bear_row_major_matrix* AsM(const Obj& o) { return static_cast<tachyon_baby_bear_row_major_matrix*>(o.p); }
static std::string Val(const Obj& o) {
  switch (o.k) {
    case 'd': { auto* d = cb::native_cast(AsD(o)); return "[" + std::to_string(d->size()) + "," + FL(d->group_gen()) + "]"; }
    case 'p': { auto& p = cb::native_cast(*AsP(o)); return FLs(p.coefficients().coefficients()); }
    case 'e': { auto& e = cb::native_cast(*AsE(o)); return FLs(e.evaluations()); }
    case 'r': { auto& e = cb::native_cast(*AsR(o)); return Seq(e.evaluations(), [](const auto& r) { return "[" + FL(r.numerator()) + "," + FL(r.denominator()) + "]"; }); }
    default: {
      std::string s = "[";
      size_t r = tachyon_baby_bear_row_major_matrix_get_rows(AsM(o)), c = tachyon_baby_bear_row_major_matrix_get_cols(AsM(o));
      auto* q = tachyon_baby_bear_row_major_matrix_get_const_data_ptr(AsM(o));
      for (size_t i = 0; i < r; ++i) {
        std::vector<BabyBear> row;
        for (size_t j = 0; j < c; ++j) {
          tachyon_baby_bear x = tachyon_baby_bear_row_major_matrix_get_element(AsM(o), i, j);
          if (memcmp(&x, q + i * c + j, sizeof(x))) return "[\"elements and data differ\"]";
          row.push_back(cb::native_cast(x));
        }
        s += (i ? "," : "") + FLs(row);
      }
      return s + "]";
    }
  }
}
static std::string All() {
  std::string s = "[";
  for (auto& [id, o] : objs) s += (s.size() > 1 ? "," : "") + ("[" + std::to_string(id) + "," + Val(o) + "]");
  return s + "]";
}
static int Pick(const char* kinds) {
  std::vector<int> v;
  for (auto& [id, o] : objs) if (strchr(kinds, o.k)) v.push_back(id);
  return v.empty() ? 0 : v[Rn(v.size())];
}
static void Destroy(int id) {
  Obj o = objs[id];
  objs.erase(id);
  In in;
  switch (o.k) {
    case 'd': U(evaluation_domain_destroy)(AsD(o)); break;
    case 'p': U(dense_polynomial_destroy)(AsP(o)); break;
    case 'e': U(evaluations_destroy)(AsE(o)); break;
    case 'r': U(rational_evaluations_destroy)(AsR(o)); break;
    default: tachyon_baby_bear_row_major_matrix_destroy(AsM(o));
  }
}
// What the library keeps for later (powers of roots of unity) is obtained here, once.
static void Warm() {
  for (size_t n : {0, 1, 2, 4, 8}) {
    auto* d = U(evaluation_domain_create)(n);
    auto* e = U(evaluation_domain_empty_evals)(d);
    if (U(evaluations_len)(e)) { auto one = CF(Fr::One()); U(evaluations_set_value)(e, 0, &one); }
    auto* p = U(evaluation_domain_ifft)(d, e);
    auto* f = U(evaluation_domain_fft)(d, p);
    auto* q = U(evaluation_domain_ifft_inplace)(d, e);
    auto* g = U(evaluation_domain_fft_inplace)(d, p);
    auto* r = U(evaluation_domain_empty_rational_evals)(d);
    auto* b = U(rational_evaluations_batch_evaluate)(r);
    U(evaluations_destroy)(e); U(evaluations_destroy)(f); U(evaluations_destroy)(g); U(evaluations_destroy)(b);
    U(dense_polynomial_destroy)(p); U(dense_polynomial_destroy)(q); U(rational_evaluations_destroy)(r); U(evaluation_domain_destroy)(d);
  }
}
static void Handles(int steps) {
  g_live = 0;
  int next = 1;
  auto put = [&](char k, auto&& make) { void* p; { In in; p = make(); } objs[next] = {k, p}; return next++; };
  auto dom = [&] { size_t n = Rn(5) == 0 ? 0 : Rn(3) ? 1 + Rn(4) : 1 + Rn(8); int at = put('d', [&] { return U(evaluation_domain_create)(n); }); Ev("Domain").i("at", at).i("want", n).raw("all", All()); };
  dom();
  for (int i = 0; i < steps; ++i) {
    int how = Rn(objs.size() > 7 ? 24 : 20);
    T().Doing("call " + std::to_string(how));
    if (how == 0) dom();
    else if (how < 5) {
      int d = Pick("d");
      if (!d) continue;
      auto* D = AsD(objs[d]);
      char k = "per"[Rn(3)];
      int at = put(k, [&]() -> void* { if (k == 'p') return U(evaluation_domain_empty_poly)(D); if (k == 'e') return U(evaluation_domain_empty_evals)(D); return U(evaluation_domain_empty_rational_evals)(D); });
      Ev("Empty").i("dom", d).i("at", at).s("kind", std::string(1, k)).raw("all", All());
    } else if (how == 5) {
      char k = "per"[Rn(3)];
      int at = put(k, [&]() -> void* { if (k == 'p') return U(dense_polynomial_create)(); if (k == 'e') return U(evaluations_create)(); return U(rational_evaluations_create)(); });
      Ev("Create").i("at", at).s("kind", std::string(1, k)).raw("all", All());
    } else if (how < 11) {
      int x = Pick("er");
      if (!x) continue;
      Obj o = objs[x];
      size_t n = o.k == 'e' ? U(evaluations_len)(AsE(o)) : U(rational_evaluations_len)(AsR(o));
      Ev("Len").i("x", x).i("n", n);
      for (size_t j = 0; j < n; ++j) {
        if (Rn(3) == 0) continue;
        Fr a = RandF<Fr>(), b = NonZero<Fr>();
        auto ca = CF(a), cb2 = CF(b);
        size_t at = Rn(n);
        int f = Rn(3);
        if (o.k == 'e') { U(evaluations_set_value)(AsE(o), at, &ca); b = Fr::One(); f = 1; }
        else if (f == 0) { U(rational_evaluations_set_zero)(AsR(o), at); a = Fr::Zero(); b = Fr::One(); }
        else if (f == 1) { U(rational_evaluations_set_trivial)(AsR(o), at, &ca); b = Fr::One(); }
        else U(rational_evaluations_set_rational)(AsR(o), at, &ca, &cb2);
        Ev("Set").i("x", x).i("i", at).raw("a", FL(a)).raw("b", FL(b)).s("kind", std::string(1, o.k));
      }
      Ev("See").raw("all", All());
    } else if (how < 13) {
      int x = Pick("perm");
      if (!x) continue;
      Obj o = objs[x];
      int at = put(o.k, [&]() -> void* { switch (o.k) { case 'p': return U(dense_polynomial_clone)(AsP(o)); case 'e': return U(evaluations_clone)(AsE(o)); case 'r': return U(rational_evaluations_clone)(AsR(o)); default: return tachyon_baby_bear_row_major_matrix_clone(AsM(o)); } });
      Ev("Clone").i("x", x).i("at", at).raw("all", All());
    } else if (how < 16) {
      int d = Pick("d"), x = Pick("pe");
      if (!d || !x) continue;
      Obj o = objs[x];
      auto* D = AsD(objs[d]);
      size_t n = cb::native_cast(D)->size();
      // more coefficients or values than the domain has points: not asked for
      if (o.k == 'p' ? cb::native_cast(*AsP(o)).NumElements() > n : U(evaluations_len)(AsE(o)) > n) continue;
      if (o.k == 'e' && U(evaluations_len)(AsE(o)) != n && Rn(3)) continue;
      bool in = Rn(2);
      int at = put(o.k == 'p' ? 'e' : 'p', [&]() -> void* {
        if (o.k == 'p') { if (in) return U(evaluation_domain_fft_inplace)(D, AsP(o)); return U(evaluation_domain_fft)(D, AsP(o)); }
        if (in) return U(evaluation_domain_ifft_inplace)(D, AsE(o));
        return U(evaluation_domain_ifft)(D, AsE(o)); });
      if (in) Destroy(x);  // its memory may have been taken
      Ev(o.k == 'p' ? "Fft" : "Ifft").i("dom", d).i("x", x).i("at", at).b("gone", in).raw("all", All());
    } else if (how < 18) {
      int x = Pick("r");
      if (!x) continue;
      Obj o = objs[x];
      size_t n = U(rational_evaluations_len)(AsR(o));
      if (n && Rn(2)) {
        size_t j = Rn(n);
        tachyon_bn254_fr v;
        U(rational_evaluations_evaluate)(AsR(o), j, &v);
        Ev("Eval").i("x", x).i("i", j).raw("v", FL(cb::native_cast(v)));
      } else {
        int at = put('e', [&] { return U(rational_evaluations_batch_evaluate)(AsR(o)); });
        Ev("BatchEval").i("x", x).i("at", at).raw("all", All());
      }
    } else if (how == 18) {
      size_t r = 1 + Rn(4), c = 1 + Rn(4);
      std::vector<BabyBear> v;
      for (size_t j = 0; j < r * c; ++j) v.push_back(RandF<BabyBear>());
      std::string s = FLs(v);
      int at = put('m', [&] { return tachyon_baby_bear_row_major_matrix_create(cb::c_cast(v.data()), r, c); });
      for (auto& x : v) x += BabyBear::One();  // the matrix has its own
      Ev("Mat").i("at", at).i("rows", r).i("cols", c).raw("v", s).raw("all", All());
    } else if (how == 19) {
      int x = Pick("m");
      if (!x) continue;
      Obj o = objs[x];
      size_t r = tachyon_baby_bear_row_major_matrix_get_rows(AsM(o)), c = tachyon_baby_bear_row_major_matrix_get_cols(AsM(o)), a = Rn(r), b = Rn(c);
      BabyBear f = RandF<BabyBear>();
      tachyon_baby_bear_row_major_matrix_get_data_ptr(AsM(o))[a * c + b] = cb::c_cast(f);
      Ev("MatSet").i("x", x).i("r", a).i("c", b).raw("v", FL(f)).raw("all", All());
    } else {
      int x = Pick("dperm");
      if (objs[x].k == 'd' && Rn(2)) continue;
      Destroy(x);
      Ev("Destroy").i("x", x).raw("all", All());
    }
  }
  while (!objs.empty()) {
    int x = Pick("dperm");
    Destroy(x);
    Ev("Destroy").i("x", x).raw("all", All());
  }
  Ev("Over").i("blocks", g_live);
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  dup2(open("/dev/null", O_WRONLY), 1);
  int m = T().thorough() ? 4 : 1;
  FieldOps<A_bn254_fq>(40 * m);
  FieldOps<A_bn254_fr>(40 * m);
  FieldOps<A_bn254_fq2>(30 * m);
  FieldOps<A_bn254_fq6>(12 * m);
  FieldOps<A_bn254_fq12>(8 * m);
  FieldOps<A_bls12_381_fq>(40 * m);
  FieldOps<A_bls12_381_fr>(40 * m);
  FieldOps<A_bls12_381_fq2>(30 * m);
  FieldOps<A_bls12_381_fq6>(12 * m);
  FieldOps<A_bls12_381_fq12>(8 * m);
  FieldOps<A_baby_bear>(80 * m);
  FieldOps<A_baby_bear4>(40 * m);
  FieldOps<W_bn254_fq>(40 * m);
  FieldOps<W_bn254_fr>(40 * m);
  FieldOps<W_bls12_381_fq>(40 * m);
  FieldOps<W_bls12_381_fr>(40 * m);
  CURVE(bn254_g1, bn, G1, true, 16 * m)
  CURVE(bn254_g2, bn, G2, false, 12 * m)
  CURVE(bls12_381_g1, bls, G1, true, 14 * m)
  CURVE(bls12_381_g2, bls, G2, false, 12 * m)
  CCCURVE(bn254_g1, bn, 14 * m)
  CCCURVE(bls12_381_g1, bls, 12 * m)
  MSM(bn254, bn, 8 * m)
  MSM(bls12_381, bls, 6 * m)
  Fr::Init();
  BabyBear::Init();
  T().Doing("a first use");
  Warm();
  for (int i = 0; i < 8 * m; ++i) { T().Shard("handles " + std::to_string(i)); Ev("Field").raw("p", ModL<Fr>()).raw("ext", "[]"); Handles(60); }
}
