// Histories of evaluation domains: creation, cosets, transforms, Lagrange
// coefficients, vanishing and filter polynomials, batched transforms.
#include "vh/extutil.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "vh/vgoldi.h"
using namespace vh;
using namespace tachyon::math;
constexpr size_t kMax = (size_t{1} << 13) - 1;
template <typename F, bool kMixed>
struct M {
  using D = UnivariateEvaluationDomain<F, kMax>;
  using P = UnivariateDensePolynomial<F, kMax>;
  using V = UnivariateEvaluations<F, kMax>;
  std::unique_ptr<D> d[4];
  static std::string PL(const P& p) { return ELs(p.coefficients().coefficients()); }
  static std::vector<F> RandV(size_t n) { std::vector<F> v; int mode = Rn(4); for (size_t i = 0; i < n; ++i) v.push_back(mode == 0 && Rn(3) ? F::Zero() : RandE<F>()); return v; }
  size_t max_n = 20;
  void Create(int o) {
    static const size_t ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 24, 25, 32, 33, 48, 49, 64, 96, 128, 100};
    size_t n; do n = ns[Rn(23)]; while (n > max_n);
    bool mixed = kMixed && Rn(3);
    if constexpr (kMixed) { if (mixed) d[o] = MixedRadixEvaluationDomain<F, kMax>::Create(n); }
    if (!mixed) { if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) d[o] = D::Create(n); else d[o] = Radix2EvaluationDomain<F, kMax>::Create(n); }
    Desc("Create", o, [&](Ev& e) { e.s("kind", mixed ? "mixed" : "radix2").i("n", n).u64("logn", 0); });
  }
  template <typename X> void Desc(const char* op, int o, X x) {
    Ev e(op); D& k = *d[o];
    e.i("d", o + 1).i("size", k.size()).i("log", k.log_size_of_group()).raw("g", EL(k.group_gen())).raw("gi", EL(k.group_gen_inv())).raw("sf", EL(k.size_as_field_element())).raw("si", EL(k.size_inv()))
        .raw("off", EL(k.offset())).raw("offi", EL(k.offset_inv())).raw("offn", EL(k.offset_pow_size()));
    x(e);
  }
  static F NonZero() { F x; do x = RandE<F>(); while (x.IsZero()); return x; }
  F Tau(int a) { switch (Rn(6)) { case 0: return d[a]->GetElement(Rn(d[a]->size())); case 1: return F::Zero(); case 2: return F::One(); default: return RandE<F>(); } }
  void Step() {
    int a = Rn(4), o = Rn(4);
    D& k = *d[a]; size_t n = k.size();
    switch (Rn(16)) {
      case 0: Create(o); break;
      case 1: { F x = Rn(4) ? NonZero() : F::One(); d[o] = d[a]->GetCoset(x); Desc("Coset", o, [&](Ev& e) { e.i("a", a + 1).raw("x", EL(x)); }); break; }
      case 2: case 3: { size_t m = Rn(2) ? n : Rn(n + 1); if (Rn(4) == 0) m = std::min<size_t>(m, Rn(3)); std::vector<F> c = RandV(m); P p(typename P::Coefficients(c, true));
        std::string s = PL(p); V v; if (Rn(2)) v = k.FFT(p); else v = k.FFT(std::move(p)); Ev e("FFT"); e.i("a", a + 1).raw("p", s).raw("v", ELs(v.evaluations())); break; }
      case 4: case 5: { size_t m = Rn(3) ? n : Rn(n + 1); std::vector<F> c = RandV(m); V v(c); P p; if (Rn(2)) p = k.IFFT(v); else p = k.IFFT(std::move(v)); Ev e("IFFT"); e.i("a", a + 1).raw("p", ELs(c)).raw("v", PL(p)); break; }
      case 6: { if (n > 33) break; F tau = Tau(a); std::vector<F> r; size_t from = 0, to = n;
        switch (Rn(3)) {
          case 0: r = k.EvaluateAllLagrangeCoefficients(tau); break;
          case 1: from = Rn(n + 1); to = from + Rn(n - from + 1); r = k.EvaluatePartialLagrangeCoefficients(tau, tachyon::base::Range<size_t>(from, to)); break;
          case 2: from = Rn(n); to = from + Rn(n - from); r = k.EvaluatePartialLagrangeCoefficients(tau, tachyon::base::Range<size_t, true, true>(from, to)); ++to; break;
        }
        Ev e("Lag"); e.i("a", a + 1).i("from", from).i("to", to).raw("tau", EL(tau)).raw("v", ELs(r)); break; }
      case 7: { F tau = Tau(a); auto z = k.GetVanishingPolynomial(); Ev e("Van"); e.i("a", a + 1).raw("tau", EL(tau)).raw("v", EL(k.EvaluateVanishingPolynomial(tau)))
          .raw("terms", Seq(z.coefficients().terms(), [](const auto& t) { return "[" + std::to_string(t.degree) + "," + EL(t.coefficient) + "]"; })); break; }
      case 8: { // a sub-coset of domain a
        size_t m = 1; std::vector<size_t> ms; for (m = 1; m <= n; m *= 2) if (n % m == 0) ms.push_back(m);
        m = ms[Rn(ms.size())]; auto s = Radix2EvaluationDomain<F, kMax>::Create(m); F x = k.GetElement(Rn(n)); if (Rn(3) == 0) x = k.offset();
        d[o] = s->GetCoset(x);
        { Ev e("Create"); D& q = *s; e.s("kind", "radix2").i("n", m).i("d", o + 1).i("size", q.size()).i("log", q.log_size_of_group()).raw("g", EL(q.group_gen())).raw("gi", EL(q.group_gen_inv())).raw("sf", EL(q.size_as_field_element())).raw("si", EL(q.size_inv())).raw("off", EL(q.offset())).raw("offi", EL(q.offset_inv())).raw("offn", EL(q.offset_pow_size())); }
        Desc("Coset", o, [&](Ev& e) { e.i("a", o + 1).raw("x", EL(x)); });
        if (a == o) break;
        F tau = Tau(Rn(2) ? a : o);
        auto f = k.GetFilterPolynomial(*d[o]); auto at = k.EvaluateFilterPolynomial(*d[o], tau);
        Ev e("Filter"); e.i("a", a + 1).i("b", o + 1).raw("tau", EL(tau)).raw("v", PL(f)).raw("at", at ? EL(*at) : "\"none\""); break; }
      case 9: { int64_t i = int64_t(Rn(3 * n)) - int64_t(n); Ev e("Elem"); e.i("a", a + 1).i("i", i).raw("v", EL(k.GetElement(i))); break; }
      case 10: { Ev e("Elems"); e.i("a", a + 1).raw("v", ELs(k.GetElements())); break; }
      case 11: { size_t m = Rn(n) + 1; Ev e("Roots"); e.i("a", a + 1).i("n", m).raw("v", ELs(D::GetRootsOfUnity(m, k.group_gen()))); break; }
      case 12: { std::vector<F> c = RandV(Rn(n) + 1); F x = RandE<F>(); V v(c); D::DistributePowers(v, x); Ev e("Distr"); e.raw("p", ELs(c)).raw("x", EL(x)).raw("v", ELs(v.evaluations())); break; }
      case 13: { Ev e("Out"); e.i("a", a + 1).raw("v", EL(k.SampleElementOutsideDomain())); break; }
      case 14: { std::vector<F> c = RandV(size_t{1} << Rn(6)); Ev e("Rev"); e.raw("p", ELs(c)).raw("v", ELs(SwapBitRevElements(c))); break; }
      case 15: EvOp(); break;
    }
  }
  void EvOp() {
    size_t n = Rn(9);
    std::vector<F> x = RandV(n), y = RandV(n);
    if (Rn(8) == 0) x.clear();
    if (Rn(8) == 0) y.clear();
    if (Rn(8) == 0) for (auto& v : x) v = F::Zero();
    if (Rn(8) == 0) for (auto& v : x) v = F::One();
    if (Rn(6) == 0 && x.size() == y.size()) y = x;
    F c = RandE<F>();
    V a(x), b(y); bool in = Rn(2), al = Rn(6) == 0;
    if (al) { y = x; b = a; }
    const V& bb = al && in ? a : b;
    auto out = [&](const char* k, const V& v) { Ev e("EvOp"); e.s("kind", k).raw("p", ELs(x)).raw("q", ELs(y)).raw("x", EL(c)).b("ok", true).raw("v", ELs(v.evaluations())); };
    auto bad = [&](const char* k) { Ev e("EvOp"); e.s("kind", k).raw("p", ELs(x)).raw("q", ELs(y)).raw("x", EL(c)).b("ok", false); };
    switch (Rn(8)) {
      case 0: if (in) { a += bb; out("add", a); } else out("add", a + b); break;
      case 1: if (in) { a -= bb; out("sub", a); } else out("sub", a - b); break;
      case 2: if (in) { a *= bb; out("mul", a); } else out("mul", a * b); break;
      case 3: if (in) { a.NegateInPlace(); out("neg", a); } else out("neg", -a); break;
      case 4: if (Rn(4) == 0) c = F::Zero(); if (in) { a *= c; out("scale", a); } else out("scale", a * c); break;
      case 5: { if (Rn(2)) { for (auto& v : y) if (v.IsZero()) v = F::One(); if (al) { x = y; a = V(x); } b = V(y); }
        if (in) { if (a /= bb) out("div", a); else bad("div"); } else { auto r = a / b; if (r) out("div", *r); else bad("div"); } break; }
      case 6: if (Rn(4) == 0) c = F::Zero(); if (in) { if (a /= c) out("sdiv", a); else bad("sdiv"); } else { auto r = a / c; if (r) out("sdiv", *r); else bad("sdiv"); } break;
      case 7: { Ev e("EvOp"); e.s("kind", "cmp").raw("p", ELs(x)).raw("q", ELs(y)).b("eq", a == b).b("ne", a != b).b("z", a.IsZero()).b("one", a.IsOne()); break; }
    }
  }
  void Run(const char* name, int steps, int parts, size_t mx) {
    F::Init(); max_n = mx;
    for (int k = 0; k < parts; ++k) {
      T().Shard(std::string(name) + std::to_string(k)); T().Doing(name);
      { Ev e("Field"); e.s("name", name).raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]"); }
      for (int i = 0; i < 4; ++i) Create(i);
      for (int i = 0; i < steps; ++i) { T().Doing(name + std::to_string(i)); Step(); }
    }
  }
};
// Transforms over a domain of a size that was so far only the target of a low-degree extension.
template <typename F>
void AfterLde(const char* name) {
  F::Init(); PackedFieldTraits<F>::PackedField::Init();
  using R = Radix2EvaluationDomain<F, kMax>;
  T().Shard(std::string("after lde ") + name); T().Doing(std::string("after lde ") + name);
  { Ev e("Field"); e.s("name", name).raw("p", ModL<F>()).raw("ext", "[]"); }
  M<F, false> m;
  auto make = [&](int o, size_t n) { m.d[o] = R::Create(n); m.Desc("Create", o, [&](Ev& e) { e.s("kind", "radix2").i("n", n).u64("logn", 0); }); };
  auto use = [&](int o, size_t deg) {
    std::vector<F> c; for (size_t i = 0; i < deg; ++i) c.push_back(RandE<F>());
    typename M<F, false>::P p(typename M<F, false>::P::Coefficients(c, true));
    auto v = m.d[o]->FFT(p);
    { Ev e("FFT"); e.i("a", o + 1).raw("p", ELs(p.coefficients().coefficients())).raw("v", ELs(v.evaluations())); }
    c = M<F, false>::RandV(m.d[o]->size());
    auto q = m.d[o]->IFFT(typename M<F, false>::V(c));
    { Ev e("IFFT"); e.i("a", o + 1).raw("p", ELs(c)).raw("v", M<F, false>::PL(q)); }
  };
  size_t from[] = {2, 4, 16, 32};
  uint32_t by[] = {1, 2, 1, 2};
  for (int i = 0; i < 4; ++i) {
    size_t n = from[i];
    auto small = R::Create(n);
    RowMajorMatrix<F> in(n, 2), out(n << by[i], 2);
    for (size_t r = 0; r < n; ++r) for (int c = 0; c < 2; ++c) in(r, c) = RandE<F>();
    small->CosetLDEBatch(in, by[i], F::FromMontgomery(F::Config::kSubgroupGenerator), out);
    make(0, n << by[i]);
    use(0, (n << by[i]) / (1 + Rn(3)));
    make(1, n); use(1, n);
    small->CosetLDEBatch(in, by[i], F::One(), out);
    use(0, n);
    make(2, n << by[i]); use(2, n << by[i]);
  }
}
template <typename F>
void Batches(const char* name, int parts, int steps) {
  F::Init(); PackedFieldTraits<F>::PackedField::Init();
  using R = Radix2EvaluationDomain<F, kMax>;
  auto cols = [](const RowMajorMatrix<F>& m) { std::string s = "["; for (int c = 0; c < m.cols(); ++c) { std::vector<F> v; for (int r = 0; r < m.rows(); ++r) v.push_back(m(r, c)); if (c) s += ","; s += ELs(v); } return s + "]"; };
  for (int k = 0; k < parts; ++k) {
    T().Shard(std::string("batch") + name + std::to_string(k)); T().Doing(name);
    { Ev e("Field"); e.s("name", name).raw("p", ModL<F>()).raw("ext", "[]"); }
    for (int i = 0; i < steps; ++i) {
      uint32_t lg = 1 + Rn(i == 0 ? 8 : 5); size_t n = size_t{1} << lg; static const int cs[] = {1, 2, 3, 7, 8, 15, 16, 17, 20, 33}; int c = cs[Rn(n > 64 ? 4 : 10)];
      RowMajorMatrix<F> m(n, c); for (size_t r = 0; r < n; ++r) for (int q = 0; q < c; ++q) m(r, q) = RandE<F>();
      F g; CHECK(F::GetRootOfUnity(n, &g));
      std::string in = cols(m); bool naive = Rn(4) == 0; int kind = Rn(4);
      T().Doing(std::string(name) + " batch " + std::to_string(kind) + " rows " + std::to_string(n) + " cols " + std::to_string(c));
      auto dom = R::Create(n); NaiveBatchFFT<F> nb;
      if (kind == 0) { if (naive) nb.FFTBatch(m); else dom->FFTBatch(m); Ev e("Batch"); e.s("kind", "fft").b("naive", naive).raw("p", in).raw("g", EL(g)).raw("v", cols(m)); }
      else if (kind == 1) { if (naive) nb.IFFTBatch(m); else nb.IFFTBatch(m); Ev e("Batch"); e.s("kind", "ifft").b("naive", naive).raw("p", in).raw("g", EL(g)).raw("v", cols(m)); }
      else {
        uint32_t bits = Rn(n > 32 ? 2 : 4); F x; do x = RandE<F>(); while (x.IsZero()); if (Rn(4) == 0) x = F::FromMontgomery(F::Config::kSubgroupGenerator);
        RowMajorMatrix<F> out(n << bits, c); bool rev = true, cp = Rn(2); F g2; CHECK(F::GetRootOfUnity(n << bits, &g2));
        if (naive) { if (cp) nb.CosetLDEBatch(m, bits, x, out); else nb.CosetLDEBatch(std::move(m), bits, x, out); }
        else { rev = Rn(3); if (rev && Rn(2)) { if (cp) dom->CosetLDEBatch(m, bits, x, out); else dom->CosetLDEBatch(std::move(m), bits, x, out); } else if (cp) dom->CosetLDEBatch(m, bits, x, out, rev); else dom->CosetLDEBatch(std::move(m), bits, x, out, rev); }
        Ev e("Batch"); e.s("kind", "lde").b("naive", naive).b("copy", cp).b("rev", rev).i("bits", bits).raw("x", EL(x)).raw("p", in).raw("g", EL(g)).raw("g2", EL(g2)).raw("v", cols(out));
      }
    }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough(); int s = th ? 6 : 1;
  AfterLde<BabyBear>("BabyBear");
  AfterLde<KoalaBear>("KoalaBear");
  M<KoalaBear, false>().Run("KoalaBear", 150, 6 * s, 64);
  M<vhf::VGoldi, true>().Run("VGoldi", 150, 6 * s, 24);
  M<vhf::VGoldi, true>().Run("VGoldiL", 40, 4 * s, 128);
  M<bn254::Fr, false>().Run("Fr", 100, 3 * s, 17);
  M<BabyBear, false>().Run("BabyBear", 80, 3 * s, 128);
  Batches<BabyBear>("BabyBear", 6 * s, 12);
  Batches<KoalaBear>("KoalaBear", 6 * s, 12);
}
