// Histories of multilinear extensions, sparse multivariate polynomials and
// linear combinations of multilinear terms.
#include "vh/extutil.h"
#include "absl/hash/hash.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "vh/f12289.h"
#include "vh/x2.h"
using namespace vh;
using namespace tachyon::math;
template <typename F>
struct M {
  using MD = MultilinearDenseEvaluations<F, 10>;
  using ML = MultilinearExtension<MD>;
  using C = MultivariateSparseCoefficients<F, 60>;
  using P = MultivariatePolynomial<C>;
  using El = typename C::Element;
  using Lit = typename C::Literal;
  using Term = typename C::Term;
  ML m[4];
  P p[4];
  static std::vector<F> RandV(size_t n) { std::vector<F> v; int mode = Rn(4); for (size_t i = 0; i < n; ++i) v.push_back(mode == 0 && Rn(3) ? F::Zero() : RandE<F>()); return v; }
  static std::string MLs(const ML& x) { return ELs(x.evaluations().evaluations()); }
  static std::string LitS(const Lit& l) { return Seq(l.elements, [](const El& e) { return "[" + std::to_string(e.variable) + "," + std::to_string(e.exponent) + "]"; }); }
  static std::string PS(const P& x) { return Seq(x.coefficients().terms(), [](const Term& t) { return "[" + EL(t.coefficient) + "," + LitS(t.literal) + "]"; }); }
  static Lit RandLit() {
    std::vector<El> e; size_t v = 0;
    while (v < 4) { if (Rn(2)) e.push_back({v, Rn(3) ? 1 : Rn(4) + 1}); ++v; }
    if (Rn(3) == 0 && e.size() > 1) e.resize(1);
    if (e.empty() || Rn(10) == 0) { e.clear(); e.push_back({Rn(3) ? 0 : Rn(3), 0}); }
    return Lit(std::move(e));
  }
  void OutM(const char* op, int o, const ML& v, int a, int b = 0, const std::string& x = "") {
    Ev e(op); e.i("d", o + 1).raw("v", MLs(v)).i("a", a + 1).i("b", b + 1); if (!x.empty()) e.raw("x", x); m[o] = v;
  }
  void OutP(const char* op, int o, const P& v, int a, int b = 0) {
    Ev e(op); e.i("d", o + 1).raw("v", PS(v)).i("a", a + 1).i("b", b + 1).i("deg", v.Degree()).i("nv", v.coefficients().num_vars()); p[o] = v;
  }
  void NewM(int o) {
    if (Rn(8) == 0) { OutM("MSet", o, ML::Zero(), 0, 0, "[]"); return; }
    size_t n = Rn(4) + (Rn(3) == 0); std::vector<F> v = RandV(size_t{1} << n);
    if (Rn(8) == 0) for (auto& x : v) x = Rn(2) ? F::One() : F::Zero();
    if (Rn(10) == 0) { OutM("MOne", o, ML::One(n), 0, 0, std::to_string(n)); return; }
    std::string s = ELs(v);
    OutM("MSet", o, Rn(2) ? ML(MD(v)) : ML(MD(std::move(v))), 0, 0, s);
  }
  void NewP(int o) {
    std::vector<Term> t; size_t n = Rn(7);
    std::string raw; 
    for (size_t i = 0; i < n; ++i) t.push_back({i && Rn(5) == 0 ? t[Rn(i)].literal : RandLit(), RandE<F>()});
    raw = Seq(t, [](const Term& t) { return "[" + EL(t.coefficient) + "," + LitS(t.literal) + "]"; });
    std::sort(t.begin(), t.end());
    C c = t.empty() && Rn(2) ? C::Zero() : Rn(2) ? C::CreateChecked(4, t) : C(4, std::move(t));
    c.Compact();
    P v(c);
    Ev e("PSet"); e.i("d", o + 1).raw("raw", raw).raw("v", PS(v)).i("deg", v.Degree()).i("nv", v.coefficients().num_vars()); p[o] = v;
  }
  void Lc() {
    using LC = LinearCombination<MD>;
    size_t n = Rn(4), k = Rn(4) + 1;
    LC lc(n);
    std::vector<std::shared_ptr<MD>> tabs;
    for (size_t i = 0; i < k; ++i) tabs.push_back(std::make_shared<MD>(n == 0 && Rn(5) == 0 ? MD::Zero() : MD(RandV(size_t{1} << n))));
    if (k > 1 && Rn(3) == 0) *tabs[0] = *tabs[1];
    std::string terms = "["; size_t nt = Rn(5); 
    for (size_t i = 0; i < nt; ++i) {
      size_t len = Rn(4) + 1; std::vector<std::shared_ptr<MD>> es; std::string idx = "[";
      for (size_t j = 0; j < len; ++j) { size_t q = Rn(k); es.push_back(tabs[q]); if (j) idx += ","; idx += std::to_string(q + 1); }
      F c = RandE<F>(); lc.AddTerm(c, es); if (i) terms += ","; terms += "[" + EL(c) + "," + idx + "]]";
    }
    terms += "]";
    std::vector<F> x = RandV(n);
    Ev e("LC"); e.i("n", n).raw("tabs", Seq(tabs, [](const auto& t) { return ELs(t->evaluations()); })).raw("terms", terms).raw("x", ELs(x))
      .raw("at", EL(lc.Evaluate(x))).raw("sum", EL(lc.Combine())).i("max", lc.max_evaluations()).i("flat", lc.flattened_ml_evaluations().size()).i("nv", lc.num_variables());
  }
  void Step() {
    int a = Rn(4), b = Rn(4), o = Rn(4); if (Rn(5) == 0) b = a;
    if (Rn(2)) {
      bool fit = m[a].evaluations().evaluations().empty() || m[b].evaluations().evaluations().empty() || m[a].evaluations().evaluations().size() == m[b].evaluations().evaluations().size();
      ML x = m[a]; const ML& y = a == b && Rn(2) ? x : m[b]; bool in = Rn(2);
      switch (Rn(13)) {
        case 0: NewM(o); break;
        case 1: if (!fit) { NewM(b); break; } if (in) { x += y; OutM("MAdd", o, x, a, b); } else OutM("MAdd", o, x + y, a, b); break;
        case 2: if (!fit) { NewM(b); break; } if (in) { x -= y; OutM("MSub", o, x, a, b); } else OutM("MSub", o, x - y, a, b); break;
        case 3: if (!fit) { NewM(b); break; } if (in) { x *= y; OutM("MMul", o, x, a, b); } else OutM("MMul", o, x * y, a, b); break;
        case 4: { std::optional<ML> r; if (in) { auto q = x /= y; if (q) r = **q; } else r = x / y; Ev e("MDiv"); e.i("d", o + 1).i("a", a + 1).i("b", b + 1).raw("v", r ? MLs(*r) : "\"none\""); if (r) m[o] = *r; break; }
        case 5: if (in) { x.NegateInPlace(); OutM("MNeg", o, x, a); } else OutM("MNeg", o, -x, a); break;
        case 6: case 7: { size_t n = x.Degree(), k = Rn(n + 1); std::vector<F> pt = RandV(k); for (auto& q : pt) if (Rn(4) == 0) q = Rn(2) ? F::One() : F::Zero();
          MD e = x.evaluations(); if (in) { MD r = e.FixVariablesInPlace(pt); (void)r; OutM("MFix", o, ML(e), a, 0, ELs(pt)); } else OutM("MFix", o, ML(e.FixVariables(pt)), a, 0, ELs(pt)); break; }
        case 8: case 9: { std::vector<F> pt = RandV(x.Degree()); if (Rn(3) == 0) for (auto& q : pt) q = Rn(2) ? F::One() : F::Zero(); Ev e("MEval"); e.i("a", a + 1).raw("x", ELs(pt)).raw("v", EL(x.Evaluate(pt))); break; }
        case 10: { size_t i = Rn(20); Ev e("MLook"); e.i("a", a + 1).i("deg", x.Degree()).b("z", x.IsZero()).b("one", x.IsOne()).i("i", i).raw("at", EL(x[i])).b("eq", x == y).b("ne", x != y).i("b", b + 1).b("h", absl::HashOf(x) == absl::HashOf(y)); break; }
        default: Lc(); break;
      }
    } else {
      P x = p[a]; const P& y = a == b && Rn(2) ? x : p[b]; bool in = Rn(2);
      switch (Rn(9)) {
        case 0: NewP(o); break;
        case 1: case 2: if (in) { x += y; OutP("PAdd", o, x, a, b); } else OutP("PAdd", o, x + y, a, b); break;
        case 3: case 4: if (in) { x -= y; OutP("PSub", o, x, a, b); } else OutP("PSub", o, x - y, a, b); break;
        case 5: if (in) { x.NegateInPlace(); OutP("PNeg", o, x, a); } else OutP("PNeg", o, -x, a); break;
        case 6: case 7: { if (x.coefficients().num_vars() < 4 && !x.IsZero()) { NewP(a); break; } std::vector<F> pt = RandV(4); Ev e("PEval"); e.i("a", a + 1).raw("x", ELs(pt)).raw("v", EL(x.Evaluate(pt))); break; }
        case 8: { Lit l = !x.IsZero() && Rn(2) ? x.coefficients().terms()[Rn(x.coefficients().terms().size())].literal : RandLit();
          Ev e("PLook"); e.i("a", a + 1).i("b", b + 1).b("z", x.IsZero()).b("one", x.IsOne()).raw("lit", LitS(l)).raw("at", EL(x[l])).raw("at2", EL(static_cast<const P&>(x).at(l))).b("eq", x == y).b("ne", x != y).b("const", x.coefficients().IsConstant()); break; }
      }
    }
  }
  static void Run(const char* name, int n) {
    T().Shard(name);
    { Ev e("Field"); e.raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]"); }
    M k; 
    for (int i = 0; i < 4; ++i) { k.NewM(i); k.NewP(i); }
    for (int i = 0; i < n; ++i) k.Step();
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 8 : 1;
  GF7::Init(); bn254::Fr::Init(); vhf::F12289::Init();
  M<GF7>::Run("gf7", 900 * k); M<GF7>::Run("gf7b", 900 * k); M<vhf::F12289>::Run("f12289", 700 * k); M<bn254::Fr>::Run("bn254", 350 * k); vhf::X2::Init(); M<vhf::X2>::Run("x2", 400 * k);
}
