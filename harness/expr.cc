// Histories of circuit expressions: degrees, every evaluator, selector
// replacement, identifiers and compression.
#include "vh/dies.h"
#include "vh/exprutil.h"
#include "vh/f12289.h"
#include "vh/vgoldi.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/base/multi_phase_evaluations.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#include "tachyon/zk/plonk/expressions/evaluator/selector_replacer.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_extractor.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_finder.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
using namespace vh;
using namespace tachyon::zk::plonk;
namespace M = tachyon::math;
constexpr size_t kMax = 31;
template <typename F>
struct Case {
  using X = ExpressionFactory<F>;
  using Evals = M::UnivariateEvaluations<F, kMax>;
  size_t nf, na, ni, nh, ns;
  int n;
  std::vector<Evals> f, a, i;
  std::vector<F> h;
  // interned queries, as a constraint system keeps them
  std::vector<std::pair<size_t, int>> q[3];
  size_t Index(int t, size_t c, int r) {
    for (size_t k = 0; k < q[t].size(); ++k) if (q[t][k] == std::make_pair(c, r)) return k;
    q[t].push_back({c, r});
    return q[t].size() - 1;
  }
  int Rot() { return Rn(3) == 0 ? 0 : Rn(4) == 0 ? static_cast<int>(Rn(2 * n + 1)) - n : static_cast<int>(Rn(5)) - 2; }
  Ex<F> Leaf(bool sel) {
    int r = Rot();
    for (;;) switch (Rn(sel ? 6 : 4)) {
      case 0: { size_t c = Rn(nf); return X::Fixed(FixedQuery(Index(0, c, r), tachyon::zk::Rotation(r), FixedColumnKey(c))); }
      case 1: { size_t c = Rn(na); return X::Advice(AdviceQuery(Index(1, c, r), tachyon::zk::Rotation(r), AdviceColumnKey(c))); }
      case 2: { size_t c = Rn(ni); return X::Instance(InstanceQuery(Index(2, c, r), tachyon::zk::Rotation(r), InstanceColumnKey(c))); }
      case 3: return X::Challenge(Challenge(Rn(nh), kFirstPhase));
      default: { size_t c = Rn(ns); return X::Selector(c % 2 ? Selector::Simple(c) : Selector::Complex(c)); }
    }
  }
  Ex<F> Make(int depth, bool sel = false) { return RandomExpr<F>(depth, [&] { return Leaf(sel); }); }
  // a small change somewhere in the tree
  Ex<F> Vary(const zk::Expression<F>* e) {
    using T = zk::ExpressionType;
    if (Rn(7) == 0) return Rn(2) ? e->Clone() * SmallOrAny<F>() : -e->Clone();
    switch (e->type()) {
      case T::kNegated: return Rn(6) ? -Vary(e->ToNegated()->expr()) : e->ToNegated()->expr()->Clone();
      case T::kSum: { auto l = e->ToSum()->left()->Clone(), y = e->ToSum()->right()->Clone(); if (Rn(6) == 0) return std::move(l) * std::move(y); if (Rn(2)) l = Vary(l.get()); else y = Vary(y.get()); return Rn(4) ? std::move(l) + std::move(y) : std::move(y) + std::move(l); }
      case T::kProduct: { auto l = e->ToProduct()->left()->Clone(), y = e->ToProduct()->right()->Clone(); if (Rn(6) == 0) return std::move(l) + std::move(y); if (Rn(2)) l = Vary(l.get()); else y = Vary(y.get()); return Rn(4) ? std::move(l) * std::move(y) : std::move(y) * std::move(l); }
      case T::kScaled: return Rn(2) ? Vary(e->ToScaled()->expr()) * e->ToScaled()->scale() : e->ToScaled()->expr()->Clone() * SmallOrAny<F>();
      case T::kConstant: return X::Constant(SmallOrAny<F>());
      default: return Leaf(e->type() == T::kSelector);
    }
  }
  void Table() {
    n = 1 << Rn(5);
    nf = 1 + Rn(3); na = 1 + Rn(3); ni = 1 + Rn(2); nh = 1 + Rn(3); ns = 1 + Rn(4);
    for (auto& x : q) x.clear();
    auto mk = [&](size_t c) { std::vector<Evals> v; for (size_t k = 0; k < c; ++k) { std::vector<F> w; for (int j = 0; j < n; ++j) w.push_back(Rn(4) ? RandF<F>() : SmallOrAny<F>()); v.push_back(Evals(std::move(w))); } return v; };
    f = mk(nf); a = mk(na); i = mk(ni);
    h.clear();
    for (size_t k = 0; k < nh; ++k) h.push_back(RandF<F>());
    auto sh = [](const std::vector<Evals>& v) { return Seq(v, [](const Evals& e) { return FLs(e.evaluations()); }); };
    Ev("Table").raw("p", L(Modulus<F>())).i("n", n).raw("f", sh(f)).raw("a", sh(a)).raw("i", sh(i)).raw("h", FLs(h));
  }
  template <bool dom>
  void Go(int steps) {
    Table();
    for (int s = 0; s < steps; ++s) {
      T().Doing("expr");
      switch (Rn(9)) {
        case 0: {
          auto e = Make(1 + Rn(4), true);
          auto c = e->Clone();
          int simple = -1;
          // extracting from several simple selectors is refused
          if (!Dies([&] { (void)ExtractSimpleSelector(e.get()); })) { auto o = ExtractSimpleSelector(e.get()); simple = o ? static_cast<int>(o->index()) + 1 : 0; }
          Ev("Expr").raw("e", EJ<F>(e)).raw("copy", EJ<F>(c)).i("deg", e->Degree()).b("contains", ContainsSimpleSelector(e.get())).i("simple", simple);
          break;
        }
        case 1: case 2: case 3: {
          std::vector<Ex<F>> es;
          int c = 1 + Rn(4);
          for (int k = 0; k < c; ++k) { if (k && Rn(3) == 0) es.push_back(es[Rn(k)]->Clone() * es[Rn(k)]->Clone()); else es.push_back(Make(Rn(5))); }
          int scale = Rn(2) ? 1 : 1 << Rn(4);
          F y = RandF<F>(), prev = SmallOrAny<F>();
          MultiPhaseRefTable<Evals> tab(f, a, i, h);
          GraphEvaluator<F> g;
          std::vector<ValueSource> parts;
          for (auto& e : es) parts.push_back(g.AddExpression(e.get()));
          g.AddCalculation(Calculation::Horner(ValueSource::PreviousValue(), parts, ValueSource::Y()));
          F z = F::Zero();
          EvaluationInput<Evals> in(g.CreateInitialIntermediates(), g.CreateEmptyRotations(), tab, z, z, z, y, n);
          std::vector<int> idx;
          std::string pv = "[", vv = "[";
          std::vector<F> gv;
          int m = 1 + Rn(4);
          for (int k = 0; k < m; ++k) {
            int row = Rn(3) ? Rn(n) : (Rn(2) ? n - 1 : 0);
            idx.push_back(row);
            ProvingEvaluator<Evals> pe(row, n, scale, tab);
            std::vector<F> evs[3];
            for (int t = 0; t < 3; ++t) for (auto& [col, rot] : q[t]) evs[t].push_back((t == 0 ? f : t == 1 ? a : i)[col][tachyon::zk::Rotation(rot).GetIndex(row, 1, n)]);
            VerifyingEvaluator<F> ve(MultiPhaseEvaluations<F>(evs[0], evs[1], evs[2], h));
            std::vector<F> ps, vs;
            for (auto& e : es) { ps.push_back(e->Evaluate(&pe)); vs.push_back(e->Evaluate(&ve)); }
            pv += (k ? "," : "") + FLs(ps); vv += (k ? "," : "") + FLs(vs);
            gv.push_back(g.Evaluate(in, row, scale, prev));
          }
          Ev("Eval").raw("es", EJs<F>(es)).i("k", scale).ints("idx", idx).raw("prov", pv + "]").raw("ver", vv + "]").raw("graph", FLs(gv)).raw("y", FL(y)).raw("prev", FL(prev));
          break;
        }
        case 4: {
          if constexpr (dom) {
          std::vector<Ex<F>> es;
          int c = 1 + Rn(4);
          for (int k = 0; k < c; ++k) es.push_back(Make(Rn(4)));
          auto d = M::UnivariateEvaluationDomainFactory<F, kMax>::Create(n);
          F theta = SmallOrAny<F>();
          MultiPhaseRefTable<Evals> tab(f, a, i, h);
          ProvingEvaluator<Evals> pe(0, n, 1, tab);
          Evals r = CompressExpressions(d.get(), es, theta, pe);
          Ev("Compress").raw("es", EJs<F>(es)).raw("theta", FL(theta)).raw("res", FLs(r.evaluations()));
          int rot = Rot();
          F x = RandF<F>();
          Ev("Omega").raw("w", FL(d->group_gen())).i("r", rot).raw("x", FL(x)).raw("res", FL(tachyon::zk::Rotation(rot).RotateOmega(d.get(), x)));
          }
          break;
        }
        case 5: {
          auto e = RandomExpr<F>(1 + Rn(4), [&]() -> Ex<F> { if (Rn(2)) { size_t c = Rn(ns); return X::Selector(c % 2 ? Selector::Simple(c) : Selector::Complex(c)); } return Leaf(false); });
          std::vector<Ex<F>> reps;
          std::vector<tachyon::base::Ref<const zk::Expression<F>>> refs;
          for (size_t k = 0; k < ns; ++k) { reps.push_back(Make(Rn(3))); refs.push_back(tachyon::base::Ref<const zk::Expression<F>>(reps.back().get())); }
          auto o = ReplaceSelectors(e.get(), refs, false);
          Ev("Replace").raw("e", EJ<F>(e)).raw("reps", EJs<F>(reps)).raw("out", EJ<F>(o));
          break;
        }
        case 6: case 7: {
          auto e = Make(1 + Rn(3));
          Ex<F> b = Rn(4) == 0 ? e->Clone() : Vary(e.get());
          Ev("Ident").raw("a", EJ<F>(e)).raw("b", EJ<F>(b)).b("same", GetIdentifier(e.get()) == GetIdentifier(b.get())).b("eq", *e == *b).b("ne", *e != *b);
          break;
        }
        case 8: {
          int size = 1 + Rn(70), idx = Rn(size), k = 1 << Rn(4), r = static_cast<int>(Rn(41)) - 20;
          Ev("Rot").i("idx", idx).i("r", r).i("k", k).i("size", size).i("res", tachyon::zk::Rotation(r).GetIndex(idx, k, size));
          break;
        }
      }
    }
  }
};
template <typename F, bool dom>
static void Run(const std::string& name, int shards, int steps) {
  for (int k = 0; k < shards; ++k) {
    T().Shard(name + std::to_string(k));
    Case<F> c;
    for (int j = 0; j < 4; ++j) c.template Go<dom>(steps);
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  M::GF7::Init(); M::vhf::F12289::Init(); M::vhf::VGoldi::Init(); M::bn254::Fr::Init();
  int n = th ? 200 : 40;
  Run<M::GF7, false>("gf7", 2, n);
  Run<M::vhf::F12289, false>("f12289", 2, n);
  Run<M::vhf::VGoldi, true>("goldi", 2, n);
  Run<M::bn254::Fr, true>("fr", 2, n / 2);
}
