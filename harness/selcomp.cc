// Histories of selector compression.
#include "vh/csutil.h"
#include "vh/f12289.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/constraint_system/exclusion_matrix.h"
#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
using namespace vh;
using namespace tachyon::zk::plonk;
namespace M = tachyon::math;
namespace lookup = tachyon::zk::lookup;
namespace shuffle = tachyon::zk::shuffle;
using tachyon::zk::Rotation;
using Acts = std::vector<std::vector<bool>>;
static Acts Random(size_t s, int n) {
  Acts v(s, std::vector<bool>(n));
  int style = Rn(5);
  for (size_t k = 0; k < s; ++k) for (int j = 0; j < n; ++j)
    v[k][j] = style == 0 ? Rn(2) : style == 1 ? Rn(6) == 0 : style == 2 ? j == static_cast<int>(k) % n : style == 3 ? static_cast<int>(Rn(s)) == static_cast<int>(k) && Rn(2) : false;
  // each row to at most one selector
  if (style == 4) for (int j = 0; j < n; ++j) if (Rn(5)) v[Rn(s)][j] = true;
  return v;
}
static std::string ActsJ(const Acts& v) { return Seq(v, [](const std::vector<bool>& a) { std::string s = "["; for (size_t j = 0; j < a.size(); ++j) s += std::string(j ? "," : "") + (a[j] ? "true" : "false"); return s + "]"; }); }
template <typename F> std::string ColsJ(const std::vector<std::vector<F>>& v) { return Seq(v, [](const std::vector<F>& c) { return FLs(c); }); }
template <typename F>
struct Case {
  using X = ExpressionFactory<F>;
  void Process() {
    size_t s = 1 + Rn(12);
    int n = 1 + Rn(Rn(3) ? 8 : 16);
    Acts acts = Random(s, n);
    std::vector<size_t> degs;
    size_t top = 1 + Rn(9), max = 3;
    for (size_t k = 0; k < s; ++k) { degs.push_back(Rn(5) == 0 ? 0 : 1 + Rn(top)); max = std::max(max, degs.back()); }
    max += Rn(2) ? 0 : Rn(5);
    size_t cols = 0;
    SelectorCompressor<F> c;
    c.Process(acts, degs, max, [&]() { size_t k = cols++; return X::Fixed(FixedQuery(k, Rotation::Cur(), FixedColumnKey(k))); });
    Ev("Process").i("n", n).raw("acts", ActsJ(acts)).raw("degs", Seq(degs, [](size_t d) { return std::to_string(d); })).i("max", max).raw("combos", ColsJ<F>(c.combination_assignments()))
      .raw("asg", Seq(c.selector_assignments(), [](const SelectorAssignment<F>& a) { return "{\"s\":" + std::to_string(a.selector_index() + 1) + ",\"c\":" + std::to_string(a.combination_index() + 1) + ",\"e\":" + EJ<F>(a.expression()) + "}"; }));
  }
  void Matrix() {
    size_t s = 2 + Rn(6);
    int n = 1 + Rn(8);
    Acts acts = Random(s, n);
    std::vector<SelectorDescription> d;
    for (size_t k = 0; k < s; ++k) d.emplace_back(k, &acts[k], Rn(5));
    ExclusionMatrix m(d);
    std::string p = "[";
    for (size_t a = 0; a < s; ++a) for (size_t b = 0; b < s; ++b) if (a != b)
      p += std::string(p.size() > 1 ? "," : "") + "{\"a\":" + std::to_string(a + 1) + ",\"b\":" + std::to_string(b + 1) + ",\"ex\":" + (m.IsExclusive(a, b) ? "true" : "false") + ",\"orth\":" + (d[a].IsOrthogonal(d[b]) ? "true" : "false") + "}";
    Ev("Matrix").i("n", n).raw("acts", ActsJ(acts)).raw("pairs", p + "]");
  }
  void Inside() {
    CS<F> cs;
    bool logd = Rn(2);
    cs.set_lookup_type(logd ? lookup::Type::kLogDerivativeHalo2 : lookup::Type::kHalo2);
    std::vector<FixedColumnKey> f; std::vector<AdviceColumnKey> a; std::vector<InstanceColumnKey> i; std::vector<Selector> s; std::vector<Challenge> h;
    size_t nf = 1 + Rn(2), na = 1 + Rn(3), ni = Rn(2), ns = 1 + Rn(6);
    for (size_t k = 0; k < nf; ++k) f.push_back(cs.CreateFixedColumn());
    for (size_t k = 0; k < na; ++k) a.push_back(cs.CreateAdviceColumn());
    for (size_t k = 0; k < ni; ++k) i.push_back(cs.CreateInstanceColumn());
    if (Rn(2)) h.push_back(cs.CreateChallengeUsableAfter(kFirstPhase));
    std::vector<Selector> complex;
    for (size_t k = 0; k < ns; ++k) { s.push_back(Rn(4) ? cs.CreateSimpleSelector() : cs.CreateComplexSelector()); if (!s.back().is_simple()) complex.push_back(s.back()); }
    auto leaf = [&](VirtualCells<F>& c) -> Ex<F> {
      Rotation r(static_cast<int>(Rn(4)) - 1);
      if (!complex.empty() && Rn(5) == 0) return c.QuerySelector(complex[Rn(complex.size())]);
      switch (Rn(7)) {
        case 0: return c.QueryFixed(f[Rn(nf)], r);
        case 1: if (ni) return c.QueryInstance(i[Rn(ni)], r); return c.QueryAdvice(a[0], r);
        case 2: if (!h.empty()) return c.QueryChallenge(h[0]); return c.QueryAdvice(a[0], r);
        default: return c.QueryAdvice(a[Rn(na)], r);
      }
    };
    auto make = [&](VirtualCells<F>& c, int d) { return RandomExpr<F>(d, [&] { return leaf(c); }); };
    int g = 1 + Rn(6);
    for (int k = 0; k < g; ++k) cs.CreateGate("gate", [&](VirtualCells<F>& c) {
      std::vector<Constraint<F>> v;
      int m = 1 + Rn(2);
      for (int j = 0; j < m; ++j) {
        Ex<F> e = make(c, Rn(4));
        if (Rn(5)) {
          Ex<F> q = c.QuerySelector(s[Rn(ns)]);
          e = Rn(2) ? std::move(q) * std::move(e) : std::move(e) * std::move(q);
          if (Rn(5) == 0) e = -std::move(e);
          if (Rn(5) == 0) e = std::move(e) * F(3);
        }
        v.push_back(Constraint<F>(std::move(e)));
      }
      return v;
    });
    int q = Rn(3);
    for (int k = 0; k < q; ++k) {
      size_t n = 1 + Rn(2);
      if (Rn(2)) cs.Lookup("l", [&](VirtualCells<F>& c) { lookup::Pairs<Ex<F>, LookupTableColumn> v; for (size_t j = 0; j < n; ++j) v.emplace_back(make(c, Rn(3)), LookupTableColumn(f[Rn(nf)])); return v; });
      else cs.LookupAny("a", [&](VirtualCells<F>& c) { lookup::Pairs<Ex<F>> v; for (size_t j = 0; j < n; ++j) { auto x = make(c, Rn(3)), y = make(c, Rn(2)); v.emplace_back(std::move(x), std::move(y)); } return v; });
    }
    q = Rn(2);
    for (int k = 0; k < q; ++k) cs.Shuffle("s", [&](VirtualCells<F>& c) { shuffle::Pairs<Ex<F>> v; auto x = make(c, Rn(3)), y = make(c, Rn(3)); v.emplace_back(std::move(x), std::move(y)); return v; });
    if (logd) cs.ChunkLookups();
    int n = 1 + Rn(6);
    Acts acts = Random(ns, n);
    std::string gates = GatesJ(cs.gates()), lookups = LookupsJ(cs.lookups()), shuffles = ShufflesJ(cs.shuffles()), fq = QueriesJ(cs.fixed_queries());
    size_t deg = cs.ComputeDegree();
    auto combos = cs.CompressSelectors(acts);
    // a configuration's sizes are worked out from scratch in a copy of it
    size_t deg2 = 3;
    for (auto& x : cs.gates()) for (auto& e : x.polys()) deg2 = std::max(deg2, e->Degree());
    for (auto& x : cs.lookups()) deg2 = std::max(deg2, x.RequiredDegree());
    for (auto& x : cs.shuffles()) deg2 = std::max(deg2, x.RequiredDegree());
    auto col = [&] { std::vector<F> v; for (int j = 0; j < n; ++j) v.push_back(Rn(4) ? RandF<F>() : SmallOrAny<F>()); return FLs(v); };
    auto cols = [&](size_t c) { std::string o = "["; for (size_t k = 0; k < c; ++k) o += (k ? "," : "") + col(); return o + "]"; };
    std::vector<F> hv;
    for (size_t k = 0; k < h.size(); ++k) hv.push_back(RandF<F>());
    std::string tab = "{\"f\":" + cols(nf) + ",\"a\":" + cols(na) + ",\"i\":" + cols(ni) + ",\"h\":" + FLs(hv) + ",\"s\":[]}";
    Ev("Inside").i("n", n).raw("acts", ActsJ(acts)).raw("tab", tab).i("nf", nf).i("nf2", cs.num_fixed_columns()).i("deg", deg).i("deg2", deg2).raw("fq", fq).raw("fq2", QueriesJ(cs.fixed_queries()))
      .raw("map", Seq(cs.selector_map(), [](const FixedColumnKey& k) { return std::to_string(k.index() + 1); })).raw("combos", ColsJ<F>(combos))
      .raw("gates", gates).raw("gates2", GatesJ(cs.gates())).raw("lookups", lookups).raw("lookups2", LookupsJ(cs.lookups())).raw("shuffles", shuffles).raw("shuffles2", ShufflesJ(cs.shuffles()));
  }
};
template <typename F>
static void Run(const std::string& name, int shards, int steps) {
  for (int k = 0; k < shards; ++k) {
    T().Shard(name + std::to_string(k));
    Ev("Field").raw("p", L(Modulus<F>()));
    for (int j = 0; j < steps; ++j) {
      T().Doing("selcomp");
      Case<F> c;
      switch (Rn(5)) { case 0: case 1: c.Process(); break; case 2: c.Matrix(); break; default: c.Inside(); }
    }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  M::vhf::F12289::Init(); M::bn254::Fr::Init();
  Run<M::vhf::F12289>("f12289", 6, th ? 800 : 240);
  Run<M::bn254::Fr>("fr", 2, th ? 300 : 90);
}
