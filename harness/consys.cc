// Histories of constraint systems being configured.
#include "vh/csutil.h"
#include "vh/dies.h"
#include "vh/f12289.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
using namespace vh;
using namespace tachyon::zk::plonk;
namespace M = tachyon::math;
namespace lookup = tachyon::zk::lookup;
namespace shuffle = tachyon::zk::shuffle;
using tachyon::zk::Rotation;
template <typename F>
struct Case {
  using X = ExpressionFactory<F>;
  std::unique_ptr<CS<F>> cs;
  bool logd, chunked = false;
  std::vector<FixedColumnKey> f;
  std::vector<AdviceColumnKey> a;
  std::vector<InstanceColumnKey> i;
  std::vector<Selector> s;
  std::vector<Challenge> h;
  std::vector<std::vector<Ex<F>>> tables;
  static int M_() { return std::is_same_v<F, M::GF7> ? 7 : 1000; }
  Rotation Rot() { return Rotation(Rn(2) ? 0 : Rn(5) == 0 ? static_cast<int>(Rn(41)) - 20 : static_cast<int>(Rn(5)) - 2); }
  AnyColumnKey Any() {
    for (;;) switch (Rn(4)) {
      case 0: if (!f.empty()) return f[Rn(f.size())]; break;
      case 1: if (!i.empty()) return i[Rn(i.size())]; break;
      default: if (!a.empty()) return a[Rn(a.size())];
    }
  }
  size_t Ask(const AnyColumnKey& k, Rotation r) {
    switch (Rn(2) ? k.type() : ColumnType::kAny) {
      case ColumnType::kFixed: return cs->QueryFixedIndex(FixedColumnKey(k), r);
      case ColumnType::kAdvice: return cs->QueryAdviceIndex(AdviceColumnKey(k), r);
      case ColumnType::kInstance: return cs->QueryInstanceIndex(InstanceColumnKey(k), r);
      default: return cs->QueryAnyIndex(k, r);
    }
  }
  size_t Get(const AnyColumnKey& k, Rotation r, bool any) {
    switch (any ? ColumnType::kAny : k.type()) {
      case ColumnType::kFixed: return cs->GetFixedQueryIndex(FixedColumnKey(k), r);
      case ColumnType::kAdvice: return cs->GetAdviceQueryIndex(AdviceColumnKey(k), r);
      case ColumnType::kInstance: return cs->GetInstanceQueryIndex(InstanceColumnKey(k), r);
      default: return cs->GetAnyQueryIndex(k, r);
    }
  }
  static int Q(const zk::Expression<F>* e) {
    using T = zk::ExpressionType;
    switch (e->type()) {
      case T::kFixed: return e->ToFixed()->query().GetIndex() + 1;
      case T::kAdvice: return e->ToAdvice()->query().GetIndex() + 1;
      case T::kInstance: return e->ToInstance()->query().GetIndex() + 1;
      default: return -1;
    }
  }
  std::vector<std::string> asked;
  // A leaf, asked for through |c| or left without a number.
  Ex<F> Leaf(VirtualCells<F>& c, int sel) {
    if (sel && !s.empty() && Rn(4) == 0) {
      Selector x = s[Rn(s.size())];
      if (sel == 2 || !x.is_simple()) return Rn(2) ? c.QuerySelector(x) : X::Selector(x);
    }
    if (!h.empty() && Rn(6) == 0) { Challenge x = h[Rn(h.size())]; return Rn(2) ? c.QueryChallenge(x) : X::Challenge(x); }
    AnyColumnKey k = Any();
    Rotation r = Rot();
    if (Rn(3)) {
      Ex<F> e;
      switch (Rn(2) ? k.type() : ColumnType::kAny) {
        case ColumnType::kFixed: e = c.QueryFixed(FixedColumnKey(k), r); break;
        case ColumnType::kAdvice: e = c.QueryAdvice(AdviceColumnKey(k), r); break;
        case ColumnType::kInstance: e = c.QueryInstance(InstanceColumnKey(k), r); break;
        default: e = c.QueryAny(k, r);
      }
      asked.push_back(CellJ(k, r));
      Ev("Query").raw("q", CellJ(k, r)).i("idx", Q(e.get()));
      return e;
    }
    switch (k.type()) {
      case ColumnType::kFixed: return X::Fixed(FixedQuery(std::nullopt, r, FixedColumnKey(k)));
      case ColumnType::kAdvice: return X::Advice(AdviceQuery(std::nullopt, r, AdviceColumnKey(k)));
      default: return X::Instance(InstanceQuery(std::nullopt, r, InstanceColumnKey(k)));
    }
  }
  Ex<F> Make(VirtualCells<F>& c, int depth, int sel) { return RandomExpr<F>(depth, [&] { return Leaf(c, sel); }); }
  // A table of |n| expressions, often one used before.
  std::vector<Ex<F>> Table(VirtualCells<F>& c, size_t n) {
    bool alike = Rn(3) == 0;
    if (!alike && !tables.empty() && Rn(3)) {
      auto& t = tables[Rn(tables.size())];
      if (t.size() == n) return zk::Expression<F>::CloneExpressions(t);
    }
    std::vector<Ex<F>> t;
    // tables whose texts run together alike
    int digits[] = {1, 2, 11, 12, 21, 111, 112, 121};
    for (size_t k = 0; k < n; ++k) if (alike) t.push_back(X::Constant(F(digits[Rn(n == 1 ? 8 : n == 2 ? 4 : 3)] % M_())));
    else t.push_back(Rn(4) == 0 ? X::Constant(F(Rn(13))) : Rn(6) == 0 ? X::Constant(F(Rn(3))) * F(Rn(13)) : Make(c, Rn(3), 1));
    tables.push_back(zk::Expression<F>::CloneExpressions(t));
    return t;
  }
  void Columns() {
    switch (Rn(6)) {
      case 0: { auto k = Rn(3) ? cs->CreateFixedColumn() : cs->CreateLookupTableColumn().column(); f.push_back(k); Ev("Col").s("t", "f").i("ph", 0).i("idx", k.index() + 1); break; }
      case 1: { auto k = cs->CreateInstanceColumn(); i.push_back(k); Ev("Col").s("t", "i").i("ph", 0).i("idx", k.index() + 1); break; }
      case 2: case 3: {
        int ph = Rn(2) ? 0 : Rn(4);
        if (ph && Dies([&] { (void)cs->CreateAdviceColumn(Phase(ph)); })) { Ev("Col").s("t", "a").i("ph", ph).i("idx", 0); break; }
        auto k = ph || Rn(2) ? cs->CreateAdviceColumn(Phase(ph)) : cs->CreateAdviceColumn();
        a.push_back(k);
        Ev("Col").s("t", "a").i("ph", k.phase().value()).i("idx", k.index() + 1);
        break;
      }
      case 4: { bool simple = Rn(2); Selector k = simple ? cs->CreateSimpleSelector() : cs->CreateComplexSelector(); s.push_back(k); Ev("Sel").b("simple", k.is_simple()).i("idx", k.index() + 1); break; }
      case 5: {
        int ph = Rn(4);
        if (Dies([&] { (void)cs->CreateChallengeUsableAfter(Phase(ph)); })) { Ev("Chal").i("ph", ph).i("idx", 0); break; }
        auto k = cs->CreateChallengeUsableAfter(Phase(ph));
        h.push_back(k);
        Ev("Chal").i("ph", k.phase().value()).i("idx", k.index() + 1);
      }
    }
  }
  void Snap() {
    auto ph = [](const std::vector<Phase>& v) { return Seq(v, [](Phase x) { return std::to_string(x.value()); }); };
    Ev e("Snap");
    e.i("nf", cs->num_fixed_columns()).i("na", cs->num_advice_columns()).i("ni", cs->num_instance_columns()).i("ns", cs->num_simple_selectors()).i("nx", cs->num_complex_selectors()).i("nsel", cs->GetNumSelectors()).i("nh", cs->num_challenges());
    e.raw("ph", ph(cs->advice_column_phases())).raw("ch", ph(cs->challenge_phases()));
    e.raw("f", QueriesJ(cs->fixed_queries())).raw("a", QueriesJ(cs->advice_queries())).raw("i", QueriesJ(cs->instance_queries()));
    e.raw("count", Seq(cs->num_advice_queries(), [](auto x) { return std::to_string(x); }));
    e.raw("perm", Seq(cs->permutation().columns(), ColJ)).raw("consts", Seq(cs->constants(), [](const FixedColumnKey& k) { return std::to_string(k.index() + 1); }));
    e.i("min", cs->minimum_degree().value_or(0)).raw("gates", GatesJ(cs->gates())).raw("lookups", LookupsJ(cs->lookups())).raw("shuffles", ShufflesJ(cs->shuffles()));
    std::string t = "[";
    for (auto& [_, x] : cs->lookups_map()) t += std::string(t.size() > 1 ? "," : "") + "{\"tab\":" + EJs<F>(x.table) + ",\"ins\":" + Seq(x.inputs, [](const std::vector<Ex<F>>& v) { return EJs<F>(v); }) + "}";
    e.raw("trk", t + "]");
  }
  void Sizes() {
    Ev e("Sizes");
    int k = Rn(12);
    e.i("degree", cs->ComputeDegree()).i("blinding", cs->ComputeBlindingFactors()).i("last", cs->ComputeLastRow()).i("minrows", cs->ComputeMinimumRows()).i("k", k).i("ext", cs->ComputeExtendedK(k)).i("chunk", cs->ComputePermutationChunkLen()).i("products", cs->ComputePermutationProductNums()).i("maxph", cs->ComputeMaxPhase().value());
    e.raw("phases", Seq(cs->GetPhases(), [](Phase x) { return std::to_string(x.value()); })).raw("ldeg", Seq(cs->lookups(), [](const lookup::Argument<F>& x) { return std::to_string(x.RequiredDegree()); }));
  }
  void Lookups(bool any) {
    size_t n = 1 + Rn(3);
    // made beforehand, so that an expression the system refuses leaves no trace
    VirtualCells<F> c(cs.get());
    std::vector<Ex<F>> ins, tab;
    std::vector<FixedColumnKey> cols;
    bool simple = Rn(5) == 0;
    for (size_t k = 0; k < n; ++k) ins.push_back(Make(c, Rn(3), simple ? 2 : 1));
    if (any) tab = Table(c, n); else for (size_t k = 0; k < n; ++k) cols.push_back(f[Rn(std::min<size_t>(2, f.size()))]);
    std::string insj = EJs<F>(ins), tabj = any ? EJs<F>(tab) : Seq(cols, [](const FixedColumnKey& k) { return std::to_string(k.index() + 1); });
    auto run = [&] {
      if (any) cs->LookupAny("any", [&](VirtualCells<F>&) { lookup::Pairs<Ex<F>> v; for (size_t k = 0; k < n; ++k) v.emplace_back(std::move(ins[k]), std::move(tab[k])); return v; });
      else cs->Lookup("table", [&](VirtualCells<F>&) { lookup::Pairs<Ex<F>, LookupTableColumn> v; for (size_t k = 0; k < n; ++k) v.emplace_back(std::move(ins[k]), LookupTableColumn(cols[k])); return v; });
    };
    bool ok = !(simple && Dies(run));
    if (ok) run();
    Ev(any ? "LookupAny" : "Lookup").raw("ins", insj).raw("tab", tabj).b("ok", ok);
  }
  void Go(int steps) {
    cs = std::make_unique<CS<F>>();
    logd = Rn(2);
    chunked = false;
    f.clear(); a.clear(); i.clear(); s.clear(); h.clear(); tables.clear();
    cs->set_lookup_type(logd ? lookup::Type::kLogDerivativeHalo2 : lookup::Type::kHalo2);
    Ev("Begin").raw("p", L(Modulus<F>())).b("logd", logd);
    for (int k = 0; k < 6; ++k) Columns();
    for (int k = 0; k < steps; ++k) {
      T().Doing("consys");
      if (a.empty() || f.empty()) { Columns(); continue; }
      switch (Rn(13)) {
        case 0: case 1: Columns(); break;
        case 2: { auto c = Any(); auto r = Rot(); Ev("Query").raw("q", CellJ(c, r)).i("idx", Ask(c, r) + 1); break; }
        case 3: {
          auto c = Any();
          auto r = Rot();
          bool any = Rn(2);
          int idx = Dies([&] { (void)Get(c, r, any); }) ? 0 : Get(c, r, any) + 1;
          Ev("Get").raw("q", CellJ(c, r)).i("idx", idx);
          break;
        }
        case 4: { auto c = Any(); cs->EnableEquality(c); std::string j = ColJ(c); Ev("Equal").raw("t", j.substr(1, 3)).i("c", c.index() + 1); break; }
        case 5: { auto c = f[Rn(f.size())]; cs->EnableConstant(c); Ev("Const").i("c", c.index() + 1); break; }
        case 6: if (Rn(3) == 0) { int d = 1 + Rn(12); cs->set_minimum_degree(d); Ev("Min").i("d", d); } break;
        case 7: {
          std::string pre;
          asked.clear();
          cs->CreateGate("gate", [&](VirtualCells<F>& c) {
            std::vector<Ex<F>> es;
            int n = 1 + Rn(3);
            for (int j = 0; j < n; ++j) es.push_back(Make(c, 1 + Rn(3), 2));
            pre = EJs<F>(es);
            std::vector<Constraint<F>> v;
            for (auto& e : es) v.push_back(Rn(2) ? Constraint<F>(std::move(e)) : Constraint<F>("part", std::move(e)));
            return v;
          });
          std::string cells = Seq(cs->gates().back().queried_cells(), [](const VirtualCell& c) { return CellJ(c.column(), c.rotation()); });
          Ev("Gate").raw("pre", pre).raw("asked", Seq(asked, [](const std::string& x) { return x; })).raw("cells", cells);
          break;
        }
        case 8: if (!chunked) Lookups(false); break;
        case 9: if (!chunked) for (int j = logd ? Rn(4) : 0; j >= 0; --j) Lookups(true); break;
        case 10: {
          std::vector<Ex<F>> ins, tab;
          size_t n = 1 + Rn(3);
          std::string ij, tj;
          size_t idx = cs->Shuffle("shuffle", [&](VirtualCells<F>& c) {
            for (size_t j = 0; j < n; ++j) { ins.push_back(Make(c, Rn(4), 1)); tab.push_back(Make(c, Rn(4), 1)); }
            ij = EJs<F>(ins); tj = EJs<F>(tab);
            shuffle::Pairs<Ex<F>> v;
            for (size_t j = 0; j < n; ++j) v.emplace_back(std::move(ins[j]), std::move(tab[j]));
            return v;
          });
          Ev("Shuffle").raw("ins", ij).raw("tab", tj).i("idx", idx + 1);
          break;
        }
        case 11: if (Rn(2)) Sizes(); else Snap(); break;
        case 12: if (logd && k > steps - 8 && !chunked) Chunk(); else if (!logd && Rn(4) == 0) Chunk(); break;
      }
    }
    if (logd && !chunked) Chunk();
    Snap();
    Sizes();
  }
  void Chunk() {
    bool ok = !Dies([&] { cs->ChunkLookups(); });
    if (ok) { cs->ChunkLookups(); chunked = true; }
    Ev("Chunk").b("ok", ok).raw("lookups", LookupsJ(cs->lookups()));
  }
};
template <typename F>
static void Run(const std::string& name, int shards, int cases, int steps) {
  for (int k = 0; k < shards; ++k) {
    T().Shard(name + std::to_string(k));
    for (int j = 0; j < cases; ++j) { Case<F> c; c.Go(steps / 2 + Rn(steps)); }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  M::GF7::Init(); M::vhf::F12289::Init(); M::bn254::Fr::Init();
  int c = th ? 40 : 12;
  Run<M::GF7>("gf7", 2, c, 40);
  Run<M::vhf::F12289>("f12289", 4, c, 40);
  Run<M::bn254::Fr>("fr", 2, c, 40);
}
