// Histories of circuits being laid out by both floor planners.
#include "vh/dies.h"
#include "vh/f12289.h"
#include "vh/fieldutil.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
using namespace vh;
using namespace tachyon::zk::plonk;
namespace M = tachyon::math;
using tachyon::zk::RowIndex;
using tachyon::zk::Value;
static std::string CJ(const AnyColumnKey& k) {
  int t = k.type() == ColumnType::kInstance ? 0 : k.type() == ColumnType::kAdvice ? 1 : 2;
  int ph = t == 1 ? static_cast<int>(AdviceColumnKey(k).phase().value()) : 0;
  return "[" + std::to_string(t) + "," + std::to_string(k.index()) + "," + std::to_string(ph) + "]";
}
static std::string SJ(const Selector& s) { return "[3," + std::to_string(s.index()) + ",0]"; }
template <typename F>
struct Run {
  using R = M::RationalField<F>;
  struct Op {
    std::string k;
    AnyColumnKey col;
    Selector sel = Selector::Simple(0);
    RowIndex off = 0;
    F v;
    InstanceColumnKey icol;
    RowIndex irow = 0;
    std::pair<size_t, size_t> x, y;  // region, op
  };
  struct Item {
    std::string k;
    std::vector<Op> ops;
    std::vector<std::tuple<LookupTableColumn, RowIndex, F>> cells;
    std::pair<size_t, size_t> x;
    InstanceColumnKey icol;
    RowIndex irow = 0;
    size_t reg = 0;
  };
  struct Conf {
    using Field = F;
    Conf Clone() const { return {}; }
  };
  std::vector<Item> prog;
  std::vector<const std::vector<Op>*> regs;
  std::vector<FixedColumnKey> ccols;
  std::vector<std::vector<F>> inst;

  struct Log : public Assignment<F> {
    Run* run;
    std::vector<std::string> e;
    std::vector<std::string> fills;
    void Done() {
      if (fills.empty()) return;
      std::sort(fills.begin(), fills.end());
      e.push_back("[\"fills\"," + Seq(fills, [](const std::string& s) { return s; }) + "]");
      fills.clear();
    }
    void Add(const std::string& s) { Done(); e.push_back(s); }
    void EnterRegion(std::string_view) override { Add("[\"enter\"]"); }
    void ExitRegion() override { Add("[\"exit\"]"); }
    void EnableSelector(std::string_view, Selector s, RowIndex row) override { Add("[\"sel\"," + SJ(s) + "," + std::to_string(row) + "]"); }
    Value<F> QueryInstance(const InstanceColumnKey& c, RowIndex row) override { return Value<F>::Known(run->inst[c.index()][row]); }
    void Put(const char* k, const AnyColumnKey& c, RowIndex row, typename Assignment<F>::AssignCallback a) {
      Value<R> v = std::move(a).Run();
      F w = v.value().Evaluate();
      Add(std::string("[\"") + k + "\"," + CJ(c) + "," + std::to_string(row) + "," + FL(w) + "]");
    }
    void AssignAdvice(std::string_view, const AdviceColumnKey& c, RowIndex row, typename Assignment<F>::AssignCallback a) override { Put("adv", c, row, std::move(a)); }
    void AssignFixed(std::string_view, const FixedColumnKey& c, RowIndex row, typename Assignment<F>::AssignCallback a) override { Put("fix", c, row, std::move(a)); }
    void Copy(const AnyColumnKey& a, RowIndex i, const AnyColumnKey& b, RowIndex j) override { Add("[\"copy\"," + CJ(a) + "," + std::to_string(i) + "," + CJ(b) + "," + std::to_string(j) + "]"); }
    void FillFromRow(const FixedColumnKey& c, RowIndex row, const R& v) override {
      F w = v.Evaluate();
      fills.push_back("[\"fill\"," + CJ(c) + "," + std::to_string(row) + "," + FL(w) + "]");
    }
    void PushNamespace(std::string_view) override { Add("[\"push\"]"); }
    void PopNamespace(const std::optional<std::string>&) override { Add("[\"pop\"]"); }
  };

  struct Circ : public Circuit<Conf> {
    const Run* run;
    bool witness;
    std::vector<bool>* oks;
    std::unique_ptr<Circuit<Conf>> WithoutWitness() const override {
      auto c = std::make_unique<Circ>();
      c->run = run;
      c->witness = false;
      c->oks = oks;
      return c;
    }
    void Synthesize(Conf&&, Layouter<F>* lay) const override {
      std::vector<std::vector<AssignedCell<F>>> cells;
      auto at = [&](const std::pair<size_t, size_t>& x) { return cells[x.first][x.second]; };
      for (const Item& it : run->prog) {
        if (it.k == "region") {
          cells.emplace_back();
          lay->AssignRegion("r", [&](Region<F>& g) {
            cells.back().clear();
            for (const Op& o : it.ops) {
              AssignedCell<F> c;
              auto val = [&]() { return witness ? Value<F>::Known(o.v) : Value<F>::Unknown(); };
              if (o.k == "sel") {
                if (o.off % 2) o.sel.Enable(g, o.off);
                else g.EnableSelector("s", o.sel, o.off);
              } else if (o.k == "adv") {
                c = g.AssignAdvice("a", AdviceColumnKey(o.col), o.off, val);
              } else if (o.k == "fix") {
                c = g.AssignFixed("f", FixedColumnKey(o.col), o.off, val);
              } else if (o.k == "advc") {
                c = g.AssignAdviceFromConstant("c", AdviceColumnKey(o.col), o.off, o.v);
              } else if (o.k == "advi") {
                c = g.AssignAdviceFromInstance("i", o.icol, o.irow, AdviceColumnKey(o.col), o.off);
              } else if (o.k == "cpy") {
                c = at(o.x).CopyAdvice("p", g, AdviceColumnKey(o.col), o.off);
              } else if (o.k == "const") {
                g.ConstrainConstant(at(o.x).cell(), R(o.v));
              } else {
                g.ConstrainEqual(at(o.x).cell(), at(o.y).cell());
              }
              cells.back().push_back(c);
            }
          });
        } else if (it.k == "table") {
          lay->AssignLookupTable("t", [&](LookupTable<F>& tab) {
            for (const auto& [c, off, v] : it.cells) {
              const F& w = v;
              oks->push_back(tab.AssignCell("x", c, off, [&w]() { return Value<F>::Known(w); }));
            }
          });
        } else if (it.k == "inst") {
          lay->ConstrainInstance(at(it.x).cell(), it.icol, it.irow);
        } else if (it.k == "push") {
          lay->PushNamespace("n");
        } else {
          lay->PopNamespace(std::nullopt);
        }
      }
    }
  };

  std::string CellJ(const std::pair<size_t, size_t>& x) const {
    const Op& o = (*regs[x.first])[x.second];
    return "[" + std::to_string(x.first + 1) + "," + std::to_string(o.off) + "," + CJ(o.col) + "]";
  }
  std::string ProgJ() const {
    return Seq(prog, [this](const Item& it) {
      std::string s = "{\"k\":\"" + it.k + "\"";
      if (it.k == "region")
        s += ",\"ops\":" + Seq(it.ops, [this](const Op& o) {
          std::string q = "{\"k\":\"" + o.k + "\"";
          if (o.k == "sel") q += ",\"col\":" + SJ(o.sel);
          else if (o.k != "const" && o.k != "eq") q += ",\"col\":" + CJ(o.col);
          q += ",\"off\":" + std::to_string(o.off) + ",\"v\":" + FL(o.v);
          if (o.k == "advi") q += ",\"icol\":" + CJ(o.icol) + ",\"irow\":" + std::to_string(o.irow);
          if (o.k == "cpy" || o.k == "const" || o.k == "eq") q += ",\"x\":" + CellJ(o.x);
          if (o.k == "eq") q += ",\"y\":" + CellJ(o.y);
          return q + "}";
        });
      if (it.k == "table")
        s += ",\"cells\":" + Seq(it.cells, [](const auto& c) { return "{\"col\":" + CJ(std::get<0>(c).column()) + ",\"off\":" + std::to_string(std::get<1>(c)) + ",\"v\":" + FL(std::get<2>(c)) + "}"; });
      if (it.k == "inst") s += ",\"cell\":" + CellJ(it.x) + ",\"col\":" + CJ(it.icol) + ",\"row\":" + std::to_string(it.irow);
      return s + "}";
    });
  }
  // A random program.
  void Make() {
    size_t na = 1 + Rn(4), nf = 1 + Rn(3), ns = 1 + Rn(3), nt = Rn(4), maxoff = 1 + Rn(Rn(4) == 0 ? 9 : 4);
    for (size_t i = Rn(5) == 0 ? 0 : 1 + Rn(3); i > 0; --i) ccols.push_back(FixedColumnKey(Rn(2) ? 20 + ccols.size() : nf + ccols.size()));
    if (!ccols.empty() && Rn(3) == 0) ccols[Rn(ccols.size())] = FixedColumnKey(0);  // shared with the regions
    inst.assign(2, {});
    for (auto& v : inst) for (int i = 0; i < 6; ++i) v.push_back(RandF<F>());
    std::vector<std::pair<size_t, size_t>> known;
    std::vector<Op> all;
    size_t n = 1 + Rn(8), depth = 0, start = Rn(2);
    bool consts = Rn(4) != 0;
    std::vector<std::vector<Op>> made;
    auto opAt = [&](const std::pair<size_t, size_t>& x) -> const Op& { return made[x.first][x.second]; };
    for (size_t i = 0; i < n; ++i) {
      size_t kind = Rn(12);
      if (kind < 8) {
        made.emplace_back();
        size_t reg = made.size() - 1;
        size_t len = Rn(10) == 0 ? 0 : 1 + Rn(6);
        // Which columns the region may touch.
        uint64_t mask = R64() | (1u << Rn(4));
        for (size_t j = 0; j < len; ++j) {
          Op o;
          o.off = Rn(maxoff);
          o.v = RandF<F>();
          size_t a = Rn(na);
          for (int z = 0; z < 4 && !((mask >> a) & 1); ++z) a = Rn(na);
          o.col = AdviceColumnKey(a, a == 2 ? kSecondPhase : kFirstPhase);
          switch (Rn(consts ? 10 : 8)) {
            case 0: o.k = "sel"; o.sel = Rn(2) ? Selector::Simple(Rn(ns)) : Selector::Complex(5 + Rn(ns)); break;
            case 1: o.k = "fix"; o.col = FixedColumnKey(start + Rn(nf)); break;
            case 2: o.k = "advi"; o.icol = InstanceColumnKey(Rn(2)); o.irow = Rn(6); o.v = inst[o.icol.index()][o.irow]; break;
            case 3: case 4:
              if (known.empty()) { o.k = "adv"; break; }
              o.x = known[Rn(known.size())];
              if (Rn(2)) { o.k = "eq"; o.y = known[Rn(known.size())]; }
              else { o.k = "cpy"; o.v = opAt(o.x).v; }
              break;
            case 8: o.k = "advc"; break;
            case 9:
              if (known.empty()) { o.k = "advc"; break; }
              o.k = "const"; o.x = known[Rn(known.size())]; break;
            default: o.k = "adv";
          }
          made.back().push_back(o);
          if (o.k == "adv" || o.k == "fix" || o.k == "advi" || o.k == "advc" || o.k == "cpy") known.push_back({reg, j});
        }
        Item it;
        it.k = "region";
        it.ops = made.back();
        it.reg = reg;
        prog.push_back(it);
      } else if (kind < 10 && nt > 0) {
        Item it;
        it.k = "table";
        size_t cols = 1 + Rn(3), rows = 1 + Rn(4), base = 10 + 3 * (Rn(4) == 0 ? 0 : i);
        for (size_t c = 0; c < cols; ++c) {
          size_t len = Rn(20) == 0 ? rows + 1 : rows;
          for (size_t r = 0; r < len; ++r)
            if (Rn(60) != 0) it.cells.emplace_back(LookupTableColumn(FixedColumnKey(base + c)), r, RandF<F>());
          if (Rn(10) == 0) it.cells.emplace_back(LookupTableColumn(FixedColumnKey(base + c)), Rn(rows), RandF<F>());
        }
        for (size_t z = it.cells.size(); z > 1; --z) if (Rn(2)) std::swap(it.cells[z - 1], it.cells[Rn(z)]);
        prog.push_back(it);
      } else if (kind == 10 && !known.empty()) {
        Item it;
        it.k = "inst";
        it.x = known[Rn(known.size())];
        it.icol = InstanceColumnKey(Rn(2));
        it.irow = Rn(6);
        prog.push_back(it);
      } else {
        Item it;
        if (depth > 0 && Rn(2)) { it.k = "pop"; --depth; }
        else { it.k = "push"; ++depth; }
        prog.push_back(it);
      }
    }
    for (const Item& it : prog) if (it.k == "region") regs.push_back(&it.ops);
  }
  template <typename P>
  std::pair<std::vector<std::string>, std::vector<bool>> Lay() {
    Log log;
    log.run = this;
    Circ c;
    std::vector<bool> oks;
    c.run = this;
    c.witness = true;
    c.oks = &oks;
    P planner;
    planner.Synthesize(&log, c, Conf(), ccols);
    log.Done();
    return {log.e, oks};
  }
  template <typename P>
  void Emit(const char* name, const std::string& extra) {
    bool died = Dies([this]() { Lay<P>(); });
    std::string log = "[]", oks = "[]";
    bool again = true;
    if (!died) {
      auto a = Lay<P>(), b = Lay<P>();
      again = a == b;
      log = Seq(a.first, [](const std::string& s) { return s; });
      oks = Seq(a.second, [](bool x) { return std::string(x ? "true" : "false"); });
    }
    std::string cc = Seq(ccols, [](const FixedColumnKey& k) { return CJ(k); });
    Ev(name).raw("prog", ProgJ()).raw("ccols", cc).b("died", died).b("again", again).raw("log", log).raw("oks", oks).raw("starts", extra.empty() ? "[]" : extra).i("end", end);
  }
  int64_t end = 0;
  void Go() {
    Make();
    Emit<SimpleFloorPlanner<Circ>>("Simple", "");
    MeasurementPass<F> measure;
    {
      V1Pass<F> pass(&measure);
      Circ c;
      std::vector<bool> oks;
      c.run = this;
      c.witness = false;
      c.oks = &oks;
      c.Synthesize(Conf(), &pass);
    }
    std::vector<RegionShape<F>> shapes;
    for (const auto& g : measure.regions()) shapes.push_back(g.shape);
    SlotInBiggestAdviceFirstResult res = SlotInBiggestAdviceFirst(shapes);
    for (const auto& [c, al] : res.column_allocations) end = std::max<int64_t>(end, al.UnboundedIntervalStart());
    Emit<V1FloorPlanner<Circ>>("V1", Seq(res.region_starts, [](RowIndex r) { return std::to_string(r); }));
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  M::bn254::Fr::Init();
  M::vhf::F12289::Init();
  for (int s = 0; s < 8; ++s) {
    T().Shard("layout" + std::to_string(s));
    for (int i = 0; i < (T().thorough() ? 600 : 60); ++i) {
      if (s == 7) { Run<M::bn254::Fr> r; r.Go(); }
      else { Run<M::vhf::F12289> r; r.Go(); }
    }
  }
  return 0;
}
