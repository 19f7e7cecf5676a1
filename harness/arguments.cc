// Histories of the provers of lookups, shuffles and copy constraints.
#include "vh/csutil.h"
#include "vh/dies.h"
#include "vh/fakepcs.h"
#include "vh/vgoldi.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/lookup/halo2/permute_expression_pair.h"
#include "tachyon/zk/lookup/halo2/prover.h"
#include "tachyon/zk/lookup/log_derivative_halo2/prover.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_prover.h"
#include "tachyon/zk/plonk/permutation/permutation_utils.h"
#include "tachyon/zk/shuffle/prover.h"
using namespace vh;
using namespace tachyon::zk::plonk;
namespace M = tachyon::math;
namespace lookup = tachyon::zk::lookup;
namespace shuffle = tachyon::zk::shuffle;
using tachyon::zk::Rotation;
using tachyon::zk::RowIndex;
constexpr size_t kMax = 63;
template <typename F>
struct Case {
  using X = ExpressionFactory<F>;
  using PCS = FakePCS<F, kMax>;
  using Evals = typename PCS::Evals;
  using Poly = typename PCS::Poly;
  using Arg = lookup::Argument<F>;
  int n, u;
  Blinds<F> blinds;
  std::unique_ptr<tachyon::zk::ProverBase<PCS>> prover;
  std::vector<std::vector<F>> fv, av, iv;
  std::vector<Evals> f, a, i;
  std::vector<F> h;
  F Value() { return Rn(3) ? F(Rn(5)) : SmallOrAny<F>(); }
  std::string Vs(const std::vector<Evals>& v) { return Seq(v, [](const Evals& e) { return FLs(e.evaluations()); }); }
  std::string Ls(const Evals& e) { return FLs(e.evaluations()); }
  void Begin() {
    n = 4 << Rn(4);
    int bf = Rn(std::min(n - 1, 7));
    PCS pcs; pcs.n = n;
    prover = std::make_unique<tachyon::zk::ProverBase<PCS>>(std::move(pcs), nullptr, tachyon::zk::Blinder<F>(&blinds, bf));
    prover->set_domain(M::Radix2EvaluationDomain<F, kMax>::Create(n));
    u = prover->GetUsableRows();
    auto mk = [&](size_t c) { std::vector<std::vector<F>> v(c); for (auto& x : v) for (int j = 0; j < n; ++j) x.push_back(j < u ? Value() : RandF<F>()); return v; };
    fv = mk(1 + Rn(3)); av = mk(2 + Rn(3)); iv = mk(1);
    h.clear();
    for (int k = Rn(3); k > 0; --k) h.push_back(RandF<F>());
  }
  void Done() {
    auto ev = [](const std::vector<std::vector<F>>& v) { std::vector<Evals> o; for (auto x : v) o.push_back(Evals(std::move(x))); return o; };
    f = ev(fv); a = ev(av); i = ev(iv);
    Ev("Table").raw("p", L(Modulus<F>())).i("n", n).i("u", u).raw("f", Vs(f)).raw("a", Vs(a)).raw("i", Vs(i)).raw("h", FLs(h));
  }
  Ex<F> Adv(size_t c, int r = 0) { return X::Advice(AdviceQuery(c, Rotation(r), AdviceColumnKey(c))); }
  Ex<F> Fix(size_t c, int r = 0) { return X::Fixed(FixedQuery(c, Rotation(r), FixedColumnKey(c))); }
  // the same shape over an input and over a table column
  std::pair<Ex<F>, Ex<F>> Shape(size_t ac, size_t fc) {
    switch (Rn(5)) {
      case 0: { F k = SmallOrAny<F>(); return {Adv(ac) * k, Fix(fc) * k}; }
      case 1: { F k = SmallOrAny<F>(); return {Adv(ac) + X::Constant(k), X::Constant(k) + Fix(fc)}; }
      case 2: return {-Adv(ac), -Fix(fc)};
      case 3: return {Adv(ac) * Adv(ac), Fix(fc) * Fix(fc)};
      default: return {Adv(ac), Fix(fc)};
    }
  }
  std::vector<Ex<F>> Loose(int m) {
    std::vector<Ex<F>> v;
    for (int k = 0; k < m; ++k) v.push_back(RandomExpr<F>(Rn(3), [&]() -> Ex<F> { return Rn(2) ? Adv(Rn(av.size()), Rn(3) ? 0 : Rn(3)) : Fix(Rn(fv.size())); }));
    return v;
  }
  MultiPhaseRefTable<Evals> Ref() { return MultiPhaseRefTable<Evals>(f, a, i, h); }
  // inputs drawn from the rows of the table, with or without a stray
  void Draw(const std::vector<size_t>& ac, const std::vector<size_t>& fc, bool stray) {
    for (int j = 0; j < u; ++j) { int r = Rn(u); for (size_t k = 0; k < ac.size(); ++k) av[ac[k]][j] = fv[fc[k]][r]; }
    if (stray) av[ac[Rn(ac.size())]][Rn(3) ? Rn(u) : u - 1] = Rn(2) ? RandF<F>() : Value();
  }
  void Permute() {
    std::vector<F> x, y;
    for (int j = 0; j < n; ++j) y.push_back(Value());
    for (int j = 0; j < n; ++j) x.push_back(j < u ? y[Rn(u)] : RandF<F>());
    if (Rn(3) == 0) x[Rn(u)] = Rn(2) ? RandF<F>() : Value();
    // a value of the table that only blinding rows hold
    if (u < n && Rn(4) == 0) { y[u] = RandF<F>(); x[Rn(u)] = y[u]; }
    Done();
    std::vector<F> x2 = x, y2 = y;
    lookup::Pair<Evals> out, in{Evals{std::move(x2)}, Evals{std::move(y2)}};
    bool ok = lookup::halo2::PermuteExpressionPair(prover.get(), in, &out);
    Ev e("Permute");
    e.raw("a", FLs(x)).raw("s", FLs(y)).b("ok", ok);
    if (ok) e.raw("a2", Ls(out.input())).raw("s2", Ls(out.table()));
    else e.raw("a2", "[]").raw("s2", "[]");
  }
  void Halo2() {
    int m = 1 + Rn(2), args = 1 + Rn(2);
    std::vector<Arg> v;
    bool stray = Rn(4) == 0;
    bool loose = Rn(6) == 0;
    for (int k = 0; k < args; ++k) {
      std::vector<size_t> ac, fc;
      for (int j = 0; j < m; ++j) { ac.push_back((j + k * m) % av.size()); fc.push_back(Rn(fv.size())); }
      if (k * m + m <= static_cast<int>(av.size())) Draw(ac, fc, stray && k == args - 1); else if (k) break;
      std::vector<Ex<F>> in, tab;
      if (loose) { in = Loose(m); tab = Loose(m); }
      else for (int j = 0; j < m; ++j) { auto [x, y] = Shape(ac[j], fc[j]); in.push_back(std::move(x)); tab.push_back(std::move(y)); }
      v.emplace_back("l", std::move(in), std::move(tab));
    }
    Done();
    F theta = F::Random(), beta = F::Random(), gamma = F::Random();
    using P = lookup::halo2::Prover<Poly, Evals>;
    std::vector<P> ps(1);
    std::vector<MultiPhaseRefTable<Evals>> tabs;
    tabs.push_back(Ref());
    P::BatchCompressPairs(ps, prover->domain(), v, theta, tabs);
    auto pairs = ps[0].compressed_pairs();
    bool ok = !Dies([&] { P::BatchPermutePairs(ps, prover.get()); });
    if (ok) { P::BatchPermutePairs(ps, prover.get()); P::BatchCreateGrandProductPolys(ps, prover.get(), beta, gamma); }
    // one refused pair refuses them all
    for (size_t k = 0; k < v.size(); ++k) {
      bool mine = ok;
      if (!ok) { lookup::Pair<Evals> out; mine = lookup::halo2::PermuteExpressionPair(prover.get(), pairs[k], &out); if (mine) continue; }
      Ev e("Halo2");
      e.raw("ins", EJs<F>(v[k].input_expressions())).raw("tabs", EJs<F>(v[k].table_expressions())).raw("theta", FL(theta)).raw("beta", FL(beta)).raw("gamma", FL(gamma)).raw("a", Ls(pairs[k].input())).raw("s", Ls(pairs[k].table())).b("ok", ok);
      if (ok) e.raw("a2", Ls(ps[0].permuted_pairs()[k].input().evals())).raw("s2", Ls(ps[0].permuted_pairs()[k].table().evals())).raw("z", Ls(ps[0].grand_product_polys()[k].evals()));
      else e.raw("a2", "[]").raw("s2", "[]").raw("z", "[]");
    }
  }
  void Shuffle() {
    int m = 1 + Rn(std::min<size_t>(2, fv.size()));
    std::vector<int> at(u);
    for (int j = 0; j < u; ++j) at[j] = j;
    for (int j = u - 1; j > 0; --j) std::swap(at[j], at[Rn(j + 1)]);
    for (int k = 0; k < m; ++k) for (int j = 0; j < u; ++j) av[k][j] = fv[k][at[j]];
    if (Rn(3) == 0) av[Rn(m)][Rn(2) ? Rn(u) : u - 1] = Value();
    if (u > 1 && Rn(6) == 0) av[0][0] = av[0][1];
    std::vector<Ex<F>> in, tab;
    for (int k = 0; k < m; ++k) { auto [x, y] = Shape(k, k); in.push_back(std::move(x)); tab.push_back(std::move(y)); }
    std::vector<shuffle::Argument<F>> v;
    if (Rn(6) == 0) v.emplace_back("s", Loose(m), Loose(m));
    v.emplace_back("s", std::move(in), std::move(tab));
    Done();
    F theta = F::Random(), gamma = F::Random();
    using P = shuffle::Prover<Poly, Evals>;
    std::vector<P> ps(1);
    std::vector<MultiPhaseRefTable<Evals>> tabs;
    tabs.push_back(Ref());
    P::BatchCompressPairs(ps, prover->domain(), v, theta, tabs);
    std::vector<std::string> x, y;
    for (auto& q : ps[0].compressed_pairs()) { x.push_back(Ls(q.input())); y.push_back(Ls(q.shuffle())); }
    P::BatchCreateGrandProductPolys(ps, prover.get(), gamma);
    for (size_t k = 0; k < v.size(); ++k)
      Ev("Shuffle").raw("ins", EJs<F>(v[k].input_expressions())).raw("tabs", EJs<F>(v[k].shuffle_expressions())).raw("theta", FL(theta)).raw("gamma", FL(gamma)).raw("a", x[k]).raw("s", y[k]).raw("z", Ls(ps[0].grand_product_polys()[k].evals()));
  }
  void LogD() {
    int m = 1 + Rn(2), cols = 1 + Rn(3), args = 1 + Rn(2);
    std::vector<Arg> v;
    for (int q = 0; q < args; ++q) {
      std::vector<size_t> fc;
      for (int j = 0; j < m; ++j) fc.push_back(Rn(fv.size()));
      std::vector<std::vector<Ex<F>>> ins(cols);
      std::vector<Ex<F>> tab;
      for (int j = 0; j < m; ++j) tab.push_back(Fix(fc[j]));
      for (int k = 0; k < cols; ++k) {
        std::vector<size_t> ac;
        for (int j = 0; j < m; ++j) { ac.push_back(av.size()); av.push_back(av[0]); }
        Draw(ac, fc, Rn(5) == 0);
        for (int j = 0; j < m; ++j) ins[k].push_back(Adv(ac[j]));
      }
      v.emplace_back("l", std::move(ins), std::move(tab));
    }
    Done();
    F theta = F::Random(), beta = F::Random();
    using P = lookup::log_derivative_halo2::Prover<Poly, Evals>;
    std::vector<P> ps(1);
    std::vector<MultiPhaseRefTable<Evals>> tabs;
    tabs.push_back(Ref());
    P::BatchCompressPairs(ps, prover->domain(), v, theta, tabs);
    P::BatchComputeMPolys(ps, prover.get());
    P::BatchCreateGrandSumPolys(ps, prover.get(), beta);
    for (size_t k = 0; k < v.size(); ++k)
      Ev("LogD").raw("ins", Seq(v[k].inputs_expressions(), [](const std::vector<Ex<F>>& x) { return EJs<F>(x); })).raw("tabs", EJs<F>(v[k].table_expressions())).raw("theta", FL(theta)).raw("beta", FL(beta))
        .raw("cols", Vs(ps[0].compressed_inputs_vec()[k])).raw("s", Ls(ps[0].compressed_tables()[k])).raw("m", Ls(ps[0].m_polys()[k].evals())).raw("f", Ls(ps[0].grand_sum_polys()[k].evals()));
  }
  void Copies() {
    std::vector<AnyColumnKey> keys;
    for (size_t k = 0; k < fv.size(); ++k) if (Rn(2)) keys.push_back(FixedColumnKey(k));
    for (size_t k = 0; k < av.size(); ++k) if (Rn(3)) keys.push_back(AdviceColumnKey(k));
    if (Rn(2)) keys.push_back(InstanceColumnKey(0));
    for (size_t k = keys.size(); k > 1; --k) std::swap(keys[k - 1], keys[Rn(k)]);
    if (keys.empty()) keys.push_back(AdviceColumnKey(0));
    PermutationArgument arg(keys);
    PermutationAssembly as(arg, n);
    auto at = [&](size_t c, int r) -> F& { auto& k = keys[c]; return (k.type() == ColumnType::kFixed ? fv : k.type() == ColumnType::kAdvice ? av : iv)[k.index()][r]; };
    std::string copies = "[";
    std::vector<std::pair<std::pair<size_t, int>, std::pair<size_t, int>>> cs;
    int m = Rn(2 * u);
    for (int k = 0; k < m; ++k) {
      size_t c = Rn(keys.size()), d = Rn(keys.size());
      int r = Rn(u), s = Rn(u);
      as.Copy(keys[c], r, keys[d], s);
      cs.push_back({{c, r}, {d, s}});
      copies += (k ? ",[" : "[") + std::to_string(c + 1) + "," + std::to_string(r + 1) + "," + std::to_string(d + 1) + "," + std::to_string(s + 1) + "]";
    }
    for (bool again = true; again;) { again = false; for (auto& [x, y] : cs) if (at(x.first, x.second) != at(y.first, y.second)) { at(y.first, y.second) = at(x.first, x.second) = F(7); again = true; } }
    if (Rn(3) == 0) at(Rn(keys.size()), Rn(u)) = Rn(2) ? RandF<F>() : F(3);
    Done();
    auto perms = as.template GeneratePermutations<Evals>(prover->domain());
    auto un = UnpermutedTable<Evals>::Construct(keys.size(), n, prover->domain());
    std::string us = "[";
    for (size_t k = 0; k < keys.size(); ++k) us += (k ? "," : "") + Ls(*un.GetColumn(k));
    size_t degree = 3 + Rn(4);
    F beta = F::Random(), gamma = F::Random();
    std::string pj = Vs(perms);
    PermutationProvingKey<Poly, Evals, Evals> key(std::move(perms), {}, {});
    using P = PermutationProver<Poly, Evals>;
    std::vector<P> ps(1);
    std::vector<MultiPhaseRefTable<Evals>> tabs;
    tabs.push_back(Ref());
    P::BatchCreateGrandProductPolys(ps, prover.get(), arg, tabs, degree, key, beta, gamma);
    Ev("Copies").raw("perm", Seq(keys, ColJ)).i("chunk", degree - 2).raw("copies", copies + "]").raw("un", us + "]").raw("ps", pj).raw("beta", FL(beta)).raw("gamma", FL(gamma))
      .raw("zs", Seq(ps[0].grand_product_polys(), [&](const auto& x) { return Ls(x.evals()); }));
  }
  void Go() {
    T().Doing("arguments");
    Begin();
    switch (Rn(6)) { case 0: case 1: Permute(); break; case 2: Halo2(); break; case 3: Shuffle(); break; case 4: LogD(); break; default: Copies(); }
  }
};
template <typename F>
static void Run(const std::string& name, int shards, int steps) {
  for (int k = 0; k < shards; ++k) {
    T().Shard(name + std::to_string(k));
    Case<F> c;
    for (int j = 0; j < steps; ++j) c.Go();
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  M::vhf::VGoldi::Init(); M::bn254::Fr::Init();
  Run<M::vhf::VGoldi>("goldi", 5, th ? 300 : 60);
  Run<M::bn254::Fr>("fr", 3, th ? 100 : 20);
}
