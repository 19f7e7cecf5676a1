#include "vh/dies.h"
#include "vh/ecutil.h"
#include "vh/f12289.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
using namespace vh;
using namespace tachyon;
using namespace tachyon::zk::r1cs;
using namespace tachyon::zk::r1cs::groth16;
using Bn = math::bn254::BN254Curve;
using G1 = math::bn254::G1AffinePoint;
using G2 = math::bn254::G2AffinePoint;
using Fr = math::bn254::Fr;
using Fq2 = math::bn254::Fq2;
constexpr size_t kMax = 31;

long VKey(const Variable& v) {
  switch (v.type()) {
    case Variable::Type::kZero: return -1;
    case Variable::Type::kOne: return 0;
    case Variable::Type::kInstance: return static_cast<long>(v.index());
    case Variable::Type::kWitness: return 1000 + static_cast<long>(v.index());
    default: return 100000 + static_cast<long>(v.index());
  }
}
template <typename F> std::string TJ(const std::vector<Term<F>>& ts) {
  return Seq(ts, [](const Term<F>& t) { return "{\"c\":" + FL(t.coefficient) + ",\"v\":" + std::to_string(VKey(t.variable)) + "}"; });
}
template <typename F> std::string MJ(const tachyon::zk::r1cs::Matrix<F>& m, size_t n) {
  std::vector<std::vector<Cell<F>>> rows; for (size_t i = 0; i < n; ++i) rows.push_back(m[i]);
  return Seq(rows, [](const std::vector<Cell<F>>& r) { return Seq(r, [](const Cell<F>& c) { return "{\"c\":" + FL(c.coefficient) + ",\"i\":" + std::to_string(c.index) + "}"; }); });
}
// A circuit as a list of steps, run the same way every time.
enum class Op { kInst, kWit, kLc, kEnf };
struct Ref { char k; size_t i; };  // z, o, i, w, l: the i-th of its kind
template <typename F> struct RTerm { F c; Ref r; };
template <typename F> using RTerms = std::vector<RTerm<F>>;
template <typename F> struct Step { Op op; F v; RTerms<F> a, b, c; };
template <typename F> struct Prog {
  std::vector<Step<F>> steps;
  std::vector<F> inst, wit;              // values
  std::vector<F> lcs;
  F Val(const RTerms<F>& ts) const {
    F s = F::Zero();
    for (const auto& t : ts) {
      F v = F::Zero();
      switch (t.r.k) { case 'o': v = F::One(); break; case 'i': v = inst[t.r.i]; break; case 'w': v = wit[t.r.i]; break; case 'l': v = lcs[t.r.i]; break; default: break; }
      s += t.c * v;
    }
    return s;
  }
  F Co() const { switch (Rn(6)) { case 0: return F::Zero(); case 1: case 2: return F::One(); case 3: return -F::One(); default: return RandF<F>(); } }
  Ref AnyRef() const {
    for (;;) {
      switch (Rn(7)) {
        case 0: return {'o', 0};
        case 1: if (Rn(4) == 0) return {'z', 0}; break;
        case 2: if (!inst.empty()) return {'i', Rn(inst.size())}; break;
        case 3: case 4: if (!wit.empty()) return {'w', Rn(wit.size())}; break;
        default: if (!lcs.empty()) return {'l', Rn(lcs.size())}; break;
      }
    }
  }
  RTerms<F> Terms(size_t max) const { RTerms<F> r(Rn(max + 1)); for (auto& t : r) t = {Co(), AnyRef()}; return r; }
  void Inst(const F& v) { inst.push_back(v); steps.push_back({Op::kInst, v, {}, {}, {}}); }
  void Wit(const F& v) { wit.push_back(v); steps.push_back({Op::kWit, v, {}, {}, {}}); }
  void Lc(size_t max) { auto ts = Terms(max); F v = Val(ts); steps.push_back({Op::kLc, F::Zero(), ts, {}, {}}); lcs.push_back(v); }
  void Enf(bool good, size_t max) {
    RTerms<F> a = Terms(max), b = Terms(max), c;
    F v = Val(a) * Val(b);
    switch (Rn(3)) {
      case 0: c = {{v, {'o', 0}}}; break;
      case 1: if (Rn(2)) Wit(v); else Inst(v); c = {{F::One(), steps.back().op == Op::kWit ? Ref{'w', wit.size() - 1} : Ref{'i', inst.size() - 1}}}; break;
      default: c = Terms(max); c.push_back({v - Val(c), {'o', 0}}); break;
    }
    if (!good) { if (Rn(2)) c.push_back({F::One(), {'o', 0}}); else c = Terms(max); }
    steps.push_back({Op::kEnf, F::Zero(), a, b, c});
  }
  // bad: how likely a constraint need not hold, out of 8
  void Make(size_t n_steps, size_t bad, size_t max) {
    for (size_t i = 0; i < n_steps; ++i) {
      switch (Rn(6)) {
        case 0: Inst(RandF<F>()); break;
        case 1: Wit(RandF<F>()); break;
        case 2: case 3: Lc(max); break;
        default: Enf(Rn(8) >= bad, max);
      }
    }
  }
};
template <typename F> struct Live {
  std::vector<Variable> inst, wit, lc;
  LinearCombination<F> L(const RTerms<F>& ts) const {
    std::vector<Term<F>> r;
    for (const auto& t : ts) {
      Variable v = Variable::Zero();
      switch (t.r.k) { case 'o': v = Variable::One(); break; case 'i': v = inst[t.r.i]; break; case 'w': v = wit[t.r.i]; break; case 'l': v = lc[t.r.i]; break; default: break; }
      r.push_back({t.c, v});
    }
    return LinearCombination<F>(std::move(r));
  }
};
template <typename F> void RunQuiet(const Prog<F>& p, ConstraintSystem<F>& cs) {
  Live<F> lv;
  for (const auto& s : p.steps) switch (s.op) {
    case Op::kInst: lv.inst.push_back(cs.CreateInstanceVariable([&s]() { return s.v; })); break;
    case Op::kWit: lv.wit.push_back(cs.CreateWitnessVariable([&s]() { return s.v; })); break;
    case Op::kLc: lv.lc.push_back(cs.CreateLinearCombination(lv.L(s.a))); break;
    case Op::kEnf: cs.EnforceConstraint(lv.L(s.a), lv.L(s.b), lv.L(s.c)); break;
  }
}
template <typename F> void EvCheck(const ConstraintSystem<F>& cs) {
  Ev("Check").b("ok", cs.IsSatisfied()).i("ni", cs.num_instance_variables()).i("nw", cs.num_witness_variables()).i("nc", cs.num_constraints())
      .raw("inst", FLs(cs.instance_assignments())).raw("wit", FLs(cs.witness_assignments()));
}
template <typename F> void EvFinal(ConstraintSystem<F>& cs) {
  cs.Finalize();
  auto m = cs.ToMatrices();
  Ev e("Final"); e.b("has", m.has_value()).i("ni", cs.num_instance_variables()).i("nw", cs.num_witness_variables()).i("nc", cs.num_constraints())
      .raw("inst", FLs(cs.instance_assignments())).raw("wit", FLs(cs.witness_assignments()));
  if (m) e.raw("ma", MJ(m->a, m->num_constraints)).raw("mb", MJ(m->b, m->num_constraints)).raw("mc", MJ(m->c, m->num_constraints))
      .ints("dims", std::vector<size_t>{m->num_instance_variables, m->num_witness_variables, m->num_constraints, m->a_num_non_zero, m->b_num_non_zero, m->c_num_non_zero});
}
template <typename F> void RunLoud(const Prog<F>& p, ConstraintSystem<F>& cs, const char* mode, bool weight) {
  std::string md = mode;
  cs.set_optimization_goal(weight ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints);
  if (md == "setup") cs.set_mode(SynthesisMode::Setup()); else cs.set_mode(SynthesisMode::Prove(md == "prove"));
  Ev("Begin").raw("q", vh::L(Modulus<F>())).s("mode", md).s("goal", weight ? "weight" : "constraints");
  Live<F> lv;
  for (const auto& s : p.steps) {
    switch (s.op) {
      case Op::kInst: { bool ran = false; Variable v = cs.CreateInstanceVariable([&]() { ran = true; return s.v; }); lv.inst.push_back(v); Ev("Inst").i("var", VKey(v)).raw("x", FL(s.v)).b("ran", ran); break; }
      case Op::kWit: { bool ran = false; Variable v = cs.CreateWitnessVariable([&]() { ran = true; return s.v; }); lv.wit.push_back(v); Ev("Wit").i("var", VKey(v)).raw("x", FL(s.v)).b("ran", ran); break; }
      case Op::kLc: {
        auto lc = lv.L(s.a); std::string j = TJ(lc.terms());
        Variable v = Rn(2) ? cs.CreateLinearCombination(lc) : cs.CreateLinearCombination(std::move(lc));
        lv.lc.push_back(v); Ev("Lc").i("var", VKey(v)).raw("terms", j); break; }
      case Op::kEnf: {
        auto a = lv.L(s.a), b = lv.L(s.b), c = lv.L(s.c);
        Ev e("Enforce"); e.raw("ta", TJ(a.terms())).raw("tb", TJ(b.terms())).raw("tc", TJ(c.terms()));
        bool died = md == "nomat" ? Dies([&]() { cs.EnforceConstraint(a, b, c); }) : false;
        e.b("died", died);
        if (md != "nomat") { if (Rn(2)) cs.EnforceConstraint(a, b, c); else cs.EnforceConstraint(std::move(a), std::move(b), std::move(c)); }
        break; }
    }
    if (md != "setup" && Rn(4) == 0) {
      Variable v = Variable::One();
      switch (Rn(4)) { case 0: if (Rn(2)) v = Variable::Zero(); break; case 1: if (!lv.inst.empty()) v = lv.inst[Rn(lv.inst.size())]; break;
        case 2: if (!lv.wit.empty()) v = lv.wit[Rn(lv.wit.size())]; break; default: if (!lv.lc.empty()) v = lv.lc[Rn(lv.lc.size())]; }
      Ev("Value").i("var", VKey(v)).raw("x", FL(cs.GetAssignedValue(v)));
    }
    if (Rn(5) == 0) EvCheck(cs);
  }
  EvCheck(cs);
  EvFinal(cs);
  EvCheck(cs);
  if (Rn(3) == 0) {
    if (!weight && md == "prove") {   // goes on after finalising, with concrete variables only
      Variable v = cs.CreateWitnessVariable([]() { return F(3); }); Ev("Wit").i("var", VKey(v)).raw("x", FL(F(3))).b("ran", true);
      LinearCombination<F> a({{F(2), v}}), b({{F::One(), Variable::One()}}), c({{F(6), Variable::One()}});
      Ev("Enforce").raw("ta", TJ(a.terms())).raw("tb", TJ(b.terms())).raw("tc", TJ(c.terms())).b("died", false);
      cs.EnforceConstraint(a, b, c);
    }
    EvFinal(cs); EvCheck(cs);
  }
}
template <typename F> void Systems(int n) {
  if (T().thorough()) n *= 6;
  for (int i = 0; i < n; ++i) {
    Prog<F> p; p.Make(Rn(16), Rn(3) ? 0 : 1 + Rn(4), 1 + Rn(6));
    ConstraintSystem<F> cs;
    RunLoud(p, cs, Rn(5) == 0 ? "setup" : Rn(8) == 0 ? "nomat" : "prove", Rn(2));
  }
}
template <typename F> LinearCombination<F> RandLc(bool sorted) {
  std::vector<Term<F>> ts;
  size_t n = Rn(10);
  auto var = []() { size_t i = Rn(4); switch (Rn(6)) { case 0: return Variable::Zero(); case 1: return Variable::One(); case 2: return Variable::Instance(1 + i); case 3: return Variable::SymbolicLinearCombination(i); default: return Variable::Witness(i); } };
  for (size_t i = 0; i < n; ++i) ts.push_back({Rn(4) ? RandF<F>() : F::One(), var()});
  LinearCombination<F> lc(ts);
  if (sorted) {
    std::sort(ts.begin(), ts.end(), [](const Term<F>& a, const Term<F>& b) { return VKey(a.variable) < VKey(b.variable); });
    ts.erase(std::unique(ts.begin(), ts.end(), [](const Term<F>& a, const Term<F>& b) { return VKey(a.variable) == VKey(b.variable); }), ts.end());
    lc = LinearCombination<F>(ts);
  }
  return lc;
}
template <typename F> void Algebra(int n) {
  if (T().thorough()) n *= 8;
  using LC = LinearCombination<F>;
  auto out = [](const char* how, const LC& a, const LC& b, const LC& y, const F& k) {
    Ev("Alg").raw("q", vh::L(Modulus<F>())).s("how", how).raw("xa", TJ(a.terms())).raw("xb", TJ(b.terms())).raw("y", TJ(y.terms())).raw("k", FL(k)).b("sorted", y.IsSorted());
  };
  for (int i = 0; i < n; ++i) {
    bool s = Rn(4) != 0;
    LC a = RandLc<F>(s), b = RandLc<F>(s), y; F k = RandF<F>();
    LC one = RandLc<F>(true); Term<F> t = one.terms().empty() ? Term<F>(Variable::One()) : one.terms()[Rn(one.terms().size())];
    LC tl({t});
    switch (Rn(9)) {
      case 0: y = a + b; if (Rn(2)) { y = a; y += b; } out("add", a, b, y, k); break;
      case 1: y = a - b; if (Rn(2)) { y = a; y -= b; } out("sub", a, b, y, k); break;
      case 2: y = -a; if (Rn(2)) { y = a; y.NegateInPlace(); } out("neg", a, LC(), y, k); break;
      case 3: y = a * k; if (Rn(2)) { y = a; y *= k; } out("scale", a, LC(), y, k); break;
      case 4: { LC u = RandLc<F>(false); y = Rn(2) ? LC::CreateDeduplicated(u.terms()) : LC::CreateDeduplicated(std::vector<Term<F>>(u.terms())); out("dedup", u, LC(), y, k); break; }
      case 5: case 6: y = a + t; if (Rn(2)) { y = a; y += t; } out("add", a, tl, y, k); break;
      case 7: y = a - t; if (Rn(2)) { y = a; y -= t; } out("sub", a, tl, y, k); break;
      default: { LC v({Term<F>(t.variable)}); if (Rn(2)) { y = a + t.variable; out("add", a, v, y, k); } else { y = a - t.variable; out("sub", a, v, y, k); } }
    }
    auto var = []() { size_t j = Rn(3); switch (Rn(5)) { case 0: return Variable::Zero(); case 1: return Variable::One(); case 2: return Variable::Instance(1 + j); case 3: return Variable::SymbolicLinearCombination(j); default: return Variable::Witness(j); } };
    Variable x = var(), z = var();
    Ev("Order").i("x", VKey(x)).i("y", VKey(z)).b("lt", x < z).b("le", x <= z).b("gt", x > z).b("ge", x >= z).b("eq", x == z).b("ne", x != z);
  }
}
using Domain = math::UnivariateEvaluationDomain<Fr, kMax>;
using Qap = QuadraticArithmeticProgram<Fr>;
// a program that fits a domain of 32
Prog<Fr> SmallProg(size_t bad, bool need_wit) {
  for (;;) {
    Prog<Fr> p; if (need_wit) p.Wit(RandF<Fr>());
    p.Make(1 + Rn(11), bad, 1 + Rn(4));
    size_t nc = 0; for (auto& s : p.steps) nc += s.op == Op::kEnf;
    if (nc > 0 && p.inst.size() + 1 + nc <= 16) return p;
  }
}
void Qaps(int n) {
  if (T().thorough()) n *= 6;
  for (int i = 0; i < n; ++i) {
    Prog<Fr> p = SmallProg(Rn(3) ? 0 : 3, false);
    ConstraintSystem<Fr> cs; RunLoud(p, cs, Rn(4) ? "prove" : "setup", Rn(2));
    auto d = Domain::Create(cs.num_constraints() + cs.num_instance_variables());
    Fr x = Rn(6) ? Fr::Random() : Rn(2) ? Fr::Zero() : Fr(2);
    auto r = Qap::InstanceMap(d.get(), cs, x);
    Ev("QInst").i("n", d->size()).raw("w", FL(d->group_gen())).raw("x", FL(x)).raw("t", FL(r.t_x)).raw("as", FLs(r.a)).raw("bs", FLs(r.b)).raw("cs", FLs(r.c))
        .ints("dims", std::vector<size_t>{r.num_constraints, r.num_instance_variables, r.num_witness_variables, r.num_qap_variables});
    if (!cs.mode().IsSetup()) {
      auto h = Qap::WitnessMap(d.get(), cs);
      std::vector<Fr> zs{Fr::Random(), Fr::Random()};
      Ev("QWit").i("n", d->size()).raw("w", FL(d->group_gen())).raw("h", FLs(h.h)).raw("full", FLs(h.full_assignments)).raw("zs", FLs(zs));
    }
    Fr dl = Fr::Random(), tx = Fr::Random();
    auto big = Domain::Create(size_t{1} << Rn(6));
    if (big->size() > 1) Ev("QH").raw("q", vh::L(Modulus<Fr>())).i("n", big->size()).raw("x", FL(x)).raw("tx", FL(tx)).raw("di", FL(dl)).raw("out", FLs(Qap::ComputeHQuery(big.get(), tx, x, dl)));
  }
}
class ProgCircuit : public Circuit<Fr> {
 public:
  explicit ProgCircuit(const Prog<Fr>* p) : p_(p) {}
  void Synthesize(ConstraintSystem<Fr>& cs) const override { RunQuiet(*p_, cs); }
 private:
  const Prog<Fr>* p_;
};
std::string P2(const G2& p) { return "[" + EL(p.x()) + "," + EL(p.y()) + "]"; }
std::string P2s(absl::Span<const G2> v) { return Seq(v, [](const G2& p) { return P2(p); }); }
Fr NZ() { for (;;) { Fr f = Fr::Random(); if (!f.IsZero()) return f; } }
void Groth(int n) {
  if (T().thorough()) n *= 4;
  for (int i = 0; i < n; ++i) {
    bool good = Rn(4) != 0;
    Prog<Fr> p = SmallProg(good ? 0 : 6, Rn(5) != 0);
    ProgCircuit circuit(&p);
    ConstraintSystem<Fr> cs; RunLoud(p, cs, "prove", false);
    // the history may have gone on after finalising; the keys are of the circuit itself
    ConstraintSystem<Fr> cq; RunLoud(p, cq, "prove", false);
    if (cq.num_witness_variables() != p.wit.size()) continue;
    auto d = Domain::Create(cq.num_constraints() + cq.num_instance_variables());
    auto h = Qap::WitnessMap(d.get(), cq);
    std::vector<Fr> zs{Fr::Random()};
    Ev("QWit").i("n", d->size()).raw("w", FL(d->group_gen())).raw("h", FLs(h.h)).raw("full", FLs(h.full_assignments)).raw("zs", FLs(zs));
    G1 g = (NZ() * G1::Generator()).ToAffine(); G2 g2 = (NZ() * G2::Generator()).ToAffine();
    ToxicWaste<Bn> tw(NZ(), Rn(4) ? NZ() : Fr::One(), NZ(), NZ(), Fr::Zero(), g, g2);
    ProvingKey<Bn> pk;
    bool ok = pk.Load<kMax, Qap>(tw, circuit);
    const auto& vk = pk.verifying_key();
    {
      Ev e("Keys"); e.b("ok", ok).i("n", d->size()).raw("w", FL(d->group_gen())).raw("al", FL(tw.alpha())).raw("be", FL(tw.beta())).raw("ga", FL(tw.gamma())).raw("de", FL(tw.delta())).raw("x", FL(tw.x()));
      e.raw("g", PL(g)).raw("ext2", "[" + ExtLevels<Fq2>() + "]").raw("a2", EL(G2::Curve::Config::kA)).raw("g2", P2(g2));
      e.raw("vkal", PL(vk.alpha_g1())).raw("vkbe", P2(vk.beta_g2())).raw("vkga", P2(vk.gamma_g2())).raw("vkde", P2(vk.delta_g2())).raw("pkbe", PL(pk.beta_g1())).raw("pkde", PL(pk.delta_g1()));
      e.raw("vkl", PLs(vk.l_g1_query())).raw("pkl", PLs(pk.l_g1_query())).raw("pka", PLs(pk.a_g1_query())).raw("pkb", PLs(pk.b_g1_query())).raw("pkb2", P2s(pk.b_g2_query())).raw("pkh", PLs(pk.h_g1_query()));
    }
    Fr r = Rn(3) ? NZ() : Fr::Zero(), s = Rn(3) ? NZ() : Fr::Zero();
    Proof<Bn> pf = CreateProofWithReduction<kMax, Qap>(circuit, pk, r, s);
    Ev("Prove").raw("rr", FL(r)).raw("ss", FL(s)).raw("pa", PL(pf.a())).raw("pb", P2(pf.b())).raw("pc", PL(pf.c()));
    PreparedVerifyingKey<Bn> pvk = vk.ToPreparedVerifyingKey();
    std::vector<Fr> ins = p.inst;
    auto verify = [&](std::vector<Fr> in, Fr da, Fr db, Fr dc) {
      Proof<Bn> q(da.IsZero() ? pf.a() : (pf.a() + da * g).ToAffine(), db.IsZero() ? pf.b() : (pf.b() + db * g2).ToAffine(), dc.IsZero() ? pf.c() : (pf.c() + dc * g).ToAffine());
      Ev("Verify").raw("ins", FLs(in)).raw("da", FL(da)).raw("db", FL(db)).raw("dc", FL(dc)).b("ok", VerifyProof(pvk, q, in));
    };
    Fr z = Fr::Zero();
    verify(ins, z, z, z);
    if (!ins.empty()) { auto in = ins; in[Rn(in.size())] += Rn(2) ? Fr::One() : NZ(); verify(in, z, z, z); }
    if (ins.size() > 1) { auto in = ins; std::swap(in[0], in[1]); verify(in, z, z, z); }
    if (ins.size() > 1 || Rn(2)) { auto in = ins; if (in.empty() || Rn(2)) in.push_back(Fr::One()); else in.pop_back(); if (!in.empty()) verify(in, z, z, z); }
    switch (Rn(3)) { case 0: verify(ins, NZ(), z, z); break; case 1: verify(ins, z, NZ(), z); break; default: verify(ins, z, z, Fr::One()); }
    // changes that cancel: A + a and C + a B / delta
    { Fr a = NZ(); Fr ds = *tw.delta().Inverse();
      Fr bl = tw.beta(); { auto ls = Qap::InstanceMap(d.get(), cq, tw.x()); for (size_t k = 0; k < ls.b.size(); ++k) bl += ls.b[k] * h.full_assignments[k]; bl += s * tw.delta(); }
      verify(ins, a, z, a * bl * ds); }
    { Proof<Bn> q = ReRandomizeProof(vk, pf);
      Ev("ReRandom").raw("ins", FLs(ins)).b("ok", VerifyProof(pvk, q, ins)).b("samea", q.a() == pf.a()).b("sameb", q.b() == pf.b()).b("samec", q.c() == pf.c()); }
    { bool zk = Rn(2);
      auto mk = [&]() { return zk ? CreateProofWithReductionZK<kMax, Qap>(circuit, pk) : CreateProofWithReductionNoZK<kMax, Qap>(circuit, pk); };
      auto q1 = mk(), q2 = mk();
      PreparedVerifyingKey<Bn> pvk2 = std::move(pk).TakeVerifyingKey().ToPreparedVerifyingKey();
      Ev("Fresh").s("how", zk ? "zk" : "nozk").b("ok", VerifyProof(pvk2, q1, ins) && VerifyProof(pvk2, q2, ins)).b("same", q1 == q2); }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  Bn::Init(); math::GF7::Init(); vhf::F12289::Init();
  T().Shard("gf7"); Systems<math::GF7>(80); Algebra<math::GF7>(80);
  T().Shard("f12289"); Systems<vhf::F12289>(80); Algebra<vhf::F12289>(80);
  T().Shard("fr"); Systems<Fr>(60); Algebra<Fr>(60);
  T().Shard("qap0"); Qaps(24);
  T().Shard("qap1"); Qaps(24);
  for (int i = 0; i < 3; ++i) { T().Shard("groth" + std::to_string(i)); EvCurve<math::bn254::G1Curve>("bn254", true); Groth(6); }
  return 0;
}
