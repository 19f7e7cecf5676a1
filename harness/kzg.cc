#include "vh/ecutil.h"
#include "vh/s1.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
using namespace vh;
using namespace tachyon;
using namespace tachyon::crypto;
using Bn = math::bn254::BN254Curve;
using G1 = math::bn254::G1AffinePoint;
using G2 = math::bn254::G2AffinePoint;
using Fr = math::bn254::Fr;
using Fq2 = math::bn254::Fq2;
constexpr size_t kMax = 15;

struct Log { std::vector<std::string> ops; std::string J() const { return Seq(ops, [](const std::string& s) { return Quote(s); }); } };
class Writer : public TranscriptWriter<G1> {
 public:
  Writer(std::vector<Fr> ch) : ch_(std::move(ch)) {}
  Fr SqueezeChallenge() override { log.ops.push_back("s"); return ch_[at_++]; }
  bool WriteToTranscript(const G1&) override { return true; }
  bool WriteToTranscript(const Fr&) override { return true; }
  Log log; std::vector<G1> out;
 protected:
  bool DoWriteToProof(const G1& p) override { log.ops.push_back("w"); out.push_back(p); return true; }
  bool DoWriteToProof(const Fr&) override { log.ops.push_back("f"); return true; }
  std::vector<Fr> ch_; size_t at_ = 0;
};
class Reader : public TranscriptReader<G1> {
 public:
  Reader(std::vector<Fr> ch, std::vector<G1> in) : ch_(std::move(ch)), in_(std::move(in)) {}
  Fr SqueezeChallenge() override { log.ops.push_back("s"); return ch_[at_++]; }
  bool WriteToTranscript(const G1&) override { return true; }
  bool WriteToTranscript(const Fr&) override { return true; }
  mutable Log log;
 protected:
  bool DoReadFromProof(G1* p) const override { if (pos_ >= in_.size()) return false; log.ops.push_back("r"); *p = in_[pos_++]; return true; }
  bool DoReadFromProof(Fr*) const override { return false; }
  std::vector<Fr> ch_; size_t at_ = 0; std::vector<G1> in_; mutable size_t pos_ = 0;
};
struct Open { size_t i; Fr x, y; };
std::string OJ(const std::vector<Open>& os) { return Seq(os, [](const Open& o) { return "{\"i\":" + std::to_string(o.i + 1) + ",\"x\":" + FL(o.x) + ",\"y\":" + FL(o.y) + "}"; }); }
struct Kn { size_t i; Fr e; };
std::string KJ(const std::vector<Kn>& ks) { return Seq(ks, [](const Kn& k) { return "{\"i\":" + std::to_string(k.i) + ",\"e\":" + FL(k.e) + "}"; }); }
G1 Times(const Fr& e) { return (e * G1::Generator()).ToAffine(); }
template <typename T> void Shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Rn(i)]); }
Fr NZ() { for (;;) { Fr f = Fr::Random(); if (!f.IsZero()) return f; } }

template <template <typename, size_t, typename> class Scheme>
struct S {
  using Pcs = Scheme<Bn, kMax, G1>;
  using Poly = typename Pcs::Poly;
  using Evals = typename Pcs::Evals;
  using Domain = typename Pcs::Domain;
  using Coeffs = typename Poly::Coefficients;
  static constexpr bool kGwc = std::is_same_v<Pcs, GWC<Bn, kMax, G1>>;
  Pcs pcs; size_t n; Fr tau;
  static std::string Name() { return kGwc ? "gwc" : "shplonk"; }
  static void Params(Ev& e, const Pcs& p) {
    e.raw("pow", PLs(p.kzg().g1_powers_of_tau())).raw("lag", PLs(p.kzg().g1_powers_of_tau_lagrange()));
    e.raw("ext2", "[" + ExtLevels<Fq2>() + "]").raw("a2", EL(G2::Curve::Config::kA)).raw("g2", "[" + EL(G2::Generator().x()) + "," + EL(G2::Generator().y()) + "]")
        .raw("s2", "[" + EL(p.s_g2().x()) + "," + EL(p.s_g2().y()) + "]");
  }
  void Setup() {
    n = size_t{1} << Rn(5);
    auto d = Domain::Create(n);
    switch (Rn(6)) { case 0: tau = Fr(1 + Rn(9)); break; case 1: tau = d->GetElement(Rn(n)); break; default: tau = NZ(); }
    bool ok = pcs.UnsafeSetup(n, tau);
    Ev e("Setup"); e.s("sch", Name()).i("n", n).raw("q", L(Modulus<Fr>())).raw("tau", FL(tau)).b("ok", ok).raw("w", FL(d->group_gen()))
        .raw("gx", EL(G1::Generator().x())).raw("gy", EL(G1::Generator().y()));
    Params(e, pcs);
  }
  void Reload() {
    base::Uint8VectorBuffer b; Pcs back; bool ok = b.Grow(base::EstimateSize(pcs)) && b.Write(pcs); b.set_buffer_offset(0); ok = ok && b.Read(&back);
    Ev e("Reload"); e.b("ok", ok); Params(e, back);
    pcs = std::move(back);
  }
  static std::vector<Fr> Vec(size_t m) { int mode = Rn(4); std::vector<Fr> v; for (size_t i = 0; i < m; ++i) v.push_back(mode == 0 ? Fr(Rn(3)) : RandF<Fr>()); return v; }
  void Commit() {
    bool lag = Rn(2); std::vector<Fr> c = Vec(Rn(5) ? Rn(n + 1) : Rn(2) ? n : std::min(n + 1 + Rn(2), kMax + 1));
    G1 out = Times(Fr(77)); bool ok; int how = Rn(2);
    if (lag) ok = how ? pcs.CommitLagrange(Evals(c), &out) : pcs.kzg().CommitLagrange(c, &out);
    else if (how) ok = pcs.Commit(Poly(Coeffs(c)), &out);
    else ok = pcs.kzg().Commit(c, &out);
    Ev e("Commit"); e.b("lag", lag).raw("c", FLs(c)).b("ok", ok).raw("v", PL(out));
  }
  // the scheme with points that are not affine
  template <typename C> void Other() {
    KZG<G1, kMax, C> k; if (!k.UnsafeSetup(n, tau)) return;
    bool lag = Rn(2); std::vector<Fr> c = Vec(Rn(n + 1)); C out; bool ok = lag ? k.CommitLagrange(c, &out) : k.Commit(c, &out);
    { Ev e("Commit"); e.b("lag", lag).raw("c", FLs(c)).b("ok", ok).raw("v", PL(out)); }
    BatchCommitmentState st(true, 1 + Rn(3)); k.ResizeBatchCommitments(st.batch_count);
    std::vector<std::vector<Fr>> cs; std::vector<bool> oks;
    for (size_t i = 0; i < st.batch_count; ++i) { cs.push_back(Vec(Rn(n + 1))); oks.push_back(lag ? k.CommitLagrange(cs[i], st, i) : k.Commit(cs[i], st, i)); }
    auto out2 = k.GetBatchCommitments(st);
    Ev e("BatchCommit"); e.b("lag", lag).raw("cs", Seq(cs, [](const auto& x) { return FLs(x); })).raw("oks", Seq(oks, [](bool b) { return std::string(b ? "true" : "false"); })).raw("out", PLs(out2)).b("mode", st.batch_mode || st.batch_count);
  }
  void Batch() {
    bool lag = Rn(2); size_t m = 1 + Rn(4); std::vector<std::vector<Fr>> cs(m); std::vector<bool> oks(m);
    pcs.SetBatchMode(m); std::vector<size_t> order; for (size_t i = 0; i < m; ++i) order.push_back(i); Shuffle(order);
    for (size_t i : order) {
      cs[i] = Vec(Rn(n + 1));
      oks[i] = lag ? pcs.CommitLagrange(Evals(cs[i]), i) : pcs.Commit(Poly(Coeffs(cs[i])), i);
    }
    auto out = pcs.GetBatchCommitments();
    Ev e("BatchCommit"); e.b("lag", lag).raw("cs", Seq(cs, [](const auto& x) { return FLs(x); })).raw("oks", Seq(oks, [](bool b) { return std::string(b ? "true" : "false"); })).raw("out", PLs(out)).b("mode", pcs.GetBatchMode());
  }
  void Down() {
    KZG<G1, kMax, G1> k; if (!k.UnsafeSetup(n, tau)) return;
    size_t m = Rn(4) == 0 ? n + Rn(3) : n >> (1 + Rn(2)); if (m == 0) m = n;
    bool ok = k.Downsize(m); auto d = Domain::Create(k.N());
    { Ev e("Down"); e.i("n", m).b("ok", ok).raw("pow", PLs(k.g1_powers_of_tau())); }
    Ev e("DownLag"); e.i("n", m).b("ok", ok).b("shrunk", ok).raw("w", FL(d->group_gen())).raw("lag", PLs(k.g1_powers_of_tau_lagrange()));
  }
  void Proofs() {
    // polynomials and points
    size_t np = 1 + Rn(4); std::vector<Poly> ps;
    for (size_t i = 0; i < np; ++i) {
      std::vector<Fr> c = Vec(Rn(6) == 0 ? 0 : Rn(5) == 0 ? 1 : Rn(n + 1));
      if (i && Rn(6) == 0) ps.push_back(ps[0]); else ps.push_back(Poly(Coeffs(c, true)));
    }
    std::vector<Fr> xs; size_t nx = 1 + Rn(4); auto d = Domain::Create(n);
    for (size_t i = 0; i < nx; ++i) xs.push_back(Rn(3) == 0 ? Fr(Rn(3)) : Rn(3) == 0 ? d->GetElement(Rn(n)) : Rn(12) == 0 ? tau : Fr::Random());
    std::vector<Open> os; int shape = Rn(3);
    for (size_t i = 0; i < np; ++i) for (size_t j = 0; j < nx; ++j)
      if (shape == 0 || (shape == 1 && (i + j) % 2 == 0) || (shape == 2 && Rn(2))) os.push_back({i, xs[j], ps[i].Evaluate(xs[j])});
    if (os.empty()) os.push_back({0, xs[0], ps[0].Evaluate(xs[0])});
    Shuffle(os);
    if (Rn(5) == 0) os.push_back(os[Rn(os.size())]);
    if (Rn(10) == 0) { Open& o = os[Rn(os.size())]; Fr dd = NZ(); for (Open& w : os) if (w.i == o.i && w.x == o.x && &w != &o) w.y += dd; o.y += dd; }
    std::vector<Fr> ch; for (int i = 0; i < 3; ++i) ch.push_back(Rn(12) ? Fr::Random() : Fr(1 + Rn(3)));
    auto Clash = [&](const Fr& u) { for (const Fr& x : xs) if (x == u) return true; return false; };
    while (Clash(ch[2])) ch[2] = Fr::Random();
    std::vector<PolynomialOpening<Poly>> po; for (const Open& o : os) po.emplace_back(base::Ref<const Poly>(&ps[o.i]), o.x, o.y);
    Writer w(ch); bool ok = pcs.CreateOpeningProof(po, &w);
    { Ev e("Prove"); e.s("sch", Name()).raw("ps", Seq(ps, [](const Poly& p) { return FLs(p.coefficients().coefficients()); })).raw("os", OJ(os)).raw("ch", FLs(ch)).b("ok", ok).raw("pf", PLs(w.out)).raw("order", w.log.J()); }
    if (!ok) return;
    std::vector<Fr> ch0 = ch; if (kGwc) ch0 = {ch[0], ch[2]};
    for (int k = 0; k < 7; ++k) {
      std::vector<Kn> cs, pf; for (size_t i = 0; i < np; ++i) cs.push_back({i + 1, Fr::Zero()});
      for (size_t i = 0; i < w.out.size(); ++i) pf.push_back({i + 1, Fr::Zero()});
      std::vector<Open> vo = os; std::vector<Fr> vc = ch0; const char* what = "honest";
      Fr dd = Rn(3) ? NZ() : Rn(2) ? Fr::One() : -Fr::One();
      switch (k == 0 ? 0 : Rn(11)) {
        case 0: break;
        case 1: { size_t at = Rn(vo.size()); Open o = vo[at]; for (Open& q : vo) if (q.i == o.i && q.x == o.x) q.y += dd; what = "value"; break; }
        case 2: { size_t at = Rn(vo.size()); vo[at].x += dd; what = "point"; break; }
        case 3: cs[Rn(np)].e = dd; what = "commitment"; break;
        case 4: cs[Rn(np)] = {0, Rn(2) ? dd : Fr::Zero()}; what = "othercommitment"; break;
        case 5: pf[Rn(pf.size())].e = dd; what = "proof"; break;
        case 6: pf[Rn(pf.size())] = {0, Rn(2) ? dd : Fr::Zero()}; what = "otherproof"; break;
        case 7: vc[Rn(vc.size())] += dd; what = "challenge"; break;
        case 8: { Open o = vo[Rn(vo.size())]; if (Rn(2)) o.y += dd; vo.insert(vo.begin() + Rn(vo.size() + 1), o); what = "again"; break; }
        case 9: pf.pop_back(); what = "short"; break;
        default: { Shuffle(vo); if (vo.size() > 1 && Rn(2)) vo.pop_back(); what = "order"; }
      }
      bool clash = false; for (const Open& o : vo) clash = clash || o.x == vc.back(); if (clash) continue;
      std::vector<G1> cp, wp;
      for (const Kn& c : cs) { G1 b = G1::Zero(); if (c.i) { G1 t; if (!pcs.Commit(ps[c.i - 1], &t)) return; b = t; } cp.push_back((b.ToJacobian() + Times(c.e)).ToAffine()); }
      for (const Kn& c : pf) { G1 b = c.i ? w.out[c.i - 1] : G1::Zero(); wp.push_back((b.ToJacobian() + Times(c.e)).ToAffine()); }
      std::vector<PolynomialOpening<Poly, G1>> qo; for (const Open& o : vo) qo.emplace_back(base::Ref<const G1>(&cp[o.i]), o.x, o.y);
      Reader r(vc, wp); bool acc = pcs.VerifyOpeningProof(qo, &r);
      Ev e("Verify"); e.s("sch", Name()).s("what", what).raw("cs", KJ(cs)).raw("pf", KJ(pf)).raw("cpts", PLs(cp)).raw("wpts", PLs(wp)).raw("os", OJ(vo)).raw("ch", FLs(vc)).b("acc", acc).raw("order", r.log.J());
    }
  }
  void Run() {
    EvCurve<math::bn254::G1Curve>("bn254", true);
    for (int round = 0; round < (T().thorough() ? 40 : 8); ++round) {
      T().Doing("setup"); Setup();
      for (int k = 0; k < 3; ++k) {
        T().Doing("commit"); Commit(); Commit(); Batch();
        if (Rn(2)) { T().Doing("other"); switch (Rn(3)) { case 0: Other<math::bn254::G1JacobianPoint>(); break; case 1: Other<math::bn254::G1PointXYZZ>(); break; default: Other<math::bn254::G1ProjectivePoint>(); } }
        if (Rn(3) == 0) { T().Doing("reload"); Reload(); }
        if (Rn(4) == 0) { T().Doing("down"); Down(); }
        T().Doing("proofs"); Proofs();
        T().Flush();
      }
    }
  }
};

template <typename C, typename Cm> void Ped() {
  using A = AffinePoint<C>; using F = typename C::ScalarField;
  for (int round = 0; round < (T().thorough() ? 300 : 60); ++round) {
    size_t n = Rn(8); A h = RandPoint<C>(); std::vector<A> gs; for (size_t i = 0; i < n; ++i) gs.push_back(RandPoint<C>());
    Pedersen<A, 8, Cm> p(h, gs);
    if (Rn(6) == 0) { if (!p.Setup(n)) continue; h = p.h(); gs = p.generators(); }
    if (Rn(4) == 0) { base::Uint8VectorBuffer b; Pedersen<A, 8, Cm> q; if (!(b.Grow(base::EstimateSize(p)) && b.Write(p))) continue; b.set_buffer_offset(0); if (!b.Read(&q)) continue; p = std::move(q); }
    auto V = [&](size_t m) { std::vector<F> v; for (size_t i = 0; i < m; ++i) v.push_back(RandS<F>()); return v; };
    {
      auto v = V(Rn(5) ? n : Rn(9)); F r = RandS<F>(); Cm out; bool ok = p.Commit(v, r, &out);
      Ev e("Ped"); e.raw("h", PL(h)).raw("gs", PLs(gs)).raw("v", FLs(v)).raw("r", FL(r)).b("ok", ok); if (ok) e.raw("out", PL(out));
    }
    size_t m = 1 + Rn(4); std::vector<std::vector<F>> vs(m); std::vector<F> rs(m); p.SetBatchMode(m); bool blind = Rn(4) == 0, ok = true;
    for (size_t i = m; i-- > 0;) { vs[i] = V(n); rs[i] = blind ? F(1 + Rn(50)) : F::Zero(); ok = p.Commit(vs[i], rs[i], i) && ok; }
    auto out = p.GetBatchCommitments();
    Ev e(blind ? "PedBlind" : "PedBatch"); e.b("ok", ok).raw("h", PL(h)).raw("gs", PLs(gs)).raw("vs", Seq(vs, [](const auto& x) { return FLs(x); })).raw("rs", FLs(rs)).raw("out", PLs(out)).b("mode", p.GetBatchMode());
  }
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  Bn::Init(); 
  for (int i = 0; i < 3; ++i) { T().Shard("gwc" + std::to_string(i)); S<GWC> s; s.Run(); }
  for (int i = 0; i < 3; ++i) { T().Shard("shplonk" + std::to_string(i)); S<SHPlonk> s; s.Run(); }
  T().Shard("pedersen"); {
    using C = math::bn254::G1Curve; EvCurve<C>("bn254", true);
    Ped<C, AffinePoint<C>>(); Ped<C, PointXYZZ<C>>();
  }
  return 0;
}
