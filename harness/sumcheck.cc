// Histories of sumcheck provers and verifiers.
#include "vh/extutil.h"
#include "vh/f12289.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"
using namespace vh;
using namespace tachyon::crypto;
namespace M = tachyon::math;
template <typename F>
struct Run {
  static constexpr size_t kVars = 12, kDeg = 40;
  using MLE = M::MultilinearDenseEvaluations<F, kVars>;
  using LC = M::LinearCombination<MLE>;
  using Key = SumcheckProvingKey<MLE>;
  using Msg = SumcheckProverMsg<F, kDeg>;
  static std::vector<F> RandV(size_t n) {
    std::vector<F> v;
    int mode = Rn(4);
    for (size_t i = 0; i < n; ++i) v.push_back(mode == 0 ? (Rn(2) ? F::One() : F::Zero()) : RandF<F>());
    return v;
  }
  static std::string KeyJ(const Key& k) {
    return "{\"max\":" + std::to_string(k.verifying_key.max_evaluations) + ",\"vars\":" + std::to_string(k.verifying_key.num_variables) +
           ",\"terms\":" + Seq(k.terms, [](const M::LinearCombinationTerm<F>& t) { return "[" + FL(t.coefficient) + "," + Ints(t.indexes) + "]"; }) +
           ",\"tabs\":" + Seq(k.flattened_ml_evaluations, [](const MLE& m) { return FLs(m.evaluations()); }) + "}";
  }
  static std::string Ints(const std::vector<size_t>& v) { return Seq(v, [](size_t i) { return std::to_string(i + 1); }); }
  static void Go(size_t n, size_t maxdeg, size_t nterms) {
    LC lc(n);
    std::vector<std::shared_ptr<MLE>> pool;
    for (size_t i = 0; i < 1 + Rn(4); ++i) pool.push_back(std::make_shared<MLE>(RandV(size_t{1} << n)));
    std::vector<std::pair<F, std::vector<size_t>>> terms;
    for (size_t i = 0; i < nterms; ++i) {
      std::pair<F, std::vector<size_t>> t{RandF<F>(), {}};
      std::vector<std::shared_ptr<MLE>> e;
      for (size_t j = 1 + Rn(maxdeg); j > 0; --j) {
        t.second.push_back(Rn(pool.size()));
        e.push_back(pool[t.second.back()]);
      }
      lc.AddTerm(t.first, e);
      terms.push_back(t);
    }
    Key key = Key::Build(lc);
    SumcheckVerifyingKey vk = SumcheckVerifyingKey::Build(lc);
    Ev("Begin").raw("p", ModL<F>()).i("n", n).raw("tabs", Seq(pool, [](const std::shared_ptr<MLE>& m) { return FLs(m->evaluations()); }))
        .raw("terms", Seq(terms, [](const std::pair<F, std::vector<size_t>>& t) { return "[" + FL(t.first) + "," + Ints(t.second) + "]"; }))
        .i("max", vk.max_evaluations).i("vars", vk.num_variables);
    Key other = key;
    switch (Rn(5)) {
      case 0: other.verifying_key.num_variables++; break;
      case 1: if (!other.terms.empty()) other.terms[0].coefficient += F::One(); break;
      case 2: if (!other.flattened_ml_evaluations.empty()) other.flattened_ml_evaluations.back().evaluations()[Rn(size_t{1} << n)] += F::One(); break;
      case 3: if (!other.terms.empty()) other.terms.back().indexes.pop_back(); break;
    }
    Ev("Keys").raw("a", KeyJ(key)).raw("b", KeyJ(other)).b("eq", key == other).b("ne", key != other).b("veq", key.verifying_key == other.verifying_key);
    F total = lc.Combine();
    Ev("Total").raw("v", FL(total));
    Key key2 = key;
    SumcheckProver<MLE, kDeg> prover = Rn(2) ? SumcheckProver<MLE, kDeg>(key) : SumcheckProver<MLE, kDeg>(std::move(key2));
    SumcheckVerifier<MLE> verifier = Rn(2) ? SumcheckVerifier<MLE>(vk) : SumcheckVerifier<MLE>(SumcheckVerifyingKey(vk));
    size_t lie = Rn(3) == 0 ? Rn(n) : n;
    bool consistent = Rn(2);
    SumcheckVerifierMsg<F> v;
    for (size_t i = 0; i < n; ++i) {
      std::string r = i == 0 ? std::string("[]") : FL(v.random_value);
      Msg m = i == 0 ? prover.Round() : prover.Round(std::move(v));
      Ev("Prove").b("first", i == 0).raw("r", r).raw("msg", FLs(m.evaluations.evaluations()));
      std::vector<F> w = m.evaluations.evaluations();
      bool honest = true;
      if (i == lie) {
        F delta = Rn(2) ? F::One() : RandF<F>();
        size_t at = Rn(w.size());
        w[at] += delta;
        // A lie that keeps the sum of the first two values.
        if (consistent && w.size() > 1) w[at == 0 ? 1 : 0] -= at < 2 ? delta : F::Zero();
        honest = w == m.evaluations.evaluations();
        m = Msg{M::UnivariateEvaluations<F, kDeg>(w)};
      }
      v = verifier.Round(std::move(m));
      Ev("Recv").raw("msg", FLs(w)).b("honest", honest).raw("r", FL(v.random_value));
    }
    F claim = Rn(4) == 0 ? total + RandF<F>() : Rn(5) == 0 ? total + F::One() : total;
    Subclaim<F> sub;
    bool ok = verifier.CheckAndGenerateSubclaim(claim, &sub);
    Ev("Check").raw("claim", FL(claim)).b("ok", ok).raw("point", ok ? FLs(sub.point) : "[]").raw("exp", ok ? FL(sub.expected_evaluation) : "[]");
    // The polynomial itself is untouched.
    std::vector<F> x;
    for (size_t i = 0; i < n; ++i) x.push_back(ok && Rn(2) ? sub.point[i] : RandF<F>());
    Ev("At").raw("x", FLs(x)).raw("v", FL(lc.Evaluate(x)));
  }
  static void Interp(size_t n) {
    std::vector<F> y = RandV(n);
    F x = Rn(4) == 0 ? F(static_cast<uint32_t>(Rn(std::is_same_v<F, M::GF7> ? 7 : n + 2))) : RandF<F>();
    Ev("Interp").raw("y", FLs(y)).raw("x", FL(x)).raw("v", FL(InterpolateUniPoly(y, x)));
  }
  static void All(const char* name, int k) {
    F::Init();
    T().Shard(std::string(name) + std::to_string(k));
    int m = T().thorough() ? 8 : 1;
    for (int i = 0; i < 14 * m; ++i) Go(1 + Rn(4), 1 + Rn(3), 1 + Rn(4));
    for (int i = 0; i < m; ++i) {
      Go(5 + Rn(2), 2, 2);
      Go(1, 1 + Rn(9), 1);
      Go(2, 8, 1 + Rn(3));
      Go(1 + Rn(3), 1, 0);
    }
    Ev("Field").raw("p", ModL<F>());
    for (int i = 0; i < 20 * m; ++i) Interp(1 + Rn(9));
    for (int i = 0; i < 2 * m; ++i) Interp(9 + Rn(150));
  }
};
int main(int argc, char** argv) {
  T().Init(argc, argv);
  for (int k = 0; k < 2; ++k) {
    Run<M::GF7>::All("gf7", k);
    Run<M::vhf::F12289>::All("f12289", k);
    Run<M::BabyBear>::All("babybear", k);
    Run<M::bn254::Fr>::All("fr", k);
  }
  return 0;
}
