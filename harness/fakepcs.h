#ifndef VH_FAKEPCS_H_
#define VH_FAKEPCS_H_
// What the provers of single arguments need of a commitment scheme: the sizes.
#include <memory>

#include "vh/fieldutil.h"
#include "tachyon/crypto/commitments/vector_commitment_scheme_traits_forward.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/base/entities/prover_base.h"
namespace vh {
template <typename F, size_t kMax>
struct FakePCS {
  using Field = F;
  using Domain = tachyon::math::UnivariateEvaluationDomain<F, kMax>;
  using Evals = typename Domain::Evals;
  using Poly = typename Domain::DensePoly;
  using ExtendedDomain = Domain;
  using ExtendedEvals = Evals;
  using ExtendedPoly = Poly;
  using Commitment = F;
  constexpr static bool kSupportsBatchMode = false;
  size_t n = 0;
  size_t N() const { return n; }
};
template <typename F>
struct Blinds : tachyon::zk::RandomFieldGeneratorBase<F> { F Generate() override { return RandF<F>(); } };
}  // namespace vh
namespace tachyon::crypto {
template <typename F, size_t N>
struct VectorCommitmentSchemeTraits<vh::FakePCS<F, N>> {
  constexpr static bool kSupportsBatchMode = false;
  using Field = F;
  using Commitment = F;
};
}  // namespace tachyon::crypto
#endif
