#ifndef VH_EXTUTIL_H_
#define VH_EXTUTIL_H_
#include "vh/fieldutil.h"
#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
namespace vh {
using tachyon::math::ExtensionFieldTraits;
template <typename F> constexpr bool kIsExt = ExtensionFieldTraits<F>::kDegreeOverBaseField > 1;
template <typename F> std::string EL(const F& x) {
  if constexpr (!kIsExt<F>) return FL(x);
  else {
    std::string s = "[";
    for (uint32_t i = 0; i < ExtensionFieldTraits<F>::kDegreeOverBaseField; ++i) { if (i) s += ","; s += EL(x[i]); }
    return s + "]";
  }
}
template <typename F> std::string ELs(const std::vector<F>& v) { return Seq(v, [](const F& f) { return EL(f); }); }
template <typename F> F RandE() {
  if constexpr (!kIsExt<F>) return RandF<F>();
  else {
    using B = typename ExtensionFieldTraits<F>::BaseField;
    int mode = Rn(10);
    if (mode == 0) return F::One();
    if (mode == 1) return F::Zero();
    F f = F::Zero();
    for (uint32_t i = 0; i < ExtensionFieldTraits<F>::kDegreeOverBaseField; ++i) f[i] = (mode < 5 && Rn(2)) ? B::Zero() : RandE<B>();
    return f;
  }
}
// the list of levels << d, nr >>
template <typename F> std::string ExtLevels() {
  if constexpr (!kIsExt<F>) return "";
  else {
    using B = typename ExtensionFieldTraits<F>::BaseField;
    std::string s = ExtLevels<B>();
    if (!s.empty()) s += ",";
    return s + "[" + std::to_string(ExtensionFieldTraits<F>::kDegreeOverBaseField) + "," + EL(F::Config::kNonResidue) + "]";
  }
}
template <typename F> std::string ModL() { return L(Modulus<typename ExtensionFieldTraits<F>::BasePrimeField>()); }
}  // namespace vh
#endif
