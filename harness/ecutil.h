// Points of short Weierstrass curves in any coordinates.
#ifndef VH_ECUTIL_H_
#define VH_ECUTIL_H_
#include "vh/extutil.h"
#include "tachyon/math/geometry/point_conversions.h"
namespace vh {
using namespace tachyon::math;
template <typename C> std::string PL(const AffinePoint<C>& p) { return "{\"k\":\"A\",\"c\":[" + EL(p.x()) + "," + EL(p.y()) + "]}"; }
template <typename C> std::string PL(const ProjectivePoint<C>& p) { return "{\"k\":\"P\",\"c\":[" + EL(p.x()) + "," + EL(p.y()) + "," + EL(p.z()) + "]}"; }
template <typename C> std::string PL(const JacobianPoint<C>& p) { return "{\"k\":\"J\",\"c\":[" + EL(p.x()) + "," + EL(p.y()) + "," + EL(p.z()) + "]}"; }
template <typename C> std::string PL(const PointXYZZ<C>& p) { return "{\"k\":\"X\",\"c\":[" + EL(p.x()) + "," + EL(p.y()) + "," + EL(p.zz()) + "," + EL(p.zzz()) + "]}"; }
template <typename V> std::string PLs(const V& v) { return Seq(v, [](const auto& p) { return PL(p); }); }
template <typename F> F NonZero() { for (;;) { F f = RandE<F>(); if (!f.IsZero()) return f; } }
// a random representative of an affine point
template <typename P, typename C> P Rep(const AffinePoint<C>& a) {
  using F = typename C::BaseField;
  F z = Rn(3) ? NonZero<F>() : F::One();
  F z2 = z * z, z3 = z2 * z;
  if constexpr (std::is_same_v<P, AffinePoint<C>>) return a;
  else if constexpr (std::is_same_v<P, ProjectivePoint<C>>) { if (a.IsZero()) return Rn(2) ? P::Zero() : P(F::Zero(), z, F::Zero()); return P(a.x() * z, a.y() * z, z); }
  else if constexpr (std::is_same_v<P, JacobianPoint<C>>) { if (a.IsZero()) return Rn(2) ? P::Zero() : P(z2, z3, F::Zero()); return P(a.x() * z2, a.y() * z3, z); }
  else { if (a.IsZero()) return Rn(2) ? P::Zero() : P(z2, z3, F::Zero(), F::Zero()); return P(a.x() * z2, a.y() * z3, z2, z3); }
}
// an interesting scalar
template <typename S> S RandS() { if (Rn(4) == 0) return S(Rn(20)); if (Rn(6) == 0) return -S(Rn(5)); return RandF<S>(); }
template <typename C> AffinePoint<C> RandPoint() {
  if (Rn(7) == 0) return AffinePoint<C>::Zero();
  return (RandS<typename C::ScalarField>() * AffinePoint<C>::Generator()).ToAffine();
}
template <typename C> void EvCurve(const char* name, bool prime) {
  using F = typename C::BaseField;
  Ev e("Curve");
  e.s("name", name).raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]").raw("ca", EL(C::Config::kA)).raw("cb", EL(C::Config::kB))
      .raw("gx", EL(C::Config::kGenerator.x)).raw("gy", EL(C::Config::kGenerator.y)).b("prime", prime).raw("n", L(Modulus<typename C::ScalarField>()));
}
}  // namespace vh
#endif
