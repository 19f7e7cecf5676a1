#ifndef VH_FIELDUTIL_H_
#define VH_FIELDUTIL_H_
#include "vh/tr.h"
#include "tachyon/math/base/big_int.h"
namespace vh {
template <size_t N>
std::string L(const tachyon::math::BigInt<N>& b) { return Limbs(b.limbs, N); }
template <typename F>
std::string FL(const F& f) { return L(f.ToBigInt()); }
template <typename F>
std::string FLs(const std::vector<F>& v) { return Seq(v, [](const F& f) { return FL(f); }); }
template <typename F>
tachyon::math::BigInt<F::BigIntTy::kLimbNums> Modulus() {
  if constexpr (F::Config::kModulusBits <= 32) return tachyon::math::BigInt<F::BigIntTy::kLimbNums>(F::Config::kModulus);
  else return F::Config::kModulus;
}
// an interesting integer in [0, m)
template <size_t N>
tachyon::math::BigInt<N> Corner(const tachyon::math::BigInt<N>& m) {
  using B = tachyon::math::BigInt<N>;
  B r(0);
  switch (Rn(12)) {
    case 0: r = B(Rn(4)); break;
    case 1: r = m; r.SubInPlace(B(1 + Rn(4))); break;
    case 2: r = m; r.DivBy2InPlace(); if (Rn(2)) r.AddInPlace(B(1)); break;
    case 3: r[Rn(N)] = uint64_t{1} << Rn(64); break;
    case 4: r[Rn(N)] = uint64_t{1} << Rn(64); r.SubInPlace(B(1)); break;
    case 5: { for (size_t i = 0; i < N; ++i) r[i] = Rn(2) ? ~uint64_t{0} : 0; break; }
    case 6: { for (size_t i = 0; i < N; ++i) r[i] = Rn(3) ? R64() : (Rn(2) ? ~uint64_t{0} : 0); break; }
    case 7: { for (size_t i = 0; i < N; ++i) r[i] = m[i]; size_t k = Rn(N); r[k] = R64() % (m[k] ? m[k] : 1); break; }
    case 8: { r[0] = R64(); break; }
    default: for (size_t i = 0; i < N; ++i) r[i] = R64();
  }
  if (m.IsZero()) return r;
  // reduce by clearing top bits, then subtracting
  for (int guard = 0; r >= m && guard < 4096; ++guard) {
    size_t top = N - 1;
    while (top > 0 && m[top] == 0) { r[top] = 0; --top; }
    if (!(r >= m)) break;
    if (r[top] > m[top]) r[top] %= (m[top] + 1);
    else if (r >= m) r.SubInPlace(m);
  }
  return r;
}
template <typename F>
F RandF() {
  auto m = Modulus<F>();
  auto v = Corner(m);
  if constexpr (F::Config::kUseMontgomery) {
    if (Rn(3) == 0) {
      if constexpr (F::Config::kModulusBits <= 32) return F::FromMontgomery(static_cast<uint32_t>(v[0]));
      else return F::FromMontgomery(v);
    }
  }
  return F::FromBigInt(v);
}
}  // namespace vh
#endif
