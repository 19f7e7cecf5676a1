// Machine integers and their recorded form.
#ifndef VH_NUMUTIL_H_
#define VH_NUMUTIL_H_
#include <limits>

#include "vh/tr.h"
namespace vh {
template <typename I> const char* Name() {
  constexpr bool s = std::is_signed_v<I>;
  switch (sizeof(I)) { case 1: return s ? "i8" : "u8"; case 2: return s ? "i16" : "u16"; case 4: return s ? "i32" : "u32"; default: return s ? "i64" : "u64"; }
}
template <typename I> std::string ZS(I v) {
  bool n = false;
  uint64_t m;
  if constexpr (std::is_signed_v<I>) { n = v < 0; m = n ? (uint64_t)0 - (uint64_t)(int64_t)v : (uint64_t)v; } else m = v;
  std::string l = Limbs(m);
  return std::string("[") + (n ? "1" : "0") + (l.size() > 2 ? "," + l.substr(1) : "]");
}
template <typename I> I Val() {
  using L = std::numeric_limits<I>;
  switch (Rn(8)) {
    case 0: return L::max() - (I)Rn(3);
    case 1: return L::lowest() + (I)Rn(3);
    case 2: return (I)((int64_t)Rn(5) - (std::is_signed_v<I> ? 2 : 0));
    case 3: return (I)((uint64_t)1 << Rn(sizeof(I) * 8));
    case 4: return (I)(((uint64_t)1 << Rn(sizeof(I) * 8)) - 1 + Rn(3));
    case 5: return (I)(0 - ((uint64_t)1 << Rn(sizeof(I) * 8)) + Rn(3) - 1);
    case 6: return (I)(R64() >> Rn(64));
    default: return (I)R64();
  }
}
}  // namespace vh
#endif
