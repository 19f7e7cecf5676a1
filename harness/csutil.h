#ifndef VH_CSUTIL_H_
#define VH_CSUTIL_H_
// The JSON form of what a constraint system holds.
#include <string>
#include <vector>

#include "vh/exprutil.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
namespace vh {
template <typename F> using CS = pl::ConstraintSystem<F>;
template <typename F>
std::string LookupsJ(const std::vector<tachyon::zk::lookup::Argument<F>>& v) {
  return Seq(v, [](const tachyon::zk::lookup::Argument<F>& a) { return "{\"tab\":" + EJs<F>(a.table_expressions()) + ",\"ins\":" + Seq(a.inputs_expressions(), [](const std::vector<Ex<F>>& x) { return EJs<F>(x); }) + "}"; });
}
template <typename F>
std::string ShufflesJ(const std::vector<tachyon::zk::shuffle::Argument<F>>& v) {
  return Seq(v, [](const tachyon::zk::shuffle::Argument<F>& a) { return "{\"tab\":" + EJs<F>(a.shuffle_expressions()) + ",\"ins\":" + EJs<F>(a.input_expressions()) + "}"; });
}
template <typename F>
std::string GatesJ(const std::vector<pl::Gate<F>>& v) {
  return Seq(v, [](const pl::Gate<F>& g) { return EJs<F>(g.polys()); });
}
template <typename Q>
std::string QueriesJ(const std::vector<Q>& v) {
  return Seq(v, [](const Q& q) { return "[" + std::to_string(q.column().index() + 1) + "," + std::to_string(q.rotation().value()) + "]"; });
}
inline std::string ColJ(const pl::AnyColumnKey& k) {
  const char* t = k.type() == pl::ColumnType::kFixed ? "f" : k.type() == pl::ColumnType::kAdvice ? "a" : k.type() == pl::ColumnType::kInstance ? "i" : "?";
  return std::string("[\"") + t + "\"," + std::to_string(k.index() + 1) + "]";
}
inline std::string CellJ(const pl::AnyColumnKey& k, tachyon::zk::Rotation r) {
  std::string c = ColJ(k);
  return c.substr(0, c.size() - 1) + "," + std::to_string(r.value()) + "]";
}
}  // namespace vh
#endif
