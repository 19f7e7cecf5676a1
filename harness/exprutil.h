#ifndef VH_EXPRUTIL_H_
#define VH_EXPRUTIL_H_
// Circuit expressions: random ones, and their JSON form.
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "vh/fieldutil.h"
#include "vh/tr.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
namespace vh {
namespace zk = tachyon::zk;
namespace pl = tachyon::zk::plonk;
template <typename F> using Ex = std::unique_ptr<zk::Expression<F>>;
template <typename Q>
std::string QJ(const char* t, const Q& q) {
  return std::string("{\"t\":\"") + t + "\",\"c\":" + std::to_string(q.column().index() + 1) + ",\"r\":" + std::to_string(q.rotation().value()) + ",\"q\":" + std::to_string(q.HasIndex() ? static_cast<int>(q.GetIndex()) + 1 : 0) + "}";
}
template <typename F>
std::string EJ(const zk::Expression<F>* e) {
  using T = zk::ExpressionType;
  switch (e->type()) {
    case T::kConstant: return "{\"t\":\"k\",\"v\":" + FL(e->ToConstant()->value()) + "}";
    case T::kSelector: return "{\"t\":\"s\",\"c\":" + std::to_string(e->ToSelector()->selector().index() + 1) + ",\"m\":" + (e->ToSelector()->selector().is_simple() ? "true" : "false") + "}";
    case T::kFixed: return QJ("f", e->ToFixed()->query());
    case T::kAdvice: return QJ("a", e->ToAdvice()->query());
    case T::kInstance: return QJ("i", e->ToInstance()->query());
    case T::kChallenge: return "{\"t\":\"h\",\"c\":" + std::to_string(e->ToChallenge()->challenge().index() + 1) + "}";
    case T::kNegated: return "{\"t\":\"-\",\"x\":" + EJ<F>(e->ToNegated()->expr()) + "}";
    case T::kSum: return "{\"t\":\"+\",\"x\":" + EJ<F>(e->ToSum()->left()) + ",\"y\":" + EJ<F>(e->ToSum()->right()) + "}";
    case T::kProduct: return "{\"t\":\"*\",\"x\":" + EJ<F>(e->ToProduct()->left()) + ",\"y\":" + EJ<F>(e->ToProduct()->right()) + "}";
    case T::kScaled: return "{\"t\":\".\",\"x\":" + EJ<F>(e->ToScaled()->expr()) + ",\"v\":" + FL(e->ToScaled()->scale()) + "}";
    default: return "{\"t\":\"?\"}";
  }
}
template <typename F> std::string EJ(const Ex<F>& e) { return EJ<F>(e.get()); }
template <typename F> std::string EJs(const std::vector<Ex<F>>& v) { return Seq(v, [](const Ex<F>& e) { return EJ<F>(e.get()); }); }
template <typename F>
F SmallOrAny() {
  switch (Rn(6)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return F(2);
    case 3: return F::MinusOne();
    case 4: return F(3 + Rn(3));
    default: return RandF<F>();
  }
}
// A random expression over the leaves |leaf| makes.
template <typename F>
Ex<F> RandomExpr(int depth, const std::function<Ex<F>()>& leaf) {
  using X = pl::ExpressionFactory<F>;
  if (depth == 0 || Rn(6) == 0) return Rn(5) == 0 ? X::Constant(SmallOrAny<F>()) : leaf();
  switch (Rn(9)) {
    case 0: return -RandomExpr<F>(depth - 1, leaf);
    case 1: case 2: { auto a = RandomExpr<F>(depth - 1, leaf), b = RandomExpr<F>(depth - 1, leaf); return std::move(a) + std::move(b); }
    case 3: { auto a = RandomExpr<F>(depth - 1, leaf), b = RandomExpr<F>(depth - 1, leaf); return std::move(a) - std::move(b); }
    case 4: { auto a = RandomExpr<F>(depth - 1, leaf); return Rn(2) ? a * a : a + a; }
    case 5: { auto a = RandomExpr<F>(depth - 1, leaf); return Rn(2) ? std::move(a) * SmallOrAny<F>() : a * SmallOrAny<F>(); }
    default: { auto a = RandomExpr<F>(depth - 1, leaf), b = RandomExpr<F>(depth - 1, leaf); return std::move(a) * std::move(b); }
  }
}
}  // namespace vh
#endif
