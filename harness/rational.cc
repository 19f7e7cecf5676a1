// Histories of fractions (deferred division) and of possibly unknown values.
#include <optional>
#include <vector>

#include "vh/f12289.h"
#include "vh/fieldutil.h"
#include "vh/tr.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/zk/base/value.h"
using namespace vh;
namespace M = tachyon::math;
template <typename F> using R = M::RationalField<F>;
template <typename T> using V = tachyon::zk::Value<T>;

template <typename F> struct Inner { using T = F; };
template <typename F> struct Inner<R<F>> { using T = F; };
template <typename X> struct Inner<V<X>> { using T = typename Inner<X>::T; };
template <typename X> constexpr bool kIsV = false;
template <typename X> constexpr bool kIsV<V<X>> = true;
template <typename X> constexpr bool kIsR = false;
template <typename F> constexpr bool kIsR<R<F>> = true;

template <typename F> Ev& Show(Ev& e, const F& x) { return e.b("k", true).raw("n", FL(x)).raw("d", FL(F::One())); }
template <typename F> Ev& Show(Ev& e, const R<F>& x) { return e.b("k", true).raw("n", FL(x.numerator())).raw("d", FL(x.denominator())); }
template <typename X> Ev& Show(Ev& e, const V<X>& x) {
  if (x.IsNone()) return e.b("k", false);
  return Show(e, x.value());
}
template <typename F> F Nz() { F f; do f = RandF<F>(); while (f.IsZero()); return f; }
template <typename F> F Some() { return Rn(5) == 0 ? F::Zero() : Rn(8) == 0 ? F::One() : RandF<F>(); }

template <typename X> X Make(const typename Inner<X>::T& n, const typename Inner<X>::T& d);
template <typename F> struct Mk { static F Do(const F& n, const F&) { return n; } };
template <typename F> struct Mk<R<F>> { static R<F> Do(const F& n, const F& d) { if (Rn(2)) return R<F>(n, d); F a = n, b = d; return R<F>(std::move(a), std::move(b)); } };
template <typename X> struct Mk<V<X>> { static V<X> Do(const typename Inner<X>::T& n, const typename Inner<X>::T& d) { auto x = Mk<X>::Do(n, d); if (Rn(2)) return V<X>::Known(x); return V<X>::Known(std::move(x)); } };
template <typename X> struct Core { using T = X; };
template <typename X> struct Core<V<X>> { using T = X; };

template <typename X>
static void Machine(int steps) {
  using F = typename Inner<X>::T;
  using C = typename Core<X>::T;
  constexpr bool frac = kIsR<C>, val = kIsV<X>;
  constexpr int N = 6;
  Ev("Begin").raw("p", L(Modulus<F>()));
  X r[N];
  for (int i = 0; i < N; ++i) { r[i] = X::Zero(); Ev e("Set"); e.i("to", i + 1).s("how", "zero").b("unknown", false); Show(e, r[i]); }
  for (int s = 0; s < steps; ++s) {
    int a = Rn(N), b = Rn(3) ? Rn(N) : a, to = Rn(N);
    T().Doing("machine");
    switch (Rn(12)) {
      case 0: case 1: {
        F n = Some<F>(), d = frac ? Nz<F>() : F::One();
        if (frac && Rn(4) == 0) d = n.IsZero() ? d : n;      // denotes one
        else if (frac && Rn(6) == 0 && !n.IsZero()) d = -n;  // denotes minus one
        if (Rn(5) == 0) n = F::One(); else if (Rn(6) == 0) n = F::MinusOne();
        std::string how = "pair";
        bool unk = false;
        int k = Rn(10);
        if (val && k == 9) { if constexpr (val) r[to] = Rn(2) ? X::Unknown() : X(); unk = true; }
        else if (k == 0) { r[to] = X::Zero(); how = "zero"; }
        else if (k == 1) { r[to] = X::One(); how = "one"; }
        else if (k == 2) { r[to] = X::MinusOne(); how = "mone"; }
        else if (k == 3) { r[to] = X::Random(); how = "rand"; }
        else if (k == 4 && frac && !val) { if constexpr (frac && !val) { r[to] = X(n); how = "num"; } }
        else if (k == 5 && frac && !val) { if constexpr (frac && !val) { r[to] = X::TwoInv(); how = "half"; } }
        else r[to] = Mk<X>::Do(n, d);
        Ev e("Set");
        e.i("to", to + 1).s("how", how).b("unknown", unk).raw("a", FL(n)).raw("b", FL(d));
        Show(e, r[to]);
        break;
      }
      case 2: case 3: case 4: case 5: {
        int o = Rn(4);
        static const char* names[] = {"add", "sub", "mul", "div"};
        bool place = false, ok = true;
        if constexpr (val) {
          if (o < 3 && Rn(4) == 0) {
            // the other operand is a plain value
            F n = Some<F>(), d = frac ? Nz<F>() : F::One();
            C c = Mk<C>::Do(n, d);
            r[to] = o == 0 ? r[a] + c : o == 1 ? r[a] - c : r[a] * c;
            F bv = n;
            if constexpr (frac) bv = *(n / d);
            Ev e("Bin");
            e.s("o", names[o]).i("a", a + 1).b("plain", true).raw("bv", FL(bv)).i("to", to + 1).b("ok", true).b("place", false);
            Show(e, r[to]);
            break;
          }
        } else if (Rn(2)) {
          place = true;
          to = a;
          if (o == 0) r[a] += r[b]; else if (o == 1) r[a] -= r[b]; else if (o == 2) r[a] *= r[b]; else ok = static_cast<bool>(r[a] /= r[b]);
        }
        if (!place) {
          if (o == 0) r[to] = r[a] + r[b]; else if (o == 1) r[to] = r[a] - r[b]; else if (o == 2) r[to] = r[a] * r[b];
          else { std::optional<X> q = r[a] / r[b]; ok = q.has_value(); if (ok) r[to] = *q; }
        }
        Ev e("Bin");
        e.s("o", names[o]).i("a", a + 1).i("b", b + 1).b("plain", false).i("to", to + 1).b("ok", ok).b("place", place);
        Show(e, r[to]);
        break;
      }
      case 6: case 7: {
        static const char* names[] = {"neg", "dbl", "sqr", "inv", "copy"};
        int o = Rn(5);
        bool place = Rn(2), ok = true;
        if (o == 4) place = false;
        if (place) {
          to = a;
          if (o == 0) r[a].NegateInPlace(); else if (o == 1) r[a].DoubleInPlace(); else if (o == 2) r[a].SquareInPlace(); else ok = static_cast<bool>(r[a].InverseInPlace());
        } else {
          if (o == 0) r[to] = -r[a]; else if (o == 1) r[to] = r[a].Double(); else if (o == 2) r[to] = r[a].Square();
          else if (o == 3) { auto q = r[a].Inverse(); ok = q.has_value(); if (ok) r[to] = *q; }
          else r[to] = r[a];
        }
        Ev e("Un");
        e.s("o", names[o]).i("a", a + 1).i("to", to + 1).b("ok", ok).b("place", place);
        Show(e, r[to]);
        break;
      }
      case 8:
        if constexpr (!val) {
          int k = Rn(3);
          if (k == 0) {
            M::BigInt<1> x(Rn(2) ? Rn(5) : R64());
            r[to] = r[a].Pow(x);
            Ev e("Pow"); e.i("a", a + 1).i("to", to + 1).raw("e", L(x)); Show(e, r[to]);
          } else if (k == 1) {
            M::BigInt<1> x(Rn(2) ? Rn(5) : R64());
            r[to] = r[a].ScalarMul(x);
            Ev e("Scale"); e.i("a", a + 1).i("to", to + 1).raw("e", L(x)); Show(e, r[to]);
          } else {
            std::vector<int> ia, ib;
            std::vector<X> xa, xb;
            int n = 1 + Rn(4);
            for (int i = 0; i < n; ++i) { int u = Rn(N), w = Rn(N); ia.push_back(u + 1); ib.push_back(w + 1); xa.push_back(r[u]); xb.push_back(r[w]); }
            r[to] = Rn(2) ? X::SumOfProducts(xa, xb) : X::SumOfProductsSerial(xa, xb);
            Ev e("Dot"); e.ints("a", ia).ints("b", ib).i("to", to + 1); Show(e, r[to]);
          }
        }
        break;
      case 9: {
        Ev e("Ask");
        e.i("a", a + 1).b("zero", r[a].IsZero()).b("one", r[a].IsOne()).b("mone", r[a].IsMinusOne());
        bool none = false, ev = false;
        if constexpr (val) none = r[a].IsNone();
        if constexpr (frac && !val) { ev = true; e.raw("val", FL(r[a].Evaluate())); }
        if constexpr (frac && val) if (!none) { ev = true; e.raw("val", FL(r[a]->Evaluate())); }
        e.b("none", none).b("ev", ev);
        break;
      }
      case 10: {
        if (Rn(3) == 0) { b = (a + 1) % N; r[b] = r[a]; Ev e("Un"); e.s("o", "copy").i("a", a + 1).i("to", b + 1).b("ok", true).b("place", false); Show(e, r[b]); }
        Ev e("Cmp");
        e.i("a", a + 1).i("b", b + 1).b("eq", r[a] == r[b]).b("ne", r[a] != r[b]);
        if constexpr (frac && !val) {
          e.b("ord", true).b("lt", r[a] < r[b]).b("gt", r[a] > r[b]).b("le", r[a] <= r[b]).b("ge", r[a] >= r[b]).b("rlt", r[b] < r[a]).b("rgt", r[b] > r[a])
              .b("plain", r[a].denominator().IsOne() && r[b].denominator().IsOne());
        } else {
          e.b("ord", false);
        }
        break;
      }
      case 11:
        if constexpr (val && !frac) {
          auto c = r[a].ToRationalFieldValue();
          Ev e("Conv"); e.i("a", a + 1); Show(e, c);
        }
        break;
    }
  }
}
template <typename F>
static void Batches(int n) {
  using X = R<F>;
  Ev("Begin").raw("p", L(Modulus<F>()));
  for (int i = 0; i < n; ++i) {
    size_t k = Rn(4) == 0 ? Rn(3) : Rn(20);
    std::vector<X> v;
    for (size_t j = 0; j < k; ++j) {
      F nn = Some<F>(), d = Rn(4) == 0 ? F::Zero() : Rn(4) == 0 ? F::One() : Nz<F>();
      v.push_back(X(nn, d));
    }
    bool fits = Rn(6) != 0, inv = Rn(3) == 0;
    if (inv) for (auto& x : v) if (x.denominator().IsZero()) x = X(x.numerator(), Nz<F>());
    auto ns = Seq(v, [](const X& x) { return FL(x.numerator()); }), ds = Seq(v, [](const X& x) { return FL(x.denominator()); });
    F c = Rn(2) ? F::One() : Some<F>();
    if (inv) {
      X xc(c, Nz<F>());
      std::vector<X> res(fits ? k : k + 1);
      bool one = Rn(2);
      bool ok = one ? X::BatchInverse(v, &res) : X::BatchInverse(v, &res, xc);
      F cv = one ? F::One() : *(xc.numerator() / xc.denominator());
      Ev("BatchInv").b("fits", fits).b("ok", ok).raw("ns", ns).raw("ds", ds).raw("c", FL(cv)).raw("rn", Seq(res, [](const X& x) { return FL(x.numerator()); })).raw("rd", Seq(res, [](const X& x) { return FL(x.denominator()); }));
    } else {
      std::vector<F> res(fits ? k : Rn(2) ? k + 1 : (k ? k - 1 : 1), F::MinusOne());
      bool one = c.IsOne() && Rn(2);
      bool ok = one ? X::BatchEvaluate(v, &res) : X::BatchEvaluate(v, &res, c);
      Ev("Batch").b("fits", fits).b("ok", ok).raw("ns", ns).raw("ds", ds).raw("c", FL(c)).raw("res", FLs(res));
    }
  }
}
template <typename F>
static void All(const std::string& name, int n) {
  T().Shard(name + "-frac"); Machine<R<F>>(n);
  T().Shard(name + "-batch"); Batches<F>(n / 8);
  T().Shard(name + "-value"); Machine<V<F>>(n / 2);
  T().Shard(name + "-fracvalue"); Machine<V<R<F>>>(n / 2);
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  int n = th ? 4000 : 700;
  M::GF7::Init();
  M::vhf::F12289::Init();
  M::BabyBear::Init();
  M::bn254::Fr::Init();
  All<M::GF7>("gf7", 2 * n);
  All<M::vhf::F12289>("f12289", n);
  All<M::BabyBear>("babybear", n);
  All<M::bn254::Fr>("bn254fr", n / 3);
}
