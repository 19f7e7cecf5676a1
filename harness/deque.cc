// Random histories of circular_deque over three element types.
#include <set>
#include <unordered_set>

#include "vh/tr.h"
#include "tachyon/base/containers/circular_deque.h"
using namespace vh;
using tachyon::base::circular_deque;

struct Obj {
  static std::unordered_set<const void*>& Live() { static auto* s = new std::unordered_set<const void*>; return *s; }
  static long& Bad() { static long b = 0; return b; }
  int v;
  void Born() { if (!Live().insert(this).second) ++Bad(); }
  Obj(int x = 0) : v(x) { Born(); }
  Obj(const Obj& o) : v(o.v) { if (!Live().count(&o)) ++Bad(); Born(); }
  Obj(Obj&& o) noexcept : v(o.v) { if (!Live().count(&o)) ++Bad(); o.v = -7; Born(); }
  Obj& operator=(const Obj& o) { if (!Live().count(this) || !Live().count(&o)) ++Bad(); v = o.v; return *this; }
  Obj& operator=(Obj&& o) { if (!Live().count(this) || !Live().count(&o)) ++Bad(); v = o.v; if (&o != this) o.v = -7; return *this; }
  ~Obj() { if (!Live().erase(this)) ++Bad(); v = -9; }
  bool operator==(const Obj& o) const { return v == o.v; }
};

template <typename T> struct Tr;
template <> struct Tr<Obj> { static Obj Mk(int v) { return Obj(v); } static int Get(const Obj& o) { return o.v; }
  static long Live() { return Obj::Live().size(); } static long Bad() { return Obj::Bad(); } };
template <> struct Tr<int> { static int Mk(int v) { return v; } static int Get(int o) { return o; }
  static long Live() { return -1; } static long Bad() { return 0; } };
template <> struct Tr<std::string> {
  static std::string Mk(int v) { return v == 0 ? std::string() : std::to_string(v) + (v % 3 == 0 ? std::string(40, 'x') : ""); }
  static int Get(const std::string& o) { return o.empty() ? 0 : atoi(o.c_str()); }
  static long Live() { return -1; } static long Bad() { return 0; } };

template <typename T>
struct H {
  using D = circular_deque<T>;
  D* q[3];
  using X = Tr<T>;
  void Obs(Ev& e, int d) {
    D& a = *q[d];
    const D& c = a;
    std::vector<int> f, r, ix;
    size_t guard = 0;
    bool ok = true;
    for (auto it = c.begin(); it != c.end() && ++guard < 5000; ++it) f.push_back(X::Get(*it));
    guard = 0;
    for (auto it = a.rbegin(); it != a.rend() && ++guard < 5000; ++it) r.push_back(X::Get(*it));
    for (size_t i = 0; i < a.size() && i < 5000; ++i) ix.push_back(X::Get(i % 2 ? a[i] : c.at(i)));
    // random access iterators
    size_t n = a.size();
    if (n < 5000) {
      size_t i = Rn(n + 1), j = Rn(n + 1);
      auto bi = c.begin() + i; auto bj = c.begin() + j;
      ok = ok && (bi - bj == (long)i - (long)j) && ((bi < bj) == (i < j)) && ((bi == bj) == (i == j)) && ((bi <= bj) == (i <= j)) && ((bi > bj) == (i > j)) && ((bi >= bj) == (i >= j)) && ((bi != bj) == (i != j));
      auto m = a.end(); m -= (n - i);
      ok = ok && (m == a.begin() + i);
      m += (long)j - (long)i;
      ok = ok && (m - a.begin() == (long)j);
      if (j < n) ok = ok && X::Get(*m) == ix[j] && X::Get(m[0]) == ix[j];
      if (j < n) { auto k = m++; ok = ok && (m - k == 1); --m; auto k2 = ++m; ok = ok && k2 == m && (m - a.begin() == (long)j + 1); auto k3 = m--; ok = ok && k3 == k2 && m == k; }
      if (i < n) ok = ok && X::Get(a.begin()[(long)i]) == ix[i] && X::Get(c.cbegin()[(long)i]) == ix[i] && X::Get(*(a.end() - (long)(n - i))) == ix[i];
    }
    e.ints("fwd", f).ints("rev", r).ints("idx", ix).i("size", a.size()).b("empty", a.empty()).i("cap", a.capacity()).i("dist", a.end() - a.begin());
    if (n) e.i("front", X::Get(a.front())).i("back", X::Get(c.back()));
    e.raw("all", "[" + std::to_string(q[0]->size()) + "," + std::to_string(q[1]->size()) + "," + std::to_string(q[2]->size()) + "]");
    e.i("bad", X::Bad()).i("live", X::Live()).b("iterok", ok);
  }
  void Go(int steps, int maxlen) {
    for (auto& p : q) p = new D();
    int vmax = 1 + Rn(200);
    int grow = 50;
    for (int st = 0; st < steps; ++st) {
      if (st % 25 == 0) grow = 20 + Rn(60);
      int d = Rn(8) < 5 ? 0 : Rn(3);
      int e = (d + 1 + Rn(2)) % 3;
      D& a = *q[d];
      int n = a.size();
      int v = 1 + Rn(vmax);
      bool small = n < maxlen;
      int op = Rn(100);
      bool g = (int)Rn(100) < grow;
      T val = X::Mk(v);
      auto dd = [&](Ev& ev) -> Ev& { ev.i("d", d + 1); return ev; };
      if (op < 50) {
        if (g && small) {
          if (Rn(2)) { int r; switch (Rn(3)) { case 0: { T x(val); r = X::Get(a.emplace_back(std::move(x))); break; } case 1: a.push_back(val); r = X::Get(a.back()); break; default: a.push_back(X::Mk(v)); r = X::Get(a.back()); }
            { T gone(std::move(val)); } val.~T(); fin = 1; Ev ev("PushBack"); dd(ev).i("v", v).i("ret", r); Obs(ev, d); new (&val) T(X::Mk(0)); }
          else { int r; switch (Rn(3)) { case 0: { T x(val); r = X::Get(a.emplace_front(std::move(x))); break; } case 1: a.push_front(val); r = X::Get(a.front()); break; default: a.push_front(X::Mk(v)); r = X::Get(a.front()); }
            val.~T(); Ev ev("PushFront"); dd(ev).i("v", v).i("ret", r); Obs(ev, d); new (&val) T(X::Mk(0)); }
        } else if (n) {
          val.~T();
          if (Rn(2)) { a.pop_back(); Ev ev("PopBack"); dd(ev); Obs(ev, d); }
          else { a.pop_front(); Ev ev("PopFront"); dd(ev); Obs(ev, d); }
          new (&val) T(X::Mk(0));
        }
        continue;
      }
      // census excludes the temporary: destroy it before observing
#define OBS(name, ...) { val.~T(); { Ev ev(name); dd(ev) __VA_ARGS__; Obs(ev, d); } new (&val) T(X::Mk(0)); }
      if (op < 60 && small) {
        int p = Rn(n + 1);
        if (Rn(6) == 0) p = Rn(2) ? 0 : n;
        int r;
        switch (Rn(3)) { case 0: { auto it = a.insert(a.cbegin() + p, val); r = it - a.begin(); break; }
          case 1: { auto it = a.insert(a.cbegin() + p, X::Mk(v)); r = it - a.begin(); break; }
          default: { auto it = a.emplace(a.cbegin() + p, X::Mk(v)); r = it - a.begin(); } }
        OBS("Insert1", .i("p", p).i("v", v).i("ret", r));
      } else if (op < 65 && small) {
        int p = Rn(n + 1), k = Rn(6);
        if (Rn(6) == 0) p = Rn(2) ? 0 : n;
        a.insert(a.cbegin() + p, (size_t)k, val);
        OBS("InsertN", .i("p", p).i("n", k).i("v", v));
      } else if (op < 70 && small) {
        int p = Rn(n + 1), k = Rn(7);
        if (Rn(6) == 0) p = Rn(2) ? 0 : n;
        std::vector<int> s; for (int i = 0; i < k; ++i) s.push_back(1 + Rn(vmax));
        { std::vector<T> src; for (int x : s) src.push_back(X::Mk(x)); a.insert(a.cbegin() + p, src.begin(), src.end()); }
        OBS("InsertR", .i("p", p).ints("s", s));
      } else if (op < 78) {
        int x = Rn(n + 1), y = Rn(n + 1); if (x > y) std::swap(x, y);
        switch (Rn(8)) { case 0: x = 0; break; case 1: y = n; break; case 2: if (n) { x = Rn(n); y = x + 1; } break; default: y = std::min(y, x + (int)Rn(4)); }
        int r;
        typename D::iterator it; if (y == x + 1 && Rn(2)) it = a.erase(a.cbegin() + x); else it = a.erase(a.cbegin() + x, a.cbegin() + y); r = it - a.begin();
        OBS("Erase", .i("a", x).i("b", y).i("ret", r));
      } else if (op < 82) {
        int k = Rn(maxlen); int w = v;
        if (Rn(2)) k = std::min<int>(maxlen, std::max(0, n + (int)Rn(9) - 4));
        if (Rn(2)) { a.resize(k); w = 0; } else a.resize(k, val);
        OBS("Resize", .i("n", k).i("v", w));
      } else if (op < 83) { a.clear(); OBS("Clear", );
      } else if (op < 85) { int k = Rn(10);
        if (Rn(2)) a.assign((size_t)k, val); else { D tmp((size_t)k, val); a = std::move(tmp); }
        OBS("AssignN", .i("n", k).i("v", v));
      } else if (op < 87) {
        int k = Rn(10); std::vector<int> s; for (int i = 0; i < k; ++i) s.push_back(1 + Rn(vmax));
        { std::vector<T> src; for (int x : s) src.push_back(X::Mk(x));
          switch (Rn(3)) { case 0: a.assign(src.begin(), src.end()); break;
            case 1: { D tmp(src.begin(), src.end()); a = tmp; break; }
            default: s.resize(3, 5); while (s.size() < 3) s.push_back(5); a = {X::Mk(s[0]), X::Mk(s[1]), X::Mk(s[2])}; } }
        OBS("AssignR", .ints("s", s));
      } else if (op < 89 && n) { int p = Rn(n); if (Rn(2)) a[p] = val; else *(a.begin() + p) = val; OBS("Set", .i("p", p).i("v", v));
      } else if (op < 91) { int k = Rn(maxlen); a.reserve(k); OBS("Reserve", .i("n", k));
      } else if (op < 93) { a.shrink_to_fit(); OBS("ShrinkToFit", );
      } else if (op < 94) { if (Rn(2)) a = *q[e]; else { D c(*q[e]); delete q[d]; q[d] = new D(std::move(c)); } OBS("Copy", .i("e", e + 1));
      } else if (op < 95) { a = static_cast<const D&>(a); OBS("Copy", .i("e", d + 1));
      } else if (op < 96) { if (Rn(2)) a = std::move(*q[e]); else { delete q[d]; q[d] = new D(std::move(*q[e])); } OBS("Move", .i("e", e + 1));
      } else if (op < 98) { if (Rn(2)) a.swap(*q[e]); else swap(a, *q[e]); OBS("Swap", .i("e", e + 1));
      } else if (op < 99) { int r = tachyon::base::Erase(a, val); OBS("EraseValue", .i("v", v).i("ret", r));
      } else { int r = tachyon::base::EraseIf(a, [](const T& x) { return X::Get(x) % 2 != 0; }); OBS("EraseOdd", .i("ret", r)); }
    }
    for (auto& p : q) delete p;
    { Ev ev("Final"); ev.i("bad", X::Bad()).i("live", X::Live()); }
  }
  int fin = 0;
};

int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 12 : 1;
  for (int i = 0; i < 8 * k; ++i) { T().Shard("obj" + std::to_string(i)); H<Obj>().Go(700, i % 2 ? 14 : 60); }
  for (int i = 0; i < 4 * k; ++i) { T().Shard("int" + std::to_string(i)); H<int>().Go(600, i % 2 ? 12 : 50); }
  for (int i = 0; i < 4 * k; ++i) { T().Shard("str" + std::to_string(i)); H<std::string>().Go(600, i % 2 ? 12 : 50); }
}
