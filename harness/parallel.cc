// Parallel helpers and container utilities: every callback invocation is recorded.
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <mutex>
#include <set>

#include "vh/tr.h"
#include "tachyon/base/containers/adapters.h"
#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/containers/contains.h"
#include "tachyon/base/containers/cxx20_erase.h"
#include "tachyon/base/parallelize.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "vh/f12289.h"
using namespace vh;
using namespace tachyon;

static std::mutex mu;
static std::vector<std::string>* calls = nullptr;
static void SetThreads(int n) {
#if defined(TACHYON_HAS_OPENMP)
  omp_set_num_threads(n);
#endif
}
static int Threads(int n) {
#if defined(TACHYON_HAS_OPENMP)
  return n;
#else
  return 1;
#endif
}
struct C { long idx, off, len, cs, v; };
static std::vector<C> rec;
static int Note(long idx, long off, long len, long cs) {
  std::lock_guard<std::mutex> g(mu);
  int v = 100 + (idx >= 0 ? idx : 0);
  rec.push_back({idx, off, len, cs, v});
  return v;
}
static void Begin(const char* form, int n, int c, int arity, int th) { rec.clear(); Ev("Begin").s("form", form).i("n", n).i("c", c).i("arity", arity).i("th", th); }
static void Calls() { for (auto& x : rec) Ev("Call").i("idx", x.idx).i("off", x.off).i("len", x.len).i("cs", x.cs).i("v", x.v); }
static std::vector<int> V(size_t n, int mod = 50) { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back(Rn(mod)); return r; }

// by chunk size, containers
static void Container(int n, int c, int arity, int form, int th) {
  std::vector<int> hits(n, 0);
  int* b = hits.data();
  std::vector<int> res;
  bool map = false;
  T().Doing("ParallelizeByChunkSize container n=" + std::to_string(n) + " c=" + std::to_string(c));
  auto f1 = [b](absl::Span<int> ch) { for (int& x : ch) ++x; return Note(-1, ch.data() - b, ch.size(), -1); };
  auto f2 = [b](absl::Span<int> ch, size_t i) { for (int& x : ch) ++x; return Note(i, ch.data() - b, ch.size(), -1); };
  auto f3 = [b](absl::Span<int> ch, size_t i, size_t cs) { for (int& x : ch) ++x; return Note(i, ch.data() - b, ch.size(), cs); };
  auto g1 = [&](absl::Span<int> ch) { f1(ch); };
  auto g2 = [&](absl::Span<int> ch, size_t i) { f2(ch, i); };
  auto g3 = [&](absl::Span<int> ch, size_t i, size_t cs) { f3(ch, i, cs); };
  auto k3 = [b](absl::Span<const int> ch, size_t i, size_t cs) { for (const int& x : ch) ++const_cast<int&>(x); Note(i, ch.data() - b, ch.size(), cs); };
  SetThreads(th);
  const char* names[] = {"cstat", "cdyn", "cmap", "cspan"};
  Begin(names[form], n, c, arity, Threads(th));
  absl::Span<int> sp(hits);
  const std::vector<int>& ch = hits;
  switch (form) {
    case 0: arity == 1 ? base::ParallelizeByChunkSize(hits, c, g1) : arity == 2 ? base::ParallelizeByChunkSize(hits, c, g2) : base::ParallelizeByChunkSize(hits, c, g3); break;
    case 1: arity == 1 ? base::DynamicParallelizeByChunkSize(hits, c, g1) : arity == 2 ? base::DynamicParallelizeByChunkSize(hits, c, g2) : base::DynamicParallelizeByChunkSize(hits, c, g3); break;
    case 2: map = true; res = arity == 1 ? base::ParallelizeMapByChunkSize(hits, c, f1) : arity == 2 ? base::ParallelizeMapByChunkSize(hits, c, f2) : base::ParallelizeMapByChunkSize(hits, c, f3); break;
    default: arity == 1 ? base::ParallelizeByChunkSize(sp, c, g1) : arity == 2 ? base::ParallelizeByChunkSize(sp, c, g2) : base::ParallelizeByChunkSize(ch, c, k3); break;
  }
  Calls();
  Ev("End").ints("hits", hits).b("map", map).ints("res", res);
}
static void SizeOnly(int n, int c, int arity, int form, int th) {
  std::vector<int> hits(n, 0), res;
  bool map = form == 2;
  T().Doing("ParallelizeByChunkSize size n=" + std::to_string(n) + " c=" + std::to_string(c));
  auto mark = [&](size_t off, size_t len) { for (size_t k = off; k < off + len && k < hits.size(); ++k) ++hits[k]; };
  auto f1 = [&](size_t len) { return Note(-1, -1, len, -1); };
  auto f2 = [&](size_t len, size_t i) { mark(i * c, len); return Note(i, -1, len, -1); };
  auto f3 = [&](size_t len, size_t i, size_t cs) { mark(i * cs, len); return Note(i, i * cs, len, cs); };
  auto g1 = [&](size_t len) { f1(len); };
  auto g2 = [&](size_t len, size_t i) { f2(len, i); };
  auto g3 = [&](size_t len, size_t i, size_t cs) { f3(len, i, cs); };
  SetThreads(th);
  const char* names[] = {"sstat", "sdyn", "smap"};
  Begin(names[form], n, c, arity, Threads(th));
  switch (form) {
    case 0: arity == 1 ? base::ParallelizeByChunkSize((size_t)n, c, g1) : arity == 2 ? base::ParallelizeByChunkSize((size_t)n, c, g2) : base::ParallelizeByChunkSize((size_t)n, c, g3); break;
    case 1: arity == 1 ? base::DynamicParallelizeByChunkSize((size_t)n, c, g1) : arity == 2 ? base::DynamicParallelizeByChunkSize((size_t)n, c, g2) : base::DynamicParallelizeByChunkSize((size_t)n, c, g3); break;
    default: res = arity == 1 ? base::ParallelizeMapByChunkSize((size_t)n, c, f1) : arity == 2 ? base::ParallelizeMapByChunkSize((size_t)n, c, f2) : base::ParallelizeMapByChunkSize((size_t)n, c, f3); break;
  }
  Calls();
  if (arity == 1) { hits.assign(c ? n : 0, 1); if (!c) hits.assign(n, 0); map = false; }
  Ev("End").ints("hits", hits).b("map", map).ints("res", res);
}
// chunk size chosen by the library
static void Split(int n, int form, int th, int thr) {
  std::vector<int> hits(n, 0), res;
  int* b = hits.data();
  rec.clear();
  SetThreads(th);
  T().Doing("Parallelize n=" + std::to_string(n) + " threads=" + std::to_string(th));
  std::optional<size_t> t;
  if (thr >= 0) t = thr;
  auto f3 = [b](absl::Span<int> ch, size_t i, size_t cs) { for (int& x : ch) ++x; return Note(i, ch.data() - b, ch.size(), cs); };
  auto g3 = [&](absl::Span<int> ch, size_t i, size_t cs) { f3(ch, i, cs); };
  auto s3 = [&](size_t len, size_t i, size_t cs) { for (size_t k = i * cs; k < i * cs + len && k < hits.size(); ++k) ++hits[k]; return Note(i, i * cs, len, cs); };
  auto u3 = [&](size_t len, size_t i, size_t cs) { s3(len, i, cs); };
  switch (form) { case 0: base::Parallelize(hits, g3, t); break; case 1: base::Parallelize((size_t)n, u3, t); break; case 2: res = base::ParallelizeMap(hits, f3, t); break; default: res = base::ParallelizeMap((size_t)n, s3, t); }
  bool order = true;
  for (size_t i = 0; i < res.size(); ++i) order = order && res[i] == 100 + (int)i;
  if (form >= 2) order = order && res.size() == rec.size();
  if (!order) { hits.push_back(-1); }
  long cs = rec.empty() ? 0 : rec[0].cs;
  Ev("Split").i("n", n).i("cs", cs).raw("calls", Seq(rec, [](const C& c) { return "[" + std::to_string(c.idx) + "," + std::to_string(c.off) + "," + std::to_string(c.len) + "]"; })).ints("hits", hits);
}
static std::string VV(const std::vector<std::vector<int>>& v) { return Seq(v, [](const std::vector<int>& x) { return Ints(x); }); }

static void Utils() {
  SetThreads(1 + Rn(6));
  std::optional<size_t> thr;
  if (Rn(2)) thr = Rn(20);
  { int n = Rn(30), v = Rn(100); std::vector<int> x = V(n); T().Doing("ParallelizeFill"); base::ParallelizeFill(x, v, thr); Ev("Fill").i("n", n).i("v", v).ints("r", x); }
  { // resize: grow, shrink, equal, spare capacity
    int k = Rn(20), n = Rn(3) ? (int)Rn(30) : k, v = Rn(100);
    std::vector<int> x = V(k), s = x;
    if (Rn(2)) x.reserve(Rn(40));
    if (Rn(3) == 0) { int cap = x.capacity(); n = cap + (int)Rn(3) - 1; if (n < 0) n = 0; }
    bool dflt = Rn(2);
    T().Doing("ParallelizeResize from=" + std::to_string(k) + " to=" + std::to_string(n) + " cap=" + std::to_string(x.capacity()) + (dflt ? "" : " value"));
    if (dflt) { v = 0; base::ParallelizeResize(x, n, thr); } else base::ParallelizeResize(x, n, v, thr);
    Ev("Resize").ints("s", s).i("n", n).i("v", v).ints("r", x);
    std::vector<std::string> y; for (int q : s) y.push_back(std::to_string(q) + std::string(30, 'z'));
    if (dflt) base::ParallelizeResize(y, n, thr); else base::ParallelizeResize(y, n, std::to_string(v) + std::string(20, 'y'), thr);
    std::vector<int> yi; for (auto& q : y) yi.push_back(q.empty() ? 0 : atoi(q.c_str()));
    Ev("Resize").ints("s", s).i("n", n).i("v", v).ints("r", yi);
  }
  { // adapters
    std::vector<int> x = V(Rn(25)), s = x; int c = 1 + Rn(9);
    std::vector<std::vector<int>> r;
    T().Doing("Chunked");
    auto ad = base::Chunked(x, c);
    auto cp = ad;
    std::vector<std::vector<int>> r2;
    const std::vector<int>& cx = x;
    for (auto sp : base::Chunked(cx, c)) r2.push_back(std::vector<int>(sp.begin(), sp.end()));
    for (auto sp : cp) { r.push_back(std::vector<int>(sp.begin(), sp.end())); }
    bool same = r == r2;
    auto it = ad.begin(); size_t guard = 0; r2.clear();
    while (it != ad.end() && ++guard < 100) { auto o = it++; r2.push_back(std::vector<int>((*o).begin(), (*o).end())); }
    same = same && r == r2;
    for (auto sp : ad) for (int& q : sp) ++q;
    if (!same) r.push_back({-1});
    Ev("Chunked").ints("s", s).i("c", c).raw("r", VV(r)).i("dist", ad.end() - ad.begin()).ints("hits", x);
    std::vector<int> a = V(Rn(20)), b = V(a.size()); std::vector<std::vector<int>> z;
    auto za = base::Zipped(a, b); auto zc = za;
    for (auto p : zc) z.push_back({std::get<0>(p), std::get<1>(p)});
    Ev("Zipped").ints("a", a).ints("b", b).raw("r", VV(z)).i("dist", za.end() - za.begin());
    std::vector<int> rv; auto ra = base::Reversed(a); auto rc = ra; for (int q : rc) rv.push_back(q);
    Ev("Reversed").ints("s", a).ints("r", rv);
    std::list<int> li(a.begin(), a.end()); rv.clear(); const auto& cli = li; for (int q : base::Reversed(cli)) rv.push_back(q);
    Ev("Reversed").ints("s", a).ints("r", rv);
  }
  { int n = Rn(30), k = Rn(50);
    auto r = base::CreateVector(n, [k](size_t i) { return (int)(3 * i + k); });
    auto rp = base::CreateVectorParallel(n, [k](size_t i) { return (int)(3 * i + k); });
    int ctr = 0; auto sq = base::CreateVector(n, [&ctr]() { return ctr++; });
    std::atomic<int> at(0); auto cnt = base::CreateVectorParallel(n, [&at]() { return at++; });
    auto cp = base::CreateVectorParallel(n, []() { return 7; });
    Ev("Create").i("n", n).i("k", k).ints("r", r).ints("rp", rp).ints("seq", sq).ints("cnt", cnt).ints("cntp", cp); }
  { std::vector<int> s = V(Rn(20), 30);
    auto r1 = base::Map(s, [](int x) { return 2 * x + 1; });
    auto r2 = base::Map(s, [](size_t i, int x) { return x + 10 * (int)i; });
    auto fm = base::FlatMap(s, [](int x) { std::vector<int> v; for (int j = 1; j <= x % 4; ++j) v.push_back(x * 10 + j); return v; });
    Ev("Map").ints("s", s).ints("r1", r1).ints("r2", r2).ints("fm", fm); }
  { std::vector<int> s = V(Rn(20), 6); int v = Rn(7);
    auto o = [](std::optional<size_t> x) { return x ? (long)*x : -1L; };
    auto lt = [v](int x) { return x < v; };
    std::list<int> li(s.begin(), s.end());
    Ev("Find").ints("s", s).i("v", v).i("ix", o(base::FindIndex(s, v))).i("ixif", o(base::FindIndexIf(s, lt))).ints("all", base::FindIndices(s, v)).ints("allif", base::FindIndicesIf(s, lt));
  }
  return;
}
static void Utils2() {
  { std::vector<int> s = V(Rn(20), 20); std::sort(s.begin(), s.end()); int v = Rn(22);
    auto it = base::BinarySearchByKey(s.begin(), s.end(), v, [](int a, int b) { return a < b; });
    Ev("Search").ints("s", s).i("v", v).i("ix", it - s.begin()); }
  { std::vector<int> a = V(Rn(10)), b = V(Rn(10)), x = a, y = a, m = b; const auto& cb = b;
    base::Extend(x, cb); base::Extend(y, std::move(m));
    Ev("Extend").ints("a", a).ints("b", b).ints("r1", x).ints("r2", y).ints("kept", b).ints("moved", m); }
  { int a = Rn(20), b = a + 1 + Rn(20), st = 1 + Rn(6);
    Ev("Range").i("a", a).i("b", b).i("st", st).ints("r", base::CreateRangedVector<int>(a, b, st)); 
    a -= 30; b -= 30;
    Ev("Range").i("a", a).i("b", b).i("st", st).ints("r", base::CreateRangedVector<int>(a, b, st)); 
    Ev("Range").i("a", 250).i("b", 255).i("st", st).ints("r", base::CreateRangedVector<uint8_t>(250, 255, st)); }
  { std::vector<int> s = V(Rn(20)), r = s; base::Shuffle(r); Ev("Shuffle").ints("s", s).ints("r", r); }
  { int a[3] = {9, 8, 7}; int b[2][3] = {{1, 2, 3}, {4, 5, 6}}; int k = 5;
    Ev("Arr").ints("r0", base::CreateArray<4>([&k]() { return k++; })).ints("r1", base::CreateArray<5>([](size_t i) { return (int)(i * i); })).ints("v1", base::ArrayToVector(a)).raw("v2", VV(base::Array2DToVector2D(b))); }
  { std::vector<int> s = V(Rn(25), 7); int v = Rn(8);
    std::vector<std::vector<int>> r, rif; std::vector<int> n, nif;
    auto pr = [v](int x) { return x % 3 == v % 3; };
    auto go = [&](auto c) { auto d = c; n.push_back(base::Erase(c, v)); r.push_back(std::vector<int>(c.begin(), c.end())); nif.push_back(base::EraseIf(d, pr)); rif.push_back(std::vector<int>(d.begin(), d.end())); };
    go(s); go(std::deque<int>(s.begin(), s.end())); go(std::list<int>(s.begin(), s.end())); go(std::forward_list<int>(s.begin(), s.end()));
    std::multiset<int> ms(s.begin(), s.end()); int nm = base::EraseIf(ms, pr);
    std::set<int> ss(s.begin(), s.end());
    bool h1 = base::Contains(s, v), h2 = base::Contains(ss, v);
    Ev("Erase").ints("s", s).i("v", v).raw("r", VV(r)).raw("rif", VV(rif)).ints("n", n).ints("nif", nif).b("has", h1).raw("mset", Ints(ms)).i("nm", nm);
    Ev("Find").ints("s", s).i("v", v).i("ix", base::FindIndex(s, v) ? (long)*base::FindIndex(s, v) : -1L).i("ixif", base::FindIndexIf(s, [v](int x) { return x < v; }) ? (long)*base::FindIndexIf(s, [v](int x) { return x < v; }) : -1L).ints("all", base::FindIndices(s, v)).ints("allif", base::FindIndicesIf(s, [v](int x) { return x < v; }));
    if (h1 != h2) Ev("Contains").s("bad", "set and vector disagree"); }
}
template <typename F>
static long I(const F& f) { auto b = f.ToBigInt(); return (long)b[0]; }
template <>
long I(const math::GF7& f) { return (long)f.ToBigInt()[0]; }
template <typename F>
static std::string FI(const std::vector<F>& v) { return Seq(v, [](const F& f) { return std::to_string(I(f)); }); }
template <typename F>
static F From(long p, bool nz) { return F(nz ? 1 + Rn(p - 1) : Rn(p)); }
template <typename F>
static void Algos(long p) {
  int th = 1 + Rn(8);
  SetThreads(th);
  std::string tag = " threads=" + std::to_string(th);
  F g = From<F>(p, false), k = Rn(2) ? From<F>(p, false) : F::One();
  { int n = 1 + Rn(40); T().Doing("GetSuccessivePowers n=" + std::to_string(n) + tag);
    Ev("Powers").i("p", p).i("th", th).i("n", n).i("g", I(g)).i("k", I(k)).raw("r", FI(F::GetSuccessivePowers(n, g, k))); }
  { int n = 1 << Rn(6); T().Doing("GetBitRevIndexSuccessivePowers n=" + std::to_string(n) + tag);
    auto r = F::GetBitRevIndexSuccessivePowers(n, g, k); auto rs = F::GetBitRevIndexSuccessivePowersSerial(n, g, k);
    Ev("BitRevPowers").i("p", p).i("th", th).i("n", n).i("g", I(g)).i("k", I(k)).raw("r", FI(r)).raw("rs", FI(rs)); }
  { int n = 1 + Rn(40); T().Doing("GetSuccessiveScalarMuls n=" + std::to_string(n) + tag);
    Ev("Muls").i("p", p).i("th", th).i("n", n).i("g", I(g)).raw("r", FI(F::GetSuccessiveScalarMuls(n, g))); }
  { int n = Rn(40); std::vector<F> s, r(n); for (int i = 0; i < n; ++i) s.push_back(From<F>(p, true));
    T().Doing("BatchInverse n=" + std::to_string(n) + tag);
    bool ok = F::BatchInverse(s, &r, k);
    std::vector<F> q = s; bool ok2 = F::BatchInverseInPlace(q, k); std::vector<F> u(n); bool ok3 = F::BatchInverseSerial(s, &u, k);
    for (auto* v : {&r, &q, &u}) Ev("BatchInv").i("p", p).i("th", th).raw("s", FI(s)).i("k", I(k)).b("zero", k.IsZero()).b("ok", v == &r ? ok : v == &q ? ok2 : ok3).raw("r", FI(*v)); }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  math::GF7::Init(); math::vhf::F12289::Init();
  const bool th = T().thorough();
  for (int form = 0; form < 4; ++form)
    for (int arity = 1; arity <= 3; ++arity) {
      T().Shard("container" + std::to_string(form) + std::to_string(arity));
      for (int n = 0; n <= (th ? 24 : 11); ++n) for (int c = 0; c <= n + 2; ++c) Container(n, c, arity, form, 1 + Rn(5));
      for (int i = 0; i < 6; ++i) { int n = 20 + Rn(60); Container(n, 1 + Rn(n), arity, form, 1 + Rn(8)); }
      if (form < 3) {
        T().Shard("size" + std::to_string(form) + std::to_string(arity));
        for (int n = 0; n <= (th ? 24 : 11); ++n) for (int c = 0; c <= n + 2; ++c) SizeOnly(n, c, arity, form, 1 + Rn(5));
        for (int i = 0; i < 6; ++i) { int n = 20 + Rn(60); SizeOnly(n, 1 + Rn(n), arity, form, 1 + Rn(8)); }
      }
    }
  for (int form = 0; form < 4; ++form) {
    T().Shard("split" + std::to_string(form));
    for (int t = 1; t <= 8; ++t) for (int n = 0; n <= (th ? 60 : 25); ++n) Split(n, form, t, Rn(3) ? -1 : (int)Rn(20));
  }
  for (int h = 0; h < 6; ++h) {
    T().Shard("utils" + std::to_string(h));
    for (int i = 0; i < (th ? 300 : 40); ++i) { Utils(); Utils2(); }
    T().Shard("algos" + std::to_string(h));
    for (int i = 0; i < (th ? 200 : 40); ++i) { Algos<math::GF7>(7); Algos<math::vhf::F12289>(12289); }
  }
}
