// Histories of tracking allocators and of allocator registries.
#include <sys/wait.h>

#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "vh/tr.h"
#include "tachyon/base/memory/aligned_memory.h"
#include "tachyon/device/allocator.h"
#include "tachyon/device/allocator_registry.h"
#include "tachyon/device/numa.h"
#include "tachyon/device/tracking_allocator.h"
using namespace vh;
namespace D = tachyon::device;
namespace B = tachyon::base;

static bool Dies(const std::function<void()>& f) {
  T().Flush();
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTERM, SIGTRAP}) signal(s, SIG_DFL);
    std::set_terminate(nullptr);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st);
}

constexpr int POOL = 400;
alignas(64) static char g_pool[POOL * 64];
static int IdOf(const void* p) { return p ? static_cast<int>((static_cast<const char*>(p) - g_pool) / 64) + 1 : 0; }

struct Below : public D::Allocator {
  bool knows;
  std::mutex mu;
  struct Blk { size_t req, size, slow; int64_t id; };
  std::map<int, Blk> live;
  std::vector<long long> seen;
  bool passed = false, want_retry = true, want_logged = false, fail = false;
  Rng rng;
  int64_t next = 1000;
  int bad = 0, prefer = 0;
  std::function<void()> on_free;
  explicit Below(bool k) : knows(k) { rng.seed(R64()); }
  std::string Name() override { return "below"; }
  void* AllocateRaw(size_t a, size_t n) override { return AllocateRaw(a, n, D::AllocationAttributes()); }
  void* AllocateRaw(size_t a, size_t n, const D::AllocationAttributes& at) override {
    std::lock_guard<std::mutex> l(mu);
    seen = {static_cast<long long>(a), static_cast<long long>(n)};
    passed = at.retry_on_failure == want_retry && at.allocation_will_be_logged == want_logged;
    if (fail) return nullptr;
    int i;
    do i = 1 + rng() % POOL; while (live.count(i));
    if (prefer) i = prefer;
    live[i] = {n, n + rng() % 9, rng() % 2 ? 0 : n / 2 + rng() % (n + 2), ++next};
    return g_pool + 64 * (i - 1);
  }
  void DeallocateRaw(void* p) override {
    {
      std::lock_guard<std::mutex> l(mu);
      if (!live.erase(IdOf(p))) ++bad;
    }
    // what another thread does the moment the block is free
    if (on_free) { auto f = std::move(on_free); on_free = nullptr; f(); }
  }
  const Blk& At(const void* p) const { return const_cast<Below*>(this)->live.at(IdOf(p)); }
  bool TracksAllocationSizes() const override { return knows; }
  size_t RequestedSize(const void* p) const override { std::lock_guard<std::mutex> l(const_cast<Below*>(this)->mu); if (!knows) abort(); return At(p).req; }
  size_t AllocatedSize(const void* p) const override { std::lock_guard<std::mutex> l(const_cast<Below*>(this)->mu); if (!knows) abort(); return At(p).size; }
  int64_t AllocationId(const void* p) const override { std::lock_guard<std::mutex> l(const_cast<Below*>(this)->mu); if (!knows) abort(); return At(p).id; }
  size_t AllocatedSizeSlow(const void* p) const override { std::lock_guard<std::mutex> l(const_cast<Below*>(this)->mu); return knows ? At(p).size : At(p).slow; }
  std::optional<D::AllocatorStats> GetStats() override { D::AllocatorStats s; s.num_allocs = 77; return s; }
  bool ClearStats() override { return true; }
  D::AllocatorMemoryType GetMemoryType() const override { return D::AllocatorMemoryType::kHostPageable; }
};
static bool g_gone = false;
struct Track : public D::TrackingAllocator {
  Track(D::Allocator* a, bool t) : TrackingAllocator(a, t) { g_gone = false; }
 protected:
  ~Track() override { g_gone = true; }
};

static void Show(Ev& e, Below& b, Track* t, bool held, bool sizes) {
  std::vector<int> under;
  for (auto& [i, x] : b.live) under.push_back(i);
  if (b.bad) under.push_back(-1);
  e.b("gone", g_gone).ints("under", under);
  if (!held) return;
  auto [total, high, cur] = t->GetSizes();
  auto recs = t->GetCurrentRecords();
  bool mono = true;
  std::vector<long long> rb;
  for (size_t i = 0; i < recs.size(); ++i) { rb.push_back(recs[i].alloc_bytes); if (i && recs[i].alloc_time < recs[i - 1].alloc_time) mono = false; }
  std::string blocks = "[", slow = "[";
  bool first = true;
  for (auto& [i, x] : b.live) {
    const void* p = g_pool + 64 * (i - 1);
    if (!first) { blocks += ","; slow += ","; }
    first = false;
    blocks += sizes ? "[" + std::to_string(i) + "," + std::to_string(t->RequestedSize(p)) + "," + std::to_string(t->AllocatedSize(p)) + "," + std::to_string(t->AllocationId(p)) + "]" : "[" + std::to_string(i) + ",0,0,0]";
    slow += std::to_string(t->AllocatedSizeSlow(p));
  }
  e.i("total", total).i("high", high).i("cur", cur).ints("recs", rb).b("mono", mono).b("tracks", t->TracksAllocationSizes()).raw("blocks", blocks + "]").raw("slow", slow + "]");
}

static void History(bool knows, bool track, int steps) {
  Below b(knows);
  Track* t = new Track(&b, track);
  bool sizes = knows || track, held = true;
  Ev("Make").b("knows", knows).b("track", track).s("name", t->Name()).i("type", static_cast<int>(t->GetMemoryType()));
  {
    auto st = t->GetStats();
    bool c = t->ClearStats();
    Ev("Stats").b("ok", st.has_value() && st->num_allocs == 77 && c);
  }
  std::vector<void*> mine;
  for (int i = 0; i < steps && held; ++i) {
    int k = mine.size() > 25 ? 9 + Rn(9) : Rn(20);
    if (k == 17) k = 10;
    if (k < 9) {
      size_t n = Rn(4) == 0 ? 0 : Rn(5000), a = size_t{1} << Rn(9);
      b.fail = Rn(10) == 0;
      void* p;
      if (Rn(2)) {
        b.want_retry = true; b.want_logged = false;
        p = t->AllocateRaw(a, n);
      } else {
        b.want_retry = Rn(2); b.want_logged = Rn(2);
        p = t->AllocateRaw(a, n, D::AllocationAttributes(b.want_retry, b.want_logged, nullptr));
      }
      int id = IdOf(p);
      size_t below = 0;
      int64_t idb = 0;
      if (p) { mine.push_back(p); below = knows ? b.live[id].size : b.live[id].slow; idb = b.live[id].id; }
      Ev e("Alloc");
      e.i("p", b.fail ? 0 : (b.live.count(id) ? id : -1)).i("got", id).i("req", n).i("align", a).i("below", below).i("idb", idb).b("passed", b.passed).ints("seen", b.seen);
      b.fail = false;
      Show(e, b, t, true, sizes);
    } else if (k < 11 && !mine.empty()) {
      size_t j = Rn(mine.size()), n = Rn(5000);
      int id = IdOf(mine[j]);
      void* q = nullptr;
      b.want_retry = true; b.want_logged = false;
      b.on_free = [&] { b.prefer = id; std::thread([&] { q = t->AllocateRaw(8, n); }).join(); b.prefer = 0; };
      t->DeallocateRaw(mine[j]);
      mine[j] = q;
      Ev e("Reuse");
      e.i("p", id).i("got", IdOf(q)).i("req", n).i("below", knows ? b.live[id].size : b.live[id].slow).i("idb", b.live[id].id).b("passed", b.passed);
      Show(e, b, t, true, sizes);
    } else if (k < 17) {
      if (mine.empty() || Rn(12) == 0) {
        t->DeallocateRaw(nullptr);
        Ev e("Free"); e.i("p", 0); Show(e, b, t, true, sizes);
      } else {
        size_t j = Rn(mine.size());
        void* p = mine[j];
        mine.erase(mine.begin() + j);
        t->DeallocateRaw(p);
        Ev e("Free"); e.i("p", IdOf(p)); Show(e, b, t, true, sizes);
      }
    } else if (k < 19) {
      if (Rn(4)) continue;
      std::vector<std::vector<void*>> left(8);
      std::vector<std::vector<std::string>> made(8);
      std::vector<std::vector<int>> freed(8);
      std::vector<std::thread> th;
      std::vector<uint64_t> seeds;
      for (int x = 0; x < 8; ++x) seeds.push_back(R64());
      for (int x = 0; x < 8; ++x)
        th.emplace_back([&, x] {
          Rng r(seeds[x]);
          for (int s = 0; s < 8; ++s) {
            if (left[x].empty() || r() % 5 < 2) {
              size_t n = r() % 300;
              void* p = t->AllocateRaw(8, n);
              int id = IdOf(p);
              std::lock_guard<std::mutex> l(b.mu);
              auto& blk = b.live[id];
              made[x].push_back("[" + std::to_string(id) + "," + std::to_string(n) + "," + std::to_string(knows ? blk.size : blk.slow) + "," + std::to_string(blk.id) + "]");
              left[x].push_back(p);
            } else {
              void* p = left[x].back();
              left[x].pop_back();
              // a block that was handed out again may not be named twice here, so it stays until the others are done
              freed[x].push_back(IdOf(p));
            }
          }
        });
      for (auto& x : th) x.join();
      th.clear();
      for (int x = 0; x < 8; ++x)
        th.emplace_back([&, x] { for (int id : freed[x]) t->DeallocateRaw(g_pool + 64 * (id - 1)); });
      for (auto& x : th) x.join();
      std::string ms = "[", fs = "[";
      for (int x = 0; x < 8; ++x) {
        for (auto& s : made[x]) ms += (ms.size() > 1 ? "," : "") + s;
        for (int id : freed[x]) fs += (fs.size() > 1 ? "," : "") + std::to_string(id);
        for (void* p : left[x]) mine.push_back(p);
      }
      Ev e("Threads");
      e.raw("made", ms + "]").raw("freed", fs + "]");
      Show(e, b, t, true, sizes);
    } else if (i > steps / 2) {
      auto r = t->GetRecordsAndUnRef();
      held = false;
      std::vector<long long> rb;
      for (auto& x : r) rb.push_back(x.alloc_bytes);
      Ev e("Unref"); e.ints("got", rb); Show(e, b, t, false, sizes);
    }
  }
  if (held) {
    auto r = t->GetRecordsAndUnRef();
    std::vector<long long> rb;
    for (auto& x : r) rb.push_back(x.alloc_bytes);
    Ev e("Unref"); e.ints("got", rb); Show(e, b, t, false, sizes);
  }
  while (!mine.empty()) {
    if (Rn(5) == 0 && !g_gone) { t->DeallocateRaw(nullptr); Ev e("Free"); e.i("p", 0); Show(e, b, t, false, sizes); }
    size_t j = Rn(mine.size());
    void* p = mine[j];
    mine.erase(mine.begin() + j);
    if (g_gone) break;
    t->DeallocateRaw(p);
    Ev e("Free"); e.i("p", IdOf(p)); Show(e, b, t, false, sizes);
  }
}

// ---- registry
static int g_things = 0, g_serial = 0;
static bool g_created = false;
struct Thing { Thing() { ++g_things; } ~Thing() { --g_things; } };
struct StubAllocator : public D::Allocator, Thing {
  int from, which;
  explicit StubAllocator(int f) : from(f), which(++g_serial) { g_created = true; }
  std::string Name() override { return "stub"; }
  void* AllocateRaw(size_t, size_t n) override { return malloc(n ? n : 1); }
  void DeallocateRaw(void* p) override { free(p); }
};
struct StubSub : public D::SubAllocator, Thing {
  int from, which, node;
  StubSub(int f, int n, const std::vector<Visitor>& a = {}, const std::vector<Visitor>& b = {}) : SubAllocator(a, b), from(f), which(++g_serial), node(n) { g_created = true; }
  void* Alloc(size_t, size_t n, size_t* r) override { VisitAlloc(g_pool, node, n); *r = n; return g_pool; }
  void Free(void* p, size_t n) override { VisitFree(p, node, n); }
  bool SupportsCoalescing() const override { return false; }
};
struct Factory : public D::AllocatorFactory, Thing {
  int index;
  bool numa;
  Factory(int i, bool n) : index(i), numa(n) {}
  bool NumaEnabled() override { return numa; }
  D::Allocator* CreateAllocator() override { return new StubAllocator(index); }
  D::SubAllocator* CreateSubAllocator(int node) override { return new StubSub(index, node); }
};
static void Registry(int seed) {
  int before = g_things;
  auto* r = new D::AllocatorFactoryRegistry();
  Ev("Registry").i("seed", seed);
  int n = Rn(6), idx = 0;
  const char* names[] = {"a", "b", "cc", ""};
  auto reg = [&] {
    std::string name = names[Rn(8) == 0 ? 3 : Rn(3)];
    int prio = Rn(12) == 0 ? -1 : static_cast<int>(Rn(4));
    bool numa = Rn(3) == 0;
    int ix = idx + 1;
    bool d = Dies([&] { r->Register("f", 1, name, prio, new Factory(ix, numa)); });
    if (!d) { r->Register("f", 1, name, prio, new Factory(ix, numa)); ++idx; }
    Ev("Register").s("name", name).i("prio", prio).b("numa", numa).b("died", d);
  };
  for (int i = 0; i < n; ++i) reg();
  int m = 3 + Rn(5);
  for (int i = 0; i < m; ++i) {
    bool sub = Rn(2);
    int node = sub ? static_cast<int>(Rn(2)) - 1 : 0;
    if (!idx) {
      bool d = Dies([&] { if (sub) r->GetSubAllocator(node); else r->GetAllocator(); });
      Ev("Get").b("sub", sub).i("node", node).b("died", d);
      continue;
    }
    g_created = false;
    if (sub) {
      auto* s = static_cast<StubSub*>(r->GetSubAllocator(node));
      Ev("Get").b("sub", true).i("node", node).b("died", false).i("from", s->from).i("which", s->which).i("made", s->node).b("created", g_created);
    } else {
      auto* s = static_cast<StubAllocator*>(r->GetAllocator());
      Ev("Get").b("sub", false).i("node", 0).b("died", false).i("from", s->from).i("which", s->which).i("made", 0).b("created", g_created);
    }
    if (Rn(4) == 0) reg();
  }
  delete r;
  Ev("RegistryEnd").i("left", g_things - before);
}
namespace tachyon::device {
REGISTER_MEM_ALLOCATOR("low", 3, Factory(1, false));
REGISTER_MEM_ALLOCATOR("high", 9, Factory(2, true));
REGISTER_MEM_ALLOCATOR("mid", 5, Factory(3, false));
}  // namespace tachyon::device
static void Global() {
  Ev("Registry").i("seed", 0);
  Ev("Register").s("name", "low").i("prio", 3).b("numa", false).b("died", false);
  Ev("Register").s("name", "high").i("prio", 9).b("numa", true).b("died", false);
  Ev("Register").s("name", "mid").i("prio", 5).b("numa", false).b("died", false);
  for (int i = 0; i < 3; ++i) {
    g_created = false;
    auto* s = static_cast<StubAllocator*>(i == 0 ? D::cpu_allocator() : i == 1 ? D::cpu_allocator_base() : D::AllocatorFactoryRegistry::Get().GetAllocator());
    Ev("Get").b("sub", false).i("node", 0).b("died", false).i("from", s->from).i("which", s->which).i("made", 0).b("created", g_created);
  }
  bool off = !D::CPUAllocatorFullStatsEnabled() && !D::cpu_allocator()->TracksAllocationSizes();
  D::EnableCPUAllocatorFullStats();
  D::Allocator* c = D::cpu_allocator();
  void* p = c->AllocateRaw(8, 100);
  bool ok = c->TracksAllocationSizes() && c->RequestedSize(p) == 100 && D::cpu_allocator() == c && c->Name() == "stub";
  c->DeallocateRaw(p);
  Ev("Stats").b("ok", off && ok && D::CPUAllocatorFullStatsEnabled());
}

static void Values(int n) {
  for (int i = 0; i < n; ++i) {
    D::AllocatorAttributes a, b;
    a.value = R64() & (Rn(2) ? 7 : 0x7fffffff);
    b.value = (R64() | (Rn(2) ? a.value : 0)) & 0x7fffffff;
    a.scope_id = Rn(3);
    b.scope_id = Rn(3);
    if (Rn(3) == 0) {
      D::AllocatorAttributes m = a;
      int bit = Rn(3);
      bool v = Rn(2);
      if (bit == 0) m.set_on_host(v); else if (bit == 1) m.set_nic_compatible(v); else m.set_gpu_compatible(v);
      Ev("SetAttr").i("a", a.value).i("bit", bit).b("v", v).i("m", m.value);
      continue;
    }
    bool d = a.scope_id != b.scope_id && a.scope_id && b.scope_id;
    D::AllocatorAttributes m = a;
    if (d) d = Dies([&] { m.Merge(b); }); else m.Merge(b);
    Ev("Attr").i("a", a.value).i("b", b.value).i("sa", a.scope_id).i("sb", b.scope_id).b("host", a.on_host()).b("nic", a.nic_compatible()).b("gpu", a.gpu_compatible())
        .b("less", a.IsEqualOrLessRestrictiveThan(b)).b("died", d).i("m", m.value).i("sm", m.scope_id);
  }
  for (int i = 0; i < n / 4; ++i) {
    std::vector<std::string> got;
    std::vector<D::SubAllocator::Visitor> vs;
    int k = Rn(4);
    for (int j = 0; j < k; ++j) vs.push_back([&got, j](void*, int ix, size_t s) { got.push_back("[" + std::to_string(j + 1) + "," + std::to_string(ix) + "," + std::to_string(s) + "]"); });
    bool al = Rn(2);
    std::vector<D::SubAllocator::Visitor> none;
    StubSub s(0, Rn(5), al ? vs : none, al ? none : vs);
    size_t sz = Rn(1000), r;
    if (al) s.Alloc(8, sz, &r); else s.Free(g_pool, sz);
    Ev("Visit").i("n", k).i("i", s.node).i("size", sz).raw("got", Seq(got, [](const std::string& x) { return x; }));
  }
  for (int i = 0; i < n / 2; ++i) {
    size_t al = size_t{8} << Rn(10), sz = 1 + Rn(3000);
    bool nu = Rn(2);
    char* p = static_cast<char*>(nu ? D::NUMAMalloc(0, sz, al) : B::AlignedAlloc(sz, al));
    memset(p, 0x5a, sz);
    char* q = static_cast<char*>(nu ? D::NUMAMalloc(D::kNUMANoAffinity, sz, al) : B::AlignedAlloc(sz, al));
    memset(q, 0xa5, sz);
    bool kept = true;
    for (size_t j = 0; j < sz; ++j) kept = kept && p[j] == 0x5a;
    size_t off = Rn(3) ? al * Rn(4) : Rn(4 * al);
    Ev("Mem").b("aligned", reinterpret_cast<uintptr_t>(p) % al == 0 && reinterpret_cast<uintptr_t>(q) % al == 0).b("kept", kept).i("align", al).i("off", off)
        .b("isal", B::IsAligned(reinterpret_cast<uintptr_t>(p) + off, al) && B::IsAligned(static_cast<const void*>(p + off), al));
    if (nu) { D::NUMAFree(p, sz); D::NUMAFree(q, sz); } else { B::AlignedFree(p); B::AlignedFree(q); }
  }
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  for (int i = 0; i < (th ? 8 : 2); ++i) {
    std::string s = std::to_string(i);
    T().Shard("under" + s); History(true, false, 120); History(true, true, 120);
    T().Shard("local" + s); History(false, true, 120); History(false, true, 120);
    T().Shard("none" + s); History(false, false, 120);
    T().Shard("short" + s); for (int j = 0; j < 20; ++j) History(Rn(2), Rn(2), Rn(12));
    T().Shard("registry" + s); for (int j = 0; j < 25; ++j) Registry(j);
    T().Shard("values" + s); Values(200);
  }
  T().Shard("global"); Global();
}
