// Histories of scoped owners: handles, file descriptors, temporary
// directories, replaced values, values owned or referred to.
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <map>
#include <memory>
#include <optional>
#include <set>

#include "absl/hash/hash.h"
#include "vh/tr.h"
#include "tachyon/base/auto_reset.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/files/scoped_file.h"
#include "tachyon/base/files/scoped_temp_dir.h"
#include "tachyon/base/maybe_owned.h"
#include "tachyon/base/ref.h"
#include "tachyon/base/scoped_generic.h"
using namespace vh;
namespace B = tachyon::base;

// Whether f ends the process it runs in.
static bool Dies(const std::function<void()>& f) {
  T().Flush();
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTERM, SIGTRAP}) signal(s, SIG_DFL);
    std::set_terminate(nullptr);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st);
}

constexpr int NS = 4, NR = 2;
static std::vector<std::string> g_log;
static int SlotOf(const void* p);
static void Log(const char* k, int a, int v) {
  g_log.push_back(std::string("[\"") + k + "\"," + std::to_string(a) + "," + std::to_string(v) + "]");
}
struct Tracked : public B::ScopedGenericOwnershipTracking {
  int g = 0;
  static int InvalidValue() { return 0; }
  void Free(int v) { Log("F", g, v); }
  void Acquire(const B::ScopedGeneric<int, Tracked>& o, int v) { Log("A", SlotOf(&o), v); }
  void Release(const B::ScopedGeneric<int, Tracked>& o, int v) { Log("R", SlotOf(&o), v); }
};
struct Plain {
  int g = 0;
  static int InvalidValue() { return 0; }
  void Free(int v) { Log("F", g, v); }
};
static const char* g_lo = nullptr;
static size_t g_step = 1;
static int SlotOf(const void* p) {
  ptrdiff_t d = static_cast<const char*>(p) - g_lo;
  if (d < 0 || static_cast<size_t>(d) >= g_step * NS) return 0;
  return static_cast<int>(d / g_step) + 1;
}

template <typename S>
struct World {
  std::optional<S> slot[NS];
  std::optional<typename S::Receiver> recv[NR];
  int rs[NR] = {}, used[NR] = {};
  const char* kind;
  std::set<int> base;  // descriptors that were open before
  static int Out(int v) { return S::traits_type::InvalidValue() == 0 ? v : (v == -1 ? 0 : v); }
  static int In(int v) { return S::traits_type::InvalidValue() == 0 ? v : (v == 0 ? -1 : v); }
  bool fd() const { return !strcmp(kind, "fd"); }
  int Get(int s) { return slot[s] ? Out(slot[s]->get()) : -1; }
  bool Receiving(int s) {
    for (int r = 0; r < NR; ++r) if (recv[r] && rs[r] == s + 1) return true;
    return false;
  }
  void Show(Ev& e) {
    std::vector<int> v, ok, op, ow;
    for (int s = 0; s < NS; ++s) { v.push_back(Get(s)); ok.push_back(slot[s] && slot[s]->is_valid()); }
    e.s("kind", kind).ints("slots", v).raw("valid", Seq(ok, [](int b) { return b ? "true" : "false"; }));
    if (fd()) {
      for (int f = 0; f < 200; ++f) {
        if (!base.count(f) && fcntl(f, F_GETFD) != -1) op.push_back(f);
        if (B::IsFDOwned(f)) ow.push_back(f);
      }
      e.ints("open", op).ints("owned", ow);
    } else {
      e.raw("log", Seq(g_log, [](const std::string& x) { return x; }));
    }
    g_log.clear();
  }
};

template <typename S>
static void Owners(const char* kind, int steps) {
  World<S> w;
  w.kind = kind;
  g_lo = reinterpret_cast<const char*>(&w.slot[0].emplace());
  w.slot[0].reset();
  g_step = sizeof(std::optional<S>);
  g_log.clear();
  bool fd = w.fd(), enforced = false;
  if (fd) for (int f = 0; f < 200; ++f) if (fcntl(f, F_GETFD) != -1) w.base.insert(f);
  T().Flush();
  Ev("Owners").i("n", NS).i("nr", NR);
  std::vector<int> loose;
  int next = 1;
  auto acquire = [&]() {
    int v = fd ? open("/dev/null", O_RDONLY) : next++;
    loose.push_back(v);
    Ev("Acquire").i("v", v);
  };
  auto pick = [&]() {
    if (Rn(5) == 0) return 0;
    if (loose.empty()) acquire();
    size_t i = Rn(loose.size());
    int v = loose[i];
    loose.erase(loose.begin() + i);
    return v;
  };
  auto mk = [&](int s, int v, int g) {
    typename S::traits_type tr;
    if constexpr (!std::is_same_v<S, B::ScopedFD>) tr.g = g;
    if (v == 0 && g == 0) w.slot[s].emplace();
    else if (g == 0) w.slot[s].emplace(w.In(v));
    else w.slot[s].emplace(w.In(v), tr);
  };
  for (int i = 0; i < steps; ++i) {
    int a = Rn(NS), b = Rn(NS);
    T().Doing("owner step");
    switch (Rn(fd ? 13 : 12)) {
      case 0: if (loose.size() < 4) acquire(); break;
      case 1: case 2:
        if (!w.slot[a]) {
          int v = pick(), g = Rn(3);
          mk(a, v, g);
          Ev e("New"); e.i("a", a + 1).i("v", v).i("g", fd ? 0 : g); w.Show(e);
        } else if (!w.slot[b] && !w.Receiving(a)) {
          w.slot[b].emplace(std::move(*w.slot[a]));
          Ev e("MoveNew"); e.i("a", b + 1).i("b", a + 1); w.Show(e);
        }
        break;
      case 3:
        if (w.slot[a] && w.slot[b]) {
          *w.slot[a] = std::move(*w.slot[b]);
          Ev e("Assign"); e.i("a", a + 1).i("b", b + 1); w.Show(e);
        }
        break;
      case 4:
        if (w.slot[a] && w.slot[b] && a != b) {
          std::swap(*w.slot[a], *w.slot[b]);
          Ev e("Swap"); e.i("a", a + 1).i("b", b + 1); w.Show(e);
        }
        break;
      case 5: case 6:
        if (w.slot[a]) {
          if (Rn(8) == 0 && w.Get(a) > 0) {
            bool d = Dies([&] { w.slot[a]->reset(w.slot[a]->get()); });
            Ev("Reset").i("a", a + 1).i("v", w.Get(a)).b("died", d);
          } else {
            int v = pick();
            if (v == 0) w.slot[a]->reset(); else w.slot[a]->reset(w.In(v));
            Ev e("Reset"); e.i("a", a + 1).i("v", v).b("died", false); w.Show(e);
          }
        }
        break;
      case 7:
        if (w.slot[a]) {
          int v = w.Out(w.slot[a]->release());
          if (v > 0) loose.push_back(v);
          Ev e("Release"); e.i("a", a + 1).i("ret", v); w.Show(e);
        }
        break;
      case 8:
        if (w.slot[a]) {
          bool d = false;
          if (w.Receiving(a)) d = Dies([&] { w.slot[a].reset(); });
          else w.slot[a].reset();
          Ev e("Destroy"); e.i("a", a + 1).b("died", d); w.Show(e);
        }
        break;
      case 9: {
        int r = Rn(NR);
        if (!w.slot[a] || w.recv[r]) break;
        bool d = false;
        if (w.Receiving(a)) d = Dies([&] { w.recv[r].emplace(*w.slot[a]); });
        else { w.recv[r].emplace(*w.slot[a]); w.rs[r] = a + 1; w.used[r] = 0; }
        Ev e("Open"); e.i("a", r + 1).i("b", a + 1).b("died", d); w.Show(e);
        break;
      }
      case 10: {
        int r = Rn(NR), q = 1 - r;
        if (w.recv[r] && !w.used[r] && w.rs[r] && Rn(2)) {
          int v = pick();
          *w.recv[r]->get() = w.In(v);
          w.used[r] = 1;
          Ev e("Put"); e.i("a", r + 1).i("v", v); w.Show(e);
        } else if (w.recv[q] && !w.recv[r]) {
          bool d = false;
          if (w.used[q]) d = Dies([&] { w.recv[r].emplace(std::move(*w.recv[q])); });
          else { w.recv[r].emplace(std::move(*w.recv[q])); w.rs[r] = w.rs[q]; w.used[r] = 0; w.rs[q] = 0; }
          Ev e("MoveRecv"); e.i("a", r + 1).i("b", q + 1).b("died", d); w.Show(e);
        } else if (w.recv[q] && w.recv[r]) {
          bool d = false;
          if (w.used[q] || w.used[r]) d = Dies([&] { *w.recv[r] = std::move(*w.recv[q]); });
          else { typename S::Receiver& x = (*w.recv[r] = std::move(*w.recv[q])); if (&x != &*w.recv[r]) abort(); w.rs[r] = w.rs[q]; w.rs[q] = 0; }
          Ev e("AssignRecv"); e.i("a", r + 1).i("b", q + 1).b("died", d); w.Show(e);
        }
        break;
      }
      case 11: {
        int r = Rn(NR);
        if (w.recv[r] && Rn(2)) {
          w.recv[r].reset();
          w.rs[r] = 0;
          Ev e("Finish"); e.i("a", r + 1); w.Show(e);
        } else if (w.slot[a]) {
          int v = Rn(2) ? std::max(0, w.Get(a)) : static_cast<int>(Rn(6));
          int x = w.In(v);
          const S& c = *w.slot[a];
          Ev("Eq").i("a", a + 1).i("v", v).b("eq", c == x).b("ne", c != x).b("req", x == c).b("rne", x != c);
        }
        break;
      }
      default:  // descriptors only
        if constexpr (std::is_same_v<S, B::ScopedFD>) {
          if (Rn(6) == 0) { enforced = !enforced; B::subtle::EnableFDOwnershipEnforcement(enforced); }
          if (Rn(8) == 0) {
            int p[2];
            if (pipe(p)) break;
            pid_t pid = fork();
            if (pid == 0) {
              B::subtle::ResetFDOwnership();
              std::vector<int> ow;
              for (int f = 0; f < 4200; ++f) if (B::IsFDOwned(f)) ow.push_back(f);
              uint8_t n = ow.size();
              if (write(p[1], &n, 1) != 1) _exit(1);
              _exit(0);
            }
            uint8_t n = 77;
            if (read(p[0], &n, 1) != 1) n = 77;
            waitpid(pid, nullptr, 0);
            close(p[0]);
            close(p[1]);
            Ev("Forget").ints("owned", std::vector<int>(n));
          } else if (w.Get(a) > 0 && enforced) {
            int v = w.Get(a);
            bool d = Dies([&] { close(v); });
            Ev("Close").i("v", v).b("enforced", true).b("died", d).b("ret", true);
          } else if (!loose.empty()) {
            int v = loose.back();
            loose.pop_back();
            bool ret = close(v) == 0;
            Ev e("Close"); e.i("v", v).b("enforced", enforced).b("died", false).b("ret", ret); w.Show(e);
          }
        }
    }
  }
  for (int r = 0; r < NR; ++r) if (w.recv[r]) { w.recv[r].reset(); w.rs[r] = 0; Ev e("Finish"); e.i("a", r + 1); w.Show(e); }
  for (int s = 0; s < NS; ++s) if (w.slot[s]) { w.slot[s].reset(); Ev e("Destroy"); e.i("a", s + 1).b("died", false); w.Show(e); }
  if (fd) { B::subtle::EnableFDOwnershipEnforcement(false); for (int v : loose) { close(v); Ev e("Close"); e.i("v", v).b("enforced", false).b("died", false).b("ret", true); w.Show(e); } }
}

// Temporary directories, inside a scratch directory and without privileges.
static void TempDirs(int steps) {
  std::optional<B::ScopedTempDir> slot[NS];
  std::map<std::string, int> ids;
  std::vector<std::string> names(1);
  mkdir("under", 0755);
  { FILE* f = fopen("plain", "w"); if (f) fclose(f); }
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) _exit(3);
  std::string top = std::string(cwd) + "/";
  auto id = [&](const std::string& rel) {
    auto it = ids.find(rel);
    if (it != ids.end()) return it->second;
    names.push_back(rel);
    return ids[rel] = static_cast<int>(names.size()) - 1;
  };
  auto idp = [&](const std::string& p) { return id(p.rfind(top, 0) == 0 ? p.substr(top.size()) : p); };
  auto list = [&]() {
    std::vector<int> v;
    for (const char* d : {"", "under/"}) {
      DIR* h = opendir(*d ? d : ".");
      if (!h) continue;
      while (dirent* e = readdir(h)) {
        std::string rel = std::string(d) + e->d_name;
        struct stat st;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..") || rel == "under") continue;
        if (!lstat(rel.c_str(), &st) && S_ISDIR(st.st_mode)) v.push_back(id(rel));
      }
      closedir(h);
    }
    return v;
  };
  int held[NS];
  for (int& x : held) x = -1;
  auto show = [&](Ev& e) {
    std::vector<int> v, ok;
    for (int s = 0; s < NS; ++s) {
      // the path is only shown by an owner that has one
      int x = -1;
      if (slot[s]) { x = slot[s]->GetPath().value().empty() ? 0 : idp(slot[s]->GetPath().value()); }
      held[s] = x;
      v.push_back(x);
      ok.push_back(slot[s] && slot[s]->IsValid());
    }
    e.s("kind", "td").ints("slots", v).raw("valid", Seq(ok, [](int b) { return b ? "true" : "false"; })).ints("open", list());
  };
  auto fill = [&](const std::string& p) {
    if (Rn(2)) return;
    for (const char* s : {"/a", "/a/b", "/c"}) mkdir((p + s).c_str(), 0755);
    for (const char* s : {"/f", "/a/f", "/a/b/g"}) { FILE* f = fopen((p + s).c_str(), "w"); if (f) { fputs("x", f); fclose(f); } }
    if (symlink("../under", (p + "/l").c_str())) {}
  };
  Ev("Owners").i("n", NS).i("nr", NR);
  int fresh = 0;
  std::vector<int> loose;
  for (int i = 0; i < steps; ++i) {
    int a = Rn(NS), b = Rn(NS);
    switch (Rn(10)) {
      case 0:
        if (!slot[a]) { slot[a].emplace(); Ev e("New"); e.i("a", a + 1).i("v", 0).i("g", 0); show(e); }
        break;
      case 1: case 2:
        if (slot[a]) {
          bool ok = Rn(2) ? slot[a]->CreateUniqueTempDir() : slot[a]->CreateUniqueTempDirUnderPath(B::FilePath(top + "under"));
          if (ok) fill(slot[a]->GetPath().value());
          Ev e("Create"); e.i("a", a + 1).b("ok", ok).i("v", ok ? idp(slot[a]->GetPath().value()) : 0); show(e);
        }
        break;
      case 3:
        if (slot[a]) {
          bool bad = Rn(4) == 0;
          std::string rel = bad ? "plain" : (!loose.empty() && Rn(2)) ? names[loose.back()] : "set" + std::to_string(fresh++);
          bool ok = slot[a]->Set(B::FilePath(top + rel));
          if (ok && !bad) { fill(top + rel); if (!loose.empty() && rel == names[loose.back()]) loose.pop_back(); }
          Ev e("Set"); e.i("a", a + 1).b("bad", bad).b("ok", ok).i("v", bad ? 0 : id(rel)); show(e);
        }
        break;
      case 4:
        if (slot[a]) {
          bool ok = slot[a]->Delete();
          Ev e("Delete"); e.i("a", a + 1).b("ok", ok); show(e);
        }
        break;
      case 5:
        if (slot[a]) {
          std::string p = slot[a]->Take().value();
          int v = p.empty() ? 0 : idp(p);
          struct stat st;
          if (v && !lstat(p.c_str(), &st)) loose.push_back(v);
          Ev e("Release"); e.i("a", a + 1).i("ret", v); show(e);
        }
        break;
      case 6:
        if (slot[a] && !slot[b]) { slot[b].emplace(std::move(*slot[a])); Ev e("MoveNew"); e.i("a", b + 1).i("b", a + 1); show(e); }
        break;
      case 7:
        if (slot[a] && slot[b] && a != b) { *slot[a] = std::move(*slot[b]); Ev e("Assign"); e.i("a", a + 1).i("b", b + 1); show(e); }
        break;
      case 8:
        if (slot[a]) { slot[a].reset(); Ev e("Destroy"); e.i("a", a + 1).b("died", false); show(e); }
        break;
      case 9:  // somebody else removes an empty directory
        if (slot[a] && held[a] > 0 && Rn(3) == 0) {
          if (rmdir(names[held[a]].c_str()) == 0) { Ev e("Lose"); e.i("v", held[a]); show(e); }
        }
        break;
    }
  }
  for (int s = 0; s < NS; ++s) if (slot[s]) { slot[s].reset(); Ev e("Destroy"); e.i("a", s + 1).b("died", false); show(e); }
}

static void Contained(const std::string& name, const std::function<void()>& f) {
  T().Shard(name);
  T().Doing("contained");
  T().Flush();
  char top[] = "/tmp/vhowXXXXXX";
  if (!mkdtemp(top)) exit(3);
  chmod(top, 0755);
  std::string dir = top;
  for (const char* s : {"/1", "/2", "/3", "/4"}) { dir += s; mkdir(dir.c_str(), 0755); }
  dir += "/s";
  mkdir(dir.c_str(), 0700);
  if (chown(dir.c_str(), 65534, 65534)) exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (setgid(65534) || setuid(65534) || chdir(dir.c_str())) _exit(3);
    umask(022);
    setenv("TMPDIR", dir.c_str(), 1);
    f();
    T().Flush();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  if (WIFSIGNALED(st)) { Ev("Hang").i("sig", WTERMSIG(st)); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
  if (!strncmp(top, "/tmp/vhow", 9)) {
    pid_t rm = fork();
    if (rm == 0) { execlp("rm", "rm", "-rf", "--", top, nullptr); _exit(1); }
    waitpid(rm, nullptr, 0);
  }
}

// ---- values replaced for a while
template <typename V>
struct Conv;
template <> struct Conv<int> { static int To(int v) { return v; } static int Back(int v) { return v; } };
template <> struct Conv<std::string> { static std::string To(int v) { return std::string(20, 'x') + std::to_string(v); } static int Back(const std::string& s) { return s.size() < 20 ? -1 : atoi(s.c_str() + 20); } };
template <> struct Conv<std::unique_ptr<int>> { static std::unique_ptr<int> To(int v) { return std::make_unique<int>(v); } static int Back(const std::unique_ptr<int>& s) { return s ? *s : -1; } };
template <typename V>
static void Auto(int steps) {
  constexpr int NV = 3, NG = 4;
  V var[NV];
  for (int i = 0; i < NV; ++i) var[i] = Conv<V>::To(i);
  std::optional<B::AutoReset<V>> gd[NG];
  auto vals = [&] { std::vector<int> v; for (auto& x : var) v.push_back(Conv<V>::Back(x)); return v; };
  Ev("Auto").ints("val", vals()).i("ng", NG);
  for (int i = 0; i < steps; ++i) {
    int x = Rn(NV), g = Rn(NG), h = Rn(NG), v = Rn(1000);
    switch (Rn(6)) {
      case 0: var[x] = Conv<V>::To(v); Ev("Poke").i("x", x + 1).i("v", v).ints("val", vals()); break;
      case 1: case 2:
        if (gd[g]) break;
        if constexpr (std::is_copy_constructible_v<V>) {
          if (Rn(3) == 0) { V nv = Conv<V>::To(v); V old = var[x]; gd[g].emplace(&var[x], nv, old); }
          else gd[g].emplace(&var[x], Conv<V>::To(v));
        } else {
          gd[g].emplace(&var[x], Conv<V>::To(v));
        }
        Ev("Guard").i("g", g + 1).i("x", x + 1).i("v", v).ints("val", vals());
        break;
      case 3: if (gd[g]) { gd[g].reset(); Ev("Undo").i("g", g + 1).ints("val", vals()); } break;
      case 4: if (gd[h] && !gd[g]) { gd[g].emplace(std::move(*gd[h])); Ev("Take").i("g", g + 1).i("h", h + 1).ints("val", vals()); } break;
      case 5:
        if (gd[h] && gd[g] && g != h) { *gd[g] = std::move(*gd[h]); Ev("Retake").i("g", g + 1).i("h", h + 1).ints("val", vals()); }
        break;
    }
  }
  for (int g = 0; g < NG; ++g) if (gd[g]) { gd[g].reset(); Ev("Undo").i("g", g + 1).ints("val", vals()); }
}
static void Endians(int steps) {
  constexpr int NV = 2, NG = 4;
  B::Uint8VectorBuffer buf[NV];
  const B::Endian all[] = {B::Endian::kNative, B::Endian::kBig, B::Endian::kLittle};
  auto num = [&](B::Endian e) { for (int i = 0; i < 3; ++i) if (all[i] == e) return i; return -1; };
  std::optional<B::EndianAutoReset> gd[NG];
  auto vals = [&] { std::vector<int> v; for (auto& x : buf) v.push_back(num(x.endian())); return v; };
  Ev("Auto").ints("val", vals()).i("ng", NG);
  for (int i = 0; i < steps; ++i) {
    int x = Rn(NV), g = Rn(NG), v = num(all[Rn(3)]);
    switch (Rn(4)) {
      case 0: buf[x].set_endian(all[v]); Ev("Poke").i("x", x + 1).i("v", v).ints("val", vals()); break;
      case 1: case 2: if (!gd[g]) { gd[g].emplace(buf[x], all[v]); Ev("Guard").i("g", g + 1).i("x", x + 1).i("v", v).ints("val", vals()); } break;
      case 3: if (gd[g]) { gd[g].reset(); Ev("Undo").i("g", g + 1).ints("val", vals()); } break;
    }
  }
}

// ---- owned or referred to
static std::set<const void*> g_live;
static int g_bad = 0;
struct Counted {
  int v = 0;
  Counted() { Born(); }
  explicit Counted(int x) : v(x) { Born(); }
  Counted(const Counted& o) : v(o.v) { o.Check(); Born(); }
  Counted(Counted&& o) : v(o.v) { o.Check(); Born(); }
  Counted& operator=(const Counted& o) { Check(); o.Check(); v = o.v; return *this; }
  Counted& operator=(Counted&& o) { Check(); o.Check(); v = o.v; return *this; }
  ~Counted() { Check(); g_live.erase(this); v = -99; }
  void Born() { if (!g_live.insert(this).second) ++g_bad; }
  void Check() const { if (!g_live.count(this)) ++g_bad; }
};
struct Two { Counted a, b; };
using Vec = std::vector<Counted>;
static std::vector<int> List(const Two& t) { return {t.a.v, t.b.v}; }
template <typename C> static std::vector<int> List(const C& c) { std::vector<int> v; for (auto& x : c) v.push_back(x.v); return v; }
static int& At(Two& t, int i) { return i ? t.b.v : t.a.v; }
template <typename C> static int& At(C&& c, int i) { return c[i].v; }
template <typename V>
static void Maybe(int steps) {
  constexpr bool vec = std::is_same_v<V, Vec>;
  constexpr int NE = 2;
  using M = B::MaybeOwned<V>;
  auto make = [&](int n) { V x; if constexpr (vec) { for (int i = 0; i < n; ++i) x.emplace_back(static_cast<int>(Rn(1000))); } else { x.a.v = Rn(1000); x.b.v = Rn(1000); } return x; };
  {
    V ext[NE];
    for (auto& e : ext) e = make(1 + Rn(4));
    std::optional<M> m[NS];
    size_t extn = 0;
    if constexpr (vec) for (auto& e : ext) extn += e.size();
    struct S { std::string k; std::vector<int> v; int x; };
    auto look = [&](int i) {
      S s{"dead", {}, 0};
      if (!m[i]) return s;
      const M& c = *m[i];
      s.k = "own";
      if constexpr (vec) {
        auto p = c.ptr();
        if (p.empty()) { s.k = "null"; return s; }
        for (int e = 0; e < NE; ++e) if (p.data() == ext[e].data()) { s.k = "ref"; s.x = e + 1; }
        s.v = List(*c);
        if (m[i]->ptr().data() != p.data() || m[i]->ptr().size() != p.size() || (**m[i]).data() != p.data()) s.k = "odd";
      } else {
        const V* p = c.ptr();
        if (!p) { s.k = "null"; return s; }
        const char* lo = reinterpret_cast<const char*>(&c);
        const char* q = reinterpret_cast<const char*>(p);
        for (int e = 0; e < NE; ++e) if (p == &ext[e]) { s.k = "ref"; s.x = e + 1; }
        if (s.k == "own" && (q < lo || q >= lo + sizeof(M))) { s.k = "odd"; return s; }
        s.v = List(*c);
        if (c.operator->() != p || m[i]->ptr() != p || &**m[i] != p) s.k = "odd";
      }
      return s;
    };
    auto show = [&](Ev& e) {
      std::vector<S> ss;
      for (int i = 0; i < NS; ++i) ss.push_back(look(i));
      e.raw("m", Seq(ss, [](const S& s) { return "{\"k\":\"" + s.k + "\",\"v\":" + Ints(s.v) + ",\"x\":" + std::to_string(s.x) + "}"; }));
      e.raw("ext", Seq(ext, [](const V& x) { return Ints(List(x)); })).b("vec", vec).i("live", static_cast<int>(g_live.size() - (vec ? extn : 0)));
    };
    { Ev e("Maybe"); e.i("n", NS).raw("ext", Seq(ext, [](const V& x) { return Ints(List(x)); })); }
    for (int i = 0; i < steps; ++i) {
      int a = Rn(NS), b = Rn(NS);
      switch (Rn(10)) {
        case 0: if (!m[a]) { m[a].emplace(); Ev e("MNull"); e.i("a", a + 1); show(e); } break;
        case 1: case 2: {
          std::vector<int> lst;
          {
            V x = make(1 + Rn(4));
            lst = List(x);
            bool mv = Rn(2);
            if (!m[a]) { if (mv) m[a].emplace(std::move(x)); else m[a].emplace(static_cast<const V&>(x)); }
            else { if (mv) *m[a] = std::move(x); else *m[a] = static_cast<const V&>(x); }
          }
          Ev e("MOwn"); e.i("a", a + 1).ints("v", lst); show(e);
          break;
        }
        case 3: case 4: {
          int x = Rn(NE);
          typename M::Ptr p;
          if constexpr (vec) p = absl::MakeSpan(ext[x]); else p = &ext[x];
          if (!m[a]) m[a].emplace(p); else *m[a] = p;
          Ev e("MRef"); e.i("a", a + 1).i("x", x + 1); show(e);
          break;
        }
        case 5: case 6:
          if (m[b]) {
            if (!m[a]) m[a].emplace(static_cast<const M&>(*m[b])); else *m[a] = static_cast<const M&>(*m[b]);
            Ev e("MCopy"); e.i("a", a + 1).i("b", b + 1); show(e);
          }
          break;
        case 7:
          if (m[b] && a != b) {
            if (!m[a]) m[a].emplace(std::move(*m[b])); else *m[a] = std::move(*m[b]);
            Ev e("MMove"); e.i("a", a + 1).i("b", b + 1); show(e);
          }
          break;
        case 8: {
          S s = look(a);
          if (s.k == "own" || s.k == "ref") {
            int j = Rn(s.v.size()), y = Rn(1000);
            At(**m[a], j) = y;
            Ev e("MWrite"); e.i("a", a + 1).i("i", j + 1).i("y", y); show(e);
          } else {
            int x = Rn(NE), j = Rn(List(ext[x]).size()), y = Rn(1000);
            At(ext[x], j) = y;
            Ev e("MExt"); e.i("x", x + 1).i("i", j + 1).i("y", y); show(e);
          }
          break;
        }
        case 9: if (m[a]) { m[a].reset(); Ev e("MDrop"); e.i("a", a + 1); show(e); } break;
      }
    }
  }
  Ev("MEnd").i("live", static_cast<int>(g_live.size())).i("bad", g_bad);
}
template <bool SHALLOW>
static void Refs(int n) {
  int arr[4];
  for (int k = 0; k < n; ++k) {
    for (int& x : arr) x = Rn(3);
    int i = Rn(4), j = Rn(4);
    B::Ref<int, SHALLOW> a(&arr[i]), b(&arr[j]);
    Ev("Ref").b("shallow", SHALLOW).i("i", i).i("j", j).i("vi", arr[i]).i("vj", arr[j]).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b)
        .b("hash", absl::HashOf(a) == absl::HashOf(b)).i("val", *a);
  }
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  int n = th ? 3000 : 700, k = th ? 8 : 2;
  for (int i = 0; i < k; ++i) {
    std::string s = std::to_string(i);
    T().Shard("tracked" + s); Owners<B::ScopedGeneric<int, Tracked>>("t", n);
    T().Shard("plain" + s); Owners<B::ScopedGeneric<int, Plain>>("p", n);
    T().Shard("fd" + s); Owners<B::ScopedFD>("fd", n);
    Contained("tempdir" + s, [&] { TempDirs(n); });
    T().Shard("auto" + s); Auto<int>(n); Auto<std::string>(n / 2); Auto<std::unique_ptr<int>>(n / 2); Endians(n / 2);
    T().Shard("maybe" + s); Maybe<Two>(n / 2); Maybe<Vec>(n);
    T().Shard("refs" + s); Refs<true>(100); Refs<false>(100);
  }
}
