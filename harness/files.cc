// Operations on scratch directory trees, file handles and paths.  Everything
// that touches the file system runs in a child process without privileges,
// inside a directory made for it.
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <algorithm>
#include <map>
#include <memory>

#include "vh/tr.h"
#include "tachyon/base/files/bin_file.h"
#include "tachyon/base/files/file.h"
#include "tachyon/base/files/file_enumerator.h"
#include "tachyon/base/files/file_path.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/memory_mapped_file.h"
#include "tachyon/base/time/time.h"
using namespace vh;
namespace B = tachyon::base;
using P = B::FilePath;

static std::string g_base;  // absolute path of the tree's root, also the current directory
static std::string Raw(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static void RawWrite(const std::string& p, const std::string& d) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) return;
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}
struct Node { std::vector<std::string> at; char t; std::string v; };
static std::vector<Node> g_nodes;
static void WalkRaw(const std::string& rel, const std::vector<std::string>& at) {
  DIR* d = opendir(rel.empty() ? "." : rel.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(d))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    std::string p = rel.empty() ? n : rel + "/" + n;
    auto a = at;
    a.push_back(n);
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { g_nodes.push_back({a, 'd', ""}); WalkRaw(p, a); }
    else if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); g_nodes.push_back({a, 'l', std::string(b, k > 0 ? k : 0)}); }
    else g_nodes.push_back({a, 'f', Raw(p)});
  }
}
static std::string Tree() {
  g_nodes.clear();
  WalkRaw("", {});
  return Seq(g_nodes, [](const Node& n) {
    return "{\"p\":" + Seq(n.at, [](const std::string& s) { return Bytes(s); }) + ",\"t\":\"" + n.t + "\",\"v\":" + Bytes(n.v) + "}";
  });
}
static bool DirLinks() {
  for (auto& n : g_nodes)
    if (n.t == 'l') {
      std::string p;
      for (auto& s : n.at) p += (p.empty() ? "" : "/") + s;
      struct stat st;
      if (!stat(p.c_str(), &st) && S_ISDIR(st.st_mode)) return true;
    }
  return false;
}
static bool LinkUnder(const std::string& p) {
  char b[4096];
  if (!realpath(p.c_str(), b)) return false;
  std::string r = b, root = g_base + "/";
  for (auto& n : g_nodes)
    if (n.t == 'l') {
      std::string q = g_base;
      for (auto& s : n.at) q += "/" + s;
      if (q.rfind(r + "/", 0) == 0) return true;
    }
  return false;
}
static const char* kNames[] = {"a", "b", "c", "d.txt", "e.tar.gz", ".h"};
static std::string RName() { return kNames[Rn(Rn(3) ? 3 : 6)]; }
static std::string RData() {
  std::string s(Rn(4) == 0 ? 0 : Rn(14), 0);
  for (auto& c : s) c = Rn(3) == 0 ? "\n\r ab"[Rn(5)] : static_cast<char>(Rn(256));
  return s;
}
// last: the last component is a name; dots: may contain "." and ".."
static std::string RPath(bool last, bool dots = true) {
  int n = 1 + Rn(3);
  std::string s;
  int depth = 0;
  for (int i = 0; i < n; ++i) {
    bool fin = i == n - 1;
    std::string c = RName();
    if (dots && !(fin && last)) {
      if (Rn(10) == 0) c = ".";
      else if (depth > 0 && Rn(14) == 0) c = "..";
    }
    depth += c == ".." ? -1 : c == "." ? 0 : 1;
    s += (i ? (Rn(25) == 0 && dots ? "//" : "/") : "") + c;
  }
  if (Rn(7) == 0) s = g_base + "/" + s;
  return s;
}
// Mostly a path that exists.
static std::string Some(bool last, bool dots = true) {
  if (Rn(3) == 0 || g_nodes.empty()) return RPath(last, dots);
  const Node& n = g_nodes[Rn(g_nodes.size())];
  std::string p;
  for (auto& s : n.at) p += (p.empty() ? "" : "/") + s;
  if (Rn(8) == 0) p = g_base + "/" + p;
  if (Rn(5) == 0 && !last && dots) p += Rn(2) ? "/." : "/" + RName();
  else if (Rn(4) == 0) p += "/" + RName();
  return p;
}
static std::string OkD(bool ok, const std::string& d) { return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"d\":" + Bytes(d) + "}"; }
static std::string Str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }

static void Look(const std::string& s) {
  P p(s);
  Ev e("Look");
  e.raw("p", Bytes(s)).b("exists", B::PathExists(p)).b("readable", B::PathIsReadable(p)).b("writable", B::PathIsWritable(p)).b("dirx", B::DirectoryExists(p)).b("islink", B::IsLink(p));
  B::File::Info info;
  bool ok = B::GetFileInfo(p, &info);
  e.b("info", ok).b("infodir", ok && info.is_directory).b("infolink", ok && info.is_symbolic_link);
  int64_t size = -1;
  ok = B::GetFileSize(p, &size);
  e.b("sizeok", ok).i("size", ok && size < 1000000 ? size : -1).b("empty", B::IsDirectoryEmpty(p));
  std::string str = "junk";
  ok = B::ReadFileToString(p, &str);
  e.raw("str", OkD(ok, str)).b("null", B::ReadFileToString(p, nullptr));
  auto by = B::ReadFileToBytes(p);
  e.raw("bytes", OkD(by.has_value(), by ? Str(*by) : ""));
  str = "junk";
  ok = B::ReadFileToStringNonBlocking(p, &str);
  e.raw("nonblock", OkD(ok, str));
  int mx = Rn(16);
  str = "junk";
  ok = B::ReadFileToStringWithMaxSize(p, &str, mx);
  e.i("max", mx).raw("maxed", OkD(ok, str));
  B::BinFile bin;
  ok = bin.Load(p, false);
  e.raw("bin", OkD(ok, ok ? std::string(reinterpret_cast<const char*>(bin.GetData()), bin.GetDataLength()) : ""));
  struct stat st;
  if (!stat(s.c_str(), &st) && S_ISREG(st.st_mode)) {
    B::BinFile map;
    ok = map.Load(p, true);
    e.raw("map", OkD(ok, ok ? std::string(reinterpret_cast<const char*>(map.GetData()), map.GetDataLength()) : ""));
  } else {
    e.raw("map", OkD(false, ""));
  }
  char buf[64];
  int n = B::ReadFile(p, buf, mx);
  e.raw("raw", "{\"n\":" + std::to_string(n) + ",\"d\":" + Bytes(std::string(buf, n > 0 ? n : 0)) + "}");
  e.raw("real", Bytes(B::MakeAbsoluteFilePath(p).value()));
  P norm;
  ok = B::NormalizeFilePath(p, &norm);
  e.raw("norm", Bytes(ok ? norm.value() : ""));
  auto lex = B::MakeAbsoluteFilePathNoResolveSymbolicLinks(p);
  e.raw("lex", Bytes(lex ? lex->value() : ""));
  P tgt("junk");
  ok = B::ReadSymbolicLink(p, &tgt);
  e.raw("rdlink", OkD(ok, tgt.value()));
  auto ra = B::ReadSymbolicLinkAbsolute(p);
  e.raw("rdabs", Bytes(ra ? ra->value() : ""));
  e.i("uniq", B::GetUniquePathNumber(p)).raw("uniqp", Bytes(B::GetUniquePath(p).value()));
  e.b("preread", B::PreReadFile(p, false, Rn(3)));
  e.raw("tree", Tree());
}

static void Step() {
  auto& T0 = T();
  int k = Rn(100);
  if (k < 14) {
    std::string p = RPath(true), d = RData();
    T0.Doing("write " + p);
    bool ok;
    switch (Rn(3)) {
      case 0: ok = B::WriteFile(P(p), d); break;
      case 1: ok = B::WriteLargeFile(P(p), d); break;
      default: ok = B::WriteFile(P(p), d.data(), d.size()) == static_cast<int>(d.size());
    }
    Ev("Write").raw("p", Bytes(p)).raw("d", Bytes(d)).b("ok", ok).raw("tree", Tree());
  } else if (k < 18) {
    std::string p = Some(true), d = RData();
    bool ok = B::AppendToFile(P(p), d);
    Ev("Append").raw("p", Bytes(p)).raw("d", Bytes(d)).b("ok", ok).raw("tree", Tree());
  } else if (k < 28) {
    std::string p = RPath(false);
    T0.Doing("mkdir " + p);
    B::File::Error err = B::File::FILE_OK;
    bool ok = B::CreateDirectoryAndGetError(P(p), &err);
    Ev("MkDir").raw("p", Bytes(p)).b("ok", ok).i("err", err).raw("tree", Tree());
  } else if (k < 34) {
    std::string p = Some(true);
    bool rec = Rn(3) == 0;
    T0.Doing("delete " + p);
    bool ok = rec ? B::DeletePathRecursively(P(p)) : B::DeleteFile(P(p));
    Ev("Delete").raw("p", Bytes(p)).b("rec", rec).b("ok", ok).raw("tree", Tree());
  } else if (k < 41) {
    std::string p = Some(true), q = Some(true);
    if (DirLinks() || LinkUnder(p)) return;
    T0.Doing("move " + p + " " + q);
    bool ok = B::Move(P(p), P(q));
    Ev("Move").raw("p", Bytes(p)).raw("to", Bytes(q)).b("ok", ok).raw("tree", Tree());
  } else if (k < 45) {
    std::string p = Some(true), q = Some(true);
    B::File::Error err = B::File::FILE_OK;
    bool ok = B::ReplaceFile(P(p), P(q), &err);
    Ev("Replace").raw("p", Bytes(p)).raw("to", Bytes(q)).b("ok", ok).raw("tree", Tree());
  } else if (k < 51) {
    std::string p = Some(true), q = Some(true);
    T0.Doing("copy file " + p + " " + q);
    bool ok = B::CopyFile(P(p), P(q));
    Ev("CopyFile").raw("p", Bytes(p)).raw("to", Bytes(q)).b("ok", ok).raw("tree", Tree());
  } else if (k < 60) {
    std::string p = Some(true), q = Some(true);
    if (DirLinks()) return;
    bool rec = Rn(3), excl = Rn(4) == 0;
    T0.Doing("copy dir " + p + " " + q);
    bool ok = excl ? B::CopyDirectoryExcl(P(p), P(q), rec) : B::CopyDirectory(P(p), P(q), rec);
    Ev("CopyDir").raw("p", Bytes(p)).raw("to", Bytes(q)).b("rec", rec).b("excl", excl).b("ok", ok).raw("tree", Tree());
  } else if (k < 64) {
    std::string p = RPath(true), to = Rn(8) == 0 ? "." : Rn(10) == 0 ? g_base : RPath(false);
    bool ok = B::CreateSymbolicLink(P(to), P(p));
    Ev("Link").raw("p", Bytes(p)).raw("to", Bytes(to)).b("ok", ok).raw("tree", Tree());
  } else if (k < 66) {
    std::string p = Some(true);
    int at = Rn(8);
    B::ScopedFILE f(B::OpenFile(P(p), "rb+"));
    bool ok = f != nullptr;
    if (ok) { fseek(f.get(), at, SEEK_SET); ok = B::TruncateFile(f.get()); }
    Ev("Truncate").raw("p", Bytes(p)).i("at", at).b("ok", ok).raw("tree", Tree());
  } else if (k < 69) {
    std::string p = Some(false, false);
    if (p.rfind(g_base, 0) != 0 && Rn(6) == 0) p = "";
    bool dir = Rn(2);
    P path;
    bool ok;
    std::string prefix = ".org.kroma.Tachyon.", data;
    if (dir) {
      prefix = std::string("tmp").substr(0, Rn(4));
      ok = B::CreateTemporaryDirInDir(P(p), prefix, &path);
    } else if (Rn(2)) {
      ok = B::CreateTemporaryFileInDir(P(p), &path);
    } else {
      data = RData();
      if (Rn(2)) {
        B::File f = B::CreateAndOpenTemporaryFileInDir(P(p), &path);
        ok = f.IsValid() && f.WriteAtCurrentPos(data.data(), data.size()) == static_cast<int>(data.size());
      } else {
        B::ScopedFILE f = B::CreateAndOpenTemporaryStreamInDir(P(p), &path);
        ok = f != nullptr && fwrite(data.data(), 1, data.size(), f.get()) == data.size();
        fflush(f ? f.get() : nullptr);
      }
    }
    Ev("Temp").raw("p", Bytes(p)).b("dir", dir).raw("prefix", Bytes(prefix)).raw("d", Bytes(data)).b("ok", ok).raw("path", Bytes(ok ? path.value() : "")).raw("tree", Tree());
    if (ok) {  // random names would make histories irreproducible
      std::string to = (p.empty() ? "" : p + "/") + kNames[Rn(6)];
      struct stat st;
      if (lstat(to.c_str(), &st)) Rn(2) ? rename(path.value().c_str(), to.c_str()) : dir ? rmdir(path.value().c_str()) : unlink(path.value().c_str());
      else dir ? rmdir(path.value().c_str()) : unlink(path.value().c_str());
      Ev("Begin").raw("base", Bytes(g_base)).raw("tree", Tree());
    }
  } else if (k < 74) {
    std::string p = Some(true), q = Rn(4) ? Some(true) : p;
    T0.Doing("compare " + p + " " + q);
    alarm(30);
    bool eq = B::ContentsEqual(P(p), P(q)), teq = B::TextContentsEqual(P(p), P(q));
    alarm(0);
    Ev("Pair").raw("p", Bytes(p)).raw("to", Bytes(q)).b("eq", eq).b("teq", teq).raw("tree", Tree());
  } else if (k < 76) {
    std::string p = Rn(3) ? "." : Some(false);
    Tree();
    if (DirLinks()) return;
    Ev("DirSize").raw("p", Bytes(p)).i("size", B::ComputeDirectorySize(P(p))).raw("tree", Tree());
  } else if (k < 85) {
    using FE = B::FileEnumerator;
    std::string p = Rn(3) ? (Rn(4) ? "." : "./") : Some(false);
    bool rec = Rn(2), all = Rn(2), links = Rn(2);
    int ty = 1 + Rn(3);
    if (rec && !links && DirLinks()) return;
    static const char* kPat[] = {"", "*", "a*", "?", "*.txt", "*.*", "b", ".*", "*.tar.??"};
    std::string pat = kPat[Rn(3) ? Rn(9) : 0];
    std::vector<std::string> types;
    int fl = 0;
    bool names = !rec && Rn(6) == 0;
    if (names) { fl = FE::NAMES_ONLY; types.push_back("names"); }
    else {
      if (ty & 1) { fl |= FE::FILES; types.push_back("files"); }
      if (ty & 2) { fl |= FE::DIRECTORIES; types.push_back("dirs"); }
      if (links) { fl |= FE::SHOW_SYM_LINKS; types.push_back("links"); }
    }
    if (!rec && Rn(5) == 0) { fl |= FE::INCLUDE_DOT_DOT; types.push_back("dotdot"); }
    T0.Doing("enumerate " + p + " " + pat);
    FE en(P(p), rec, fl, pat, all ? FE::FolderSearchPolicy::ALL : FE::FolderSearchPolicy::MATCH_ONLY);
    std::string got = "[";
    for (P x = en.Next(); !x.empty(); x = en.Next()) {
      if (got.size() > 1) got += ",";
      got += "{\"p\":" + Bytes(x.value());
      if (!names) {
        auto inf = en.GetInfo();
        got += ",\"name\":" + Bytes(inf.GetName().value()) + ",\"dir\":" + (inf.IsDirectory() ? "true" : "false") + ",\"size\":" + std::to_string(inf.GetSize());
      }
      got += "}";
    }
    got += "]";
    Ev("Enum").raw("p", Bytes(p)).b("rec", rec).raw("types", Seq(types, [](const std::string& s) { return Quote(s); })).raw("pat", Bytes(pat)).b("all", all).raw("got", got).raw("tree", Tree());
  } else if (k < 87) {
    std::string p = Some(true);
    struct stat st0;
    bool had = !stat(p.c_str(), &st0);
    int mode = Rn(512), got = -1, dummy = 0;
    if (had && S_ISDIR(st0.st_mode)) mode |= 0500;
    bool s = B::SetPosixFilePermissions(P(p), mode), g = B::GetPosixFilePermissions(P(p), &got);
    if (had) dummy = chmod(p.c_str(), st0.st_mode & 07777);
    (void)dummy;
    Ev("Perm").raw("p", Bytes(p)).i("mode", mode).b("set", s).b("get", g).i("got", got).raw("tree", Tree());
  } else if (k < 89) {
    std::string p = Some(true);
    auto tm = [] { return B::Time::FromTimeT(Rn(2000000000)) + B::Microseconds(Rn(1000000)); };
    B::Time a = tm(), m = tm();
    bool ok = B::TouchFile(P(p), a, m);
    B::File::Info info;
    B::GetFileInfo(P(p), &info);
    auto us = [](B::Time x) { return Limbs(static_cast<uint64_t>(x.ToDeltaSinceUnixEpoch().InMicroseconds())); };
    Ev("Touch").raw("p", Bytes(p)).b("ok", ok).raw("acc", us(a)).raw("modi", us(m)).raw("gacc", us(ok ? info.last_accessed : a)).raw("gmod", us(ok ? info.last_modified : m)).raw("tree", Tree());
  } else if (k < 92) {
    std::string p = Some(true);
    bool shared = Rn(2), reg = false;
    struct stat st;
    size_t n = 0;
    if (!stat(p.c_str(), &st) && S_ISREG(st.st_mode)) { reg = true; n = st.st_size; }
    size_t at = n ? Rn(n) : 0;
    std::string d(n ? Rn(n - at + 1) : 0, 0), seen;
    for (auto& c : d) c = Rn(256);
    bool ok = false;
    if (reg) {
      B::MemoryMappedFile m;
      ok = m.Initialize(P(p), shared ? B::MemoryMappedFile::READ_WRITE : B::MemoryMappedFile::READ_WRITE_COPY);
      if (ok) { memcpy(m.data() + at, d.data(), d.size()); seen.assign(reinterpret_cast<char*>(m.data()), m.length()); }
      ok = ok && m.IsValid();
    }
    Ev("MapWrite").raw("p", Bytes(p)).b("shared", shared).i("at", at).raw("d", Bytes(d)).b("ok", ok).raw("seen", Bytes(seen)).raw("tree", Tree());
  } else {
    T0.Doing("look");
    Look(Some(Rn(2)));
  }
}

static void Handles() {
  RawWrite("f", "0123456789");
  mkdir("d", 0700);
  Ev("HBegin").raw("d", Bytes("0123456789"));
  auto Path = [](const std::string& n) { return P(n == "m" ? "nodir/x" : n == "fx" ? "k/x" : n); };
  RawWrite("k", "");
  std::map<int, B::File> hs;
  std::map<int, bool> isd;
  int next = 1;
  for (int s = 0; s < 160; ++s) {
    if (hs.empty() || (hs.size() < 5 && Rn(8) == 0)) {
      static const char* kN[] = {"f", "f", "f", "g", "g", "d", "m", "fx"};
      std::string n = kN[Rn(8)];
      uint32_t fl = 0;
      std::vector<std::string> fs;
      auto add = [&](const char* x, uint32_t b) { fl |= b; fs.push_back(x); };
      int disp = Rn(7);
      bool need = disp == 3 || disp == 4;
      int acc = need ? Rn(2) : Rn(6);
      if (acc == 0) add("write", B::File::FLAG_WRITE);
      if (acc == 1) { add("write", B::File::FLAG_WRITE); add("read", B::File::FLAG_READ); }
      if (acc == 2) add("read", B::File::FLAG_READ);
      if (acc == 3) add("append", B::File::FLAG_APPEND);
      if (acc == 4) { add("append", B::File::FLAG_APPEND); add("read", B::File::FLAG_READ); }
      if (acc == 5) add("write_attributes", B::File::FLAG_WRITE_ATTRIBUTES);
      if (disp == 1) add("create", B::File::FLAG_CREATE);
      else if (disp == 2) add("open_always", B::File::FLAG_OPEN_ALWAYS);
      else if (disp == 3) add("create_always", B::File::FLAG_CREATE_ALWAYS);
      else if (disp == 4) add("open_truncated", B::File::FLAG_OPEN_TRUNCATED);
      else add("open", B::File::FLAG_OPEN);
      if (n != "d" && Rn(8) == 0) add("delete_on_close", B::File::FLAG_DELETE_ON_CLOSE);
      int h = next++;
      T().Doing("open");
      B::File f(Path(n), fl);
      bool ok = f.IsValid();
      Ev("Open").i("h", h).s("n", n).raw("fl", Seq(fs, [](const std::string& x) { return Quote(x); })).b("ok", ok).i("err", f.error_details()).b("created", f.created());
      if (ok) { hs.emplace(h, std::move(f)); isd[h] = n == "d"; }
      continue;
    }
    auto it = hs.begin();
    std::advance(it, Rn(hs.size()));
    int h = it->first;
    B::File& f = it->second;
    int k = Rn(100);
    if (isd[h] && !(k < 26 || k >= 84)) k = 99;
    if (k < 26) {
      bool cur = Rn(2);
      int n = Rn(20) == 0 ? -1 : Rn(12), off = Rn(12) == 0 ? -1 : Rn(20);
      std::vector<char> b(32);
      int ret;
      if (n == 0 && off < 0) off = 0;
      if (cur) ret = Rn(3) ? f.ReadAtCurrentPos(b.data(), n) : f.ReadAtCurrentPosNoBestEffort(b.data(), n);
      else ret = Rn(3) ? f.Read(off, b.data(), n) : f.ReadNoBestEffort(off, b.data(), n);
      Ev("HRead").i("h", h).b("cur", cur).i("off", off).i("n", n).i("ret", ret).raw("d", Bytes(std::string(b.data(), ret > 0 ? ret : 0)));
    } else if (k < 50) {
      bool cur = Rn(2);
      int off = Rn(12) == 0 ? -1 : Rn(20);
      std::string d(1 + Rn(6), 0);
      for (auto& c : d) c = 'A' + Rn(26);
      int ret = cur ? (Rn(3) ? f.WriteAtCurrentPos(d.data(), d.size()) : f.WriteAtCurrentPosNoBestEffort(d.data(), d.size())) : f.Write(off, d.data(), d.size());
      Ev("HWrite").i("h", h).b("cur", cur).i("off", off).raw("d", Bytes(d)).i("ret", ret);
    } else if (k < 60) {
      int wh = Rn(3), off = static_cast<int>(Rn(24)) - 6;
      int64_t r = f.Seek(wh == 0 ? B::File::FROM_BEGIN : wh == 1 ? B::File::FROM_CURRENT : B::File::FROM_END, off);
      Ev("HSeek").i("h", h).i("wh", wh).i("off", off).i("ret", r);
    } else if (k < 66) {
      B::File::Info info;
      f.GetInfo(&info);
      Ev("HLen").i("h", h).i("len", f.GetLength()).i("size", info.size).b("isdir", info.is_directory).b("flush", f.Flush());
    } else if (k < 72) {
      int n = Rn(10) == 0 ? -1 : Rn(24);
      Ev("HSetLen").i("h", h).i("n", n).b("ok", f.SetLength(n));
    } else if (k < 75) {
      int off = Rn(20), n = 1 + Rn(12);
      Ev("HAlloc").i("h", h).i("off", off).i("n", n).b("ok", B::AllocateFileRegion(&f, off, n));
    } else if (k < 80) {
      B::File g = f.Duplicate();
      int h2 = next++;
      Ev("HDup").i("h", h).i("h2", h2).b("ok", g.IsValid());
      hs.emplace(h2, std::move(g));
    } else if (k < 84) {
      int h2 = next++;
      B::File g;
      bool viaf = Rn(2);
      if (viaf) g = std::move(f);
      else g = B::File(f.TakePlatformFile());
      Ev("HMove").i("h", h).i("h2", h2).b("ok", g.IsValid()).b("old", f.IsValid());
      hs.erase(h);
      hs.emplace(h2, std::move(g));
    } else if (k < 92) {
      std::vector<std::string> names = {"f", "g"};
      Ev("HDisk").raw("names", Seq(names, [](const std::string& n) { struct stat st; bool there = !stat(n.c_str(), &st); return "{\"n\":\"" + n + "\",\"there\":" + (there ? "true" : "false") + ",\"d\":" + Bytes(Raw(n)) + "}"; }));
    } else if (k < 95) {
      std::string n = Rn(2) ? "f" : "g";
      B::DeleteFile(P(n));
      Ev("HUnlink").s("n", n);
    } else {
      bool was = f.IsValid();
      f.Close();
      Ev("HClose").i("h", h).b("was", was).b("now", f.IsValid());
      hs.erase(h);
    }
  }
}
static std::string Gen(int k, int n) {
  std::string s(n, 0);
  for (int i = 1; i <= n; ++i) s[i - 1] = static_cast<char>((static_cast<long long>(i) * k + i / 251) % 256);
  return s;
}
static void Large() {
  std::vector<int> sizes = {0, 1, 2055, 2056, 2057, 4095, 4096, 4097, 32769};
  if (T().thorough()) for (int n : {65534, 65535, 65536, 65537, 70001, 139000}) sizes.push_back(n);
  else sizes.push_back(65535 + Rn(3) * 2331);
  for (int n : sizes) {
    int k = 1 + Rn(255);
    std::string d = Gen(k, n), str, mx;
    bool wrote = B::WriteFile(P("big"), d);
    Ev e("Big");
    e.i("k", k).i("n", n).b("wrote", wrote);
    bool ok = B::ReadFileToString(P("big"), &str);
    e.raw("str", OkD(ok, str));
    auto by = B::ReadFileToBytes(P("big"));
    e.raw("bytes", Bytes(by ? Str(*by) : "?"));
    int m = n ? n - 1 + Rn(3) : 0;
    if (Rn(3) == 0) m = Rn(n + 1);
    ok = B::ReadFileToStringWithMaxSize(P("big"), &mx, m);
    e.i("max", m).raw("maxed", OkD(ok, mx));
    e.b("copied", B::CopyFile(P("big"), P("copy"))).raw("copy", Bytes(Raw("copy"))).b("same", B::ContentsEqual(P("big"), P("copy")));
    std::string o = d;
    if (n == 0) o = "x"; else o[Rn(2) ? n - 1 : Rn(n)] ^= 1;
    RawWrite("copy", o);
    e.b("other", B::ContentsEqual(P("big"), P("copy")));
  }
  for (int i = 0; i < 14; ++i) {
    using M = B::MemoryMappedFile;
    int mode = Rn(4), n = 1 + Rn(9000), k = 1 + Rn(255);
    if (Rn(10) == 0) n = 4096;
    bool whole = mode != 3 && Rn(5) == 0;
    static const char* kM[] = {"ro", "rw", "copy", "extend"};
    int off = 0, size = 0;
    if (!whole) {
      off = Rn(n);
      if (Rn(3) == 0) off = off / 4096 * 4096;
      if (mode == 3) { off = Rn(12000); size = 1 + Rn(300); }
      else size = Rn(std::min(n - off, 300) + 1);
      if (off == 0 && size == 0) size = 1;
    }
    RawWrite("reg", Gen(k, n));
    std::string d, w, seen;
    int at = 0;
    bool ok;
    {
      M m;
      uint32_t fl = B::File::FLAG_OPEN | B::File::FLAG_READ;
      if (mode == 1 || mode == 3) fl |= B::File::FLAG_WRITE;
      B::File f(P("reg"), fl);
      M::Region r{off, static_cast<size_t>(size)};
      T().Doing("map region");
      ok = m.Initialize(std::move(f), r, mode == 0 ? M::READ_ONLY : mode == 1 ? M::READ_WRITE : mode == 2 ? M::READ_WRITE_COPY : M::READ_WRITE_EXTEND);
      if (ok) {
        d.assign(reinterpret_cast<char*>(m.data()), m.length());
        if (mode && !d.empty()) {
          at = Rn(d.size());
          w = Gen(7 + i, 1 + Rn(std::min<int>(d.size() - at, 20)));
          memcpy(m.data() + at, w.data(), w.size());
          seen.assign(reinterpret_cast<char*>(m.data()), m.length());
        }
      }
    }
    Ev("Region").s("mode", kM[mode]).i("k", k).i("n", n).i("off", off).i("size", size).b("ok", ok).raw("d", Bytes(d)).i("at", at).raw("w", Bytes(w)).raw("seen", Bytes(seen)).raw("after", Bytes(Raw("reg")));
  }
}

static std::string RStr() {
  static const char* kC[] = {"a", "b", "..", ".", "a.b", "x.tar.gz", "x.tar.BZ2", ".gz", "a.z", "a.bcde.z", "a.bcdef.z", "a..gz", "", "foo.", "...", ".hidden.xz", "ab.lzma", "/", "a b", "..a", "tar.user.js"};
  std::string s;
  if (Rn(4) == 0) s = "/";
  int n = Rn(4);
  for (int i = 0; i < n; ++i) s += (i ? "/" : "") + std::string(kC[Rn(21)]);
  if (Rn(6) == 0) s += "/";
  if (Rn(6) == 0) for (int i = Rn(5); i > 0; --i) s += "./ab."[Rn(5)];
  return s;
}
static void Paths(int n) {
  for (int i = 0; i < n; ++i) {
    std::string s = RStr(), q = Rn(3) ? RStr() : s, x = Rn(3) ? RStr() : "";
    if (Rn(3) == 0 && !s.empty()) q = s + "/" + RStr();
    T().Doing("path " + s + " " + q);
    P p(s);
    P rel(x), acc(p);
    bool isp = p.AppendRelativePath(P(q), &rel);
    acc /= P(q);
    Ev("Path").raw("p", Bytes(s)).raw("q", Bytes(q)).raw("x", Bytes(x))
        .raw("comps", Seq(p.GetComponents(), [](const std::string& c) { return Bytes(c); }))
        .raw("dir", Bytes(p.DirName().value())).raw("base", Bytes(p.BaseName().value())).raw("ext", Bytes(p.Extension())).raw("fext", Bytes(p.FinalExtension()))
        .raw("noext", Bytes(p.RemoveExtension().value())).raw("nofext", Bytes(p.RemoveFinalExtension().value())).b("abs", p.IsAbsolute()).b("root", p.IsRoot()).b("ends", p.EndsWithSeparator())
        .raw("asend", Bytes(p.AsEndingWithSeparator().value())).raw("strip", Bytes(p.StripTrailingSeparators().value())).b("par", p.ReferencesParent())
        .raw("ins", Bytes(p.InsertBeforeExtension(x).value())).raw("app", Bytes(p.Append(q).value())).raw("app2", Bytes((p / P(q)).value())).raw("app3", Bytes(acc.value()))
        .b("isp", p.IsParent(P(q)) && isp).raw("rel", Bytes(rel.value())).b("eq", p == P(q));
  }
}

// Runs f without privileges in a fresh directory.
static void Contained(const std::string& name, const std::function<void()>& f) {
  T().Shard(name);
  T().Doing("contained");
  T().Flush();
  char top[] = "/tmp/vhfsXXXXXX";
  if (!mkdtemp(top)) exit(3);
  chmod(top, 0755);
  std::string dir = top;
  for (const char* s : {"/1", "/2", "/3", "/4"}) { dir += s; mkdir(dir.c_str(), 0755); }
  dir += "/s";
  mkdir(dir.c_str(), 0700);
  if (chown(dir.c_str(), 65534, 65534)) exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (setgid(65534) || setuid(65534) || chdir(dir.c_str())) _exit(3);
    umask(022);
    setenv("TMPDIR", dir.c_str(), 1);
    g_base = dir;
    signal(SIGALRM, SIG_DFL);
    f();
    T().Flush();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  if (WIFSIGNALED(st)) { Ev("Hang").i("sig", WTERMSIG(st)); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
  if (!strncmp(top, "/tmp/vhfs", 9)) {
    pid_t rm = fork();
    if (rm == 0) { execlp("rm", "rm", "-rf", "--", top, nullptr); _exit(1); }
    waitpid(rm, nullptr, 0);
  }
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  for (int i = 0; i < (th ? 60 : 24); ++i)
    Contained("tree" + std::to_string(i), [&] {
      Ev("Begin").raw("base", Bytes(g_base)).raw("tree", Tree());
      for (int s = 0; s < (th ? 500 : 260); ++s) Step();
    });
  for (int i = 0; i < (th ? 16 : 4); ++i) Contained("handles" + std::to_string(i), Handles);
  for (int i = 0; i < (th ? 4 : 2); ++i) Contained("large" + std::to_string(i), Large);
  for (int i = 0; i < (th ? 8 : 2); ++i) { T().Shard("paths" + std::to_string(i)); Paths(th ? 1500 : 700); }
}
