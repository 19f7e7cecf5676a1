// Recording of executions for the trace specifications of /verif/tla.
#ifndef VH_TR_H_
#define VH_TR_H_
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <exception>
#include <functional>
#include <random>
#include <string>
#include <vector>

namespace vh {

using Rng = std::mt19937_64;

class Tracer {
 public:
  static Tracer& I() {
    static Tracer* t = new Tracer;
    return *t;
  }
  void Init(int argc, char** argv) {
    if (argc < 2) {
      fprintf(stderr, "usage: %s OUTDIR [args]\n", argv[0]);
      exit(3);
    }
    dir_ = argv[1];
    const char* s = getenv("VERIF_SEED");
    seed_ = s ? strtoull(s, nullptr, 10) : 1;
    const char* tier = getenv("VERIF_TIER");
    thorough_ = tier && !strcmp(tier, "thorough");
    for (int sig : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTERM}) signal(sig, OnCrash);
    std::set_terminate([] { OnCrash(SIGABRT); });
    atexit([] { I().Flush(); });
  }
  // Starts a new independent history.
  void Shard(const std::string& name) {
    Flush();
    if (fd_ >= 0) close(fd_);
    ++shard_;
    std::string p = dir_ + "/" + std::to_string(shard_) + ".ndjson";
    fd_ = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    name_ = name;
    rng.seed(seed_ * 1000003 + std::hash<std::string>()(name) % 1000000007);
  }
  void Line(const std::string& s) {
    if (fd_ < 0) Shard("default");
    buf_ += s;
    buf_ += '\n';
    ++n_;
    if (buf_.size() > (1 << 16)) Flush();
  }
  void Flush() {
    if (fd_ >= 0 && !buf_.empty()) {
      size_t off = 0;
      while (off < buf_.size()) {
        ssize_t w = write(fd_, buf_.data() + off, buf_.size() - off);
        if (w <= 0) break;
        off += static_cast<size_t>(w);
      }
    }
    buf_.clear();
  }
  // What is being executed, reported if the process dies there.
  void Doing(const std::string& d) { doing_ = d; }
  const std::string& name() const { return name_; }
  bool thorough() const { return thorough_; }
  uint64_t seed() const { return seed_; }
  Rng rng;

 private:
  static void OnCrash(int sig) {
    static volatile sig_atomic_t in = 0;
    if (!in) {
      in = 1;
      Tracer& t = I();
      std::string d;
      for (char c : t.doing_) d += (c == '"' || c == '\\' || c < 32) ? '?' : c;
      t.buf_ += "{\"op\":\"Crash\",\"sig\":" + std::to_string(sig) + ",\"during\":\"" + d + "\"}\n";
      t.Flush();
    }
    _exit(134);
  }
  std::string dir_, buf_, name_, doing_;
  int fd_ = -1, shard_ = 0;
  uint64_t seed_ = 1, n_ = 0;
  bool thorough_ = false;
};

// Base-4096 limbs, least significant first, canonical.
inline std::string Limbs(const uint64_t* v, size_t n) {
  std::vector<unsigned> out;
  size_t bits = n * 64;
  for (size_t b = 0; b < bits; b += 12) {
    size_t w = b / 64, o = b % 64;
    uint64_t x = v[w] >> o;
    if (o > 52 && w + 1 < n) x |= v[w + 1] << (64 - o);
    out.push_back(static_cast<unsigned>(x & 4095));
  }
  while (!out.empty() && out.back() == 0) out.pop_back();
  std::string s = "[";
  for (size_t i = 0; i < out.size(); ++i) {
    if (i) s += ',';
    s += std::to_string(out[i]);
  }
  return s + "]";
}
inline std::string Limbs(uint64_t v) { return Limbs(&v, 1); }

inline std::string Quote(const std::string& v) {
  std::string s = "\"";
  for (unsigned char c : v) {
    if (c == '"' || c == '\\') { s += '\\'; s += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
    else s += static_cast<char>(c);
  }
  return s + "\"";
}

template <typename C, typename F>
std::string Seq(const C& c, F f) {
  std::string s = "[";
  bool first = true;
  for (const auto& x : c) {
    if (!first) s += ',';
    first = false;
    s += f(x);
  }
  return s + "]";
}
template <typename C>
std::string Ints(const C& c) {
  return Seq(c, [](const auto& x) { return std::to_string(static_cast<long long>(x)); });
}
inline std::string Bytes(const std::string& s) {
  return Seq(s, [](char c) { return std::to_string(static_cast<unsigned char>(c)); });
}
inline std::string Bytes(const uint8_t* p, size_t n) {
  return Bytes(std::string(reinterpret_cast<const char*>(p), n));
}

// One event; written when it goes out of scope.
class Ev {
 public:
  explicit Ev(const char* op) : s_(std::string("{\"op\":\"") + op + "\"") {}
  ~Ev() { Tracer::I().Line(s_ + "}"); }
  Ev& i(const char* k, long long v) { return raw(k, std::to_string(v)); }
  Ev& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  Ev& s(const char* k, const std::string& v) { return raw(k, Quote(v)); }
  Ev& raw(const char* k, const std::string& v) {
    s_ += ",\"";
    s_ += k;
    s_ += "\":";
    s_ += v;
    return *this;
  }
  Ev& u64(const char* k, uint64_t v) { return raw(k, Limbs(v)); }
  template <typename C> Ev& ints(const char* k, const C& c) { return raw(k, Ints(c)); }

 private:
  std::string s_;
};

inline Tracer& T() { return Tracer::I(); }
inline uint64_t R64() { return T().rng(); }
inline uint64_t Rn(uint64_t n) { return T().rng() % n; }  // [0, n)

}  // namespace vh
#endif
