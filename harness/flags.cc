// Command lines: random declarations, environments and argument vectors.
#include <deque>
#include <memory>
#include <set>

#include "vh/tr.h"
#include "tachyon/base/environment.h"
#include "tachyon/base/files/file_path_flag.h"
#include "tachyon/base/flag/flag_parser.h"
#include "tachyon/base/flag/numeric_flags.h"
using namespace vh;
namespace B = tachyon::base;

struct F {
  int par = 0;
  std::string k, name, sh, lo_, envname, envv;
  bool req = false, env = false, loi = false, hii = false, subset = false;
  std::vector<std::string> ch, init;
  int lo = 0, hi = 0;
  // storage
  int i32 = 0; int8_t i8 = 0; uint16_t u16 = 0; int64_t i64 = 0; uint64_t u64 = 0; bool b = false;
  std::string str; std::vector<int> vi; std::set<std::string> ss; B::flag_internal::PositiveInt pos; B::FilePath path;
  B::FlagBase* flag = nullptr;
  std::vector<std::string> Vals() const {
    if (k == "int" || k == "range") return {std::to_string(i32)};
    if (k == "pos") return {std::to_string(pos.value)};
    if (k == "i8") return {std::to_string(i8)};
    if (k == "u16") return {std::to_string(u16)};
    if (k == "i64") return {std::to_string(i64)};
    if (k == "u64") return {std::to_string(u64)};
    if (k == "bool" || k == "cbbool") return {b ? "1" : "0"};
    if (k == "vint") { std::vector<std::string> r; for (int x : vi) r.push_back(std::to_string(x)); return r; }
    if (k == "sstr") return std::vector<std::string>(ss.begin(), ss.end());
    if (k == "path") return {path.value()};
    if (k == "sub") return {};
    return {str};
  }
};
std::string BS(const std::vector<std::string>& v) { return Seq(v, [](const std::string& s) { return Bytes(s); }); }
std::string Pick(const std::string& a, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += a[Rn(a.size())]; return s; }
bool g_veto, g_vetoed;
class Parser : public B::FlagParser {
 public:
  bool Validate(std::string* error) override { g_vetoed = true; if (g_veto) *error = "veto"; return !g_veto; }
};

template <typename X> void Names(X& x, F& f) {
  if (!f.name.empty()) x.set_name(f.name);
  if (!f.sh.empty()) x.set_short_name(f.sh);
  if (!f.lo_.empty()) x.set_long_name(f.lo_);
  if (f.req) x.set_required();
  x.set_help("h");
  f.flag = &x;
}
template <typename X> void Set(X& x, F& f) { Names(x, f); if (!f.envname.empty()) x.set_env_name(f.envname); }

void Declare(B::FlagParserBase& p, std::deque<F>& fs, int par, int depth);
void Declare1(B::FlagParserBase& p, std::deque<F>& fs, size_t at) {
  F& f = fs[at];
  if (f.k == "int") { auto& x = p.AddFlag<B::IntFlag>(&f.i32); if (Rn(2)) x.set_default_value((int)Rn(100) - 50); Set(x, f); }
  else if (f.k == "range") { auto& x = p.AddFlag<B::RangeFlag<int>>(&f.i32, f.lo, f.hi).set_greater_than_or_equal_to(f.loi).set_less_than_or_equal_to(f.hii); Set(x, f); }
  else if (f.k == "pos") { f.pos.value = 0; auto& x = p.AddFlag<B::PositiveIntFlag>(&f.pos); if (Rn(2)) x.set_default_value({(int)Rn(50) + 1}); Set(x, f); }
  else if (f.k == "i8") { auto& x = p.AddFlag<B::Flag<int8_t>>(&f.i8); if (Rn(2)) x.set_default_value((int8_t)Rn(100)); Set(x, f); }
  else if (f.k == "u16") { auto& x = p.AddFlag<B::Flag<uint16_t>>(&f.u16); if (Rn(2)) x.set_default_value((uint16_t)Rn(100)); Set(x, f); }
  else if (f.k == "i64") { auto& x = p.AddFlag<B::Flag<int64_t>>(&f.i64); if (Rn(2)) x.set_default_value(-(int64_t)(R64() >> 2)); Set(x, f); }
  else if (f.k == "u64") { auto& x = p.AddFlag<B::Flag<uint64_t>>(&f.u64); if (Rn(2)) x.set_default_value(R64()); Set(x, f); }
  else if (f.k == "bool") { auto& x = p.AddFlag<B::BoolFlag>(&f.b); Set(x, f); }
  else if (f.k == "cbbool") { F* q = &f; Set(p.AddFlag<B::BoolFlag>([q](std::string_view, std::string* reason) { if (!q->ch.empty()) { *reason = "no"; return false; } q->b = true; return true; }), f); }
  else if (f.k == "cb") { F* q = &f; Set(p.AddFlag<B::StringFlag>([q](std::string_view a, std::string* reason) {
      for (auto& c : q->ch) if (c == a) { q->str = c; return true; }
      if (q->ch.size() % 2) *reason = "not allowed";
      return false; }), f); }
  else if (f.k == "str") { auto& x = p.AddFlag<B::StringFlag>(&f.str); if (Rn(2)) x.set_default_value("dflt"); Set(x, f); }
  else if (f.k == "path") { Set(p.AddFlag<B::FilePathFlag>(&f.path), f); }
  else if (f.k == "choice") { auto& x = p.AddFlag<B::ChoicesFlag<std::string>>(&f.str, f.ch); if (Rn(2) && !f.ch.empty()) x.set_default_value(f.ch[0]); Set(x, f); }
  else if (f.k == "vint") { if (Rn(2)) f.vi = {7}; Set(p.AddFlag<B::Flag<std::vector<int>>>(&f.vi), f); }
  else if (f.k == "sstr") { Set(p.AddFlag<B::Flag<std::set<std::string>>>(&f.ss), f); }
}
std::string Num() {
  switch (Rn(8)) {
    case 0: return std::to_string((int64_t)(R64() >> Rn(64)));
    case 1: { static const char* e[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "127", "128", "-128", "-129", "65535", "65536", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296"}; return e[Rn(17)]; }
    case 2: return "-" + std::to_string(Rn(20));
    case 3: return Pick("0123456789-+ x", Rn(4));
    default: return std::to_string(Rn(20));
  }
}
std::string ValueFor(const F& f) {
  if (Rn(12) == 0) return Rn(2) ? "" : Pick("ab-=0 ", 1 + Rn(3));
  if (f.k == "choice" || f.k == "cb") return f.ch.empty() || Rn(5) == 0 ? Pick("xyz", Rn(3)) : f.ch[Rn(f.ch.size())];
  if (f.k == "range") return std::to_string(f.lo - 1 + (int)Rn(f.hi - f.lo + 3));
  if (f.k == "str" || f.k == "sstr" || f.k == "path") return Pick("abc-=/", 1 + Rn(3));
  return Num();
}
void Declare(B::FlagParserBase& p, std::deque<F>& fs, int par, int depth) {
  static const char* kinds[] = {"int", "range", "pos", "i8", "u16", "i64", "u64", "bool", "bool", "bool", "cbbool", "cb", "str", "str", "path", "choice", "vint", "sstr"};
  std::vector<int> mine;
  bool odd = Rn(6) == 0;  // a possibly unusable declaration
  int nsub = depth < 2 && Rn(3) == 0 ? 1 + Rn(2) : 0;
  int npos = nsub ? 0 : Rn(3);
  int nopt = Rn(5);
  std::set<std::string> used;
  std::vector<std::string> plan;
  for (int i = 0; i < nsub; ++i) plan.push_back("s");
  for (int i = 0; i < npos; ++i) plan.push_back("p");
  for (int i = 0; i < nopt; ++i) plan.push_back("o");
  if (odd && !plan.empty() && Rn(2)) std::swap(plan[Rn(plan.size())], plan[Rn(plan.size())]);
  if (odd && Rn(2)) plan.insert(plan.begin() + Rn(plan.size() + 1), Rn(2) ? "p" : "s");
  for (auto& what : plan) {
    size_t at = fs.size();
    fs.emplace_back();
    F& f = fs.back();
    f.par = par;
    f.k = what == "s" ? "sub" : kinds[Rn(18)];
    auto nm = [&] { for (;;) { std::string s = Pick("abc", 1) + Pick("abc_1", Rn(3)); if (used.insert(s).second) return s; } };
    if (what != "o") { do f.k = what == "s" ? "sub" : kinds[Rn(18)]; while (!odd && (f.k == "bool" || f.k == "cbbool")); f.name = nm(); }
    else {
      int w = Rn(3);
      if (w != 1) { std::string s; for (int t = 0; t < 40 && s.empty(); ++t) { s = "-" + Pick("abcdeV", 1); if (!used.insert(s).second) s.clear(); } f.sh = s; }
      if (w != 0 || f.sh.empty()) f.lo_ = "--" + nm();
    }
    if (odd && Rn(3) == 0) { switch (Rn(6)) { case 0: f.name = "1a"; break; case 1: f.name += "-"; break; case 2: f.lo_ = "--" + nm(); break; case 3: f.lo_ = "-" + f.lo_; break; case 4: f.sh = "-ab"; break; default: f.name.clear(); f.sh.clear(); f.lo_.clear(); } }
    f.req = Rn(4) == 0;
    f.lo = (int)Rn(10) - 5; f.hi = f.lo + Rn(6); f.loi = Rn(2); f.hii = Rn(2);
    if (f.k == "choice" || f.k == "cb") for (int i = 0, n = 1 + Rn(3); i < n; ++i) f.ch.push_back(Pick("xyz", 1 + Rn(2)));
    if (f.k == "cbbool" && Rn(4) == 0) f.ch.push_back("no");
    if (f.k == "sub") {
      auto& s = p.AddSubParser();
      F* q = &fs[at];
      s.set_is_set(&q->subset);
      Names(s, *q);
      q->flag = &s;
      Declare(s, fs, (int)at + 1, depth + 1);
    } else {
      if (Rn(4) == 0) { f.envname = "VHF_" + std::to_string(at); if (Rn(3)) { f.env = true; f.envv = ValueFor(f); } }
      Declare1(p, fs, at);
    }
  }
}

void One() {
  std::deque<F> fs;
  Parser p;
  Declare(p, fs, 0, 0);
  for (auto& f : fs) {
    if (f.envname.empty()) continue;
    if (f.env) setenv(f.envname.c_str(), f.envv.c_str(), 1); else unsetenv(f.envname.c_str());
  }
  for (auto& f : fs) f.init = f.Vals();
  for (int round = 0; round < 1; ++round) {
    // a plausible command line, then damage
    std::vector<std::string> av;
    std::function<void(int)> build = [&](int par) {
      std::vector<size_t> pos, opt, subs;
      for (size_t i = 0; i < fs.size(); ++i) if (fs[i].par == par) (fs[i].k == "sub" ? subs : !fs[i].name.empty() ? pos : opt).push_back(i);
      auto opts = [&](bool all) {
        for (size_t i : opt) {
          F& f = fs[i];
          int reps = Rn(3) && !(all && f.req) ? 0 : 1 + (Rn(4) == 0);
          for (int r = 0; r < reps; ++r) {
            std::string n = f.sh.empty() || (Rn(2) && !f.lo_.empty()) ? f.lo_ : f.sh;
            if (f.k == "bool" || f.k == "cbbool") { if (Rn(8) == 0) n += "=" + Pick("ab", Rn(3)); av.push_back(n); }
            else if (Rn(2)) av.push_back(n + "=" + ValueFor(f));
            else { av.push_back(n); av.push_back(ValueFor(f)); }
          }
        }
        if (Rn(3) == 0) { std::string b = "-"; for (size_t i : opt) if ((fs[i].k == "bool" || fs[i].k == "cbbool") && !fs[i].sh.empty()) b += fs[i].sh.substr(1); if (Rn(5) == 0) b += Pick("abcV1", 1); if (b.size() > 1) av.push_back(b); }
      };
      for (size_t i : pos) av.push_back(ValueFor(fs[i]));
      opts(true);
      if (!subs.empty() && Rn(6)) { size_t s = subs[Rn(subs.size())]; av.push_back(fs[s].name); build((int)s + 1); }
    };
    build(0);
    if (Rn(5) == 0) av.push_back("--"), av.push_back(Pick("ab-", 1 + Rn(2)));
    for (int d = Rn(4) == 0 ? 1 + Rn(2) : 0; d > 0; --d) {
      size_t at = Rn(av.size() + 1);
      std::string w;
      switch (Rn(8)) {
        case 0: w = "-"; break;
        case 1: w = "--"; break;
        case 2: w = Rn(2) ? "--help" : "-h"; break;
        case 3: w = "--" + Pick("abc", 1) + Pick("abc_1=", Rn(3)); break;
        case 4: w = "-" + Pick("abcdeV=1", 1 + Rn(3)); break;
        case 5: if (!fs.empty()) { F& f = fs[Rn(fs.size())]; w = f.lo_ + f.sh; } break;
        case 6: if (!av.empty()) { av.erase(av.begin() + Rn(av.size())); } continue;
        default: w = Pick("ab01-", Rn(3));
      }
      av.insert(av.begin() + at, w);
    }
    bool known = Rn(3) == 0, want = Rn(2);
    g_veto = Rn(12) == 0; g_vetoed = false;
    std::vector<std::string> store = av;
    std::vector<char*> argv{const_cast<char*>("prog")};
    for (auto& s : store) argv.push_back(s.data());
    argv.push_back(nullptr);
    std::string d;
    for (auto& s : av) d += s + "|";
    T().Doing("parse " + d);
    int argc = (int)av.size() + 1;
    std::string err;
    std::vector<std::string> fwd;
    bool ok = known ? (want ? p.ParseKnownWithForward(&argc, argv.data(), &fwd, &err) : p.ParseKnown(&argc, argv.data(), &err))
                    : (want ? p.ParseWithForward(argc, argv.data(), &fwd, &err) : p.Parse(argc, argv.data(), &err));
    std::vector<std::string> out(argv.begin() + 1, argv.begin() + argc);
    std::string help = ok ? p.help_message() : "";
    auto dump = [](const F& f) {
      char b[200];
      snprintf(b, 200, ",\"req\":%s,\"env\":%s,\"loi\":%s,\"hii\":%s,\"lo\":%d,\"hi\":%d}", f.req ? "true" : "false", f.env ? "true" : "false", f.loi ? "true" : "false", f.hii ? "true" : "false", f.lo, f.hi);
      return "{\"par\":" + std::to_string(f.par) + ",\"k\":" + Quote(f.k) + ",\"name\":" + Bytes(f.name) + ",\"short\":" + Bytes(f.sh) + ",\"long\":" + Bytes(f.lo_) + ",\"envv\":" + Bytes(f.envv) + ",\"ch\":" + BS(f.ch) + ",\"init\":" + BS(f.init) + b;
    };
    Ev("Parse").raw("flags", Seq(fs, dump)).raw("av", BS(av)).b("known", known).b("wantfwd", want).b("veto", g_veto).b("vetoed", g_vetoed).b("ok", ok).raw("err", Bytes(err))
        .raw("declared", Seq(fs, [](const F& f) { return BS({f.flag->name(), f.flag->short_name(), f.flag->long_name()}); }))
        .raw("vals", Seq(fs, [](const F& f) { return BS(f.Vals()); })).raw("isset", Seq(fs, [](const F& f) { return std::string(f.flag->is_set() ? "true" : "false"); }))
        .raw("subset", Seq(fs, [](const F& f) { return std::string(f.subset ? "true" : "false"); }))
        .raw("fwd", BS(fwd)).raw("argvout", BS(out)).raw("help", Bytes(help));
  }
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  freopen("/dev/null", "w", stderr);
  int shards = T().thorough() ? 64 : 16;
  for (int s = 0; s < shards; ++s) {
    T().Shard("flags " + std::to_string(s));
    for (int i = 0; i < 300; ++i) One();
  }
}
