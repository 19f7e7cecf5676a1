// Durations, time points, their conversions, and interval measurers under a controlled clock.
#include <sys/syscall.h>
#include <time.h>

#include <chrono>
#include <cmath>
#include <sstream>

#include "vh/numutil.h"
#include "tachyon/base/time/time.h"
#include "tachyon/base/time/time_delta_flag.h"
#include "tachyon/base/time/time_interval.h"
#include "tachyon/base/time/time_stamp.h"
using namespace vh;
namespace B = tachyon::base;
using TD = B::TimeDelta;
using TM = B::Time;

static bool g_fake = false;
static int64_t g_now = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!g_fake) return (int)syscall(SYS_clock_gettime, id, ts);
  ts->tv_sec = g_now / 1000000000;
  ts->tv_nsec = g_now % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
using I = int64_t;
const I kMax = std::numeric_limits<I>::max(), kMin = std::numeric_limits<I>::min();
std::string Z(TD d) { return ZS((I)d.InMicroseconds()); }
std::string Z(TM t) { return ZS((I)t.since_origin().InMicroseconds()); }
std::string ZI(I v) { return ZS(v); }
std::string LS(std::initializer_list<std::string> l) { std::string s = "["; bool f = true; for (auto& x : l) { if (!f) s += ","; f = false; s += x; } return s + "]"; }
std::string BL(bool b) { return b ? "true" : "false"; }
TD D(I us) { return TD::FromInternalValue(us); }
TM P(I us) { return TM::FromDeltaSinceUnixEpoch(D(us)); }
std::string DblF(double x) { int e = 0; double f = std::frexp(x, &e); if (std::isinf(x) || std::isnan(x)) return "[[0],0]"; return "[" + ZS((I)std::ldexp(f, 53)) + "," + std::to_string(e - 53) + "]"; }
I Us() {
  static const I units[] = {1, 1000, 1000000, 60000000, 3600000000LL, 86400000000LL};
  switch (Rn(10)) {
    case 0: return kMax - (I)Rn(4);
    case 1: return kMin + (I)Rn(4);
    case 2: return (I)Rn(9) - 4;
    case 3: { I u = units[Rn(6)]; return u * ((I)Rn(2001) - 1000) + (I)Rn(5) - 2; }
    case 4: { I u = units[Rn(6)]; I k = kMax / u; return (Rn(2) ? 1 : -1) * (u * (k - (I)Rn(2))) + (I)Rn(5) - 2; }
    case 5: return (I)(R64() >> Rn(64));
    case 6: return -(I)((R64() >> 1) >> Rn(63));
    case 7: return (I)Rn(4000000000000000ULL) * (Rn(2) ? 1 : -1);
    case 8: return (I)Rn(100000000) - 50000000;
    default: return (I)R64();
  }
}
bool InfV(I v) { return v == kMax || v == kMin; }
void Pair(I a, I b) {
  if (b == kMin + 1) b = 3;  // its magnitude is the infinity
  TD x = D(a), y = D(b);
  I k = Val<I>();
  if (Rn(2)) k = (I)Rn(2001) - 1000;
  T().Doing("Pair " + std::to_string(a) + " " + std::to_string(b));
  bool addok = !(InfV(a) && InfV(b) && a != b), subok = !(InfV(b) && a == b), idok = (!InfV(a) && b != 0) || (!(a == 0 && b == 0) && !(InfV(a) && InfV(b)));
  TD p = x, q = x, r = x, s = x, t = x;
  r *= k; s /= k; t %= y;
  if (addok) p += y;
  if (subok) q -= y;
  Ev e("Pair");
  e.raw("a", ZI(a)).raw("b", ZI(b)).raw("k", ZI(k)).b("addok", addok).raw("add", addok ? LS({Z(x + y), Z(p)}) : "[]").b("subok", subok).raw("sub", subok ? LS({Z(x - y), Z(q)}) : "[]")
      .raw("cmp", LS({BL(x == y), BL(x != y), BL(x < y), BL(x <= y), BL(x > y), BL(x >= y)})).raw("mul", LS({Z(x * k), Z(r), Z(k * x)})).raw("div", LS({Z(x / k), Z(s)})).b("idok", idok).raw("idiv", ZI(idok ? x.IntDiv(y) : 0))
      .raw("mod", LS({Z(x % y), Z(t)})).raw("ceil", Z(x.CeilToMultiple(y))).raw("floor", Z(x.FloorToMultiple(y))).raw("round", Z(x.RoundToMultiple(y)));
}
void Un(I a) {
  TD x = D(a);
  T().Doing("Un " + std::to_string(a));
  struct timespec ts = x.ToTimeSpec();
  using namespace std::chrono;
  double f1 = x.InSecondsF(), f2 = x.InMillisecondsF(), f3 = x.InMicrosecondsF();
  auto inf = [&](double f) { return BL(std::isinf(f) && (f > 0) == (a > 0)); };
  auto abs = [&] { return absl::ToInt64Microseconds(x.ToAbsl()); };
  using Days = duration<int64_t, std::ratio<86400>>;
  Ev("Un").raw("a", ZI(a)).raw("neg", Z(-x)).raw("mag", Z(x.magnitude())).raw("flags", LS({BL(x.is_zero()), BL(x.is_positive()), BL(x.is_negative()), BL(x.is_max()), BL(x.is_min()), BL(x.is_inf())}))
      .raw("days", ZI(x.InDays())).raw("daysfl", ZI(x.InDaysFloored())).raw("hours", ZI(x.InHours())).raw("mins", ZI(x.InMinutes())).raw("secs", ZI(x.InSeconds())).raw("secsfl", ZI(x.InSecondsFloored()))
      .raw("ms", ZI(x.InMilliseconds())).raw("msup", ZI(x.InMillisecondsRoundedUp())).raw("us", ZI(x.InMicroseconds())).raw("ns", ZI(x.InNanoseconds()))
      .raw("chrono", LS({ZI(x.ToChronoHours().count()), ZI(x.ToChronoMinutes().count()), ZI(x.ToChronoSeconds().count()), ZI(x.ToChronoMilliseconds().count()), ZI(x.ToChronoMicroseconds().count()), ZI(x.ToChronoNanoseconds().count())}))
      .raw("chronot", LS({ZI(x.ToChrono<hours>().count()), ZI(x.ToChrono<minutes>().count()), ZI(x.ToChrono<seconds>().count()), ZI(x.ToChrono<milliseconds>().count()), ZI(x.ToChrono<microseconds>().count()), ZI(x.ToChrono<nanoseconds>().count())}))
      .raw("chrdays", ZI(x.ToChrono<Days>().count())).raw("absl", ZI(abs())).raw("abslback", Z(TD::FromAbsl(x.ToAbsl())))
      .raw("ts", LS({ZI(ts.tv_sec), ZI(ts.tv_nsec)})).raw("tsback", Z(TD::FromTimeSpec(ts))).raw("finf", LS({inf(f1), inf(f2), inf(f3)})).raw("f", LS({DblF(f1), DblF(f2), DblF(f3)}));
}
void Frac() {
  I a = (I)Rn(1 << 30) - (1 << 29), m = (I)Rn(1 << 14) - (1 << 13);
  int e = (int)Rn(14) - 9, j = (int)Rn(12) - 8;
  if (Rn(8) == 0) { e = 40 + Rn(60); }
  double f = std::ldexp((double)m, e);
  TD x = D(a), y = x;
  y *= f;
  Ev("Frac").raw("a", ZI(a)).raw("m", ZI(m)).i("e", e).i("j", j).raw("mul", Z(x * f)).raw("mul2", Z(y)).raw("div", Z(x / std::ldexp(1.0, -j))).raw("secs", Z(B::Seconds(f))).raw("ms", Z(B::Milliseconds(f))).raw("fromd", Z(TM::FromDoubleT(f)));
}
template <typename N> void Make(N k) {
  T().Doing("Make " + std::to_string(k));
  Ev("Make").raw("k", ZS(k)).raw("v", LS({Z(B::Days(k)), Z(B::Hours(k)), Z(B::Minutes(k)), Z(B::Seconds(k)), Z(B::Milliseconds(k)), Z(B::Microseconds(k)), Z(B::Nanoseconds(k))})).raw("hz", Z(B::Hertz(k)));
}
void Chrono(I k) {
  using namespace std::chrono;
  T().Doing("Chrono " + std::to_string(k));
  hours h(k); minutes m(k); seconds s(k); milliseconds ms(k); microseconds us(k); nanoseconds ns(k);
  Ev("Chrono").raw("k", ZI(k)).raw("v", LS({Z(TD::FromChronoHours(h)), Z(TD::FromChronoMinutes(m)), Z(TD::FromChronoSeconds(s)), Z(TD::FromChronoMilliseconds(ms)), Z(TD::FromChronoMicroseconds(us)), Z(TD::FromChronoNanoseconds(ns))}))
      .raw("tv", LS({Z(TD::FromChrono(h)), Z(TD::FromChrono(m)), Z(TD::FromChrono(s)), Z(TD::FromChrono(ms)), Z(TD::FromChrono(us)), Z(TD::FromChrono(ns))}))
      .raw("tp", LS({Z(TM::FromChrono(system_clock::time_point(system_clock::duration(k)))), Z(B::TimeTicks::FromChrono(steady_clock::time_point(steady_clock::duration(k))).since_origin())}));
}
void Point(I a) {
  T().Doing("Point " + std::to_string(a));
  TM x = P(a);
  B::TimeTicks tk = B::TimeTicks() + D(a);
  struct timeval tv = x.ToTimeVal();
  time_t tt = x.ToTimeT();
  double d = x.ToDoubleT();
  std::string text;
  if (a > -30000000000000000LL && a < 253000000000000000LL) { std::stringstream ss; ss << x; text = ss.str(); }
  std::stringstream st;
  st << tk;
  auto chr = x.ToChrono();
  auto tch = tk.ToChrono();
  Ev("Point").raw("x", ZI(a)).raw("flags", LS({BL(x.is_null()), BL(x.is_max()), BL(x.is_min()), BL(x.is_inf())})).raw("since", Z(x.ToDeltaSinceUnixEpoch())).raw("orig", Z(x.since_origin())).raw("tt", ZI(tt)).raw("fromtt", Z(TM::FromTimeT(tt)))
      .raw("tv", LS({ZI(tv.tv_sec), ZI(tv.tv_usec)})).raw("tvback", Z(TM::FromTimeVal(tv))).raw("absl", ZI(absl::ToUnixMicros(x.ToAbsl()))).raw("abslback", Z(TM::FromAbsl(x.ToAbsl())))
      .raw("chrono", ZI(chr.time_since_epoch().count())).raw("chronoback", Z(TM::FromChrono(chr))).raw("ticks", ZI(tch.time_since_epoch().count())).raw("ticksback", Z(B::TimeTicks::FromChrono(tch).since_origin()))
      .b("dinf", std::isinf(d) && (d > 0) == (a > 0)).raw("dbl", DblF(d)).raw("text", Bytes(text)).raw("tick", Bytes(st.str()));
}
template <typename C> void PointsT(I a, I b, I c) {
  T().Doing("Points " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c));
  C x = C() + D(a), y = C() + D(b);
  TD d = D(c);
  bool po = !(InfV(a) && InfV(c) && a != c), mo = !(InfV(c) && a == c);
  C p = x, q = x;
  if (po) p += d;
  if (mo) q -= d;
  auto z = [](C t) { return Z(t.since_origin()); };
  Ev("Points").raw("x", ZI(a)).raw("y", ZI(b)).raw("d", ZI(c)).raw("cmp", LS({BL(x == y), BL(x != y), BL(x < y), BL(x <= y), BL(x > y), BL(x >= y)})).raw("diff", Z(x - y)).b("plusok", po).raw("plus", po ? LS({z(x + d), z(d + x), z(p)}) : "[]")
      .b("minusok", mo).raw("minus", mo ? LS({z(x - d), z(q)}) : "[]");
}
void FlagText() {
  auto pick = [](const std::string& al, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += al[Rn(al.size())]; return s; };
  std::string s;
  bool exact = true;
  switch (Rn(6)) {
    case 0: case 1: s = std::to_string((I)Rn(2000000) - 1000000); break;
    case 2: s = std::to_string(Us()); break;
    case 3: { static const char* fr[] = {".5", ".25", ".75", ".125", ".", ".0"}; s = std::to_string((I)Rn(2000) - 1000) + fr[Rn(6)]; break; }
    case 4: s = pick("-+", Rn(2)) + pick("0123456789", Rn(6)) + "." + pick("0123456789", Rn(5)); exact = false; break;
    default: s = Rn(2) ? pick("0123456789z-.", Rn(5)) : pick("9", 18 + Rn(6)); exact = false; break;
  }
  if (s.find('.') == std::string::npos && Rn(10) == 0) s = " " + s;
  static const char* suf[] = {"d", "h", "m", "s", "ms", "us", "ns", "", "D", "sm", "S"};
  int k = Rn(12);
  s += suf[k < 11 ? k : 3];
  if (Rn(20) == 0) s += " ";
  T().Doing("Flag " + s);
  TD v;
  std::string why;
  bool ok = B::FlagValueTraits<TD>::ParseValue(s, &v, &why);
  Ev("Flag").raw("s", Bytes(s)).b("exact", exact).b("ok", ok).raw("v", Z(ok ? v : TD()));
}
void History(int n) {
  I a = Us(), b = Us();
  TD d = D(a);
  TM t = P(b);
  Ev("Set").raw("d", Z(d)).raw("x", Z(t));
  for (int i = 0; i < n; ++i) {
    static const char* ops[] = {"add", "sub", "mul", "div", "mod", "diff", "tplus", "tminus"};
    int o = Rn(8);
    I k = (o == 2 || o == 3) && Rn(4) ? (I)Rn(41) - 20 : Us();
    bool di = d.is_inf(), ti = t.is_inf();
    I dv = d.InMicroseconds(), tv = t.since_origin().InMicroseconds();
    if ((o == 0 && di && InfV(k) && k != dv) || (o == 1 && InfV(k) && k == dv) || (o == 6 && ti && InfV(k) && k != tv) || (o == 7 && InfV(k) && k == tv)) continue;
    T().Doing(std::string("Step ") + ops[o] + " " + std::to_string(k));
    switch (o) { case 0: d += D(k); break; case 1: d -= D(k); break; case 2: d *= k; break; case 3: d /= k; break; case 4: d %= D(k); break; case 5: d = t - P(k); break; case 6: t += D(k); break; default: t -= D(k); }
    Ev("Step").s("o", ops[o]).raw("b", ZI(k)).raw("d", Z(d)).raw("x", Z(t));
  }
}
void Clocks(int n) {
  g_fake = true;
  g_now = (I)Rn(1000000000) * 1000 + 5000000;
  B::TimeInterval iv;
  B::TimeStamp sp;
  Ev("Clock").raw("ns", ZI(g_now));
  for (int i = 0; i < n; ++i) {
    switch (Rn(8)) {
      case 0: case 1: case 2: { g_now += Rn(3) ? Rn(5000) : Rn(3000000000000ULL); Ev("Clock").raw("ns", ZI(g_now)); break; }
      case 3: { auto a = B::TimeTicks::Now(); auto b = B::ThreadTicks::Now(); TM c = TM::Now(); Ev("Now").raw("ticks", Z(a.since_origin())).raw("thread", Z(b.since_origin())).raw("time", Z(c)); break; }
      case 4: case 5: { bool u = Rn(2); TD v = (u && Rn(2)) ? iv.GetTimeDelta() : iv.GetTimeDelta(u); Ev("Interval").b("update", u).raw("v", Z(v)); break; }
      case 6: { if (Rn(3) == 0) { if (Rn(2)) { iv.Reset(); Ev("IntervalReset").b("now", true).raw("at", "[0]"); } else { I a = (I)Rn(1000000); iv = B::TimeInterval(B::TimeTicks() + D(a)); Ev("IntervalReset").b("now", false).raw("at", ZI(a)); } }
                break; }
      default: { if (Rn(6) == 0) { sp = B::TimeStamp(); Ev("StampNew").b("x", true); } bool u = Rn(2); TD v = u && Rn(2) ? sp.GetTimeDelta() : sp.GetTimeDelta(u); Ev("Stamp").b("update", u).raw("v", Z(v)); }
    }
  }
  g_fake = false;
}
int main(int argc, char** argv) {
  setenv("TZ", "UTC", 1);
  T().Init(argc, argv);
  int n = T().thorough() ? 1500 : 180;
  T().Shard("pairs");
  for (int i = 0; i < 2 * n; ++i) { I a = Us(), b = Us(); if (Rn(6) == 0) b = a; if (Rn(4) == 0) b = (I)Rn(7) - 3; Pair(a, b); }
  T().Shard("unary");
  for (int i = 0; i < 2 * n; ++i) Un(Us());
  T().Shard("fractions");
  for (int i = 0; i < n; ++i) Frac();
  T().Shard("units");
  for (int i = 0; i < n; ++i) { Make<int>(Val<int>()); Make<int64_t>(Rn(2) ? Val<I>() : (I)Rn(2000001) - 1000000); Make<uint64_t>(Val<uint64_t>()); Chrono(Rn(2) ? Us() : (I)Rn(20000001) - 10000000); }
  T().Shard("points");
  for (int i = 0; i < 2 * n; ++i) Point(Us());
  for (int i = 0; i < n; ++i) { Point((I)Rn(253000000000000000ULL)); Point(((I)Rn(16000) - 8000) * 86400000000LL - (I)Rn(2)); }
  T().Shard("point pairs");
  for (int i = 0; i < n; ++i) { PointsT<TM>(Us(), Us(), Us()); PointsT<B::TimeTicks>(Us(), Us(), Us()); PointsT<B::ThreadTicks>(Us(), Us(), Us()); }
  T().Shard("specs");
  for (int i = 0; i < n; ++i) {
    struct timespec ts; ts.tv_sec = Rn(3) ? (I)Rn(4000000000ULL) - 1000000000 : (Rn(2) ? Us() : Us() / 1000000); ts.tv_nsec = Rn(4) ? Rn(1000000000) : (Rn(2) ? 999999999 : 1000 * Rn(5));
    T().Doing("TimeSpec " + std::to_string(ts.tv_sec) + " " + std::to_string(ts.tv_nsec));
    Ev("TimeSpec").raw("s", ZI(ts.tv_sec)).i("ns", ts.tv_nsec).raw("d", Z(TD::FromTimeSpec(ts))).raw("tm", Z(TM::FromTimeSpec(ts)));
    struct timeval tv; tv.tv_sec = ts.tv_sec; tv.tv_usec = ts.tv_nsec / 1000;
    Ev("TimeVal").raw("s", ZI(tv.tv_sec)).i("us", tv.tv_usec).raw("tm", Z(TM::FromTimeVal(tv)));
  }
  T().Shard("flags");
  for (int i = 0; i < 3 * n; ++i) FlagText();
  for (int j = 0; j < 4; ++j) { T().Shard("history " + std::to_string(j)); for (int i = 0; i < n / 20; ++i) History(12); }
  for (int j = 0; j < 4; ++j) { T().Shard("clock " + std::to_string(j)); Clocks(n / 2); }
}
