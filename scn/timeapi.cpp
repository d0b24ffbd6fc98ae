// C26: time stamps follow the system clock, are formatted right in every thread, and sleeps last.
#include "common.h"
#include <icl_core/os_time.h>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_config/Config.h>
#include <sstream>
#include <cerrno>
#include <cmath>
#include <stdlib.h>
#include <time.h>
using namespace scn;
namespace {
// --- an independent calendar
struct Cal { int64_t y; int mo, d, h, mi, s; };
int64_t days_of(int64_t y, int m, int d)             // days since 1970-01-01
{
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
Cal cal_of(int64_t t)
{
  int64_t z = t / 86400, r = t % 86400; if (r < 0) { r += 86400; --z; }
  z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  Cal c; c.d = (int)(doy - (153 * mp + 2) / 5 + 1); c.mo = (int)(mp < 10 ? mp + 3 : mp - 9); c.y = y + (c.mo <= 2);
  c.h = (int)(r / 3600); c.mi = (int)(r / 60 % 60); c.s = (int)(r % 60);
  return c;
}
int64_t nth_sunday(int64_t y, int m, int n) { int64_t d = days_of(y, m, 1); int64_t wd = ((d + 4) % 7 + 7) % 7; return d + (7 - wd) % 7 + 7 * (n - 1); }
const char* const zones[] = { "UTC0", "ABC-5:30", "XYZ+3:45", "EST5EDT,M3.2.0,M11.1.0" };
int64_t offset_at(int zone, int64_t t)
{
  if (zone == 1) return 19800;
  if (zone == 2) return -13500;
  if (zone != 3) return 0;
  int64_t y = cal_of(t - 18000).y;
  return t >= nth_sunday(y, 3, 2) * 86400 + 7200 + 18000 && t < nth_sunday(y, 11, 1) * 86400 + 3600 + 18000 ? -14400 : -18000;
}
std::string text(int64_t t, bool basic)
{
  Cal c = cal_of(t); char b[60];
  snprintf(b, sizeof b, basic ? "%04d%02d%02dT%02d%02d%02d" : "%04d-%02d-%02d %02d:%02d:%02d", (int)c.y, c.mo, c.d, c.h, c.mi, c.s);
  return b;
}
const int64_t LAST = 253402300799LL - 86400;         // 9999-12-30
int64_t second_of(int64_t a, int64_t b)
{
  static const int64_t edge[] = { 0, 1, 59, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 1078012800, 1709164800, 2147483647, 2147483648LL, 4107542399LL, 4107542400LL, 1678604399, 1678604400, 1699163999, 1699164000, 1699167599, 1699167600, 1735689599, 1735689600, 1704067199 };
  if (a % 3 == 0) return edge[b % 24];
  if (a % 3 == 1) return 1600000000 + b % 400000000;
  return (b % 1000003) * 253377LL % LAST;
}
int32_t nano_of(int64_t a) { static const int32_t n[] = { 0, 1, 999999999, 1000, 999999, 500000000, 100000000, 123456789 }; return n[a % 8]; }
// --- what the clock said
struct Jump { uint64_t at; ns_t before, after; };
std::vector<Jump> jumps;
struct Read { size_t n; ns_t real; };
Read reading() { Read r; ATOMIC { r.n = jumps.size(); r.real = real(); } return r; }
bool within(ns_t v, const Read& a, const Read& b, ns_t early, ns_t late)
{
  ns_t from = a.real;
  for (size_t i = a.n; i < b.n; ++i)
  {
    if (v >= from - early && v <= jumps[i].before + late) return true;
    from = jumps[i].after;
  }
  return v >= from - early && v <= b.real + late;
}
// The value written for a time span, and whether it can be read at all.
bool span_of(const std::string& s, __int128& ns)
{
  const char* p = s.c_str(); bool neg = false; __int128 sec = 0, rest = 0; int last = 3; bool any = false;
  if (*p == '-' ) { const char* q = p + 1; while (isdigit(*q)) ++q; if (*q == 'h' || (*q == 'm' && q[1] != 's') || *q == 's') { neg = true; ++p; } }
  while (*p)
  {
    bool m = *p == '-'; if (m) ++p;
    if (!isdigit(*p)) return false;
    __int128 v = 0; while (isdigit(*p)) v = v * 10 + (*p++ - '0');
    if (m) v = -v;
    if (!strcmp(p, "ms")) { rest = v * 1000000; p += 2; any = true; }
    else if (!strcmp(p, "us")) { rest = v * 1000; p += 2; any = true; }
    else if (!strcmp(p, "ns")) { rest = v; p += 2; any = true; }
    else
    {
      int k = *p == 'h' ? 2 : *p == 'm' ? 1 : *p == 's' ? 0 : 9;
      if (k >= last || m) return false;
      last = k; sec += v * (k == 2 ? 3600 : k == 1 ? 60 : 1); ++p; any = true;
    }
  }
  ns = (neg ? -sec : sec) * 1000000000 + rest;
  return any;
}
__attribute__((noinline)) void dirty_stack() { volatile char b[6000]; for (size_t i = 0; i < sizeof b; i += 64) b[i] = 'Z'; memset((void*)b, 'Z', sizeof b); }
std::vector<std::string> printed;
struct Sink : icl_core::logging::LogOutputStream
{
  Sink(const std::string& n, const std::string& p, icl_core::logging::LogLevel l) : LogOutputStream(n, p, l, false) { }
  void pushImpl(const icl_core::String& line) { ATOMIC printed.push_back(line); }
};
icl_core::logging::LogOutputStream* make(const icl_core::String& n, const icl_core::String& p, icl_core::logging::LogLevel l) { return new Sink(n, p, l); }
void cfg(const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); }
}
DECLARE_LOG_STREAM(Times)
REGISTER_LOG_STREAM(Times)
// cfg: threads, zone, interrupted sleeps, stalls
// op: thread, kind, a, b
static void gen_time(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 4), n = (int)r.range(2, 30);
  p.cfg = { nt, (int64_t)r.below(4), r.chance(1, 2), r.chance(1, 3) };
  static const int64_t kinds[] = { 0, 0, 1, 2, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13, 14, 15, 16, 17, 17, 18, 18, 18 };
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nt), kinds[r.below(28)], (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 30) });
}
static void run_time(const Plan& p)
{
  namespace icl = icl_core::logging;
  using icl_core::TimeStamp; using icl_core::TimeSpan;
  set_real(EPOCH0 + 123456789);
  setenv("TZ", zones[p.c(1) % 4], 1); tzset();
  static int zone; zone = (int)(p.c(1) % 4);
  jumps.clear(); jumps.reserve(200); printed.clear(); printed.reserve(200);
  icl::LoggingManager::instance().registerLogOutputStream("Sink", &make);
  cfg("OutputStream0/OutputStreamName", "Sink"); cfg("OutputStream0/Name", "Out"); cfg("OutputStream0/LogLevel", "Trace"); cfg("OutputStream0/Format", "~E"); cfg("OutputStream0/LogStream1", "Times");
  icl::initialize();
  if (p.c(2)) set_rate(FT_EINTR_SLEEP, 200);
  if (p.c(3)) set_rate(FT_STALL, 2, 6);
  static std::vector<std::string> logged; logged.clear();
  auto one = [](const std::vector<int64_t>& o) {
    int64_t a = arg(o, 2), b = arg(o, 3), sec = second_of(a / 8, b); int32_t ns = nano_of(a);
    TimeStamp t((uint64_t)sec, (uint32_t)ns);
    char digits[20]; snprintf(digits, sizeof digits, ",%09d", ns);
    switch (arg(o, 1))
    {
      case 0: case 1: case 2:
      {
        ns_t add = 0;
        Read r0 = reading();
        TimeStamp n;
        if (arg(o, 1) == 0) n = TimeStamp::now();
        else if (arg(o, 1) == 1) { n = t; TimeStamp& same = n.fromNow(); SIM_CHECK(&same == &n, "clock", "fromNow() does not return the time stamp itself"); }
        else { uint64_t ms = a % 3 == 0 ? b % 5000 : a % 3 == 1 ? (uint64_t)(b % 1000) * 86400000 + b % 1000 : (uint64_t)a % 1001; add = (ns_t)ms * MS; n = TimeStamp::futureMSec(ms); }
        Read r1 = reading();
        ns_t v = ns_of(n) - add;
        SIM_CHECK(within(v, r0, r1, US, 0), "clock", "the time stamp %lld ns was made between %lld and %lld", (long long)v, (long long)r0.real, (long long)r1.real);
        SIM_CHECK(n.tsNSec() < 1000000000 && n.tsUSec() == n.tsNSec() / 1000, "clock", "the time stamp has %u ns", n.tsNSec());
        if (r0.n != r1.n) probe("jump_within_now");
        break;
      }
      case 3: { std::string s = t.formatIso8601UTC(); SIM_CHECK(s == text(sec, false), "format", "%s instead of %s", s.c_str(), text(sec, false).c_str()); break; }
      case 4: { std::string s = t.formatIso8601(), w = text(sec + offset_at(zone, sec), false); SIM_CHECK(s == w, "format", "%lld s in zone %s is %s instead of %s", (long long)sec, zones[zone], s.c_str(), w.c_str()); break; }
      case 5: { std::string s = t.formatIso8601Basic(), w = text(sec + offset_at(zone, sec), true) + digits; SIM_CHECK(s == w, "format", "%lld s in zone %s is %s instead of %s", (long long)sec, zones[zone], s.c_str(), w.c_str()); break; }
      case 6:
      {
        std::string s = t.formatIso8601BasicUTC(), w = text(sec, true) + digits;
        SIM_CHECK(s == w, "format", "%s instead of %s", s.c_str(), w.c_str());
        TimeStamp u = TimeStamp::fromIso8601BasicUTC(s);
        SIM_CHECK(u == t, "parse", "%s was read as %lld s %u ns", s.c_str(), (long long)u.tsSec(), u.tsNSec());
        break;
      }
      case 7: case 8:
      {
        char buf[40]; memset(buf, '#', sizeof buf);
        static const char* const f[] = { "%H:%M", "%Y/%m/%d", "%d.%m.%y-%S", "x" };
        int k = (int)(b / 7 % 4); bool utc = arg(o, 1) == 7;
        size_t room = 20;
        if (utc) t.strfTime(buf, room, f[k]); else t.strfLocaltime(buf, room, f[k]);
        Cal c = cal_of(sec + (utc ? 0 : offset_at(zone, sec))); char w[40];
        if (k == 0) snprintf(w, sizeof w, "%02d:%02d", c.h, c.mi);
        else if (k == 1) snprintf(w, sizeof w, "%04d/%02d/%02d", (int)c.y, c.mo, c.d);
        else if (k == 2) snprintf(w, sizeof w, "%02d.%02d.%02d-%02d", c.d, c.mo, (int)(c.y % 100), c.s);
        else snprintf(w, sizeof w, "x");
        SIM_CHECK(memchr(buf, 0, room) && !strcmp(buf, w), "format", "'%.20s' instead of '%s'", buf, w);
        for (size_t i = room; i < sizeof buf; ++i) SIM_CHECK(buf[i] == '#', "format", "the text was written beyond its buffer");
        break;
      }
      case 9:    // a shortened text means the beginning of the period
      {
        Cal c = cal_of(sec); std::string s = text(sec, true);
        int k = (int)(b % 7);
        static const size_t len[] = { 4, 6, 8, 11, 13, 15, 0 };
        std::string cut = k == 6 ? s + std::string(digits).substr(0, 1 + 1 + b / 7 % 9) : s.substr(0, len[k]);
        int64_t w = days_of(c.y, k >= 1 ? c.mo : 1, k >= 2 ? c.d : 1) * 86400 + (k >= 3 ? c.h * 3600 : 0) + (k >= 4 ? c.mi * 60 : 0) + (k >= 5 ? c.s : 0);
        int32_t wn = 0;
        if (k == 6) { std::string x = std::string(digits).substr(1, 1 + b / 7 % 9); x.resize(9, '0'); wn = atoi(x.c_str()); }
        TimeStamp u = TimeStamp::fromIso8601BasicUTC(cut);
        SIM_CHECK((int64_t)u.tsSec() == w && (int32_t)u.tsNSec() == wn, "parse", "%s was read as %lld s %u ns instead of %lld s %d ns", cut.c_str(), (long long)u.tsSec(), u.tsNSec(), (long long)w, wn);
        break;
      }
      case 10: case 11:    // boost
      {
        namespace pt = boost::posix_time;
        int64_t s = sec % 16000000000LL; ns = ns / 1000 * 1000;
        pt::ptime x(boost::gregorian::date(1970, 1, 1));
        x += pt::hours((long)(s / 3600)) + pt::seconds((long)(s % 3600)) + pt::microseconds(ns / 1000);
        TimeStamp u;
        if (arg(o, 1) == 10) u = TimeStamp(x); else u = x;
        SIM_CHECK((int64_t)u.tsSec() == s && (int32_t)u.tsNSec() == ns, "boost", "%s became %lld s %u ns instead of %lld s %d ns", pt::to_iso_string(x).c_str(), (long long)u.tsSec(), u.tsNSec(), (long long)s, ns);
        break;
      }
      case 12:
      {
        ns_t d = a % 4 == 0 ? (ns_t)(b % 20000) * SEC + b % 999 : (b % 3000) * MS + ns % 1000;
        struct timespec rq = { (time_t)(d / SEC), (long)(d % SEC) }, left = { -1, -1 };
        bool want = b % 2;
        ns_t m0 = mono(); int rc = want ? icl_core::os::nanosleep(&rq, &left) : icl_core::os::nanosleep(&rq); ns_t took = mono() - m0;
        ns_t rest = 0;
        if (rc != 0) { SIM_CHECK(rc == -1 && errno == EINTR, "sleep", "nanosleep() of %lld ns failed with %d", (long long)d, errno); rest = want ? left.tv_sec * SEC + left.tv_nsec : d; probe("interrupted"); }
        SIM_CHECK(took + rest >= d, "sleep", "nanosleep() of %lld ns returned %d after %lld ns with %lld ns left", (long long)d, rc, (long long)took, (long long)rest);
        break;
      }
      case 13:
      {
        uint64_t us = a % 3 == 0 ? 4294967296ULL * (b % 3) + b % 2000 : b % 5000000;
        ns_t m0 = mono(); int rc = icl_core::os::usleep((unsigned long)us); ns_t took = mono() - m0;
        SIM_CHECK(rc != 0 || took >= (ns_t)us * US, "sleep", "usleep(%llu) returned after %lld ns", (unsigned long long)us, (long long)took);
        break;
      }
      case 14:
      {
        unsigned s = (unsigned)(a % 5 == 0 ? b % 100000 : b % 5);
        int fd0 = fired(FT_EINTR_SLEEP);
        ns_t m0 = mono(); unsigned rc = icl_core::os::sleep(s); ns_t took = mono() - m0;
        SIM_CHECK(took + (ns_t)rc * SEC + (fired(FT_EINTR_SLEEP) != fd0 ? SEC : 0) >= (ns_t)s * SEC, "sleep", "sleep(%u) returned %u after %lld ns", s, rc, (long long)took);
        break;
      }
      case 15:
        if (jumps.size() < 100) ATOMIC { Jump j; j.at = seq(); j.before = real(); jump_clock((b % 2000 - 1000) * (a % 2 ? SEC : MS) + a); j.after = real(); jumps.push_back(j); }
        break;
      case 16:
      {
        int64_t s = a % 3 == 0 ? b % 7300 : a % 3 == 1 ? b % 4000000000LL : b % 4; int64_t n = ns;
        if (b % 5 == 0) { s = -s; n = -n; }
        TimeSpan sp(s, (int32_t)n);
        std::ostringstream os; os << sp; __int128 v = 0;
        std::string one = os.str();
        SIM_CHECK(span_of(one, v) && v == (__int128)s * 1000000000 + n, "span", "the time span %lld s %lld ns was written as '%s'", (long long)s, (long long)n, one.c_str());
        LOGGING_INFO(Times, sp << icl::flush);
        ATOMIC logged.push_back(one);
        break;
      }
      case 18:   // arithmetic
      {
        typedef __int128 N;
        int64_t s1 = a % 5 == 0 ? b % 3 : b % 3000000000LL, n1 = ns; int32_t n2 = nano_of(b / 16 + a); int64_t s2 = a % 7 == 0 ? b % 5 : (b * 7919LL) % 2000000000LL;
        if (a % 4 == 1) { s2 = -s2; n2 = -n2; }
        TimeSpan x(a % 11 == 0 ? -s1 : s1, (int32_t)(a % 11 == 0 ? -n1 : n1)), y(s2, n2);
        N vx = (a % 11 == 0 ? -1 : 1) * ((N)s1 * 1000000000 + n1), vy = (N)s2 * 1000000000 + n2, vt = (N)sec * 1000000000 + ns;
        auto val = [](int64_t s, int64_t n) { return (N)s * 1000000000 + n; };
        auto of = [&](const TimeSpan& q) { SIM_CHECK(q.tsNSec() > -1000000000 && q.tsNSec() < 1000000000 && ((q.tsSec() >= 0 && q.tsNSec() >= 0) || (q.tsSec() <= 0 && q.tsNSec() <= 0)), "arithmetic", "the time span %lld s %d ns is not normal", (long long)q.tsSec(), q.tsNSec()); return val(q.tsSec(), q.tsNSec()); };
        auto at = [&](const TimeStamp& q) { SIM_CHECK(q.tsNSec() < 1000000000, "arithmetic", "the time stamp %lld s %u ns is not normal", (long long)q.tsSec(), q.tsNSec()); return val((int64_t)q.tsSec(), q.tsNSec()); };
        TimeSpan m;
        bool ok = of(x) == vx && of(y) == vy && of(x + y) == vx + vy && of(x - y) == vx - vy && of((m = x) += y) == vx + vy && of((m = x) -= y) == vx - vy && of(abs(x)) == (vx < 0 ? -vx : vx);
        SIM_CHECK(ok, "arithmetic", "the sum or difference of the spans %lld s %d ns and %lld s %d ns is wrong", (long long)x.tsSec(), x.tsNSec(), (long long)s2, n2);
        ok = (x < y) == (vx < vy) && (x > y) == (vx > vy) && (x <= y) == (vx <= vy) && (x >= y) == (vx >= vy) && (x == y) == (vx == vy) && (x != y) == (vx != vy) && x == x && x <= x && x >= x && !(x != x) && !(x < x);
        SIM_CHECK(ok, "arithmetic", "the spans %lld s %d ns and %lld s %d ns are not ordered", (long long)x.tsSec(), x.tsNSec(), (long long)s2, n2);
        if (vt + vy >= 0)
        {
          TimeStamp q(t);
          ok = at(t + y) == vt + vy && at(y + t) == vt + vy && at(q += y) == vt + vy && at(q -= y) == vt && of((t + y) - t) == vy && of(t - (t + y)) == -vy && (t < t + y) == (vy > 0) && (t > t + y) == (vy < 0) && (t <= t + y) == (vy >= 0) && (t >= t + y) == (vy <= 0) && (t == t + y) == (vy == 0) && (t != t + y) == (vy != 0);
          SIM_CHECK(ok, "arithmetic", "the time stamp %lld s %d ns and the span %lld s %d ns do not add up", (long long)sec, ns, (long long)s2, n2);
        }
        if (vt - vy >= 0) SIM_CHECK(at(t - y) == vt - vy, "arithmetic", "the span %lld s %d ns before %lld s %d ns is wrong", (long long)s2, n2, (long long)sec, ns);
        int64_t w = b % 2 ? b * 4000001LL : -b * (b % 4 ? 1 : 4000003LL);
        ok = of(TimeSpan::createFromMSec(w)) == (N)w * 1000000 && of(TimeSpan::createFromUSec(w)) == (N)w * 1000 && of(TimeSpan::createFromSec(w)) == (N)w * 1000000000 && of(TimeSpan().fromMSec(w)) == (N)w * 1000000 && of(TimeSpan().fromUSec(w)) == (N)w * 1000 && x.toMSec() == (int64_t)(vx / 1000000) && x.toUSec() == (int64_t)(vx / 1000) && x.toNSec() == (int64_t)vx;
        SIM_CHECK(ok, "arithmetic", "the conversion of %lld or of the span %lld s %d ns is wrong", (long long)w, (long long)x.tsSec(), x.tsNSec());
        SIM_CHECK(x.days() == (int64_t)(vx / 86400000000000LL) && x.hours() == (int64_t)(vx / 3600000000000LL % 24) && x.minutes() == (int64_t)(vx / 60000000000LL % 60) && x.seconds() == (int64_t)(vx / 1000000000 % 60), "arithmetic", "the days, hours, minutes and seconds of %lld s are wrong", (long long)x.tsSec());
        static const double factor[] = { 2, 0.5, 3, 10, 0.1, 7, 1, 1000, 0.25, 1.5 };
        double f = factor[a / 4 % 10]; double tol = std::fabs((double)vx) * (f + 1 / f) * 1e-12 + 2;
        SIM_CHECK(std::fabs((double)of(x * f) - (double)vx * f) <= tol, "scaled", "%lld s %d ns times %g is %lld s %d ns", (long long)x.tsSec(), x.tsNSec(), f, (long long)(x * f).tsSec(), (x * f).tsNSec());
        SIM_CHECK(std::fabs((double)of(x / f) - (double)vx / f) <= tol, "scaled", "%lld s %d ns by %g is %lld s %d ns", (long long)x.tsSec(), x.tsNSec(), f, (long long)(x / f).tsSec(), (x / f).tsNSec());
        break;
      }
      case 17:   // what does not fit or has no date
      {
        dirty_stack();
        if (a % 3 == 0)
        {
          char buf[40]; memset(buf, '#', sizeof buf);
          size_t room = 1 + (size_t)(a / 3 % 12); Cal c = cal_of(sec + (b % 2 ? 0 : offset_at(zone, sec)));
          if (b % 2) t.strfTime(buf, room, "%Y-%m-%d"); else t.strfLocaltime(buf, room, "%Y-%m-%d");
          char w[40]; snprintf(w, sizeof w, "%04d-%02d-%02d", (int)c.y, c.mo, c.d);
          SIM_CHECK(memchr(buf, 0, room) && (room > 10 ? !strcmp(buf, w) : buf[0] == 0), "format", "'%.12s' in a buffer of %zu bytes", buf, room);
          for (size_t i = room; i < sizeof buf; ++i) SIM_CHECK(buf[i] == '#', "format", "the text was written beyond its buffer of %zu bytes", room);
          break;
        }
        TimeStamp far = a % 3 == 1 ? TimeStamp::maxTime() : TimeStamp((uint64_t)(LAST + 2 * 86400) + (uint64_t)b * (a % 2 ? 1 : 4000000000ULL), (uint32_t)ns);
        std::string s[4] = { far.formatIso8601(), far.formatIso8601UTC(), far.formatIso8601Basic(), far.formatIso8601BasicUTC() };
        for (int k = 0; k < 4; ++k) SIM_CHECK(s[k].find_first_not_of("0123456789-: T,") == std::string::npos && s[k].size() < 40, "format", "a time beyond the year 9999 is shown as '%.60s'", s[k].c_str());
        probe("far");
        break;
      }
    }
  };
  int nt = (int)p.c(0, 1); if (nt < 1) nt = 1;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("user", [t, nt, &p, &one]() { for (size_t i = 0; i < p.ops.size(); ++i) if (arg(p.ops[i], 0) % nt == t) one(p.ops[i]); }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  std::vector<std::string> l; for (size_t i = 0; i < printed.size(); ++i) l.push_back(printed[i].substr(0, printed[i].find('\n')));
  std::sort(l.begin(), l.end()); std::sort(logged.begin(), logged.end());
  SIM_CHECK(l == logged, "span", "%zu time spans were logged, %zu came out, or with other texts than a stream has", logged.size(), l.size());
}
SIM_SCENARIO_LONG(C26, times, gen_time, run_time, 50000, 400);
