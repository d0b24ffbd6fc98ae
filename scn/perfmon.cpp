// C25: the performance monitor measures and summarises exactly what happened.
#include "perfmon_call.h"
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_config/Config.h>
#include <cmath>
using namespace scn;
namespace icl = icl_core::logging;
PerfCaller& perf_caller(int i) { static PerfCaller c[3]; return c[i]; }
namespace {
typedef icl_core::perf_mon::PerformanceMonitor PM;
std::vector<std::string> printed;
struct Sink : icl::LogOutputStream
{
  Sink(const std::string& n, const std::string& p, icl::LogLevel l) : icl::LogOutputStream(n, p, l, false) { }
  void pushImpl(const icl_core::String& line) { ATOMIC printed.push_back(line); }
};
icl::LogOutputStream* make(const icl_core::String& n, const icl_core::String& p, icl::LogLevel l) { return new Sink(n, p, l); }
void cfg(const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); }
const char* const prefixes[] = { "", "p", "q r", "pp" };
const std::string descs[] = { "load", "x::y", "load " + std::string(250, 'n'), "l", ":z" };
struct Events { std::vector<double> v; };
typedef std::pair<std::string, std::string> Key;      // prefix, description
bool close(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }
struct Model
{
  bool enabled, print, all;
  std::set<std::string> on;
  std::map<std::string, ns_t> t0, t1;                 // the start of a timer lies between
  std::map<Key, std::vector<double> > time, nontime;
  std::map<Key, double> fixed;
  std::set<Key> asked;                                // a summary without events may leave an empty entry
  bool is_on(const std::string& p) const { return enabled && (all || on.count(p)); }
};
Model M;
// "<name><unit>" at the beginning of a line
bool number_at(const std::vector<std::string>& l, size_t i, const std::string& head, const std::string& tail, double& v)
{
  if (i >= l.size() || l[i].compare(0, head.size(), head) != 0) return false;
  std::string s = l[i].substr(head.size());
  if (s.size() < tail.size() || s.substr(s.size() - tail.size()) != tail) return false;
  s.resize(s.size() - tail.size());
  char* e = 0; v = strtod(s.c_str(), &e);
  return e && !*e && !s.empty();
}
std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> v; size_t i = 0;
  for (size_t j; (j = s.find('\n', i)) != std::string::npos; i = j + 1) v.push_back(s.substr(i, j - i));
  if (i < s.size()) v.push_back(s.substr(i));
  return v;
}
// The entry of one description at line i.
size_t entry(const std::vector<std::string>& l, size_t i, const std::string& prefix, const std::string& name, const std::vector<double>* ev, bool time)
{
  std::string unit = time ? " ms" : "";
  size_t want = ev ? ev->size() : 0;
  double n = -1, avg = 0, med = 0, lo = 0, hi = 0;
  SIM_CHECK(i < l.size() && l[i] == "Summary for " + prefix + "::" + name, "summary", "line '%s' instead of the summary for %s::%s", i < l.size() ? l[i].c_str() : "", prefix.c_str(), name.c_str());
  SIM_CHECK(time ? number_at(l, i + 1, "Called ", " times", n) : number_at(l, i + 1, "num entries: ", "", n), "summary", "the number of entries of %s::%s is missing", prefix.c_str(), name.c_str());
  SIM_CHECK(n == (double)want, "summary", "%s::%s has %g entries, there were %zu", prefix.c_str(), name.c_str(), n, want);
  if (!want) { while (i < l.size() && !l[i].empty()) ++i; return i + 1; }
  std::vector<double> s = *ev; std::sort(s.begin(), s.end());
  double sum = 0; for (size_t k = 0; k < ev->size(); ++k) sum += (*ev)[k];
  double mag = std::max(std::fabs(s[0]), std::fabs(s.back()));
  SIM_CHECK(number_at(l, i + 2, name + "_avg: ", unit, avg) && number_at(l, i + 3, name + "_median: ", unit, med) && number_at(l, i + 4, name + "_min: ", unit, lo) && number_at(l, i + 5, name + "_max: ", unit, hi),
            "summary", "the summary for %s::%s is incomplete", prefix.c_str(), name.c_str());
  SIM_CHECK(std::fabs(avg - sum / s.size()) <= 2e-5 * mag + 1e-9, "summary", "the average of %s::%s is %g instead of %g", prefix.c_str(), name.c_str(), avg, sum / s.size());
  SIM_CHECK(close(med, s[s.size() / 2]) || (s.size() % 2 == 0 && (close(med, s[s.size() / 2 - 1]) || std::fabs(med - (s[s.size() / 2 - 1] + s[s.size() / 2]) / 2) <= 2e-5 * mag + 1e-9)), "summary", "the median of %s::%s is %g instead of %g", prefix.c_str(), name.c_str(), med, s[s.size() / 2]);
  SIM_CHECK(close(lo, s[0]), "summary", "the minimum of %s::%s is %g instead of %g", prefix.c_str(), name.c_str(), lo, s[0]);
  SIM_CHECK(close(hi, s.back()), "summary", "the maximum of %s::%s is %g instead of %g", prefix.c_str(), name.c_str(), hi, s.back());
  return i + 7;
}
// One printed summary of a prefix.
void section(const std::string& text, const std::string& prefix)
{
  std::vector<std::string> l = split(text);
  bool cut = text.size() > 2000;                      // a log message holds 2047 characters
  if (cut) { l.pop_back(); probe("cut"); }
  size_t i = 0;
  while (i < l.size() && l[i].find("Begin of Summary for prefix") == std::string::npos) ++i;
  SIM_CHECK(i < l.size() && l[i].find("for prefix " + prefix + " #") != std::string::npos, "summary", "the summary for prefix '%s' does not say so", prefix.c_str());
  std::set<std::string> seen[3];
  int part = -1;
  for (++i; i < l.size(); )
  {
    if (l[i].empty()) { ++i; continue; }
    int p = l[i] == "#### Static data: ####" ? 0 : l[i] == "#### Time data: ####" ? 1 : l[i] == "#### Non-time data: ####" ? 2 : -1;
    if (p >= 0) { SIM_CHECK(p > part, "summary", "the parts of the summary for '%s' are out of order", prefix.c_str()); part = p; ++i; continue; }
    SIM_CHECK(part >= 0, "summary", "the line '%s' belongs to no part of the summary", l[i].c_str());
    bool found = false;
    if (part == 0)
    {
      double v = 0;
      for (auto& f : M.fixed)
        if (!found && f.first.first == prefix && !seen[0].count(f.first.second) && number_at(l, i, f.first.second + ": ", "", v))
        {
          found = true; seen[0].insert(f.first.second);
          SIM_CHECK(close(v, f.second), "summary", "static data %s::%s is %g instead of %g", prefix.c_str(), f.first.second.c_str(), v, f.second);
        }
      SIM_CHECK(found, "summary", "the line '%s' is no static data of prefix '%s'", l[i].c_str(), prefix.c_str());
      ++i;
      continue;
    }
    std::map<Key, std::vector<double> >& m = part == 1 ? M.time : M.nontime;
    std::string head = "Summary for " + prefix + "::";
    SIM_CHECK(l[i].compare(0, head.size(), head) == 0, "summary", "the line '%s' does not belong to prefix '%s'", l[i].c_str(), prefix.c_str());
    std::string name = l[i].substr(head.size());
    if (cut && i + 6 > l.size()) return;
    std::map<Key, std::vector<double> >::iterator it = m.find(Key(prefix, name));
    SIM_CHECK(it != m.end() || M.asked.count(Key(prefix, name)), "summary", "there are no events '%s' of prefix '%s'", name.c_str(), prefix.c_str());
    SIM_CHECK(seen[part].insert(name).second, "summary", "%s::%s is summarised twice", prefix.c_str(), name.c_str());
    i = entry(l, i, prefix, name, it == m.end() ? 0 : &it->second, part == 1);
  }
  if (cut) return;
  for (auto& f : M.fixed) if (f.first.first == prefix) SIM_CHECK(seen[0].count(f.first.second), "summary", "static data %s is missing in the summary for '%s'", f.first.second.c_str(), prefix.c_str());
  for (auto& f : M.time) if (f.first.first == prefix) SIM_CHECK(seen[1].count(f.first.second), "summary", "%s is missing in the summary for '%s'", f.first.second.c_str(), prefix.c_str());
  for (auto& f : M.nontime) if (f.first.first == prefix) SIM_CHECK(seen[2].count(f.first.second), "summary", "%s is missing in the summary for '%s'", f.first.second.c_str(), prefix.c_str());
}
// How the calls are made: 0 directly, 1 to 3 by the macros, see perfmon_call.h.
int mode;
double invoke(const PerfCall& c)
{
  if (mode) return perf_caller(mode - 1)(c);
  switch (c.kind)
  {
    case 0: PM::start(c.timer); break;
    case 1: return c.dflt ? c.level == icl::eLL_INFO ? PM::measurement(c.timer, c.desc, c.prefix) : PM::measurement(c.timer, c.desc, c.prefix, c.level) : PM::measurement(c.timer, c.desc, c.prefix, c.level);
    case 2: return c.dflt && c.level == icl::eLL_INFO ? PM::startStop(c.timer, c.desc, c.prefix) : PM::startStop(c.timer, c.desc, c.prefix, c.level);
    case 3: PM::addData(c.desc, c.value, c.prefix); break;
    case 4: PM::addNonTimeData(c.desc, c.value, c.prefix); break;
    case 5: PM::addStaticData(c.desc, c.value, c.prefix); break;
    case 6: PM::enablePrefix(c.prefix); break;
    case 7: PM::disablePrefix(c.prefix); break;
    case 8: PM::enableAll(c.on); break;
    case 11: PM::initialize(c.names, c.events); break;
    case 14: PM::printSummary(c.prefix, c.desc, c.level); break;
    case 15: PM::printSummaryFromPrefix(c.prefix, c.level); break;
    case 16: PM::printSummaryAll(c.level); break;
  }
  return 0;
}
double value_of(int64_t b) { static const double big[] = { 0, 1, -1, 0.25, 1e6, 1e-3, 12345, 7 }; return b % 3 ? (double)(b % 2000) / 8 : big[b / 3 % 8]; }
}
// cfg: threads, names at the start, mode
// op: thread, kind, timer, description, prefix, value
//  0 start | 1 measurement | 2 startStop | 3 addData | 4 addNonTimeData | 5 addStaticData | 6 enablePrefix | 7 disablePrefix | 8 enableAll | 9 m_enabled | 10 m_print_stop
//  11 initialize | 12 sleep | 13 clock jump | 14 printSummary | 15 printSummaryFromPrefix | 16 printSummaryAll
static void gen_perf(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3);
  p.cfg = { nt, (int64_t)r.below(3), (int64_t)(r.chance(1, 8) ? 3 : r.below(3)) };
  static const int64_t kinds[] = { 0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 12, 13, 14, 15, 15, 16 };
  int n = (int)r.range(3, 60), nd = (int)r.range(1, 5), np = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i)
  {
    int64_t k = kinds[r.below(31)];
    if (k == 11 && r.chance(2, 3)) k = 3;
    if (k == 9 && r.chance(1, 2)) k = 2;
    p.ops.push_back({ (int64_t)r.below(nt), k, (int64_t)r.below(3), (int64_t)r.below(nd), (int64_t)r.below(np), (int64_t)r.below(1 << 14) });
  }
}
static void run_perf(const Plan& p)
{
  set_real(EPOCH0);
  icl::LoggingManager::instance().registerLogOutputStream("Sink", &make);
  cfg("OutputStream0/OutputStreamName", "Sink"); cfg("OutputStream0/Name", "Out"); cfg("OutputStream0/LogLevel", "Trace"); cfg("OutputStream0/Format", "~L|~S|~E"); cfg("OutputStream0/LogStream1", "Performance");
  icl::initialize();
  PM::initialize((uint32_t)p.c(1) * 2, 3);
  M = Model(); M.enabled = M.print = true; M.all = false; M.on.insert("");
  static size_t at; at = 0;
  mode = (int)p.c(2) & 3;
  static icl_core::logging::LogLevel levels[] = { icl::eLL_INFO, icl::eLL_INFO, icl::eLL_WARNING, icl::eLL_INFO, icl::eLL_DEBUG, icl::eLL_INFO, icl::eLL_TRACE };
  // what was printed since the last call
  auto take = [](size_t n) {
    std::vector<std::string> v(printed.begin() + at, printed.end()); at = printed.size();
    SIM_CHECK(v.size() == n, "printed", "%zu messages were printed instead of %zu", v.size(), n);
    for (auto& s : v) { SIM_CHECK(s.compare(0, 17, "Info|Performance|") == 0, "printed", "'%.40s' is not a message of the performance monitor", s.c_str()); s = s.substr(17); }
    return v;
  };
  static std::function<void(const std::vector<int64_t>&)> op;
  op = [&](const std::vector<int64_t>& o) {
    std::string timer = "t" + num(arg(o, 2)), d = descs[arg(o, 3) % 5], pre = prefixes[arg(o, 4) % 4];
    int64_t b = arg(o, 5); icl::LogLevel level = levels[b % 7];
    bool was_on = M.is_on(pre), fine = level < icl::eLL_INFO;
    int kind = (int)arg(o, 1);
    // The macros for DEBUG and TRACE do nothing in a release build, nor does any without IC_PERFORMANCE_MONITOR; a release build of the library prints no DEBUG and TRACE.
    bool leveled = kind == 1 || kind == 2 || kind >= 14, happens = mode != 3 && !(mode == 1 && leveled && fine), prints = happens && !fine;
    PerfCall call = { kind, timer, d, pre, value_of(b), level, b % 5 < 2, (uint32_t)(b % 7), (uint32_t)(b / 7 % 5), b % 2 != 0 };
    ns_t r0 = real();
    if (!happens && kind != 9 && kind != 10 && kind != 12 && kind != 13)
    {
      if (kind == 1 && !M.t0.count(timer)) return;
      double v = invoke(call);
      SIM_CHECK(v == 0, "disabled", "a macro that is switched off measured %g ms", v);
      probe("switched_off");
      take(0);
      return;
    }
    switch (kind)
    {
      case 0: invoke(call); if (M.enabled) { M.t0[timer] = r0; M.t1[timer] = real(); } break;
      case 1: case 2:
      {
        bool running = M.t0.count(timer);
        if (kind == 1 && !running) return;
        double v = invoke(call);
        ns_t r1 = real();
        if (was_on && running)
        {
          double lo = (double)(r0 - M.t1[timer] - US) / MS, hi = (double)(r1 - M.t0[timer] + US) / MS;
          SIM_CHECK(v >= lo && v <= hi, "measured", "%g ms were measured, it was between %g and %g ms", v, lo, hi);
          M.time[Key(pre, d)].push_back(v);
          if (kind == 2) { M.t0[timer] = r0; M.t1[timer] = r1; }
          bool say = M.print && prints;
          std::vector<std::string> l = take(say ? 1 : 0);
          double w = 0;
          if (say) SIM_CHECK(number_at(split(l[0]), 0, pre + "::" + d + ": ", " ms", w) && close(v, w), "printed", "'%s' does not say %g ms for %s::%s", l[0].c_str(), v, pre.c_str(), d.c_str());
          probe("measured");
        }
        else
        {
          SIM_CHECK(v == 0, "measured", "%g ms were measured although %s", v, was_on ? "the timer was not running" : "the prefix is not enabled");
          if (was_on) { M.t0[timer] = r0; M.t1[timer] = r1; }
        }
        break;
      }
      case 3: invoke(call); if (was_on) M.time[Key(pre, d)].push_back(value_of(b)); break;
      case 4: invoke(call); if (was_on) M.nontime[Key(pre, d)].push_back(value_of(b)); break;
      case 5: invoke(call); if (was_on) M.fixed[Key(pre, d)] = value_of(b); break;
      case 6: invoke(call); M.on.insert(pre); break;
      case 7: invoke(call); M.on.erase(pre); break;
      case 8: M.all = b % 2; invoke(call); break;
      case 9: M.enabled = b % 3 != 0; PM::getInstance()->m_enabled = M.enabled; break;
      case 10: M.print = b % 2; PM::getInstance()->m_print_stop = M.print; break;
      case 11: invoke(call); M.time.clear(); M.nontime.clear(); M.asked.clear(); M.on.insert(""); break;
      case 12: sleep_ns(b % 4 == 0 ? b * 1000 * MS / 16 : b * 100 * US); break;
      case 13: ATOMIC { jump_clock((b - 8000) * (b % 2 ? SEC : 100 * MS)); count_fault(FT_CLOCK_JUMP); } break;
      case 14:
      {
        invoke(call);
        std::map<Key, std::vector<double> >::iterator it = M.time.find(Key(pre, d));
        if (it == M.time.end()) { M.asked.insert(Key(pre, d)); probe("no_events"); }
        if (!prints) break;
        std::vector<std::string> l = split(take(1)[0]);
        entry(l, 0, pre, d, it == M.time.end() ? 0 : &it->second, true);
        break;
      }
      case 15: invoke(call); if (prints) section(take(1)[0], pre); break;
      case 16:
      {
        invoke(call);
        if (!prints) break;
        std::vector<std::string> l(printed.begin() + at, printed.end());
        l = take(l.size());
        std::string last; bool first = true; std::set<std::string> seen;
        for (size_t i = 0; i < l.size(); ++i)
        {
          static const std::string mark = "Begin of Summary for prefix ";
          size_t x = l[i].find(mark), y = l[i].find(" ####", x);
          SIM_CHECK(x != std::string::npos && y != std::string::npos, "summary", "'%.60s' is no summary of a prefix", l[i].c_str());
          std::string q = l[i].substr(x + mark.size(), y - x - mark.size());
          SIM_CHECK(first || last < q, "summary", "the summary of prefix '%s' comes after that of '%s'", q.c_str(), last.c_str());
          first = false; last = q; seen.insert(q);
          section(l[i], q);
        }
        for (int k = 0; k < 3; ++k)
        {
          auto need = [&](const Key& key) { SIM_CHECK(seen.count(key.first) || !M.is_on(key.first), "summary", "prefix '%s' is enabled and has data, but is missing in the summary of everything", key.first.c_str()); };
          if (k == 0) for (auto& f : M.fixed) need(f.first);
          if (k == 1) for (auto& f : M.time) need(f.first);
          if (k == 2) for (auto& f : M.nontime) need(f.first);
        }
        probe("all");
        break;
      }
    }
    take(0);
  };
  // The threads take turns: each operation is made by its thread.
  static size_t turn; turn = 0;
  int nt = (int)p.c(0, 1);
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("user", [t, nt, &p]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        if (arg(p.ops[i], 0) % nt != t) continue;
        for (ns_t d = MS; turn != i; d = std::min(2 * d, 10 * SEC)) sleep_ns(d);
        op(p.ops[i]);
        turn = i + 1;
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  PM::getInstance()->m_enabled = true;
  if (mode == 3) mode = 0;
  op({ 0, 8, 0, 0, 0, 1 });
  M.enabled = true;
  op({ 0, 16, 0, 0, 0, 0 });
  icl::shutdown();
}
SIM_SCENARIO_LONG(C25, perf, gen_perf, run_perf, 40000, 400);
