// C32: a scoped timer logs the time of its scope exactly once, whatever the scope ends with.
#include "common.h"
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/ScopedTimer.h>
#include <icl_core_config/Config.h>
#include <stdexcept>
using namespace scn;
namespace icl = icl_core::logging;
DECLARE_LOG_STREAM(SimF)
namespace {
struct Line { int level; std::string stream, file, cls, obj, text; int64_t line; uint64_t at; };
std::vector<Line> lines;
struct Sink : icl::LogOutputStream
{
  Sink(const std::string& n, const std::string& p, icl::LogLevel l, bool w) : icl::LogOutputStream(n, p, l, w) { }
  void pushImpl(const LogMessage& m)
  {
    Line l; l.level = m.log_level; l.stream = m.log_stream; l.file = m.filename; l.cls = m.class_name; l.obj = m.object_name; l.text = m.message_text; l.line = (int64_t)m.line;
    ATOMIC { l.at = seq(); lines.push_back(l); }
    ev("line", (int64_t)l.text.size());
  }
};
bool worker;
icl::LogOutputStream* make(const icl_core::String& n, const icl_core::String& p, icl::LogLevel l) { return new Sink(n, p, l, worker); }
int jumps;
// The two ends of a moment at which the code under test read the system clock.
struct Moment { ns_t a, b; bool known; int j; void begin() { ATOMIC { j = jumps; a = real(); } } void end() { ATOMIC { b = real(); known = j == jumps; } } };
struct Print { int thread, level; std::string head, file, cls, obj; int64_t line; Moment start, at; };
std::vector<Print> prints;
typedef icl::ScopedTimer<SimF> Timer;
struct Timed { Timer* t; Print p; bool stopped; Timed() : t(0), stopped(false) { } };
const ns_t waits[] = { 0, 0, 100, 999, US, 1500, 20 * US, MS, 40 * MS, 2 * SEC, 3600 * SEC, 40 * DAY };
// op: thread, kind, slot, level, what, pause
const int KINDS = 12;
void gen_timer(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3), n = (int)r.range(1, 20);
  p.cfg = { nt, (int64_t)r.chance(1, 2), (int64_t)(r.chance(1, 2) ? 0 : r.below(6)), (int64_t)(r.chance(1, 2) ? 0 : r.below(6)), (int64_t)r.chance(1, 3) };
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(KINDS), (int64_t)r.below(3), (int64_t)r.below(5), (int64_t)r.below(1000), (int64_t)r.below(12) });
}
void expect(Print p) { ATOMIC prints.push_back(p); }
void run_timer(const Plan& p)
{
  set_real(EPOCH0 + p.c(2) * 100 * MS);
  int nt = std::max(1, (int)p.c(0, 1));
  worker = p.c(1) != 0;
  int slevel = (int)p.c(2) % 6, olevel = (int)p.c(3) % 6;
  if (p.c(4)) set_rate(FT_EINTR_SEM, 100, 40);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", make);
  auto cfg = [](const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); };
  cfg("OutputStream0/OutputStreamName", "Sink"); cfg("OutputStream0/Name", "Out0"); cfg("OutputStream0/LogLevel", icl::logLevelDescription((icl::LogLevel)olevel));
  cfg("LogStream0/Name", "SimF"); cfg("LogStream0/LogLevel", icl::logLevelDescription((icl::LogLevel)slevel));
  icl::initialize();
  prints.reserve(400); lines.reserve(400);
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("timed", [&, t]() {
      Timed slot[3];
      auto print = [&](Timed& d, int kind, const std::string& extra) {
        Print q = d.p;
        if (!extra.empty() || kind == 2) q.head += " (" + extra + ")";
        q.at.begin();
        if (kind == 1) d.t->print(); else if (kind == 2) d.t->print(extra); else if (kind == 3) d.t->stop(); else { delete d.t; d.t = 0; }
        q.at.end();
        if (kind < 3 || !d.stopped) expect(q);
        if (kind >= 3) d.stopped = true;
      };
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) % nt != t) continue;
        int kind = (int)arg(o, 1) % KINDS, level = (int)arg(o, 3) % 5, what = (int)arg(o, 4);
        Timed& d = slot[arg(o, 2) % 3];
        ns_t pause = waits[arg(o, 5) % 12];
        if (pause) sleep_ns(pause);
        std::string name = "timer" + num((int64_t)i);
        if (what % 5 == 0) name += ": " + std::string(what % 70, 'x') + " (%s %n)";
        if (what % 17 == 0 && t == 0) name = "";
        Print q; q.thread = t; q.level = level; q.head = name; q.line = 0;
        switch (kind)
        {
          case 0: case 1: case 2:
            if (d.t) break;
            d = Timed(); d.p = q;
            if (kind == 0) { d.p.file = "f" + num(what); d.p.line = what * 7; d.p.cls = what % 2 ? "C" + num(what) : ""; d.p.obj = what % 3 ? "o" + num(what) : ""; }
            else { d.p.level = kind == 1 ? level : (int)icl::eLL_DEBUG; if (kind == 2 && what % 2 && t == 0) d.p.head = "ScopedTimer"; d.p.file = "?"; }
            d.p.start.begin();
            if (kind == 0)
            {
              // the texts the timer is made from are gone when it prints
              std::string *n = new std::string(name), *f = new std::string(d.p.file), *c = new std::string(d.p.cls), *ob = new std::string(d.p.obj);
              d.t = new Timer(*n, (icl::LogLevel)level, *f, (size_t)d.p.line, *c, *ob);
              d.p.start.end();
              delete n; delete f; delete c; delete ob;
            }
            else if (kind == 1) d.t = new Timer(name, (icl::LogLevel)level);
            else if (what % 2 && t == 0) d.t = new Timer; else d.t = new Timer(name);
            if (kind) d.p.start.end();
            break;
          case 3: if (d.t) print(d, 1, ""); break;
          case 4: if (d.t) print(d, 2, what % 4 ? "at " + num(what) : ""); break;
          case 5: if (d.t) print(d, 3, ""); break;
          case 6: if (d.t) print(d, 4, ""); break;
          case 7: case 8: case 9: case 10:
          {
            // a scope, left normally, by an exception or by break
            ns_t inside = waits[what % 10];
            q.file = __FILE__;
            bool twice = what % 3 == 0;
            Print in = q;
            if (kind >= 9) { q.level = kind == 9 ? (int)icl::eLL_WARNING : (int)icl::eLL_INFO; in.level = q.level; }
            try
            {
              do
              {
                q.start.begin();
                if (kind == 7)
                {
                  q.line = __LINE__ + 1;
                  LOGGING_SCOPED_TIMER(SimF, name, (icl::LogLevel)level);
                  q.start.end();
                  if (twice) { in.start.begin(); in.line = __LINE__; LOGGING_SCOPED_TIMER(SimF, in.head = name + "'", (icl::LogLevel)level); in.start.end(); if (inside) sleep_ns(inside); in.at.begin(); }
                  if (twice) { in.at.end(); expect(in); }
                  if (inside) sleep_ns(inside); else sim::yield();
                  q.at.begin();
                  if (what % 4 == 0) throw std::runtime_error("end");
                }
                else if (kind == 8)
                {
                  q.line = __LINE__; q.cls = "Cls"; q.obj = "obj"; LOGGING_SCOPED_TIMER_CO(SimF, name, (icl::LogLevel)level, "Cls", "obj");
                  q.start.end();
                  if (inside) sleep_ns(inside);
                  q.at.begin();
                  break;
                }
                else if (kind == 9)
                {
                  q.line = __LINE__; q.cls = "Warn"; LOGGING_SCOPED_TIMER_WARNING_VC(SimF, tm, name, "Warn");
                  q.start.end();
                  if (inside) sleep_ns(inside);
                  if (twice) { Print e = q; e.head += " (half)"; e.at.begin(); tm.print("half"); e.at.end(); expect(e); sleep_ns(MS); }
                  q.at.begin();
                  if (what % 2) { tm.stop(); q.at.end(); expect(q); sleep_ns(MS); q.head.clear(); q.thread = -1; }
                }
                else
                {
                  q.line = __LINE__; LOGGING_SCOPED_TIMER_INFO(SimF, name);
                  q.start.end();
                  if (inside) sleep_ns(inside);
                  q.at.begin();
                }
              }
              while (0);
            }
            catch (std::runtime_error&) { }
            if (q.thread >= 0) { q.at.end(); expect(q); }
            break;
          }
          default:
            ATOMIC { ns_t dt = (what % 2 ? 1 : -1) * (waits[2 + what % 10] + what); if (real() + dt > SEC) { ++jumps; jump_clock(dt); count_fault(FT_CLOCK_JUMP); } }
            break;
        }
      }
      for (int s = 0; s < 3; ++s) if (slot[s].t) print(slot[s], 4, "");
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  // every expected line is there once, nothing else, and in the order of each thread
  std::vector<char> used(lines.size(), 0);
  size_t wanted = 0;
  for (int t = 0; t < nt; ++t)
  {
    std::set<size_t> none;
    size_t from = 0;
    for (size_t k = 0; k < prints.size(); ++k)
    {
      const Print& q = prints[k];
      if (q.thread != t) continue;
      if (q.level < slevel || q.level < olevel) continue;
      ++wanted;
      bool found = false; const char* diff = "text";
      for (size_t j = from; j < lines.size() && !found; ++j)
      {
        const Line& l = lines[j];
        std::string head = q.head + ": ", tail = " ns\n";
        if (used[j] || l.text.compare(0, head.size(), head) != 0 || l.text.size() < head.size() + tail.size() + 1 || l.text.substr(l.text.size() - tail.size()) != tail) continue;
        std::string n = l.text.substr(head.size(), l.text.size() - head.size() - tail.size());
        char* e = 0; long long v = strtoll(n.c_str(), &e, 10);
        if (*e || n.empty() || n != num(v)) continue;
        if (l.level != q.level) diff = "level";
        else if (l.stream != "SimF") diff = "stream";
        else if (q.file != "?" && l.file != q.file) diff = "file";
        else if (q.file != "?" && l.line != q.line) diff = "line";
        else if (l.cls != q.cls) diff = "class";
        else if (l.obj != q.obj) diff = "object";
        else if (q.start.known && q.at.known && (v < q.at.a - q.start.b - US || v > q.at.b - q.start.a + US)) diff = "time";
        else { used[j] = 1; from = j + 1; found = true; }
        if (found && v < 0) probe("negative_time");
      }
      SIM_CHECK(found, diff, "the line of timer '%.30s' (level %d, line %lld, between %lld and %lld ns) is missing or has a wrong %s", q.head.c_str(), q.level, (long long)q.line, (long long)(q.at.a - q.start.b), (long long)(q.at.b - q.start.a), diff);
    }
  }
  SIM_CHECK(wanted == lines.size(), "extra", "%zu lines were logged, %zu are expected", lines.size(), wanted);
}
SIM_SCENARIO_LONG(C32, timer, gen_timer, run_timer, 40000, 40);
}
