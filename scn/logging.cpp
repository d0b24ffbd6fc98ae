// C10 delivery, C11 integrity and order, C12 line format, C13 reconfiguration, C14 lifecycle of the logging framework
#include "common.h"
#include <stdlib.h>
#include <time.h>
#include <iostream>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/ThreadStream.h>
using namespace scn;
namespace icl = icl_core::logging;
DECLARE_LOG_STREAM(SimA)
DECLARE_LOG_STREAM(SimB)
REGISTER_LOG_STREAM(SimA)
REGISTER_LOG_STREAM(SimB)
namespace {
struct Got
{
  int out; int level; std::string stream, file, cls, obj, fn, text; int64_t line; ns_t ts; uint64_t at; ns_t at_real;
};
struct OutState
{
  std::vector<Got> got;
  int busy, fiber, starts, ends, alive, made;
  bool worker, raw; ns_t work; int level; uint64_t dead_at; icl::LogOutputStream* self;
  OutState() : busy(0), fiber(-1), starts(0), ends(0), alive(0), made(0), worker(true), raw(true), work(0), level(0), dead_at(0), self(0) { }
};
std::vector<OutState*> outs;
struct SinkBase : icl::LogOutputStream
{
  OutState& o;
  SinkBase(OutState& s, const std::string& name, const std::string& prefix, icl::LogLevel l) : icl::LogOutputStream(name, prefix, l, s.worker), o(s) { ATOMIC { ++o.alive; ++o.made; o.fiber = -1; o.self = this; } }
  ~SinkBase() { ATOMIC { --o.alive; o.dead_at = seq(); } }
  void enter()
  {
    ATOMIC
    {
      SIM_CHECK(o.alive == 1, "lifetime", "an output is called outside its lifetime");
      SIM_CHECK(++o.busy == 1, "serial", "one output is called by two threads at the same time");
      if (o.worker)
      {
        SIM_CHECK(o.starts == o.ends + 1, "worker", "a worker output is called outside onStart() .. onShutdown()");
        SIM_CHECK(o.fiber == sim::self(), "worker", "a worker output is called by a thread that is not its worker");
      }
    }
    if (o.work) sleep_ns(o.work); else sim::yield();
  }
  void onStart() { ATOMIC { ++o.starts; o.fiber = sim::self(); } }
  void onShutdown() { ATOMIC { ++o.ends; SIM_CHECK(o.fiber == sim::self(), "worker", "onShutdown() runs in another thread than onStart()"); } }
};
struct RawSink : SinkBase
{
  RawSink(OutState& s, const std::string& n, const std::string& p, icl::LogLevel l) : SinkBase(s, n, p, l) { }
  void pushImpl(const LogMessage& m)
  {
    enter();
    Got g;
    g.level = m.log_level; g.stream = m.log_stream; g.file = m.filename; g.cls = m.class_name; g.obj = m.object_name;
    g.fn = m.function_name; g.text = m.message_text; g.line = (int64_t)m.line; g.ts = ns_of(m.timestamp);
    ATOMIC { g.out = 0; g.at = seq(); g.at_real = real(); o.got.push_back(g); --o.busy; }
    ev("got", (int64_t)mixs(g.text));
  }
  static uint64_t mixs(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL; return h >> 1; }
};
struct LineSink : SinkBase
{
  LineSink(OutState& s, const std::string& n, const std::string& p, icl::LogLevel l) : SinkBase(s, n, p, l) { }
  void pushImpl(const std::string& line)
  {
    enter();
    Got g; g.level = -1; g.line = 0; g.ts = 0; g.text = line;
    ATOMIC { g.at = seq(); g.at_real = real(); o.got.push_back(g); --o.busy; }
    ev("line", (int64_t)RawSink::mixs(line));
  }
};
icl::LogOutputStream* make_sink(int i, const std::string& name, const std::string& prefix, icl::LogLevel l)
{
  if (outs[i]->raw) return new RawSink(*outs[i], name, prefix, l);
  return new LineSink(*outs[i], name, prefix, l);
}
icl::LogOutputStream* factory(const icl_core::String& name, const icl_core::String& prefix, icl::LogLevel l)
{ return make_sink(name[name.size() - 1] - '0', name, prefix, l); }

void cfg(const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); }
icl::LogStream& stream(int s) { return s == 0 ? SimA::instance() : SimB::instance(); }
const char* stream_name(int s) { return s == 0 ? "SimA" : "SimB"; }
std::string body(int id, int len)
{
  std::string s = "m" + num(id) + ":";
  while ((int)s.size() < len) s += (char)('a' + (id * 7 + (int)s.size()) % 26);
  return s;
}
const int64_t pauses[] = { 0, 0, 0, 0, 100, 20 * US, MS, 40 * MS };
struct Sent { int thread, stream, level; uint64_t from, to; ns_t r0, r1; std::string text, file, cls, obj, fn; int64_t line; bool loggable; };
void check_no_threads()
{
  ThreadStats st = thread_stats();
  SIM_CHECK(st.joined + st.detached == st.created && st.finished == st.created, "thread-leak", "%d threads were created, %d ended and %d were joined by the time logging was shut down", st.created, st.finished, st.joined);
}
}

// ------------------------------------------------------------------ C10
// cfg: outputs, threads, EINTR, wait for delivery before shutdown, stream levels A,B, inactive mask, [worker, level, mask, work]*outputs
// op: thread, stream, level, style, pause, length
static void gen_deliver(Rng& r, Plan& p)
{
  int no = (int)r.range(1, 3), nt = (int)r.range(1, 4);
  bool crowd = r.chance(1, 10);      // many threads are in the middle of a message at the same time
  if (crowd) nt = (int)r.range(9, 48);
  p.cfg = { no, nt, r.chance(1, 2) ? r.range(20, 400) : 0, (int64_t)r.chance(1, 2), (int64_t)(r.chance(1, 2) ? 0 : r.below(6)), (int64_t)(r.chance(1, 2) ? 0 : r.below(6)), (int64_t)(r.chance(1, 4) ? r.below(4) : 0) };
  for (int i = 0; i < no; ++i)
  {
    p.cfg.push_back(r.chance(2, 3)); p.cfg.push_back(r.chance(1, 2) ? 0 : r.below(6)); p.cfg.push_back(r.chance(1, 2) ? 0 : r.range(1, 3));
    p.cfg.push_back(r.chance(1, 3) ? pauses[r.below(8)] : 0);
  }
  int n = (int)r.range(1, 20);
  if (crowd)
    for (int t = 0; t < nt; ++t) p.ops.push_back({ t, (int64_t)r.chance(1, 6), (int64_t)(r.chance(5, 6) ? 4 : r.below(6)), 3, 0, 12, 20 * MS });
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(2), (int64_t)(r.chance(1, 2) ? 4 : r.below(6)), (int64_t)r.below(4), pauses[r.below(8)], (int64_t)(r.chance(1, 8) ? r.range(100, 1500) : r.range(5, 30)), r.chance(1, 6) ? pauses[r.below(8)] : 0 });
}
static void run_deliver(const Plan& p)
{
  set_real(EPOCH0);
  int no = (int)p.c(0, 1), nt = (int)p.c(1, 1);
  if (p.c(2)) set_rate(FT_EINTR_SEM, (int)p.c(2), 60);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", factory);
  for (int i = 0; i < no; ++i)
  {
    OutState* o = new OutState;
    o->worker = p.c(7 + 4 * i, 1) != 0; o->level = (int)p.c(8 + 4 * i) % 6; o->work = p.c(10 + 4 * i); o->raw = true;
    outs.push_back(o);
    std::string e = "OutputStream" + num(i);
    cfg(e + "/OutputStreamName", "Sink"); cfg(e + "/Name", "Out" + num(i)); cfg(e + "/LogLevel", icl::logLevelDescription((icl::LogLevel)o->level));
    for (int s = 0; s < 2; ++s) if (p.c(9 + 4 * i) >> s & 1) cfg(e + "/LogStream" + num(s), stream_name(s));
  }
  int slevel[2];
  for (int s = 0; s < 2; ++s)
  {
    slevel[s] = (int)p.c(4 + s) % 6;
    cfg(std::string("LogStream") + num(s) + "/Name", stream_name(s)); cfg(std::string("LogStream") + num(s) + "/LogLevel", icl::logLevelDescription((icl::LogLevel)slevel[s]));
  }
  icl::initialize();
  for (int i = 0; i < no; ++i) SIM_CHECK(outs[i]->alive == 1, "configured", "a configured output was not created");
  for (int s = 0; s < 2; ++s)
  {
    SIM_CHECK(stream(s).getLogLevel() == slevel[s], "configured", "a stream does not have its configured log level");
    if (p.c(6) >> s & 1) stream(s).setActive(false);
  }
  std::vector<Sent*> sent(p.ops.size());
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logger", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (arg(o, 4)) sleep_ns(arg(o, 4));
        int s = (int)arg(o, 1) % 2; icl::LogLevel l = (icl::LogLevel)(arg(o, 2) % 6);
        Sent* m = new Sent; m->thread = t; m->stream = s; m->level = l; m->text = body((int)i, (int)arg(o, 5));
        m->from = seq();
        icl::LogStream& st = stream(s);
        switch (arg(o, 3))
        {
          case 0: SLOGGING_LOG(st, l, m->text << icl::endl); m->text += "\n"; break;
          case 1: SLOGGING_FMT_LOG(st, l, "%s", m->text.c_str()); break;
          case 2: SLOGGING_LOG(st, l, m->text.c_str() << icl::flush); break;
          default:
          {
            std::string a = m->text.substr(0, m->text.size() / 2), b = m->text.substr(m->text.size() / 2);
            SLOGGING_LOG(st, l, a);
            if (arg(o, 6)) sleep_ns(arg(o, 6)); else sim::yield();
            SLOGGING_LOG(st, l, b << icl::endl); m->text += "\n";
            break;
          }
        }
        m->to = seq();
        ATOMIC sent[i] = m;
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  size_t expect = 0;
  auto wanted = [&](const Sent& m, int i) {
    int mask = (int)p.c(9 + 4 * i) & 3;
    return (mask == 0 || (mask >> m.stream & 1)) && !(p.c(6) >> m.stream & 1) && m.level >= slevel[m.stream] && m.level >= outs[i]->level;
  };
  for (size_t k = 0; k < sent.size(); ++k) for (int i = 0; i < no; ++i) if (sent[k] && wanted(*sent[k], i)) ++expect;
  if (p.c(3))
  {
    size_t n = 0;
    for (int k = 0; k < 3000; ++k)
    {
      ATOMIC { n = 0; for (int i = 0; i < no; ++i) n += outs[i]->got.size(); }
      if (n >= expect) break;
      sleep_ns(20 * MS);
    }
    SIM_CHECK(n >= expect, "lost", "only %zu of %zu messages came out although the framework had a minute for it", n, expect);
    probe("delivered_live");
  }
  icl::shutdown();
  for (int i = 0; i < no; ++i)
  {
    SIM_CHECK(outs[i]->alive == 0, "lifetime", "an output was not destroyed by the shutdown");
    if (outs[i]->worker) SIM_CHECK(outs[i]->starts == 1 && outs[i]->ends == 1, "worker", "onStart()/onShutdown() of an output ran %d/%d times", outs[i]->starts, outs[i]->ends);
  }
  for (int i = 0; i < no; ++i)
  {
    std::map<std::string, int> cnt;
    for (size_t k = 0; k < outs[i]->got.size(); ++k)
    {
      ++cnt[outs[i]->got[k].text];
      SIM_CHECK(outs[i]->got[k].level >= outs[i]->level, "filter", "a message below the level of the output came out");
    }
    size_t total = 0;
    for (size_t k = 0; k < sent.size(); ++k)
    {
      if (!sent[k]) continue;
      int w = wanted(*sent[k], i) ? 1 : 0, g = cnt.count(sent[k]->text) ? cnt[sent[k]->text] : 0;
      total += w;
      SIM_CHECK(g >= w, "lost", "message '%.20s' never came out of output %d", sent[k]->text.c_str(), i);
      SIM_CHECK(g <= w, w ? "duplicate" : "filter", "message '%.20s' came out of output %d %d times instead of %d", sent[k]->text.c_str(), i, g, w);
    }
    SIM_CHECK(outs[i]->got.size() == total, "garbage", "output %d got %zu messages, %zu were meant for it", i, outs[i]->got.size(), total);
  }
  check_no_threads();
}
SIM_SCENARIO_LONG(C10, deliver, gen_deliver, run_deliver, 40000, 400);

// ------------------------------------------------------------------ C11
// op: thread, stream, level, finish (0 piece only, 1 endl, 2 flush, 3 printf, 4 piece only and log something else), kind of piece, length, field lengths, pause
static void gen_whole(Rng& r, Plan& p)
{
  int no = (int)r.range(1, 2), nt = (int)r.range(1, 4);
  bool many = r.chance(1, 8);
  if (many) nt = (int)r.range(8, 20);
  p.cfg = { no, nt, r.chance(1, 2) ? r.range(20, 400) : 0, (int64_t)many + 2 * (int64_t)r.chance(1, 4) };
  for (int i = 0; i < no; ++i) { p.cfg.push_back(r.chance(2, 3)); p.cfg.push_back(r.chance(1, 4) ? pauses[r.below(8)] : 0); }
  static const int64_t lens[] = { 0, 1, 5, 40, 300, 1020, 1500, 2040, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 2100, 5000 };
  static const int64_t fl[] = { 0, 1, 10, 100, 255, 256, 257, 300, 1023, 1024, 1025, 2047, 2048, 2049, 3000 };
  int n = (int)r.range(2, 20);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(2), (int64_t)r.below(5), (int64_t)r.below(4), (int64_t)r.below(r.chance(1, 2) ? 5 : 11), lens[r.below(r.chance(2, 3) ? 5 : 17)],
                      fl[r.below(r.chance(2, 3) ? 4 : 15)], fl[r.below(r.chance(2, 3) ? 4 : 15)], fl[r.below(r.chance(2, 3) ? 4 : 15)], pauses[r.below(8)] });
}
static icl::LogStream* long_stream;
static const std::string long_name = "Long" + std::string(290, 'g') + "Name";
static icl::LogStream* make_long_stream() { return long_stream = new icl::LogStream(long_name, icl::eLL_TRACE); }
static void run_whole(const Plan& p)
{
  bool many = (p.c(3) & 1) != 0, longname = (p.c(3) & 2) != 0;
  long_stream = 0;
  auto stream = [&](int s) -> icl::LogStream& { return s && longname ? *long_stream : ::stream(s); };
  auto stream_name = [&](int s) { return s && longname ? long_name.substr(0, 256) : std::string(::stream_name(s)); };
  set_real(EPOCH0 + 999999000);
  int no = (int)p.c(0, 1), nt = (int)p.c(1, 1);
  if (p.c(2)) set_rate(FT_EINTR_SEM, (int)p.c(2), 60);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", factory);
  if (longname) lm.registerLogStream(long_name, make_long_stream);
  for (int i = 0; i < no; ++i)
  {
    OutState* o = new OutState;
    o->worker = p.c(4 + 2 * i, 1) != 0; o->work = p.c(5 + 2 * i);
    outs.push_back(o);
    std::string e = "OutputStream" + num(i);
    cfg(e + "/OutputStreamName", "Sink"); cfg(e + "/Name", "Out" + num(i)); cfg(e + "/LogLevel", "Trace");
  }
  for (int s = 0; s < 2; ++s) { cfg(std::string("LogStream") + num(s) + "/Name", stream_name(s)); cfg(std::string("LogStream") + num(s) + "/LogLevel", "Trace"); }
  icl::initialize();
  std::vector<Sent*> sent;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logger", [&, t]() {
      std::string open[2][5]; bool is_open[2][5]; Sent last[2][5];
      memset(is_open, 0, sizeof is_open);
      auto piece = [&](int s, int l, int fin, int kind, int len, int f1, int f2, int f3, int id) {
        icl::LogStream& st = stream(s); icl::LogLevel lv = (icl::LogLevel)l;
        std::string file(f1, 'f'), cls(f2, 'c'), obj(f3, 'o');
        for (size_t k = 0; k + 4 < file.size(); k += 7) file[k] = '0' + id % 10;
        std::string txt, x = body(1000 + id, len); x.resize(len);
        Sent& m = last[s][l];
        uint64_t from = seq(); ns_t r0 = real();
        int64_t line = id % 3 == 0 ? 65530 + id : id % 7 == 0 ? 16777000 + id : 1 + id * 13;
        m.file = file.substr(0, 1024); m.cls = cls.substr(0, 256); m.obj = obj.substr(0, 1024); m.line = line; m.fn = __FUNCTION__;
        switch (kind)
        {
          case 0: txt = x; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), x); break;
          case 1: txt = x; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), x.c_str()); break;
          case 2: { int32_t v = id % 2 ? INT32_MIN : 7 * id; txt = num(v); SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), v); break; }
          case 3: { uint64_t v = id % 2 ? UINT64_MAX : (uint64_t)id; txt = std::to_string((unsigned long long)v); SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), v); break; }
          case 5: { static const double ds[] = { 0, -1.5, 1e9, 123456.789, 1e22, 1e50, -1e80, 1e100, -1.7976931348623157e308, 5e-324 }; double v = ds[id % 10]; char b[400]; snprintf(b, sizeof b, "%f", v); txt = b; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), v); break; }
          case 6: { int32_t v = id % 2 ? INT16_MIN : 32767; txt = num(v) + num(127) + num(-128); SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), (int16_t)v << (int8_t)127 << (int8_t)-128); break; }
          case 7: { txt = num(255) + num(65535) + num((int64_t)UINT32_MAX); SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), (uint8_t)255 << (uint16_t)65535 << (uint32_t)UINT32_MAX); break; }
          case 8: { txt = id % 2 ? "True" : "False"; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), (id % 2 != 0)); break; }
          case 9: { char b[40]; void* v = (void*)(id % 2 ? (intptr_t)-1 : (intptr_t)4096); snprintf(b, sizeof b, "%p", v); txt = b; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), v); break; }
          case 10: { txt = x + "," + num(id); SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), x << "," << id); break; }
          default: { int64_t v = id % 2 ? INT64_MIN : -id; txt = num(v) + "/" + x; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), v << "/" << x); break; }
        }
        open[s][l] += txt; is_open[s][l] = true;
        if (!fin) return;
        sim::yield();
        if (open[s][l].size() > 2046) { open[s][l].resize(2046); probe("truncated"); }
        from = seq(); r0 = real();
        std::string tail;
        if (fin == 1) { tail = "\n"; SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), icl::endl); }
        else if (fin == 2) SLOGGING_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), icl::flush);
        else { tail = "#" + num(id); SLOGGING_FMT_LOG_FLCO(st, lv, file.c_str(), line, cls.c_str(), obj.c_str(), "#%d", id); }
        Sent* d = new Sent(m);
        d->from = from; d->to = seq(); d->r0 = r0; d->r1 = real();
        d->thread = t; d->stream = s; d->level = l; d->text = open[s][l] + tail;
        if (fin == 3 && d->text.size() > 2046) d->text.resize(2046);
        ATOMIC sent.push_back(d);
        open[s][l].clear(); is_open[s][l] = false;
      };
      if (many) for (int l = 0; l < 5; ++l) piece(0, l, 0, 0, 3, 1, 1, 1, 300 + t * 10 + l);
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (arg(o, 9)) sleep_ns(arg(o, 9));
        piece((int)arg(o, 1) % 2, (int)arg(o, 2) % 5, (int)arg(o, 3) % 4, (int)arg(o, 4), (int)arg(o, 5), (int)arg(o, 6), (int)arg(o, 7), (int)arg(o, 8), (int)i);
      }
      for (int s = 0; s < 2; ++s) for (int l = 0; l < 5; ++l) if (is_open[s][l]) piece(s, l, 1, 0, 4, 2, 2, 2, 1000 + t * 100 + s * 10 + l);
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  for (int i = 0; i < no; ++i)
  {
    std::vector<Got>& g = outs[i]->got;
    SIM_CHECK(g.size() == sent.size(), "lost", "%zu of %zu messages came out", g.size(), sent.size());
    std::vector<int> pos(sent.size(), -1);
    std::vector<char> used(g.size(), 0);
    for (size_t k = 0; k < sent.size(); ++k)
    {
      const Sent& m = *sent[k];
      const char* diff = 0;
      for (size_t j = 0; j < g.size() && pos[k] < 0; ++j)
      {
        if (used[j] || g[j].text != m.text) continue;
        if (g[j].level != m.level) diff = "level"; else if (g[j].stream != stream_name(m.stream)) diff = "stream";
        else if (g[j].file != m.file) diff = "file"; else if (g[j].cls != m.cls) diff = "class"; else if (g[j].obj != m.obj) diff = "object";
        else if (g[j].line != m.line) diff = "line"; else if (g[j].fn.find("operator()") == std::string::npos) diff = "function";
        else if (g[j].ts < m.r0 - US || g[j].ts > m.r1) diff = "time";
        else { used[j] = 1; pos[k] = (int)j; }
      }
      SIM_CHECK(pos[k] >= 0, diff ? "field" : "text", "message '%.30s...' (%zu bytes) of thread %d came out with a wrong %s", m.text.c_str(), m.text.size(), m.thread, diff ? diff : "text");
    }
    for (size_t a = 0; a < sent.size(); ++a)
      for (size_t b = 0; b < sent.size(); ++b)
        if (sent[a]->to < sent[b]->from && pos[a] > pos[b])
        {
          bool twin = sent[a]->text == sent[b]->text;
          SIM_CHECK(twin, "order", "a message flushed before another one came out after it");
        }
  }
  check_no_threads();
}
SIM_SCENARIO_LONG(C11, whole, gen_whole, run_whole, 30000, 250);

// ------------------------------------------------------------------ C12
// The log line format, from its documentation.
namespace {
struct Fmt { int kind; std::string a, b; int width; };   // kind: 't' text, otherwise the field letter
struct FmtSpec { std::string str; std::vector<Fmt> f; };
FmtSpec make_format(int64_t seed)
{
  FmtSpec s;
  if (seed == 0)
  {
    s.str = "<~T.~3M> ~S(~L)~ C~(O~::D: ~E";
    const Fmt d[] = { { 't', "<", "", 0 }, { 'T', "", "", 0 }, { 't', ".", "", 0 }, { 'M', "", "", 3 }, { 't', "> ", "", 0 }, { 'S', "", "", 0 }, { 't', "(", "", 0 }, { 'L', "", "", 0 },
      { 't', ")", "", 0 }, { 'C', " ", "", 0 }, { 'O', "(", ")", 0 }, { 'D', "::", "", 0 }, { 't', ": ", "", 0 }, { 'E', "", "", 0 } };
    s.f.assign(d, d + 14);
    return s;
  }
  Rng r((uint64_t)seed);
  int n = (int)r.range(1, 9);
  bool last_text = false;
  for (int i = 0; i < n; ++i)
  {
    Fmt f; f.width = 0;
    if (!last_text && r.chance(2, 5))
    {
      static const int ls[] = { 1, 2, 4, 12, 98, 99, 100, 101, 130, 260 };
      static const char cs[] = " :.,;<>()[]{}CODEFGLSTM0123456789%\\\"abcxyz-";
      int l = ls[r.below(r.chance(4, 5) ? 4 : 10)];
      f.kind = 't';
      for (int k = 0; k < l; ++k) f.a += cs[r.below(sizeof cs - 1)];
      s.str += f.a; last_text = true;
    }
    else
    {
      f.kind = "CODEFGLSTMETM"[r.below(13)];
      s.str += "~";
      if (f.kind == 'M') { f.width = (int)r.below(7); if (f.width) s.str += num(f.width); }
      if (f.kind == 'O') { int b = (int)r.below(4); if (b < 3) { f.a = std::string(1, "([{"[b]); f.b = std::string(1, ")]}"[b]); } }
      if (f.kind == 'C' || f.kind == 'D')
      {
        static const int ls[] = { 0, 0, 1, 2, 5, 99, 100, 101, 120 };
        static const char cs[] = " :.-<>#abcxyz_";
        int l = ls[r.below(r.chance(4, 5) ? 5 : 9)];
        for (int k = 0; k < l; ++k) f.a += cs[r.below(sizeof cs - 1)];
      }
      s.str += f.a + (char)f.kind; last_text = false;
    }
    s.f.push_back(f);
  }
  if (r.chance(1, 6)) { static const char* const t[] = { "~", "~3", "~ ::", "~12(" }; s.str += t[r.below(4)]; }  // an incomplete field prints nothing
  return s;
}
std::string format_line(const FmtSpec& s, const Sent& m, ns_t ts, const char* tf)
{
  std::string l;
  for (size_t i = 0; i < s.f.size(); ++i)
    switch (s.f[i].kind)
    {
      case 't': l += s.f[i].a; break;
      case 'C': if (!m.cls.empty()) l += s.f[i].a + m.cls; break;
      case 'O': if (!m.obj.empty()) l += s.f[i].a + m.obj + s.f[i].b; break;
      case 'D': if (!m.fn.empty()) l += s.f[i].a + m.fn; break;
      case 'E': l += m.text; break;
      case 'F': l += m.file; break;
      case 'G': l += num(m.line); break;
      case 'L': l += icl::logLevelDescription((icl::LogLevel)m.level); break;
      case 'S': l += m.stream < 2 ? stream_name(m.stream) : "Direct"; break;
      case 'T': { char b[100]; time_t t = (time_t)(ts / SEC); struct tm tm; localtime_r(&t, &tm); b[0] = 0; strftime(b, 100, tf, &tm); l += b; break; }
      case 'M': { std::string d = num(ts % SEC / MS); while ((int)d.size() < s.f[i].width) d = "0" + d; l += d; break; }
    }
  return l;
}
bool has_time(const FmtSpec& s) { for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].kind == 'T' || s.f[i].kind == 'M') return true; return false; }
const char* const time_formats[] = { "%Y-%m-%d %H:%M:%S", "%H:%M", "%d.%m.%y %j", "%S%% %A", "at %I %p" };
const char* const zones[] = { "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:45", "AAA11", "BBB-14" };
const ns_t starts[] = { EPOCH0, 1703980800LL * SEC - 300 * MS, 1709164799LL * SEC + 999 * MS, 1711846800LL * SEC - 50 * MS, 1698541200LL * SEC - 20 * MS, 951782399LL * SEC + 990 * MS, 200000LL * SEC };
}
// cfg: threads, EINTR, zone, start, outputs, [worker, work, format, time format]*2
// op: thread, kind (0..3 message through a stream, 4 direct push, 5 change format, 6 jump), stream, level, output, format seed, class length, object length, function length, text length, pause
static void gen_format(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 4), no = (int)r.range(1, 2);
  p.cfg = { nt, r.chance(1, 3) ? r.range(20, 300) : 0, (int64_t)r.below(6), (int64_t)r.below(7), no };
  for (int i = 0; i < 2; ++i) { p.cfg.push_back(r.chance(2, 3)); p.cfg.push_back(r.chance(1, 3) ? pauses[r.below(8)] : 0); p.cfg.push_back(r.chance(1, 3) ? 0 : r.range(1, 1000000)); p.cfg.push_back(r.chance(1, 2) ? 0 : r.below(5)); }
  static const int64_t fl[] = { 0, 0, 1, 3, 12, 255, 256, 257, 1024, 1025 };
  bool jumps = r.chance(1, 4), changes = r.chance(2, 3);
  int n = (int)r.range(2, 16);
  for (int i = 0; i < n; ++i)
  {
    int64_t k = (int64_t)r.below(5);
    if (changes && r.chance(1, 4)) k = 5;
    if (jumps && r.chance(1, 6)) k = 6;
    p.ops.push_back({ (int64_t)r.below(nt), k, (int64_t)r.below(2), (int64_t)r.below(5), (int64_t)r.below(no), (int64_t)(k == 6 ? r.range(-90000, 90000) : r.range(1, 1000000)),
                      fl[r.below(r.chance(5, 6) ? 5 : 10)], fl[r.below(r.chance(5, 6) ? 5 : 10)], fl[r.below(r.chance(5, 6) ? 5 : 10)], (int64_t)(r.chance(1, 10) ? r.range(100, 2046) : r.range(0, 30)), pauses[r.below(8)] });
  }
}
static void run_format(const Plan& p)
{
  setenv("TZ", zones[p.c(2) % 6], 1); tzset();
  set_real(starts[p.c(3) % 7]);
  int nt = (int)p.c(0, 1), no = (int)p.c(4, 1);
  if (p.c(1)) set_rate(FT_EINTR_SEM, (int)p.c(1), 40);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", factory);
  struct Change { uint64_t from, to; FmtSpec f; };
  struct Jump { uint64_t at; ns_t before, after; };
  std::vector<Change> changes[2]; std::vector<Jump> jumps;
  const char* tf[2];
  static std::vector<icl::LogOutputStream*> sinks(2);
  for (int i = 0; i < no; ++i)
  {
    OutState* o = new OutState;
    o->worker = p.c(5 + 4 * i, 1) != 0; o->work = p.c(6 + 4 * i); o->raw = false;
    outs.push_back(o);
    std::string e = "OutputStream" + num(i);
    cfg(e + "/OutputStreamName", "Reg"); cfg(e + "/Name", "Out" + num(i)); cfg(e + "/LogLevel", "Trace");
    Change c; c.from = 0; c.to = 0; c.f = make_format(p.c(7 + 4 * i));
    if (p.c(7 + 4 * i)) cfg(e + "/Format", c.f.str);
    changes[i].push_back(c);
    tf[i] = time_formats[p.c(8 + 4 * i) % 5];
  }
  struct Reg { static icl::LogOutputStream* make(const icl_core::String& name, const icl_core::String& prefix, icl::LogLevel l) { icl::LogOutputStream* s = factory(name, prefix, l); sinks[name[3] - '0'] = s; return s; } };
  lm.registerLogOutputStream("Reg", &Reg::make);
  for (int s = 0; s < 2; ++s) { cfg(std::string("LogStream") + num(s) + "/Name", stream_name(s)); cfg(std::string("LogStream") + num(s) + "/LogLevel", "Trace"); }
  icl::initialize();
  for (int i = 0; i < no; ++i) if (p.c(8 + 4 * i) % 5) sinks[i]->changeTimeFormat(tf[i]);
  std::vector<std::pair<int, Sent*> > sent;      // output mask
  std::vector<ns_t> ranges;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logger", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (arg(o, 10)) sleep_ns(arg(o, 10));
        int kind = (int)arg(o, 1), out = (int)arg(o, 4) % no;
        if (kind == 6) { ATOMIC { Jump j; j.before = real(); jump_clock(std::max(arg(o, 5) * SEC, 100000 * SEC - j.before)); count_fault(FT_CLOCK_JUMP); j.after = real(); j.at = seq(); jumps.push_back(j); } continue; }
        if (kind == 5)
        {
          Change c; c.f = make_format(arg(o, 5)); c.to = UINT64_MAX; size_t at = 0;
          ATOMIC { c.from = seq(); at = changes[out].size(); changes[out].push_back(c); }
          lm.changeLogFormat("Out" + num(out), c.f.str.c_str());
          ATOMIC changes[out][at].to = seq();
          continue;
        }
        Sent* m = new Sent; m->thread = t; m->stream = (int)arg(o, 2) % 2; m->level = (int)arg(o, 3) % 5;
        m->file = "f" + num(i) + ".cpp"; m->line = (int64_t)(i * 37 + 1) * (i % 4 == 3 ? 9001 : 1); m->cls = std::string(arg(o, 6), 'c'); m->obj = std::string(arg(o, 7), 'o');
        m->text = "~E%s" + body((int)i, (int)arg(o, 9)); m->text.resize((size_t)arg(o, 9));
        if (arg(o, 6) > 2) m->cls[1] = '~';
        m->fn = __FUNCTION__;
        icl::LogStream& st = stream(m->stream); icl::LogLevel lv = (icl::LogLevel)m->level;
        int mask = (1 << no) - 1;
        ATOMIC { m->from = seq(); m->r0 = real(); }
        if (kind == 4)
        {
          mask = 1 << out; m->stream = 2; m->fn = std::string(arg(o, 8), 'n');
          sinks[out]->push(lv, "Direct", m->file.c_str(), (int)m->line, m->cls.c_str(), m->obj.c_str(), m->fn.c_str(), m->text.c_str());
        }
        else if (kind == 3) { SLOGGING_LOG_FLCO(st, lv, m->file.c_str(), m->line, m->cls.c_str(), m->obj.c_str(), m->text << icl::flush); }
        else { SLOGGING_LOG_FLCO(st, lv, m->file.c_str(), m->line, m->cls.c_str(), m->obj.c_str(), m->text << icl::endl); m->text += "\n"; }
        ATOMIC { m->to = seq(); m->r1 = real(); }
        m->cls.resize(std::min<size_t>(m->cls.size(), 256)); m->obj.resize(std::min<size_t>(m->obj.size(), 1024)); m->fn.resize(std::min<size_t>(m->fn.size(), 256));
        ATOMIC sent.push_back(std::make_pair(mask, m));
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  sim::NoPreempt np;
  for (int i = 0; i < no; ++i)
  {
    std::vector<Got>& g = outs[i]->got;
    std::vector<Sent*> ms;
    for (size_t k = 0; k < sent.size(); ++k) if (sent[k].first >> i & 1) ms.push_back(sent[k].second);
    SIM_CHECK(g.size() == ms.size(), "lines", "%zu lines came out for %zu messages", g.size(), ms.size());
    auto matches = [&](const Got& line, const Sent& m) {
      if (m.from > line.at) return false;
      std::vector<std::pair<ns_t, ns_t> > seg(1, std::make_pair(m.r0, m.r1));
      for (size_t k = 0; k < jumps.size(); ++k)
        if (jumps[k].at > m.from && jumps[k].at < m.to) { seg.back().second = jumps[k].before; seg.push_back(std::make_pair(jumps[k].after, m.r1)); }
      for (size_t c = 0; c < changes[i].size(); ++c)
      {
        const Change& ch = changes[i][c];
        if (ch.from > line.at) continue;
        bool superseded = false;
        for (size_t d = 0; d < changes[i].size() && !superseded; ++d) superseded = changes[i][d].from > ch.to && changes[i][d].to < m.from;
        if (superseded) continue;
        if (!has_time(ch.f)) { if (format_line(ch.f, m, m.r0, tf[i]) == line.text) return true; continue; }
        for (size_t k = 0; k < seg.size(); ++k)
          for (ns_t t = (seg[k].first - US) / MS; t <= seg[k].second / MS; ++t)
            if (format_line(ch.f, m, t * MS, tf[i]) == line.text) return true;
      }
      return false;
    };
    std::vector<std::vector<int> > adj(g.size());
    for (size_t j = 0; j < g.size(); ++j)
    {
      for (size_t k = 0; k < ms.size(); ++k) if (matches(g[j], *ms[k])) adj[j].push_back((int)k);
      SIM_CHECK(!adj[j].empty(), "line", "the line '%.200s' of output %d is no message in a format in force then", g[j].text.c_str(), i);
    }
    std::vector<int> owner(ms.size(), -1);
    std::function<bool(int, std::vector<char>&)> aug = [&](int j, std::vector<char>& seen) {
      for (size_t x = 0; x < adj[j].size(); ++x)
      {
        int k = adj[j][x];
        if (seen[k]) continue;
        seen[k] = 1;
        if (owner[k] < 0 || aug(owner[k], seen)) { owner[k] = j; return true; }
      }
      return false;
    };
    for (size_t j = 0; j < g.size(); ++j)
    {
      std::vector<char> seen(ms.size(), 0);
      SIM_CHECK(aug((int)j, seen), "line", "the line '%.200s' of output %d came out more often than its message", g[j].text.c_str(), i);
    }
    if (changes[i].size() > 1 && g.size() > 1) probe("format_changed");
  }
}
SIM_SCENARIO_LONG(C12, format, gen_format, run_format, 30000, 100);

// ------------------------------------------------------------------ C13
namespace {
// A setting with concurrent changes: which values can be in force during an interval?
struct Setting
{
  struct Ch { uint64_t from, to; int v; };
  std::vector<Ch> ch;
  explicit Setting(int v = 0) { Ch c = { 0, 0, v }; ch.push_back(c); }
  size_t begin(int v) { Ch c = { seq(), UINT64_MAX, v }; ch.push_back(c); return ch.size() - 1; }
  void end(size_t i) { ch[i].to = seq(); }
  std::set<int> during(uint64_t a, uint64_t b) const
  {
    std::set<int> r;
    for (size_t i = 0; i < ch.size(); ++i)
    {
      if (ch[i].from > b) continue;
      bool dead = false;
      for (size_t j = 0; j < ch.size() && !dead; ++j) dead = ch[j].from > ch[i].to && ch[j].to < a;
      if (!dead) r.insert(ch[i].v);
    }
    return r;
  }
  int now() const { return ch.back().v; }
};
struct Change1
{
  Setting& s; size_t i;
  Change1(Setting& t, int v) : s(t) { ATOMIC i = s.begin(v); }
  ~Change1() { ATOMIC s.end(i); }
};
}
// cfg: loggers, EINTR, managed outputs, stream levels A,B, [worker, level, mask, work]*2
// op: thread, kind, a, b, pause, length
//   loggers: kind 0 (a stream, b level)
//   reconfigurers (threads nt, nt+1): 1 connect 2 disconnect (a stream, b output) 3 activate (a stream, b value) 4 output level (a output, b level) 5 create an output 6 remove an output and delete it
//   7 global level (b) 8 disconnect an output everywhere (b output) 9 take a configured output from the manager and delete it
static void gen_reconf(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3);
  p.cfg = { nt, r.chance(1, 3) ? r.range(20, 300) : 0, r.range(1, 2), (int64_t)(r.chance(2, 3) ? 0 : r.below(5)), (int64_t)(r.chance(2, 3) ? 0 : r.below(5)) };
  for (int i = 0; i < 2; ++i)
  {
    p.cfg.push_back(r.chance(2, 3)); p.cfg.push_back(r.chance(2, 3) ? 0 : r.below(6)); p.cfg.push_back(r.chance(2, 3) ? 0 : r.range(1, 3)); p.cfg.push_back(r.chance(1, 3) ? pauses[r.below(8)] : 0);
  }
  int n = (int)r.range(3, 26);
  static const int64_t k0[] = { 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9 }, k1[] = { 1, 1, 2, 2, 3, 5, 6, 8 };
  bool focus = r.chance(1, 2); int64_t fk = r.chance(1, 2) ? 2 : r.range(1, 9);
  for (int i = 0; i < n; ++i)
  {
    if (r.chance(1, 2)) { p.ops.push_back({ (int64_t)r.below(nt), 0, (int64_t)r.below(2), (int64_t)(r.chance(1, 2) ? 4 : r.below(6)), pauses[r.below(8)], (int64_t)r.range(4, 40) }); continue; }
    int64_t w = (int64_t)r.below(3) / 2, k = w ? k1[r.below(8)] : k0[r.below(11)];
    if (focus && r.chance(1, 2) && (!w || fk < 6 || fk == 8) && !(w && fk == 4)) k = fk;
    p.ops.push_back({ nt + w, k, (int64_t)r.below(2), (int64_t)(k == 3 ? r.below(2) : k == 4 || k == 7 ? r.below(6) : r.below(3)), pauses[r.below(8)], (int64_t)r.below(4) });
  }
}
static void run_reconf(const Plan& p)
{
  set_real(EPOCH0);
  int nt = (int)p.c(0, 1), nm = (int)p.c(2, 1);
  if (p.c(1)) set_rate(FT_EINTR_SEM, (int)p.c(1), 60);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  struct OutInfo { icl::LogOutputStream* o; Setting level, con[2]; bool gone; };
  std::vector<OutInfo*> info; info.reserve(16); outs.reserve(16);
  static std::vector<icl::LogOutputStream*> made(10);
  struct Reg { static icl::LogOutputStream* make(const icl_core::String& name, const icl_core::String& prefix, icl::LogLevel l) { icl::LogOutputStream* s = factory(name, prefix, l); made[name[3] - '0'] = s; return s; } };
  lm.registerLogOutputStream("Reg", &Reg::make);
  auto new_state = [&](bool worker, int level, ns_t work) { OutState* o = new OutState; o->worker = worker; o->level = level; o->work = work; o->raw = true; outs.push_back(o); return (int)outs.size() - 1; };
  for (int i = 0; i < nm; ++i)
  {
    int level = (int)p.c(6 + 4 * i) % 6, mask = (int)p.c(7 + 4 * i) & 3;
    new_state(p.c(5 + 4 * i, 1) != 0, level, p.c(8 + 4 * i));
    std::string e = "OutputStream" + num(i);
    cfg(e + "/OutputStreamName", "Reg"); cfg(e + "/Name", "Out" + num(i)); cfg(e + "/LogLevel", icl::logLevelDescription((icl::LogLevel)level));
    for (int s = 0; s < 2; ++s) if (mask >> s & 1) cfg(e + "/LogStream" + num(s), stream_name(s));
    OutInfo* f = new OutInfo; f->level = Setting(level); f->gone = false;
    for (int s = 0; s < 2; ++s) f->con[s] = Setting(mask == 0 || (mask >> s & 1));
    info.push_back(f);
  }
  Setting slevel[2], active[2];
  for (int s = 0; s < 2; ++s)
  {
    slevel[s] = Setting((int)p.c(3 + s) % 6); active[s] = Setting(1);
    cfg(std::string("LogStream") + num(s) + "/Name", stream_name(s)); cfg(std::string("LogStream") + num(s) + "/LogLevel", icl::logLevelDescription((icl::LogLevel)slevel[s].now()));
  }
  icl::initialize();
  for (int i = 0; i < nm; ++i) info[i]->o = made[i];
  std::vector<Sent*> sent;
  std::vector<int> ths;
  for (int t = 0; t < nt + 2; ++t)
    ths.push_back(spawn(t < nt ? "logger" : "reconfigure", [&, t]() {
      std::vector<int> own;                      // dynamic outputs of this thread
      auto destroy = [&](int x, int how) {
        OutInfo& f = *info[x];
        if (how & 1)
        {
          Change1 a(f.con[0], 0), b(f.con[1], 0);
          lm.removeLogOutputStream(f.o, false);
        }
        else
          for (int s = 0; s < 2; ++s)
            if (f.con[s].now()) { Change1 c(f.con[s], 0); stream(s).removeOutputStream(f.o); }
        f.o->shutdown();
        size_t n = 0; ATOMIC n = outs[x]->got.size();
        f.gone = true;
        delete f.o;
        ATOMIC { SIM_CHECK(outs[x]->got.size() == n, "drain", "an output went on after its shutdown"); SIM_CHECK(outs[x]->alive == 0, "lifetime", "the output was not destroyed"); }
        probe("output_deleted");
      };
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        if (arg(o, 4)) sleep_ns(arg(o, 4));
        int kind = (int)arg(o, 1), a = (int)arg(o, 2) % 2;
        if (t < nt)
        {
          Sent* m = new Sent; m->thread = t; m->stream = a; m->level = (int)arg(o, 3) % 6; m->text = body((int)i, (int)arg(o, 5));
          m->from = seq();
          icl::LogStream& st = stream(a);
          SLOGGING_LOG(st, (icl::LogLevel)m->level, m->text << icl::flush);
          m->to = seq();
          ATOMIC sent.push_back(m);
          continue;
        }
        // what this thread may touch: thread nt the configured outputs, both their own dynamic ones
        std::vector<int> mine = own;
        if (t == nt) for (int x = 0; x < nm; ++x) if (!info[x]->gone) mine.push_back(x);
        int x = mine.empty() ? -1 : mine[arg(o, 3) % mine.size()];
        switch (kind)
        {
          case 1: if (x >= 0) { Change1 c(info[x]->con[a], 1); stream(a).addOutputStream(info[x]->o); } break;
          case 2: if (x >= 0) { Change1 c(info[x]->con[a], 0); stream(a).removeOutputStream(info[x]->o); } break;
          case 3:
          {
            { Change1 c(active[a], arg(o, 3) != 0); stream(a).setActive(arg(o, 3) != 0); }
            break;
          }
          case 4: if (x >= 0) { int l = (int)arg(o, 3) % 6; { Change1 c(info[x]->level, l); info[x]->o->setLogLevel((icl::LogLevel)l); } SIM_CHECK(info[x]->o->getLogLevel() == l || t != nt, "level", "getLogLevel() does not report the level that was set"); } break;
          case 5:
            if (outs.size() < 9)
            {
              int k = 0; OutInfo* f = new OutInfo; f->gone = false;
              ATOMIC { k = new_state(arg(o, 5) != 0, (int)arg(o, 5) == 3 ? 3 : 0, 0); f->level = Setting(outs[k]->level); info.push_back(f); }
              f->o = make_sink(k, "Dyn" + num(k), "/Dyn", (icl::LogLevel)outs[k]->level);
              f->o->start();
              own.push_back(k);
              for (int s = 0; s < 2; ++s) if (arg(o, 2) != s || arg(o, 3)) { Change1 c(f->con[s], 1); stream(s).addOutputStream(f->o); }
            }
            break;
          case 6: if (!own.empty()) { int k = own[arg(o, 3) % own.size()]; own.erase(std::find(own.begin(), own.end(), k)); destroy(k, (int)arg(o, 5)); } break;
          case 7:
            if (t == nt)
            {
              int l = (int)arg(o, 3) % 6;
              std::vector<Change1*> cs;
              for (int s = 0; s < 2; ++s) cs.push_back(new Change1(slevel[s], l));
              for (int k = 0; k < nm; ++k) if (!info[k]->gone) cs.push_back(new Change1(info[k]->level, l));
              if (arg(o, 5) & 1) icl::setLogLevel((icl::LogLevel)l); else lm.setLogLevel((icl::LogLevel)l);
              for (size_t k = 0; k < cs.size(); ++k) delete cs[k];
              for (int s = 0; s < 2; ++s) SIM_CHECK(stream(s).getLogLevel() == l, "level", "getLogLevel() does not report the level that was set");
            }
            break;
          case 8:
            if (x >= 0) { Change1 c(info[x]->con[0], 0), d(info[x]->con[1], 0); lm.removeLogOutputStream(info[x]->o, false); }
            break;
          case 9:
            if (t == nt && x >= 0 && x < nm)
            {
              { Change1 c(info[x]->con[0], 0), d(info[x]->con[1], 0); lm.removeLogOutputStream(info[x]->o, true); }
              destroy(x, 1);
            }
            break;
        }
      }
      while (!own.empty()) { int k = own.back(); own.pop_back(); destroy(k, k); }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  icl::shutdown();
  sim::NoPreempt np;
  for (size_t x = 0; x < outs.size(); ++x)
  {
    SIM_CHECK(outs[x]->made == 1 && outs[x]->alive == 0, "lifetime", "output %zu was created %d times and is still there %d times", x, outs[x]->made, outs[x]->alive);
    if (outs[x]->worker) SIM_CHECK(outs[x]->starts == 1 && outs[x]->ends == 1, "worker", "onStart()/onShutdown() of an output ran %d/%d times", outs[x]->starts, outs[x]->ends);
    std::map<std::string, int> cnt;
    for (size_t k = 0; k < outs[x]->got.size(); ++k) ++cnt[outs[x]->got[k].text];
    size_t known = 0;
    for (size_t k = 0; k < sent.size(); ++k)
    {
      const Sent& m = *sent[k];
      std::set<int> ac = active[m.stream].during(m.from, m.to), sl = slevel[m.stream].during(m.from, m.to), ol = info[x]->level.during(m.from, m.to), cn = info[x]->con[m.stream].during(m.from, m.to);
      auto below = [&](const std::set<int>& l, bool all) { for (std::set<int>::const_iterator it = l.begin(); it != l.end(); ++it) if ((*it <= m.level) != all) return !all; return all; };
      bool must = !ac.count(0) && below(sl, true) && below(ol, true) && !cn.count(0);
      bool may = ac.count(1) && below(sl, false) && below(ol, false) && cn.count(1);
      int g = cnt.count(m.text) ? cnt[m.text] : 0;
      known += g;
      SIM_CHECK(g >= (int)must, "lost", "message '%.20s' (level %d) never came out of output %zu", m.text.c_str(), m.level, x);
      SIM_CHECK(g <= (int)may, may ? "duplicate" : "filter", "message '%.20s' (level %d) came out of output %zu %d times, at most %d", m.text.c_str(), m.level, x, g, (int)may);
      if (must != may) probe("concurrent_change");
    }
    SIM_CHECK(known == outs[x]->got.size(), "garbage", "an output got a message nobody logged");
  }
  check_no_threads();
}
SIM_SCENARIO_LONG(C13, reconfigure, gen_reconf, run_reconf, 40000, 300);

// ------------------------------------------------------------------ C14
// cfg: cycles, outputs, loggers, EINTR, command line level (-1: none) and the cycle it is given in, [worker, work]*2, standard outputs (1 Stdout, 2 Stderr, 4 with the names of the quick debugging, 8 entries that mean nothing, 16 from the second cycle on), quick debugging, per cycle: way in, way out, stream levels A,B, output levels 0,1, masks 0,1, dynamic stream
// op: cycle, thread, stream, level, pause, length
namespace {
struct CaptureOut : std::streambuf     // takes the place of the terminal behind std::cout or std::cerr
{
  std::string data; std::ostream& stream; std::streambuf* old;
  CaptureOut(std::ostream& s) : stream(s) { old = stream.rdbuf(this); }
  ~CaptureOut() { stream.rdbuf(old); }
  int overflow(int c) { if (c != EOF) data += (char)c; return 0; }
  std::streamsize xsputn(const char* d, std::streamsize n) { sim::yield(); data.append(d, (size_t)n); return n; }
};
}
static const int CYC = 12, CYN = 10;
static void gen_cycles(Rng& r, Plan& p)
{
  int nc = (int)r.range(1, 3), no = (int)r.below(3), nt = (int)r.range(1, 3);
  p.cfg = { nc, no, nt, r.chance(1, 3) ? r.range(20, 300) : 0, (int64_t)(r.chance(1, 3) ? r.below(7) : -1), (int64_t)r.below(nc), 0, 0, 0, 0, (int64_t)(r.chance(1, 3) ? r.below(8) : 0) + (r.chance(1, 6) ? 8 : 0) + (nc > 1 && r.chance(1, 5) ? 16 : 0), (int64_t)r.chance(1, 3) };
  for (int i = 0; i < 2; ++i) { p.cfg[6 + 2 * i] = r.chance(2, 3); p.cfg[7 + 2 * i] = r.chance(1, 4) ? pauses[r.below(8)] : 0; }
  for (int c = 0; c < nc; ++c)
  {
    bool same = c && r.chance(1, 2);
    for (int k = 0; k < CYN; ++k)
    {
      int64_t v = 0;
      if (k == 0) v = r.below(6); else if (k == 1) v = r.below(3); else if (k == 8) v = r.below(4);
      else if (same) v = p.cfg[CYC + (c - 1) * CYN + k];
      else if (k == 2 || k == 3) v = r.chance(1, 5) ? -1 : r.chance(1, 10) ? -2 : (int64_t)r.below(6);       // -1: no level configured (only from the start), -2: an illegal one
      else if (k == 4 || k == 5) v = r.chance(1, 5) ? -1 : r.chance(1, 10) ? -2 : (int64_t)r.below(6);
      else if (k == 6 || k == 7) v = r.below(4);
      if (c && v == -1) v = p.cfg[CYC + (c - 1) * CYN + k];
      p.cfg.push_back(v);
    }
  }
  int n = (int)r.range(1, 16);
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nc), (int64_t)r.below(nt), (int64_t)r.below(4), (int64_t)(r.chance(1, 2) ? 4 : r.below(6)), pauses[r.below(8)], (int64_t)r.range(5, 40) });
}
static void run_cycles(const Plan& p)
{
  set_real(EPOCH0);
  CaptureOut capture(std::cout), capture2(std::cerr); std::string& out1 = capture.data; std::string& out2 = capture2.data;
  static const char path[] = "/simfs/log/quick.log";
  fs::mkdir("/simfs/log");
  int nc = (int)p.c(0, 1), no = (int)p.c(1), nt = (int)p.c(2, 1);
  if (p.c(3)) set_rate(FT_EINTR_SEM, (int)p.c(3), 60);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", factory);
  for (int i = 0; i < no; ++i)
  {
    OutState* o = new OutState;
    o->worker = p.c(6 + 2 * i, 1) != 0; o->work = p.c(7 + 2 * i); outs.push_back(o);
  }
  static char a0[] = "prog", a1[] = "-l", a3[] = "-qd", a4[64]; static char a2[16];
  strcpy(a4, path);
  bool quick = false;
  if ((p.c(10) & 8) && (no || (p.c(10) & 19) == 1))
  {
    // entries that mean nothing here
    cfg("OutputStream/OutputStreamName", "NoSuchOutput"); cfg("OutputStream/LogLevel", "Trace");
    cfg("LogStream/Name", "NoSuchStream"); cfg("LogStream/LogLevel", "Error"); cfg("LogStream/Other", "x");
  }
  int cl = (int)p.c(4, -1); bool cl_given = false, cl_read = false;   // only the first command line counts
  for (int c = 0; c < nc; ++c)
  {
    auto C = [&](int k) { return (int)p.c(CYC + c * CYN + k); };
    int stds = (int)p.c(10);
    if ((stds & 16) && c == 0) stds &= ~7;          // from the second time on
    if (c == ((stds & 16) ? 1 : 0))
      for (int i = 0; i < 2; ++i)
        if (stds >> i & 1)
        {
          std::string e = "OutputStream" + num(i + 5);
          cfg(e + "/OutputStreamName", i ? "Stderr" : "Stdout"); cfg(e + "/LogLevel", i ? "Warning" : "Debug");
          if (stds & 4) cfg(e + "/Name", i ? "QuickDebug1" : "QuickDebug");
        }
    int slevel[4], olevel[2], mask[2];
    for (int s = 0; s < 2; ++s)
    {
      slevel[s] = C(2 + s) < 0 ? icl::eLL_INFO : C(2 + s) % 6;
      cfg(std::string("LogStream") + num(s) + "/Name", stream_name(s));
      if (C(2 + s) != -1) cfg(std::string("LogStream") + num(s) + "/LogLevel", C(2 + s) < 0 ? "Loud" : icl::logLevelDescription((icl::LogLevel)slevel[s]));
    }
    for (int i = 0; i < no; ++i)
    {
      std::string e = "OutputStream" + num(i);
      olevel[i] = C(4 + i) < 0 ? icl::eLL_INFO : C(4 + i) % 6; mask[i] = C(6 + i) & 3;
      cfg(e + "/OutputStreamName", "Sink"); cfg(e + "/Name", "Out" + num(i));
      if (C(4 + i) != -1) cfg(e + "/LogLevel", C(4 + i) < 0 ? "" : icl::logLevelDescription((icl::LogLevel)olevel[i]));
      // a key cannot be taken out of the configuration: an entry that is not wanted names a stream that does not exist
      bool any = false; for (int d = 0; d <= c; ++d) if (p.c(CYC + d * CYN + 6 + i) & 3) any = true;
      if (any) for (int s = 0; s < 2; ++s) cfg(e + "/LogStream" + num(s), mask[i] == 0 || (mask[i] >> s & 1) ? stream_name(s) : "Nobody");
    }
    slevel[2] = slevel[3] = icl::eLL_INFO;
    bool dyn_all[2] = { false, false };
    for (int i = 0; i < no; ++i) { bool any = false; for (int d = 0; d <= c; ++d) if (p.c(CYC + d * CYN + 6 + i) & 3) any = true; dyn_all[i] = !any; }
    int way = C(0) % 6;
    int argc = 1; char* argv[6] = { a0, a1, a2, 0, 0, 0 };
    if (cl >= 0 && c == p.c(5) && (way == 1 || way == 2 || way == 4)) { strcpy(a2, cl == 6 ? "Loud" : icl::logLevelDescription((icl::LogLevel)(cl % 6))); argc = 3; cl_given |= !cl_read && cl != 6; }
    if (p.c(11) && (way == 1 || way == 2 || way == 4)) { argv[argc++] = a3; argv[argc++] = a4; quick |= !cl_read; }
    if (way == 1 || way == 2 || way == 4) cl_read = true;
    icl::LifeCycle* lc = 0; boost::shared_ptr<icl::LifeCycle> as;
    SIM_CHECK(!lm.initialized(), "state", "initialized() is true before the initialization");
    int made[2] = { 0, 0 }; for (int i = 0; i < no; ++i) made[i] = outs[i]->made;
    size_t got0[2] = { 0, 0 }; for (int i = 0; i < no; ++i) got0[i] = outs[i]->got.size();
    out1.clear(); out2.clear();
    size_t q0 = fs::get(path).size();
    switch (way)
    {
      case 1: SIM_CHECK(icl::initialize(argc, argv, icl_core::config::Getopt::eCLC_None, icl_core::config::Getopt::ePRC_Strict), "state", "initialize() failed"); break;
      case 2: lc = new icl::LifeCycle(argc, argv); break;
      case 3: SLOGGING_LOG(stream(0), icl::eLL_TRACE, "" << icl::flush); break;
      case 4: as = icl::autoStart(argc, argv); break;
      case 5: icl::initialize(); icl::initialize(); break;
      default: icl::initialize();
    }
    int stdlevel[2] = { icl::eLL_DEBUG, icl::eLL_WARNING }, qlevel = icl::eLL_TRACE;
    if (cl_given) for (int s = 0; s < 4; ++s) { slevel[s] = cl % 6; if (s < no) olevel[s] = cl % 6; if (s < 2) stdlevel[s] = cl % 6; }
    if (quick) slevel[3] = icl::eLL_TRACE;
    bool def = (no == 0 && !(stds & 3)) || cl_given;                   // the default output (standard output) exists
    int deflevel = cl_given ? cl % 6 : icl::eLL_INFO;
    SIM_CHECK(lm.initialized(), "state", "initialized() is false after the initialization");
    for (int i = 0; i < no; ++i)
    {
      SIM_CHECK(outs[i]->alive == 1 && outs[i]->made == made[i] + 1, "configured", "cycle %d: a configured output exists %d times (created %d times)", c, outs[i]->alive, outs[i]->made - made[i]);
      outs[i]->level = olevel[i];
      SIM_CHECK(outs[i]->self->getLogLevel() == olevel[i], "configured", "cycle %d: output %d has level %d, configured is %d", c, i, (int)outs[i]->self->getLogLevel(), olevel[i]);
    }
    icl::LogStream* dyn = 0;
    if (C(8))
    {
      dyn = new icl::LogStream("SimDyn");
      lm.registerLogStream(dyn);
      lm.configure();
    }
    for (int s = 0; s < 2; ++s) SIM_CHECK(stream(s).getLogLevel() == slevel[s], "configured", "cycle %d: stream %s has level %d, configured is %d", c, stream_name(s), (int)stream(s).getLogLevel(), slevel[s]);
    if (dyn) SIM_CHECK(dyn->getLogLevel() == slevel[2], "configured", "the level of a dynamic stream is %d instead of %d", (int)dyn->getLogLevel(), slevel[2]);
    if (C(8) == 3)
    {
      int g = (c * 5 + 2) % 5;
      icl::setLogLevel((icl::LogLevel)g);
      for (int s = 0; s < 4; ++s) { slevel[s] = g; if (s < no) outs[s]->level = olevel[s] = g; if (s < 2) stdlevel[s] = g; }
      deflevel = qlevel = g;
      for (int s = 0; s < no; ++s) SIM_CHECK(outs[s]->self->getLogLevel() == g, "configured", "cycle %d: output %d has level %d after setLogLevel(%d)", c, s, (int)outs[s]->self->getLogLevel(), g);
    }
    std::vector<Sent*> sent; std::vector<int> ths;
    for (int t = 0; t < nt; ++t)
      ths.push_back(spawn("logger", [&, t]() {
        for (size_t i = 0; i < p.ops.size(); ++i)
        {
          const std::vector<int64_t>& o = p.ops[i];
          if (arg(o, 0) != c || arg(o, 1) != t) continue;
          if (arg(o, 4)) sleep_ns(arg(o, 4));
          int s = (int)arg(o, 2) % 4;
          if (s == 2 && !dyn) s = 0;
          if (s == 3 && dyn && cl_given && quick) s = 0;          // which of -l and -qd counts after configure() is not said
          Sent* m = new Sent; m->thread = t; m->stream = s; m->level = (int)arg(o, 3) % 6; m->text = body((int)i, (int)arg(o, 5));
          m->from = seq();
          icl::LogStream& st = s == 2 ? *dyn : s == 3 ? icl_core::logging::QuickDebug::instance() : stream(s);
          SLOGGING_LOG(st, (icl::LogLevel)m->level, m->text << icl::endl); m->text += "\n";
          m->to = seq();
          ATOMIC sent.push_back(m);
        }
      }));
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    if (dyn && C(8) == 2) delete dyn;             // otherwise the manager does it
    switch (C(1))
    {
      case 1: if (lc) { delete lc; lc = 0; } else if (as) as.reset(); else icl::shutdown(); break;
      case 2: icl::shutdown(); icl::shutdown(); break;
      default: lm.shutdown();
    }
    SIM_CHECK(!lm.initialized(), "state", "initialized() is true after the shutdown");
    check_no_threads();
    for (int i = 0; i < no; ++i)
    {
      SIM_CHECK(outs[i]->alive == 0 && outs[i]->made == made[i] + 1, "lifetime", "cycle %d: output %d survived the shutdown or was created again", c, i);
      if (outs[i]->worker) SIM_CHECK(outs[i]->starts == outs[i]->made && outs[i]->ends == outs[i]->made, "worker", "onStart()/onShutdown() of an output ran %d/%d times in %d cycles", outs[i]->starts, outs[i]->ends, outs[i]->made);
      std::map<std::string, int> cnt;
      for (size_t k = got0[i]; k < outs[i]->got.size(); ++k) ++cnt[outs[i]->got[k].text];
      size_t total = 0;
      for (size_t k = 0; k < sent.size(); ++k)
      {
        const Sent& m = *sent[k];
        bool con = m.stream >= 2 ? dyn_all[i] : mask[i] == 0 || (mask[i] >> m.stream & 1);
        int w = con && m.level >= slevel[m.stream] && m.level >= olevel[i], g = cnt.count(m.text) ? cnt[m.text] : 0;
        total += w;
        SIM_CHECK(g >= w, "lost", "cycle %d: message '%.20s' never came out of output %d", c, m.text.c_str(), i);
        SIM_CHECK(g <= w, w ? "duplicate" : "filter", "cycle %d: message '%.20s' came out of output %d %d times instead of %d", c, m.text.c_str(), i, g, w);
      }
      if (way == 3 && (mask[i] == 0 || mask[i] & 1) && slevel[0] == 0 && olevel[i] == 0) continue;   // the first, empty message
      SIM_CHECK(outs[i]->got.size() - got0[i] <= total + (way == 3), "garbage", "cycle %d: output %d got %zu messages, %zu were meant for it", c, i, outs[i]->got.size() - got0[i], total);
    }
    for (size_t k = 0; k < sent.size(); ++k)
    {
      const Sent& m = *sent[k];
      std::string tail = " " + m.text;
      auto count = [&](const std::string& in) { int g = 0; for (size_t at = in.find(tail); at != std::string::npos; at = in.find(tail, at + 1)) ++g; return g; };
      bool passed = m.level >= slevel[m.stream];
      int w = (def && passed && m.level >= deflevel) + ((stds & 1) && passed && m.level >= stdlevel[0]), g = count(out1);
      int we = (stds & 2) && passed && m.level >= stdlevel[1], ge = count(out2);
      SIM_CHECK(ge == we, ge < we ? "lost" : we ? "duplicate" : "filter", "cycle %d: message '%.20s' came out of standard error %d times instead of %d", c, m.text.c_str(), ge, we);
      int wq = quick && m.stream == 3 && passed && m.level >= qlevel, gq = count(fs::get(path).substr(q0));
      SIM_CHECK(gq == wq, gq < wq ? "lost" : wq ? "duplicate" : "filter", "cycle %d: message '%.20s' is in the file of the quick debugging %d times instead of %d", c, m.text.c_str(), gq, wq);
      if (wq) probe("quick_debug");
      if (we) probe("standard_error");
      SIM_CHECK(g == w, g < w ? "lost" : w ? "duplicate" : "filter", "cycle %d: message '%.20s' came out of standard output %d times instead of %d", c, m.text.c_str(), g, w);
    }
    if (lc) delete lc;
    as.reset();
    SIM_CHECK(!lm.initialized(), "state", "initialized() is true after the shutdown");
    if (c) probe("initialized_again");
  }
}
SIM_SCENARIO_LONG(C14, cycles, gen_cycles, run_cycles, 30000, 200);
