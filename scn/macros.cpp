// C35: every logging macro logs exactly the message it names, or nothing at all.
#include "macros.h"
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_config/Config.h>
using namespace scn;
namespace icl = icl_core::logging;
MacroBuild& macro_build(int i) { static MacroBuild b[4]; return b[i]; }
namespace {
struct Line { int level; std::string stream, file, cls, obj, fn, text; int64_t line; };
std::vector<Line> lines;
struct Sink : icl::LogOutputStream
{
  Sink(const std::string& n, const std::string& p, icl::LogLevel l, bool w) : icl::LogOutputStream(n, p, l, w) { }
  void pushImpl(const LogMessage& m)
  {
    Line l; l.level = m.log_level; l.stream = m.log_stream; l.file = m.filename; l.cls = m.class_name; l.obj = m.object_name; l.fn = m.function_name; l.text = m.message_text; l.line = (int64_t)m.line;
    ATOMIC lines.push_back(l);
    ev("line", (int64_t)l.text.size());
  }
};
bool worker;
icl::LogOutputStream* make(const icl_core::String& n, const icl_core::String& p, icl::LogLevel l) { return new Sink(n, p, l, worker); }
std::vector<MacroCall*> calls;
int level_now, active_now;
bool enabled(const MacroCall& c, const MacroBuild& b)
{
  bool m = c.family == 4 || c.family == 5, l = c.family >= 6, generic = c.variant >= 3;
  if (generic) { int f = c.family % 6; m = f >= 4; l = false; }
  if (!generic && c.level < icl::eLL_INFO && !b.debug) return false;
  if (m && !c.debug) return false;
  if (l && !b.local) return false;
  return (active_now >> c.stream & 1) && c.level >= level_now;
}
MacroBuild* build_now;
void perform(MacroCall* c)
{
  ATOMIC calls.push_back(c);
  c->line = -1; c->evaluated = 0; c->from = seq();
  build_now->call(*c);
  c->to = seq();
  bool on = enabled(*c, *build_now);
  if (!on && c->inner && !c->evaluated) { delete c->inner; c->inner = 0; }
  SIM_CHECK(c->evaluated == (on ? 1 : 0), "arguments", "the arguments of call %d (family %d, variant %d, level %d) were evaluated %d times, the message should%s be logged", c->id, c->family, c->variant, c->level, c->evaluated, on ? "" : " not");
}
}
const std::string& MacroCall::text()
{
  ++evaluated;
  if (inner) { perform(inner); }
  return plain;
}
const char* MacroCall::object() { static const char* const names[] = { "", "o", "an object", "0123456789012345678901234567890123456789" }; return names[id % 4]; }
namespace {
// cfg: threads, worker, build, EINTR; op: 0 call (thread, family, variant, level, stream, debug, nested, text length, pause) | 1 new phase (level, active)
void gen_macros(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3), n = (int)r.range(1, 24);
  p.cfg = { nt, (int64_t)r.chance(1, 2), (int64_t)r.below(4), (int64_t)r.chance(1, 4) };
  for (int i = 0; i < n; ++i)
    if (r.chance(1, 6)) p.ops.push_back({ 1, (int64_t)r.below(6), (int64_t)(r.chance(2, 3) ? 3 : r.below(4)) });
    else p.ops.push_back({ 0, (int64_t)r.below(nt), (int64_t)r.below(8), (int64_t)r.below(7), (int64_t)r.below(5), (int64_t)r.below(2), (int64_t)r.chance(3, 4), (int64_t)(r.chance(1, 5) ? r.range(1, 56) : 0), (int64_t)r.below(40), (int64_t)r.below(6) });
}
void run_macros(const Plan& p)
{
  static const ns_t pauses[] = { 0, 0, 0, US, MS, 20 * MS };
  int nt = std::max(1, (int)p.c(0, 1));
  worker = p.c(1) != 0; build_now = &macro_build((int)p.c(2) % 4);
  if (p.c(3)) set_rate(FT_EINTR_SEM, 100, 40);
  icl::LoggingManager& lm = icl::LoggingManager::instance();
  lm.registerLogOutputStream("Sink", make);
  auto cfg = [](const std::string& k, const std::string& v) { icl_core::config::setValue<icl_core::String>("/IclCore/Logging/" + k, v); };
  cfg("OutputStream0/OutputStreamName", "Sink"); cfg("OutputStream0/Name", "Out0"); cfg("OutputStream0/LogLevel", "Trace");
  for (int s = 0; s < 2; ++s) { cfg("LogStream" + num(s) + "/Name", build_now->name[s]); cfg("LogStream" + num(s) + "/LogLevel", "Trace"); }
  icl::initialize();
  icl::LogStream* st[2] = { build_now->create[0](), build_now->create[1]() };
  lines.reserve(200); calls.reserve(200);
  level_now = 0; active_now = 3;
  size_t start = 0;
  while (start < p.ops.size())
  {
    size_t end = start;
    while (end < p.ops.size() && arg(p.ops[end], 0) == 0) ++end;
    std::vector<int> ths;
    for (int t = 0; t < nt && end > start; ++t)
      ths.push_back(spawn("caller", [&, t]() {
        for (size_t i = start; i < end; ++i)
        {
          const std::vector<int64_t>& o = p.ops[i];
          if (arg(o, 1) % nt != t) continue;
          if (arg(o, 9) % 6) { ns_t d = pauses[arg(o, 9) % 6]; if (d) sleep_ns(d); }
          MacroCall* c = new MacroCall;
          c->family = (int)arg(o, 2) % 8; c->variant = (int)arg(o, 3) % 7; c->level = (int)arg(o, 4) % 5; c->stream = (int)arg(o, 5) % 2; c->debug = arg(o, 6) != 0; c->id = (int)i; c->thread = t; c->nested = 0; c->inner = 0;
          c->plain = "m" + num((int64_t)i) + std::string(arg(o, 8) % 40, 'x') + (arg(o, 8) % 3 ? "" : "%d %s");
          if (arg(o, 7))
          {
            // the argument logs itself, to the other stream
            MacroCall* n = new MacroCall(*c);
            int64_t k = arg(o, 7);
            n->family = (int)(k % 8); n->variant = (int)(k % 7); n->level = (int)(k % 5); n->stream = 1 - c->stream; n->id = 100 + (int)i; n->nested = 1; n->plain = "n" + num((int64_t)i);
            c->inner = n;
          }
          perform(c);
        }
      }));
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    if (end < p.ops.size())
    {
      level_now = (int)arg(p.ops[end], 1) % 6; active_now = (int)arg(p.ops[end], 2) & 3;
      icl::setLogLevel((icl::LogLevel)level_now);
      for (int s = 0; s < 2; ++s) st[s]->setActive(active_now >> s & 1);
      ++end;
    }
    start = end;
  }
  icl::shutdown();
  std::vector<char> used(lines.size(), 0);
  size_t expected = 0;
  for (MacroCall* c : calls)
  {
    if (!c->evaluated) continue;
    ++expected;
    bool fmt = c->variant < 3 ? c->family % 2 : c->family % 6 % 2;
    std::string text = c->plain + (fmt ? ":" + num(c->id) : "\n");
    const char* diff = "text";
    for (size_t i = 0; i < lines.size(); ++i)
    {
      const Line& l = lines[i];
      if (used[i] || l.text != text) continue;
      used[i] = 1;
      diff = l.level != c->level ? "level" : l.stream != build_now->name[c->stream] ? "stream" : l.file != c->file ? "file" : l.line != c->line ? "line" : l.cls != c->cls ? "class" : l.obj != c->obj ? "object" : l.fn != c->fn ? "function" : 0;
      break;
    }
    SIM_CHECK(!diff, "field", "call %d (family %d, variant %d, level %d) came out with a wrong %s", c->id, c->family, c->variant, c->level, diff);
    if (c->nested) probe("nested");
    probe(c->family / 2 == 0 ? "LOGGING" : c->family / 2 == 1 ? "SLOGGING" : c->family / 2 == 2 ? "MLOGGING" : "LLOGGING");
  }
  SIM_CHECK(expected == lines.size(), "count", "%zu messages came out of %zu", lines.size(), expected);
  for (MacroCall* c : calls) delete c;
}
}
SIM_SCENARIO_LONG(C35, macros, gen_macros, run_macros, 25000, 150);
