// C33: a program gets its settings with their types from files, command line and defaults, or is told that it cannot.
#include "common.h"
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigHelper.h>
#include <icl_core_config/ConfigEnum.h>
#include <icl_core_config/ConfigEnumDefault.h>
#include <icl_core_config/ConfigList.h>
#include <icl_core_config/ConfigValue.h>
#include <icl_core_config/ConfigValueDefault.h>
#include <icl_core_config/ConfigValues.h>
#include <icl_core_config/MemberEnum.h>
#include <icl_core_config/MemberValue.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogOutputStream.h>
#include <limits>
using namespace scn;
namespace cf = icl_core::config;
namespace icl = icl_core::logging;
DECLARE_LOG_STREAM(SimG)
REGISTER_LOG_STREAM(SimG)
namespace {
// The same world is checked for the typed settings (C33) and for the command line (C34).
bool cmd_mode;
#define CMD_CHECK(c, ...) do { if (cmd_mode) { SIM_CHECK(c, __VA_ARGS__); } } while (0)
#define SET_CHECK(c, ...) do { if (!cmd_mode) { SIM_CHECK(c, __VA_ARGS__); } } while (0)
// ---------------------------------------------------------------- texts, and what they mean
enum Type { I16, U16, I32, U32, I64, U64, FLT, DBL, BOOL, STR, ENUM, NTYPE };
struct Meaning { int ok; __int128 i; double d; bool b; int e; };          // ok: 1 a value, 0 none, -1 not claimed
enum Color { RED, GREEN, BLUE, DARK_BLUE };
const char* colors[] = { "red", "green", "blue", "dark blue", NULL };
const char* colors_end[] = { "red", "green", "blue", "dark blue", "END" };
const std::vector<std::string> colors_vec(colors, colors + 4);
struct Text { std::string s; bool isint; __int128 i; bool isdbl; double d; int b; };
typedef __int128 i128;
std::string dec(i128 v) { bool neg = v < 0; if (neg) v = -v; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return (neg ? "-" : "") + s; }
Text make_text(int64_t id)
{
  static const int64_t edges[] = { 0, 1, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256, 999, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, INT64_MAX };
  static const char* const words[] = { "", "abc", "-", "x1", "yes", "Yes", "TRUE", "true", "no", "NO", "False", "false", "maybe", "red", "green", "blue", "dark blue", "dark", "two words", " ", "Red", "yellow", "END", "tRuE", "truefalse", "on" };
  static const char* const dbl[] = { "1.5", "-2.25", "1e3", "0.1", "-1.5e-7", "123456.789", ".5", "3.", "1e300", "6.02214076e23", "1e999", "16777217" };
  Text t; t.isint = t.isdbl = false; t.i = 0; t.d = 0; t.b = -1;
  int64_t k = id % 12, v = id / 12;
  if (k < 6)
  {
    t.isint = true;
    t.i = v % 3 ? (i128)edges[v / 3 % 24] : (i128)((uint64_t)v * 2654435761ULL % 1000003);
    if (k == 5) t.i = (i128)1 << (62 + v % 8);
    if (v / 72 % 4 == 1) t.i += 1;
    if (v / 72 % 4 == 2 && t.i > 0) t.i -= 1;
    if (k == 1) t.i = -t.i;
    std::string s = dec(t.i);
    char buf[60];
    if (k == 2 && t.i <= UINT64_MAX) { snprintf(buf, 60, v % 2 ? "0x%llx" : "0X%llX", (unsigned long long)t.i); s = buf; }
    else if (k == 3 && t.i <= UINT64_MAX && t.i > 0) { snprintf(buf, 60, "0%llo", (unsigned long long)t.i); s = buf; }
    else { t.isdbl = true; t.d = strtod(s.c_str(), 0); }
    if (k == 4 && v % 5 == 1) s = "  " + s;
    if (k == 4 && v % 5 == 2) s += " ms";
    if (k == 4 && v % 5 == 3) s = "+" + s;
    t.s = s;
    if (s == "0") t.b = 0;
    if (s == "1") t.b = 1;
    return t;
  }
  if (k < 8) { t.s = dbl[v % 12]; t.isdbl = true; t.d = strtod(t.s.c_str(), 0); return t; }
  t.s = words[v % 26];
  std::string l; for (char c : t.s) l += (char)tolower(c);
  if (l == "yes" || l == "true") t.b = 1;
  if (l == "no" || l == "false") t.b = 0;
  return t;
}
template <class T> bool fits(i128 v) { return v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max(); }
Meaning meaning(const Text& t, int type)
{
  Meaning m; m.ok = 0; m.i = t.i; m.d = t.d; m.b = t.b == 1; m.e = 0;
  switch (type)
  {
    case I16: m.ok = t.isint ? fits<int16_t>(t.i) : t.isdbl ? -1 : 0; break;
    case U16: m.ok = t.isint && t.i < 0 ? -1 : t.isint ? fits<uint16_t>(t.i) : t.isdbl ? -1 : 0; break;
    case I32: m.ok = t.isint ? fits<int32_t>(t.i) : t.isdbl ? -1 : 0; break;
    case U32: m.ok = t.isint && t.i < 0 ? -1 : t.isint ? fits<uint32_t>(t.i) : t.isdbl ? -1 : 0; break;
    case I64: m.ok = t.isint ? fits<int64_t>(t.i) : t.isdbl ? -1 : 0; break;
    case U64: m.ok = t.isint && t.i < 0 ? -1 : t.isint ? fits<uint64_t>(t.i) : t.isdbl ? -1 : 0; break;
    case FLT: m.ok = t.isdbl ? (t.d <= std::numeric_limits<float>::max() && t.d >= -std::numeric_limits<float>::max()) : t.isint ? -1 : 0; if (t.isdbl) m.d = strtof(t.s.c_str(), 0); break;
    case DBL: m.ok = t.isdbl ? t.d <= std::numeric_limits<double>::max() : t.isint ? -1 : 0; break;
    case BOOL: m.ok = t.b >= 0; if (t.s.find(' ') != std::string::npos || t.s[0] == '+') m.ok = -1; break;
    case STR: m.ok = 1; break;
    default: for (int i = 0; i < 4; ++i) if (t.s == colors[i]) { m.ok = 1; m.e = i; } break;
  }
  return m;
}
const char* const tname[] = { "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double", "bool", "String", "enum" };
// A variable of any of the types; before it is read it holds something else.
struct Var
{
  int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; bool b; std::string s; Color e;
  int fill;
  explicit Var(int fill) : fill(fill) { set(fill); }
  void set(int n) { i16 = (int16_t)(n + 3); u16 = (uint16_t)(n + 4); i32 = n + 5; u32 = n + 6; i64 = n + 7; u64 = n + 8; f = n + .5f; d = n + .25; b = n % 2; s = "before " + num(n); e = n % 2 ? BLUE : RED; }
  // Is it what the text means?
  bool is(int type, const Meaning& m, const std::string& text) const
  {
    switch (type)
    {
      case I16: return i16 == m.i; case U16: return u16 == m.i; case I32: return i32 == m.i; case U32: return u32 == m.i; case I64: return i64 == m.i; case U64: return u64 == m.i;
      case FLT: return f == (float)m.d; case DBL: return d == m.d; case BOOL: return b == m.b; case STR: return s == text; default: return e == m.e;
    }
  }
  bool same(int type, const Var& o) const
  {
    switch (type)
    {
      case I16: return i16 == o.i16; case U16: return u16 == o.u16; case I32: return i32 == o.i32; case U32: return u32 == o.u32; case I64: return i64 == o.i64; case U64: return u64 == o.u64;
      case FLT: return f == o.f; case DBL: return d == o.d; case BOOL: return b == o.b; case STR: return s == o.s; default: return e == o.e;
    }
  }
};
bool get_one(int type, const std::string& key, Var& v, int how)
{
  switch (type)
  {
    case I16: return cf::get<int16_t>(key, v.i16); case U16: return cf::get<uint16_t>(key, v.u16); case I32: return how % 2 ? cf::get<int32_t>(key.c_str(), v.i32) : cf::get<int32_t>(key, v.i32); case U32: return cf::get<uint32_t>(key, v.u32);
    case I64: return cf::get<int64_t>(key, v.i64); case U64: return cf::get<uint64_t>(key, v.u64); case FLT: return cf::get<float>(key, v.f); case DBL: return cf::get<double>(key, v.d);
    case BOOL: return cf::get<bool>(key, v.b); case STR: return how % 2 ? cf::get<std::string>(key.c_str(), v.s) : cf::get<icl_core::String>(key, v.s);
    default: return how % 2 ? cf::get<Color>(key, v.e, colors_end, "END") : cf::get<Color>(key.c_str(), v.e, colors);
  }
}
void get_default(int type, const std::string& key, Var& v, const Var& d)
{
  switch (type)
  {
    case I16: v.i16 = cf::getDefault<int16_t>(key, d.i16); break; case U16: v.u16 = cf::getDefault<uint16_t>(key, d.u16); break; case I32: v.i32 = cf::getDefault<int32_t>(key.c_str(), d.i32); break; case U32: v.u32 = cf::getDefault<uint32_t>(key, d.u32); break;
    case I64: v.i64 = cf::getDefault<int64_t>(key, d.i64); break; case U64: v.u64 = cf::getDefault<uint64_t>(key, d.u64); break; case FLT: v.f = cf::getDefault<float>(key, d.f); break; case DBL: v.d = cf::getDefault<double>(key, d.d); break;
    case BOOL: v.b = cf::getDefault<bool>(key, d.b); break; default: v.s = cf::getDefault<icl_core::String>(key, d.s); break;
  }
}
int entries_alive;
template <class B> struct Counted : B { template <class... A> Counted(A&&... a) : B(std::forward<A>(a)...) { ATOMIC ++entries_alive; } ~Counted() { ATOMIC --entries_alive; } };
cf::impl::ConfigValueIface* entry(int type, const std::string& key, Var& v, const Var* d)
{
#define ENTRY(T, m) return d ? (cf::impl::ConfigValueIface*)new Counted<cf::ConfigValueDefault<T> >(key, v.m, d->m) : new Counted<cf::ConfigValue<T> >(key, v.m)
  switch (type)
  {
    case I16: ENTRY(int16_t, i16); case U16: ENTRY(uint16_t, u16); case I32: ENTRY(int32_t, i32); case U32: ENTRY(uint32_t, u32); case I64: ENTRY(int64_t, i64); case U64: ENTRY(uint64_t, u64);
    case FLT: ENTRY(float, f); case DBL: ENTRY(double, d); case BOOL: ENTRY(bool, b); case STR: ENTRY(std::string, s);
    default: if (v.fill % 3 == 0) return d ? (cf::impl::ConfigValueIface*)new Counted<cf::ConfigEnumDefault<Color> >(key, v.e, d->e, colors_end, "END") : new Counted<cf::ConfigEnum<Color> >(key, v.e, colors_end, "END");
      return d ? (cf::impl::ConfigValueIface*)new Counted<cf::ConfigEnumDefault<Color> >(key, v.e, d->e, colors) : new Counted<cf::ConfigEnum<Color> >(key, v.e, colors);
  }
}
// ---------------------------------------------------------------- the world
std::map<std::string, Text> texts;            // what every key should hold; only the first thread changes it, before the others start
const char* const keys[] = { "/s/k0", "/s/k1", "/s/k2", "/s/k3", "/s/sub/k4", "/s/sub/k5", "/s/sub/more/k6", "/s/k7" };
const int NK = 8;
const char* const lists[] = { "/list", "/l.st", "/list/inner" };
const char* const elems[] = { "a", "b", "a1", "inner", "a.b", "Z" };
const char* const members[] = { "num", "text", "sub/color", "sub/weight", "on", "other" };
struct Element { int32_t n; std::string text; struct Sub { Color color; double weight; } sub; bool on; int64_t other; Element() : n(-1), text("-"), on(false), other(-1) { sub.color = RED; sub.weight = -1; } };
int32_t& acc_n(Element& e) { return e.n; } std::string& acc_t(Element& e) { return e.text; } Color& acc_c(Element& e) { return e.sub.color; } double& acc_w(Element& e) { return e.sub.weight; } bool& acc_o(Element& e) { return e.on; }
int32_t& acc_self(int32_t& e) { return e; }
std::map<std::string, int> errors, wanted;
struct Sink : icl::LogOutputStream
{
  Sink(const std::string& n, const std::string& p, icl::LogLevel l, bool w) : icl::LogOutputStream(n, p, l, w) { }
  void pushImpl(const LogMessage& m)
  {
    std::string t = m.message_text; if (m.log_level != icl::eLL_ERROR) return;
    size_t a = t.find('"'), b = a == std::string::npos ? a : t.find('"', a + 1);
    if (b != std::string::npos) ATOMIC ++errors[t.substr(a + 1, b - a - 1)];
  }
};
bool worker;
icl::LogOutputStream* make(const icl_core::String& n, const icl_core::String& p, icl::LogLevel l) { return new Sink(n, p, l, worker); }
Text text_of(const std::string& k, bool& has) { std::map<std::string, Text>::const_iterator it = texts.find(k); has = it != texts.end(); return has ? it->second : Text(); }
void set_text(const std::string& k, const Text& t) { texts[k] = t; cf::setValue<icl_core::String>(k, t.s); }
void check_read(const char* what, const std::string& key, int type, bool ok, bool has_dflt, const Var& v, const Var& before)
{
  bool has; Text t = text_of(key, has);
  Meaning m = meaning(t, type); if (!has) m.ok = 0;
  if (m.ok < 0) return;
  SET_CHECK(ok == (m.ok || has_dflt), "result", "%s of %s '%.40s' as %s returned %s", what, key.c_str(), has ? t.s.c_str() : "(not set)", tname[type], ok ? "true" : "false");
  if (m.ok) SET_CHECK(v.is(type, m, t.s), "value", "%s of %s '%.40s' as %s gave another value", what, key.c_str(), t.s.c_str(), tname[type]);
  else SET_CHECK(v.same(type, before), has_dflt ? "default" : "untouched", "%s of %s '%.40s' as %s should %s", what, key.c_str(), has ? t.s.c_str() : "(not set)", tname[type], has_dflt ? "give the default" : "leave the variable as it was");
}
void read_one(const std::vector<int64_t>& o)
{
  std::string key = keys[arg(o, 2) % NK]; int type = (int)(arg(o, 3) % NTYPE), how = (int)arg(o, 4);
  Var v(how % 50), before(how % 50);
  if (how % 3 < 2 || type == ENUM) check_read("get()", key, type, get_one(type, key, v, how), false, v, before);
  else { Var d(how % 50 + 20); get_default(type, key, v, d); check_read("getDefault()", key, type, true, true, v, d); }
}
void read_batch(const std::vector<int64_t>& o)
{
  int64_t bits = arg(o, 2), seed = arg(o, 3), how = arg(o, 4);
  int n = (int)(bits % 6), t0 = (int)(how % 97);
  std::vector<Var> v, before, dflt; std::vector<int> type, dd; std::vector<std::string> key;
  v.reserve(6); before.reserve(6); dflt.reserve(6);
  bool cleanup = bits / 6 % 2, report = bits / 12 % 2, array = bits / 24 % 3 == 0;
  std::string prefix = bits / 72 % 3 == 0 ? "" : bits / 72 % 3 == 1 ? "/s" : "/s/";
  if (array) prefix = "";
  cf::ConfigValueList list; cf::impl::ConfigValueIface* arr[7];
  for (int i = 0; i < n; ++i)
  {
    v.push_back(Var(t0 + i)); before.push_back(Var(t0 + i)); dflt.push_back(Var(t0 + i + 30));
    type.push_back((int)((seed + i * (how % 7 + 1)) % NTYPE)); dd.push_back((int)((seed / 11 >> i) & 1));
    std::string k = keys[(seed / 3 + i * 5 + how) % NK]; key.push_back(k);
    list.push_back(arr[i] = entry(type[i], prefix.empty() ? k : k.substr(3), v[i], dd[i] ? &dflt[i] : 0));
  }
  arr[n] = 0;
  bool ok = array ? cf::get(arr, SimG::instance(), cleanup, report) : prefix.empty() && how % 2 ? cf::get(list, SimG::instance(), cleanup, report) : cf::get(prefix, list, SimG::instance(), cleanup, report);
  bool all = true, unknown = false;
  for (int i = 0; i < n; ++i)
  {
    bool has; Text t = text_of(key[i], has); Meaning m = meaning(t, type[i]); if (!has) m.ok = 0;
    unknown |= m.ok < 0; if (!m.ok && !dd[i]) all = false;
    if (m.ok < 0) { if (report) ATOMIC wanted[key[i]] += 1000000; continue; }
    check_read("batch reading", key[i], type[i], m.ok || dd[i], dd[i], v[i], dd[i] ? dflt[i] : before[i]);
    if (!m.ok && !dd[i] && report) ATOMIC ++wanted[key[i]];
  }
  if (!unknown && (n || array)) SET_CHECK(ok == all, "batch", "a batch of %d entries returned %s", n, ok ? "true" : "false");
  if (!all && !unknown) SET_CHECK(!ok, "batch", "a batch with a failed entry returned true");
  if (!cleanup) for (int i = 0; i < n; ++i) delete arr[i];
}
void read_list(const std::vector<int64_t>& o)
{
  int64_t what = arg(o, 2); int l = (int)(arg(o, 3) % 3); std::string prefix = lists[l], pre = arg(o, 4) % 2 ? prefix.substr(0, prefix.find_last_of('/')) : "";
  std::list<cf::impl::MemberValueIface<Element>*> ms;
  bool plain = what % 5 == 0;
  std::vector<char> use(6, 0);
  std::map<std::string, Element> want; std::map<std::string, int32_t> pwant; bool error = false, unknown = false;
  std::string name = pre.empty() ? prefix : prefix.substr(pre.size() + 1);
  if (pre.empty() && arg(o, 4) % 4 == 1) pre = "";
  bool ok; std::vector<Element> got; std::vector<int32_t> pgot;
  for (std::map<std::string, Text>::const_iterator it = texts.begin(); it != texts.end(); ++it)
  {
    if (it->first.compare(0, prefix.size() + 1, prefix + "/") != 0) continue;
    std::string rest = it->first.substr(prefix.size() + 1), el = rest.substr(0, rest.find('/')), suf = rest.find('/') == std::string::npos ? "" : rest.substr(rest.find('/') + 1);
    Meaning m;
    if (plain) { if (suf == "") { m = meaning(it->second, I32); if (m.ok > 0) pwant[el] = (int32_t)m.i; else error = true; unknown |= m.ok < 0; } continue; }
    for (int k = 0; k < 5; ++k)
      if (suf == members[k] && !(what / 5 >> k & 1))
      {
        static const int ty[] = { I32, STR, ENUM, DBL, BOOL };
        m = meaning(it->second, ty[k]); if (m.ok < 0) unknown = true; else if (!m.ok) error = true;
        Element& e = want[el];
        if (m.ok > 0) { if (k == 0) e.n = (int32_t)m.i; if (k == 1) e.text = it->second.s; if (k == 2) e.sub.color = (Color)m.e; if (k == 3) e.sub.weight = m.d; if (k == 4) e.on = m.b; }
      }
  }
  if (plain)
  {
    std::list<cf::impl::MemberValueIface<int32_t>*> one;
    one.push_back(new cf::MemberValue<int32_t, int32_t>("", acc_self));
    cf::ConfigList<int32_t, std::back_insert_iterator<std::vector<int32_t> > > cl(name, one, std::back_inserter(pgot));
    ok = cl.get(pre.empty() ? "" : pre + "/", SimG::instance());
    delete one.front();
  }
  else
  {
    if (!(what / 5 & 1)) ms.push_back(new cf::MemberValue<int32_t, Element>(members[0], acc_n));
    if (!(what / 5 & 2)) ms.push_back(new cf::MemberValue<std::string, Element>(members[1], acc_t));
    if (!(what / 5 & 4)) { if (what % 2) ms.push_back(new cf::MemberEnum<Color, Element>(members[2], acc_c, colors)); else if (what % 4) ms.push_back(new cf::MemberEnum<Color, Element>(members[2], acc_c, colors_end, "END")); else ms.push_back(new cf::MemberEnum<Color, Element>(members[2], acc_c, colors_vec)); }
    if (!(what / 5 & 8)) ms.push_back(new cf::MemberValue<double, Element>(members[3], acc_w));
    if (!(what / 5 & 16)) ms.push_back(new cf::MemberValue<bool, Element>(members[4], acc_o));
    if (what % 3 == 0)
    {
      cf::ConfigValueList batch; batch.push_back(new Counted<cf::ConfigList<Element, std::back_insert_iterator<std::vector<Element> > > >(name, ms, std::back_inserter(got)));
      ok = cf::get(pre, batch, SimG::instance(), true, false);
    }
    else { cf::ConfigList<Element, std::back_insert_iterator<std::vector<Element> > > cl(name, ms, std::back_inserter(got)); ok = cl.get(pre.empty() ? "" : pre + "/", SimG::instance()); }
    for (auto m : ms) delete m;
  }
  if (unknown) return;
  size_t n = plain ? pwant.size() : want.size(), g = plain ? pgot.size() : got.size();
  SET_CHECK(ok == (!error && n > 0), "list", "the list %s with %zu elements%s was read with result %s", prefix.c_str(), n, error ? " and a bad value" : "", ok ? "true" : "false");
  SET_CHECK(g == (ok ? n : 0), "list", "the list %s has %zu elements, %zu were read", prefix.c_str(), n, g);
  if (!ok) return;
  probe("list");
  size_t i = 0;
  if (plain) for (auto& x : pwant) { SET_CHECK(pgot[i] == x.second, "list", "element %s of %s is %d instead of %d", x.first.c_str(), prefix.c_str(), pgot[i], x.second); ++i; }
  else for (auto& x : want)
  {
    const Element &a = x.second, &b = got[i++];
    SET_CHECK(a.n == b.n && a.text == b.text && a.sub.color == b.sub.color && a.sub.weight == b.sub.weight && a.on == b.on, "list", "element %s of %s has another value", x.first.c_str(), prefix.c_str());
  }
}
void find_keys(const std::vector<int64_t>& o)
{
  std::string k = keys[arg(o, 2) % NK], dir = k.substr(0, k.find_last_of('/'));
  cf::ConfigIterator it = cf::find(dir + "/([^/]*)");
  for (int round = 0; round < 2; ++round)
  {
    std::map<std::string, Text>::const_iterator w = texts.begin();
    for (;;)
    {
      while (w != texts.end() && (w->first.compare(0, dir.size() + 1, dir + "/") != 0 || w->first.find('/', dir.size() + 1) != std::string::npos)) ++w;
      bool more = it.next();
      SET_CHECK(more == (w != texts.end()), "find", "find() below %s ends at another place", dir.c_str());
      if (!more) break;
      SET_CHECK(it.key() == w->first && it.value() == w->second.s && it.matchGroup(1) == w->first.substr(dir.size() + 1) && it.matchGroup(0) == w->first && it.matchGroup(2) == "", "find", "find() gave %s instead of %s", it.key().c_str(), w->first.c_str());
      ++w;
    }
    it.reset();
  }
}
// ---------------------------------------------------------------- command line
struct Cmd
{
  std::map<std::string, std::string> opt; std::vector<std::pair<std::string, std::string> > pre, conf; std::vector<std::string> non, extra; std::vector<size_t> kept; bool bad; bool extras_on; size_t npos, nreq;
  Cmd() : bad(false) { }
  // an independent reader of the command line
  void parse(const std::vector<std::string>& a, bool strict, const std::string& delim)
  {
    size_t pos = 0; bool ext = false;
    for (size_t i = 1; i < a.size() && !bad; ++i)
    {
      const std::string& s = a[i];
      if (ext) { extra.push_back(s); continue; }
      if (s.size() > 2 && s[0] == '-' && s[1] == '-' && s[2] != '-')
      {
        size_t e = s.find('=', 3); std::string n = s.substr(2, e == std::string::npos ? e : e - 2), v = e == std::string::npos ? "" : s.substr(e + 1); bool hasv = e != std::string::npos;
        if (n == "num" || n == "text" || n == "tuner" || n == "configfile") { if (!hasv) bad = true; else opt[n] = v; }
        else if (n == "flag" || n == "dump-config") opt[n] = "yes";
        else if (n.compare(0, 6, "prefix") == 0) { if (!hasv) bad = true; else pre.push_back(std::make_pair(n.substr(6), v)); }
        else if (n.compare(0, 13, "config-option") == 0) { if (!hasv) bad = true; else conf.push_back(std::make_pair(n.substr(13), v)); }
        else if (n.compare(0, 4, "mark") == 0) pre.push_back(std::make_pair("mark" + n.substr(4), "yes"));
        else if (strict) bad = true; else { non.push_back(s); kept.push_back(i); }
      }
      else if (s.size() > 1 && s[0] == '-' && s[1] != '-')
      {
        std::string n = s.substr(1);
        if (n == "n" || n == "t" || n == "c") { if (++i == a.size()) bad = true; else opt[n == "n" ? "num" : n == "t" ? "text" : "configfile"] = a[i]; }
        else if (n == "f") opt["flag"] = "yes";
        else if (n[0] == 'p') { if (++i == a.size()) bad = true; else pre.push_back(std::make_pair(n.substr(1), a[i])); }
        else if (n[0] == 'o') { if (++i == a.size()) bad = true; else conf.push_back(std::make_pair(n.substr(1), a[i])); }
        else if (n[0] == 'm') pre.push_back(std::make_pair("mark" + n.substr(1), "yes"));
        else if (strict) bad = true; else { non.push_back(s); kept.push_back(i); }
      }
      else if (!delim.empty() && s == delim) ext = true;
      else if (pos < npos) opt["pos" + num((int64_t)pos++)] = s;
      else { non.push_back(s); kept.push_back(i); }
    }
    if (pos < nreq) bad = true;
  }
};
}
// cfg: threads, command line bits, worker, short reads, file keys bits, list seed, list seed 2
// op: 0 argument (kind, value, ...) | 1 set (key, text) | 2 thread op (thread+kind*8, a, b, c) | 3 list item (list, elem, member, text)
static void gen_any(Rng& r, Plan& p, bool cmd)
{
  p.cfg = { r.range(1, 3), (int64_t)r.below(4096), (int64_t)r.chance(1, 2), r.chance(1, 3) ? r.range(100, 900) : 0, (int64_t)r.below(256), (int64_t)r.chance(1, 2) };
  int n = cmd ? (int)r.range(1, 12) : r.chance(1, 3) ? 0 : (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 0, (int64_t)r.below(20), (int64_t)r.below(12 * 72 * 26), (int64_t)r.below(8) });
  n = (int)r.range(0, cmd ? 2 : 10);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 1, (int64_t)r.below(NK), (int64_t)r.below(12 * 72 * 26), (int64_t)r.below(20) });
  n = cmd || r.chance(1, 3) ? 0 : (int)r.range(1, 10);
  int l = (int)r.below(3), good = (int)r.below(2);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 3, r.chance(3, 4) ? l : (int64_t)r.below(4), (int64_t)r.below(6), (int64_t)r.below(7), (int64_t)r.below(12 * 72 * 26), good });
  n = cmd ? 0 : (int)r.range(1, 14);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 2, (int64_t)r.below(3), (int64_t)r.below(432), (int64_t)r.below(1 << 20), (int64_t)r.below(1000), (int64_t)r.below(8) });
}
static void gen_settings(Rng& r, Plan& p) { gen_any(r, p, false); }
static void gen_command(Rng& r, Plan& p) { gen_any(r, p, true); }
static void run_any(const Plan& p)
{
  int nt = std::max(1, (int)p.c(0, 1)), bits = (int)p.c(1);
  worker = p.c(2) != 0;
  fs::mkdir("/simfs/etc");
  if (p.c(3)) set_rate(FT_SHORT_READ, (int)p.c(3));
  // --- the file, with the same texts as the keys below get
  std::map<std::string, Text> file;
  for (const std::vector<int64_t>& o : p.ops)
    if (arg(o, 0) == 1 && (p.c(4) >> (arg(o, 1) % NK) & 1))
    {
      Text t = make_text(arg(o, 2));
      if (t.s.empty() || t.s[0] == ' ' || t.s.find("  ") != std::string::npos) continue;
      file[keys[arg(o, 1) % NK]] = t;
    }
  std::string xml = "<c>\n";
  for (auto& f : file) { std::string k = f.first.substr(1), open, close; for (size_t a = 0; a <= k.size(); ) { size_t b = k.find('/', a); if (b == std::string::npos) b = k.size(); std::string n = k.substr(a, b - a); open += "<" + n + ">"; close = "</" + n + ">" + close; a = b + 1; } xml += open + f.second.s + close + "\n"; }
  xml += "</c>\n";
  fs::put("/simfs/etc/f.xml", xml);
  // --- the command line
  std::string delim = bits / 4 % 4 == 0 ? "" : bits / 4 % 4 == 1 ? "--" : bits / 4 % 4 == 2 ? "++" : "--";
  bool strict = bits & 1, cleanup = bits & 2, logging = bits & 64;
  Cmd c; c.npos = bits / 16 % 4; c.nreq = c.npos > 1 && bits & 128 ? 1 : 0; c.extras_on = !delim.empty();
  std::vector<std::string> a; a.push_back("prog");
  for (const std::vector<int64_t>& o : p.ops)
  {
    if (arg(o, 0)) continue;
    Text t = make_text(arg(o, 2)); std::string v = t.s;
    if (arg(o, 3) == 0) v = a.back();
    switch (arg(o, 1) % 20)
    {
      case 0: a.push_back("--num=" + v); break; case 1: a.push_back("-n"); a.push_back(v); break;
      case 2: a.push_back("--text=" + v); break; case 3: a.push_back("-t"); a.push_back(v); break;
      case 4: a.push_back("--flag"); break; case 5: a.push_back("-f"); break;
      case 6: a.push_back("--prefix/" + num(arg(o, 3)) + "=" + v); break; case 7: a.push_back("-p/" + num(arg(o, 3))); a.push_back(v); break;
      case 8: a.push_back("-m" + num(arg(o, 3))); break; case 9: a.push_back("--mark." + num(arg(o, 3))); break;
      case 10: case 11: case 12: a.push_back(v); break;
      case 13: a.push_back("-o" + std::string(keys[arg(o, 3) % NK])); a.push_back(v); break;
      case 14: a.push_back("--config-option" + std::string(keys[arg(o, 3) % NK]) + "=" + v); break;
      case 15: a.push_back("word" + num(arg(o, 3) % 2)); break;
      case 16: a.push_back(arg(o, 3) % 4 == 1 ? "--unknown=" + v : arg(o, 3) % 4 == 2 ? "-u" : arg(o, 3) % 4 == 3 ? "--tuner=" + v : "word1"); break;
      case 17: a.push_back(arg(o, 3) == 1 ? "--num" : arg(o, 3) == 2 ? "--text=" : arg(o, 3) == 3 ? "--flags" : arg(o, 3) == 4 ? "-nf" : "--text=a=b"); break;
      case 18: a.push_back(arg(o, 3) == 1 ? "-n" : arg(o, 3) == 2 ? "-f" : "--flag"); break;
      default: if (!delim.empty()) a.push_back(delim); else a.push_back("word0"); break;
    }
  }
  // the right number of arguments for what is required
  while (c.nreq) { Cmd t = c; t.parse(a, false, delim); if (!t.bad || t.non.size() + t.extra.size() > 40) break; a.insert(a.begin() + 1, "first"); Cmd u = c; u.parse(a, false, delim); if (u.bad) { c.nreq = 0; } }
  bool withfile = !file.empty() || bits & 256;
  if (withfile) a.insert(a.begin() + 1, "--configfile=/simfs/etc/f.xml");
  c.parse(a, strict, delim);
  // a file named by the arguments above does not exist, and a missing required one ends the program
  if (c.opt.count("configfile") && c.opt["configfile"] != "/simfs/etc/f.xml") return;
  icl::LoggingManager::instance().registerLogOutputStream("Sink", make);
  texts.clear();
  auto logcfg = [](const std::string& k, const std::string& v) { cf::setValue<icl_core::String>("/IclCore/Logging/" + k, v); Text t; t.s = v; t.isint = t.isdbl = false; t.b = -1; texts["/IclCore/Logging/" + k] = t; };
  logcfg("OutputStream0/OutputStreamName", "Sink"); logcfg("OutputStream0/Name", "Out0"); logcfg("OutputStream0/LogLevel", "Info");
  if (!delim.empty()) { if (delim == "--" && bits / 4 % 4 == 1) cf::activateExtraCmdParams(); else cf::activateExtraCmdParams(delim); }
  cf::addParameter(cf::ConfigParameter("num:", "n", keys[0], "help", bits & 512 ? "17" : ""));
  cf::addParameter(cf::ConfigParameter("tuner:", "", keys[2], "help"));
  cf::GetoptParameterList gl; gl.push_back(cf::GetoptParameter("text:", "t", "help")); gl.push_back(cf::GetoptParameter("prefix:", "p", "help", true)); gl.push_back(cf::GetoptParameter("mark", "m", "help", true)); cf::addParameter(gl);
  cf::ConfigParameterList pl; pl.push_back(cf::ConfigParameter("flag", "f", keys[1], "help", bits & 1024 ? "no" : "")); cf::addParameter(pl);
  for (size_t i = 0; i < c.npos; ++i)
  {
    bool opt = i >= c.nreq;
    if (i == 0) cf::addParameter(cf::ConfigPositionalParameter("pos0", keys[3], "help", opt, bits & 2048 ? "seventeen" : "")); else cf::addParameter(cf::GetoptPositionalParameter("pos" + num((int64_t)i), "help", opt));
  }
  std::vector<char*> argv; for (std::string& s : a) argv.push_back((char*)s.c_str());
  std::vector<char*> argv0 = argv; argv.push_back(0);
  int argc = (int)a.size();
  bool ok = logging ? icl::initialize(argc, &argv[0], cleanup ? cf::Getopt::eCLC_Cleanup : cf::Getopt::eCLC_None, strict ? cf::Getopt::ePRC_Strict : cf::Getopt::ePRC_Relaxed)
                    : cf::initialize(argc, &argv[0], cleanup ? cf::Getopt::eCLC_Cleanup : cf::Getopt::eCLC_None, strict ? cf::Getopt::ePRC_Strict : cf::Getopt::ePRC_Relaxed);
  CMD_CHECK(ok == !c.bad, "command-line", "initialize() returned %s", ok ? "true" : "false");
  if (c.bad) probe("refused");
  if (!ok || c.bad) { icl::shutdown(); return; }
  auto check_cmd = [&](int when) {
    CMD_CHECK(cf::paramNonOptCount() == c.non.size(), "command-line", "there are %zu parameters instead of %zu (%d)", cf::paramNonOptCount(), c.non.size(), when);
    for (size_t i = 0; i < c.non.size(); ++i) CMD_CHECK(cf::paramNonOpt(i) == c.non[i], "command-line", "parameter %zu is '%s'", i, cf::paramNonOpt(i).c_str());
    CMD_CHECK(cf::paramNonOpt(c.non.size()) == "", "command-line", "a parameter after the last");
    CMD_CHECK(cf::extraCmdParamCount() == c.extra.size(), "command-line", "there are %zu extra parameters instead of %zu (%d)", cf::extraCmdParamCount(), c.extra.size(), when);
    for (size_t i = 0; i < c.extra.size(); ++i) CMD_CHECK(cf::extraCmdParam(i) == c.extra[i], "command-line", "extra parameter %zu is '%s'", i, cf::extraCmdParam(i).c_str());
    static const char* const names[] = { "num", "text", "flag", "pos0", "pos1", "pos2", "unknown", "prefix", "tuner" };
    for (const char* n : names)
    {
      CMD_CHECK(cf::paramOptPresent(n) == (c.opt.count(n) > 0), "command-line", "the presence of option %s is wrong", n);
      CMD_CHECK(cf::Getopt::instance().paramOpt(n) == (c.opt.count(n) ? c.opt[n] : ""), "command-line", "option %s is '%s'", n, cf::Getopt::instance().paramOpt(n).c_str());
    }
    std::vector<std::pair<std::string, std::string> > got[3], want[3];
    static const char* const pn[] = { "prefix", "mark", "config-option" };
    for (int i = 0; i < 3; ++i) { cf::Getopt::KeyValueList l = cf::Getopt::instance().paramPrefixOpt(pn[i]); for (auto& kv : l) got[i].push_back(std::make_pair(kv.m_key, kv.m_value)); }
    for (auto& x : c.pre) if (x.first.compare(0, 4, "mark") == 0) want[1].push_back(std::make_pair(x.first.substr(4), x.second)); else want[0].push_back(x);
    want[2] = c.conf;
    for (int i = 0; i < 3; ++i)
    {
      CMD_CHECK(got[i] == want[i], "command-line", "the options with prefix %s are wrong (%d)", pn[i], when);
      CMD_CHECK(cf::Getopt::instance().paramPrefixOptPresent(pn[i]) == !want[i].empty(), "command-line", "the presence of prefix %s is wrong", pn[i]);
    }
  };
  check_cmd(1);
  if (!c.pre.empty()) probe("prefix_options");
  if (!c.extra.empty()) probe("extra_parameters");
  if (cleanup && !c.kept.empty() && (int)c.kept.size() + 1 < (int)a.size()) probe("cleaned");
  if (cleanup)
  {
    CMD_CHECK(argc == (int)c.kept.size() + 1, "cleanup", "%d arguments are left, %zu were not used", argc - 1, c.kept.size());
    for (size_t i = 0; i < c.kept.size(); ++i) CMD_CHECK(argv[i + 1] == argv0[c.kept[i]], "cleanup", "argument %zu is '%s' now", i + 1, argv[i + 1]);
  }
  else { CMD_CHECK(argc == (int)a.size(), "cleanup", "the number of arguments was changed"); for (size_t i = 0; i < argv0.size(); ++i) CMD_CHECK(argv[i] == argv0[i], "cleanup", "an argument was moved"); }
  // --- what the keys hold now
  auto txt = [&](const std::string& s) { Text t; t.s = s; t.isint = t.isdbl = false; t.b = -1; for (const std::vector<int64_t>& o : p.ops) if (arg(o, 0) == 0 || arg(o, 0) == 1) { Text u = make_text(arg(o, 2)); if (u.s == s) return u; }
    if (s == "yes") t.b = 1; if (s == "no") t.b = 0; if (s == "17") { t.isint = t.isdbl = true; t.i = 17; t.d = 17; } return t; };
  for (auto& f : file) texts[f.first] = f.second;
  if (withfile) texts["/configfile"] = txt(c.opt["configfile"]);
  if (c.opt.count("num")) texts[keys[0]] = txt(c.opt["num"]); else if (bits & 512 && !texts.count(keys[0])) texts[keys[0]] = txt("17");
  if (c.opt.count("tuner")) texts[keys[2]] = txt(c.opt["tuner"]);
  if (c.opt.count("flag")) texts[keys[1]] = txt("yes"); else if (bits & 1024 && !texts.count(keys[1])) texts[keys[1]] = txt("no");
  if (c.npos && c.opt.count("pos0")) texts[keys[3]] = txt(c.opt["pos0"]); else if (c.npos && bits & 2048 && !texts.count(keys[3])) texts[keys[3]] = txt("seventeen");
  for (auto& x : c.conf) texts[x.first] = txt(x.second);
  // a word of the command line may look like a number only if it was made as one
  auto check_texts = [&]() { for (auto& t : texts) { std::string v; SIM_CHECK(cf::get<icl_core::String>(t.first, v) && v == t.second.s, "text", "%s is '%.40s' instead of '%.40s'", t.first.c_str(), v.c_str(), t.second.s.c_str()); } };
  check_texts();
  for (const std::vector<int64_t>& o : p.ops)
  {
    if (arg(o, 0) == 1)
    {
      Text t = make_text(arg(o, 2)); int how = (int)arg(o, 3);
      std::string k = keys[arg(o, 1) % NK];
      if (file.count(k) && how % 4) continue;
      // by a typed setValue() the text is chosen by the library, the value is what counts
      if (how == 1 && t.isint && fits<int32_t>(t.i)) { t.s = dec(t.i); t.isdbl = true; t.d = (double)(int64_t)t.i; t.b = t.s == "0" ? 0 : t.s == "1" ? 1 : -1; texts[k] = t; cf::setValue<int32_t>(k, (int32_t)t.i); }
      else if (how == 2 && t.isint && fits<uint64_t>(t.i)) { t.s = dec(t.i); t.isdbl = true; t.d = strtod(t.s.c_str(), 0); t.b = t.s == "0" ? 0 : t.s == "1" ? 1 : -1; texts[k] = t; cf::setValue<uint64_t>(k.c_str(), (uint64_t)t.i); }
      else if (how == 3 && t.isdbl && t.d < 1e300) { cf::setValue<double>(k, t.d); double back = -1; SET_CHECK(cf::get<double>(k, back) && back == t.d, "value", "a double that was set comes back as %g", back); set_text(k, t); }
      else if (how == 4 && t.b >= 0) { cf::setValue<bool>(k, t.b == 1); bool back = t.b == 0; SET_CHECK(cf::get<bool>(k, back) && back == (t.b == 1), "value", "a bool that was set comes back as %d", back); set_text(k, t); }
      else set_text(k, t);
    }
    if (arg(o, 0) == 3)
    {
      static const char* const roots[] = { "/list", "/l.st", "/list/inner", "/lost" };
      static const int ty[] = { I32, STR, ENUM, DBL, BOOL, STR, I32 };
      std::string k = std::string(roots[arg(o, 1) % 4]) + "/" + elems[arg(o, 2) % 6]; int m = (int)(arg(o, 3) % 7);
      Text t = make_text(arg(o, 4));
      // mostly good values, so that lists can be read
      for (int64_t i = 0; arg(o, 5) && i < 400 && meaning(t, ty[m]).ok != 1; ++i) t = make_text(arg(o, 4) + i * 7);
      set_text(m == 6 ? k : k + "/" + members[m], t);
    }
  }
  check_texts();
  // --- typed parameters
  for (size_t i = 0; i <= c.non.size(); ++i)
  {
    bool has = i < c.non.size(); Text t = has ? txt(c.non[i]) : Text();
    Meaning m = meaning(t, I32); int32_t v = -77; bool got = cf::paramNonOpt<int32_t>(i, v);
    if (!has || (m.ok >= 0 && c.non[i][0] != '-' && c.non[i].compare(0, 4, "word") != 0)) CMD_CHECK(got == (has && m.ok > 0) && v == (got ? (int32_t)m.i : -77), "parameter", "parameter %zu as int32_t gave %d", i, v);
    std::string s = "?"; got = cf::paramNonOpt<icl_core::String>(i, s);
    CMD_CHECK(got == has && s == (has ? c.non[i] : "?"), "parameter", "parameter %zu as String is '%.40s'", i, s.c_str());
    Color e = DARK_BLUE; got = cf::paramNonOpt<Color>(i, e, colors); m = meaning(t, ENUM); if (!has) m.ok = 0;
    CMD_CHECK(got == (m.ok > 0) && e == (m.ok > 0 ? m.e : DARK_BLUE), "parameter", "parameter %zu as enum", i);
  }
  {
    bool has = c.opt.count("text") > 0; Text t = has ? txt(c.opt["text"]) : Text(); Meaning m;
    std::string s = "?"; bool got = cf::paramOpt<icl_core::String>("text", s);
    CMD_CHECK(got == has && s == (has ? c.opt["text"] : "?"), "parameter", "option text as String is '%.40s'", s.c_str());
    CMD_CHECK(cf::paramOptDefault<icl_core::String>("text", "some default") == (has ? c.opt["text"] : "some default"), "parameter", "option text with a default");
    bool plain = !has || c.opt["text"].empty() || (c.opt["text"][0] != '-' && c.opt["text"] != "a=b" && c.opt["text"].compare(0, 4, "word") != 0) || t.isint;
    m = meaning(t, I64); if (!has) m.ok = 0;
    if (m.ok >= 0 && plain) { int64_t v = -77; got = cf::paramOpt<int64_t>("text", v); CMD_CHECK(got == (m.ok > 0) && v == (got ? (int64_t)m.i : -77), "parameter", "option text '%.40s' as int64_t gave %lld", t.s.c_str(), (long long)v);
      CMD_CHECK(cf::paramOptDefault<int64_t>("text", 123) == (m.ok > 0 ? (int64_t)m.i : 123), "parameter", "option text '%.40s' as int64_t with a default", t.s.c_str()); }
    m = meaning(t, DBL); if (!has) m.ok = 0;
    if (m.ok >= 0 && plain) { double v = -77; got = cf::paramOpt<double>("text", v); CMD_CHECK(got == (m.ok > 0) && v == (got ? m.d : -77), "parameter", "option text '%.40s' as double gave %g", t.s.c_str(), v); }
    m = meaning(t, ENUM); if (!has) m.ok = 0;
    Color e = DARK_BLUE; got = cf::paramOpt<Color>("text", e, colors_end, "END"); CMD_CHECK(got == (m.ok > 0) && e == (got ? m.e : DARK_BLUE), "parameter", "option text as enum");
    m = meaning(t, BOOL); if (!has) m.ok = 0;
    if (m.ok >= 0 && plain) CMD_CHECK(cf::paramOptDefault<bool>("text", true) == (m.ok > 0 ? m.b : true), "parameter", "option text '%.40s' as bool", t.s.c_str());
    bool b = false; got = cf::paramOpt<bool>("flag", b); bool f = c.opt.count("flag") > 0; CMD_CHECK(got == f && b == f, "parameter", "flag as bool is %d", b);
    CMD_CHECK(cf::paramOptDefault<bool>("flag", false) == f, "parameter", "flag with a default is wrong");
  }
  // --- a second initialisation changes nothing
  if (!logging) { icl::initialize(argc, &argv[0], cf::Getopt::eCLC_None, cf::Getopt::ePRC_Relaxed); check_cmd(2); check_texts(); probe("second_initialize"); }
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("reader", [&, t]() {
      for (const std::vector<int64_t>& o : p.ops)
      {
        if (arg(o, 0) != 2 || arg(o, 1) % nt != t) continue;
        std::vector<int64_t> q = { 0, 0, arg(o, 2), arg(o, 3), arg(o, 4) };
        switch (arg(o, 5)) { case 0: case 1: read_one(q); break; case 2: case 3: case 4: read_batch(q); break; case 5: case 6: read_list(q); break; default: find_keys(q); break; }
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  SET_CHECK(entries_alive == 0, "entries", "%d entries of batches were not deleted", entries_alive);
  icl::shutdown();
  for (auto& w : wanted) if (w.second < 1000000) SET_CHECK(errors[w.first] == w.second, "errors", "%d errors were logged for %s, %d readings failed", errors[w.first], w.first.c_str(), w.second);
  for (auto& e : errors) SET_CHECK(wanted.count(e.first) || e.first.compare(0, 3, "/s/") != 0, "errors", "an error was logged for %s", e.first.c_str());
}
static void run_settings(const Plan& p) { cmd_mode = false; run_any(p); }
static void run_command(const Plan& p) { cmd_mode = true; run_any(p); }
SIM_SCENARIO(C33, settings, gen_settings, run_settings, 30000);
SIM_SCENARIO(C34, command_line, gen_command, run_command, 60000);
