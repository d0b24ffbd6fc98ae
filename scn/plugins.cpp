// C23 plugins
#include "common.h"
#include <icl_core_plugin/Plugin.h>
#include <typeinfo>
using namespace scn;
namespace {
const int NLIB = 8;
struct LibPlan { std::string path, id; bool file, library, has_id, has_base, right_base, has_load, null_instance; int alive, made; };
LibPlan lib[NLIB];
bool loader_closed(int n) { return dl::libs[lib[n].path].refs <= 0; }
}
namespace verif_plugins {
class Iface
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Iface)
  virtual ~Iface() { }
  virtual int origin() const = 0;
};
class Instance : public Iface
{
public:
  int n; std::string name; bool foreign;
  Instance(int n, const std::string& id) : n(n), name(id), foreign(n < 0) { if (n >= 0) { ++lib[n].alive; ++lib[n].made; } }
  ~Instance() { if (n >= 0) { SIM_CHECK(!loader_closed(n), "closed", "an instance of %s is deleted after its library was closed", lib[n].path.c_str()); --lib[n].alive; } }
  std::string Identifier() const { return name; }
  int origin() const { return n; }
};
extern const char directory[] = "/simfs/plugins";
ICL_CORE_PLUGIN_DECLARE_PLUGIN_MANAGER(Manager, Iface, directory)
}
namespace {
using verif_plugins::Iface; using verif_plugins::Instance;
typedef icl_core::plugin::PluginManager<Iface, verif_plugins::directory> Man;
void in_library(int n) { SIM_CHECK(!loader_closed(n), "closed", "a function of the closed library %s is called", lib[n].path.c_str()); }
template <int N> const char* identifier() { in_library(N); return lib[N].id.c_str(); }
template <int N> const char* basetype() { in_library(N); return lib[N].right_base ? typeid(Iface).name() : "another type"; }
template <int N> Iface* load_plugin() { in_library(N); return lib[N].null_instance ? 0 : new Instance(N, lib[N].id); }
template <int N> void functions(std::map<std::string, void*>& m, const LibPlan& l)
{
  if (l.has_id) m["identifier"] = (void*)&identifier<N>;
  if (l.has_base) m["basetype"] = (void*)&basetype<N>;
  if (l.has_load) m["load_plugin"] = (void*)&load_plugin<N>;
}
void (*const functions_of[NLIB])(std::map<std::string, void*>&, const LibPlan&) = { functions<0>, functions<1>, functions<2>, functions<3>, functions<4>, functions<5>, functions<6>, functions<7> };
const char* global_id() { return "global"; }
const char* global_base() { return typeid(Iface).name(); }
Iface* global_load() { return new Instance(-1, "global"); }
const char* const ids[] = { "one", "two", "three", "", "f\xc3\xbcnf", "six" };
}
// cfg: recursive, lazy, paths, faults (0 none, 1 dlopen fails now and then, 2 one directory cannot be read, 3 directories fail now and then), which, functions of the program itself
// op: 0 library (directory, id, quality) | 1 action (kind, a)
static void gen_plugins(Rng& r, Plan& p)
{
  p.cfg = { (int64_t)r.below(2), (int64_t)r.below(3), (int64_t)r.below(16), r.chance(1, 2) ? 0 : r.range(1, 3), (int64_t)r.below(8), (int64_t)r.below(2) };
  int n = (int)r.range(0, NLIB);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 0, (int64_t)r.below(8), (int64_t)r.below(r.chance(1, 3) ? 2 : 6), (int64_t)(r.chance(1, 2) ? 0 : r.below(10)) });
  n = (int)r.range(0, 14);
  for (int i = 0; i < n; ++i) p.ops.push_back({ 1, (int64_t)r.below(12), (int64_t)r.below(64) });
}
static void run_plugins(const Plan& p)
{
  static const char* const dirs[] = { "/simfs/plugins", "/simfs/plugins/deep", "/simfs/plugins/deep/er", "/simfs/more", "/simfs/more/x", "/simfs/elsewhere" };
  int missing = p.c(2) & 8 ? (int)p.c(4) % 2 * 3 : -1;       // a search path that does not exist
  for (int i = 0; i < 6; ++i) if (missing < 0 || std::string(dirs[i]).compare(0, strlen(dirs[missing]), dirs[missing])) fs::mkdir(dirs[i]);
  int n = 0;
  for (const std::vector<int64_t>& o : p.ops)
  {
    if (arg(o, 0) || n == NLIB) continue;
    LibPlan& l = lib[n];
    int q = (int)arg(o, 3);
    l.path = std::string(dirs[arg(o, 1) % 6]) + "/lib" + num(n) + (q == 9 ? ".txt" : ".so");
    l.id = ids[arg(o, 2) % 6];
    l.library = q != 1 && q != 9; l.has_id = q != 2; l.has_base = q != 3; l.right_base = q != 4; l.has_load = q != 5; l.null_instance = q == 6; l.alive = l.made = 0;
    l.file = fs::exists(dirs[arg(o, 1) % 6]); if (l.file) fs::put(l.path, "\x7f" "ELF");
    if (q == 7) { l.has_id = l.has_base = l.has_load = false; }
    dl::Lib x; x.path = l.path; x.loadable = l.library; x.error = "invalid ELF header";
    functions_of[n](x.syms, l);
    dl::libs[l.path] = x;
    ++n;
  }
  if (p.c(5)) { dl::global_syms["identifier"] = (void*)&global_id; dl::global_syms["basetype"] = (void*)&global_base; dl::global_syms["load_plugin"] = (void*)&global_load; }
  std::string unreadable;
  if (p.c(3) == 1) set_rate(FT_DLOPEN_ERR, 150);
  if (p.c(3) == 2) { unreadable = dirs[p.c(4) % 5]; }
  if (p.c(3) == 3) { set_rate(FT_DIR_ERR, 100); set_rate(FT_STAT_ERR, 100); }
  fs::set_readdir_shuffle(true);
  bool fuzzy = p.c(3) == 3;
  bool recursive = p.c(0), deep_lazy = p.c(1) != 0;
  static std::map<std::string, Instance*> statics;
  std::vector<Iface*> own;
  static std::map<std::string, std::set<int> > found; static bool started;
  static std::map<std::string, Iface*> instance;
  started = false; found.clear(); statics.clear(); instance.clear();
  Man* m = 0;
  auto manager = [&]() {
    if (m) { SIM_CHECK(Man::instance() == m, "singleton", "instance() returned another manager"); return; }
    m = Man::instance();
    SIM_CHECK(m && !m->isInitialized(), "singleton", "a new manager is initialised already");
    SIM_CHECK(m->pluginPaths().size() == 1, "singleton", "a new manager has %d search paths", (int)m->pluginPaths().size());
    if (p.c(2) & 1) m->addPluginPath("/simfs/more");
    if (p.c(2) & 2) m->addPluginPath("/simfs/plugins");
    if (p.c(2) & 4) m->addPluginPath(recursive ? "/simfs/nothing" : "/simfs/plugins/deep");
    m->addPluginPath("");
  };
  // what has to be there once the directories have been read
  auto expect = [&](bool rec) {
    started = true; found.clear();
    icl_core::plugin::StringList paths = m->pluginPaths();
    for (const std::string& d : paths)
      for (int i = 0; i < n; ++i)
      {
        LibPlan& l = lib[i];
        std::string dir = l.path.substr(0, l.path.rfind('/'));
        if (!l.file || (dir != d && !(rec && dir.compare(0, d.size() + 1, d + "/") == 0))) continue;
        if (!unreadable.empty())
        {
          // hidden below the unreadable directory
          bool hidden = d.compare(0, unreadable.size(), unreadable) == 0 || dir == unreadable || dir.compare(0, unreadable.size() + 1, unreadable + "/") == 0;
          if (hidden) continue;
        }
        if (!l.library || !l.has_id || !l.has_base || !l.right_base) continue;
        if (p.c(3) == 1 && !dl::libs[l.path].refs) continue;      // it may have failed
        if (fuzzy && !dl::libs[l.path].refs) continue;
        found[l.id].insert(i);
      }
    if (p.c(3) == 1 || fuzzy)
      for (int i = 0; i < n; ++i) if (dl::libs[lib[i].path].opens && !dl::libs[lib[i].path].refs)
      {
        // opened and closed again: it must have been rejected or replaced
        LibPlan& l = lib[i];
        SIM_CHECK(!l.has_id || !l.has_base || !l.right_base || found.count(l.id), "skipped", "the plugin %s was closed although it is good", l.path.c_str());
      }
    // open libraries: exactly one per plugin
    for (int i = 0; i < n; ++i)
    {
      LibPlan& l = lib[i]; int refs = dl::libs[l.path].refs;
      bool good = found.count(l.id) && found[l.id].count(i);
      SIM_CHECK(refs <= (good ? 1 : 0), "handle-leak", "the library %s is open %d times", l.path.c_str(), refs);
    }
    for (auto& f : found) { int refs = 0; for (int i : f.second) refs += dl::libs[lib[i].path].refs; SIM_CHECK(refs == 1, "handle-leak", "%d libraries are open for the plugin '%s'", refs, f.first.c_str()); }
    // errors
    bool all = true;
    for (int i = 0; i < n; ++i)
    {
      LibPlan& l = lib[i];
      if (dl::libs[l.path].opens && (!l.has_id || !l.has_base || !l.has_load || l.null_instance)) all = false;
      bool tried = dl::libs[l.path].opens > 0;
      if (!tried && l.file && !l.library && !fuzzy && unreadable.empty())
        for (const std::string& d : paths) { std::string dir = l.path.substr(0, l.path.rfind('/')); if (dir == d || (rec && dir.compare(0, d.size() + 1, d + "/") == 0)) { tried = true; all = false; } }
      if (!tried || (l.library && l.has_id && l.has_base)) continue;
      bool named = false;
      for (const std::string& e : m->errorMessages()) named |= e.find(l.path) != std::string::npos;
      SIM_CHECK(named, "errors", "no error message for the plugin %s", l.path.c_str());
    }
    if (all && p.c(3) == 0) SIM_CHECK(m->errorMessages().empty(), "errors", "there is the error message '%s'", m->errorMessages().front().c_str());
  };
  auto usable = [&](int i) { return lib[i].has_load && !lib[i].null_instance; };
  auto open_one = [&](const std::string& id) { for (int i : found[id]) if (dl::libs[lib[i].path].refs) return i; return -1; };
  auto begin = [&](bool lazy, bool rec) {
    if (started) return;
    if (!unreadable.empty()) { fs::fail_path(unreadable, EACCES); count_fault(FT_DIR_ERR); }
    m->initialize(lazy, rec);
    if (!unreadable.empty()) fs::fail_path("", 0);
    SIM_CHECK(m->isInitialized(), "initialized", "initialize() did not initialise");
    expect(rec);
    if (lazy) for (int i = 0; i < n; ++i) SIM_CHECK(lib[i].made == 0 || found.empty() || lib[i].alive == 0, "lazy", "an instance of %s exists although nobody asked for it", lib[i].path.c_str());
  };
  // what the instances of the manager have to be, once somebody asked for one
  auto loaded = [&]() {
    for (auto& f : found)
    {
      int i = open_one(f.first), mine = 0;
      for (Iface* o : own) mine += o->origin() == i;
      SIM_CHECK(lib[i].alive == mine + (usable(i) ? 1 : 0), "instances", "the manager has %d instances of the plugin '%s'", lib[i].alive - mine, f.first.c_str());
      if (usable(i)) continue;
      bool named = false;
      for (const std::string& e : m->errorMessages()) named |= e.find(f.first) != std::string::npos;
      SIM_CHECK(named, "errors", "no error message for the plugin '%s'", f.first.c_str());
    }
  };
  for (const std::vector<int64_t>& o : p.ops)
  {
    if (arg(o, 0) != 1) continue;
    int64_t a = arg(o, 2);
    manager();
    int k = (int)arg(o, 1);
    if (!started && k >= 2 && k <= 5 && a % 2 == 0) { begin(deep_lazy, recursive); }
    std::string id = ids[a % 6]; if (a % 13 == 7) id = "unknown"; if (a % 13 == 8) id = "global";
    switch (k)
    {
      case 0: case 1: begin(a % 2, recursive); if (a % 4 == 3) { m->initialize(false, recursive); loaded(); } break;
      case 2:
      {
        bool first = !started; if (first && !unreadable.empty()) fs::fail_path(unreadable, EACCES);
        std::list<std::string> l = m->availablePlugins();
        if (first) { if (!unreadable.empty()) fs::fail_path("", 0); expect(false); }
        std::multiset<std::string> got(l.begin(), l.end()), want;
        for (auto& f : found) want.insert(f.first);
        for (auto& s : statics) want.insert(s.first);
        std::string text; for (const std::string& x : got) text += " '" + x + "'"; text += " instead of"; for (const std::string& x : want) text += " '" + x + "'";
        SIM_CHECK(got == want, "available", "the available plugins are%s", text.c_str());
        loaded();
        break;
      }
      case 3:
      {
        bool first = !started; if (first && !unreadable.empty()) fs::fail_path(unreadable, EACCES);
        std::list<Iface*> l = m->plugins();
        if (first) { if (!unreadable.empty()) fs::fail_path("", 0); expect(false); }
        std::multiset<std::string> got, want;
        for (Iface* x : l)
        {
          SIM_CHECK(x, "plugins", "plugins() contains a null pointer");
          got.insert(x->Identifier());
          if (x->origin() < 0) continue;
          Iface*& have = instance[x->Identifier()];
          SIM_CHECK(!have || have == x, "instances", "the manager's instance of '%s' changed", x->Identifier().c_str());
          have = x;
        }
        for (auto& f : found) if (usable(open_one(f.first))) want.insert(f.first);
        for (auto& s : statics) want.insert(s.first);
        SIM_CHECK(got == want, "plugins", "plugins() has %d instances instead of %d", (int)got.size(), (int)want.size());
        loaded();
        break;
      }
      case 4: case 5:
      {
        bool first = !started; if (first && !unreadable.empty()) fs::fail_path(unreadable, EACCES);
        Iface* x = m->plugin(id);
        if (first) { if (!unreadable.empty()) fs::fail_path("", 0); expect(false); }
        if (statics.count(id)) { SIM_CHECK(x == statics[id], "static", "plugin('%s') is not the static plugin", id.c_str()); break; }
        bool there = found.count(id) && usable(open_one(id));
        SIM_CHECK(there == (x != 0), "plugin", "plugin('%s') returned %s", id.c_str(), x ? "an instance" : "nothing");
        if (x)
        {
          SIM_CHECK(x->Identifier() == id && x->origin() == open_one(id), "plugin", "plugin('%s') is a '%s'", id.c_str(), x->Identifier().c_str());
          Iface*& have = instance[id];
          SIM_CHECK(!have || have == x, "instances", "the manager's instance of '%s' changed", id.c_str());
          have = x;
        }
        loaded();
        break;
      }
      case 6: case 7:
      {
        bool first = !started; if (first && !unreadable.empty()) fs::fail_path(unreadable, EACCES);
        Iface* x = m->createPluginInstance(id);
        if (first) { if (!unreadable.empty()) fs::fail_path("", 0); expect(false); }
        bool there = found.count(id) && usable(open_one(id));
        SIM_CHECK(there == (x != 0), "plugin", "createPluginInstance('%s') returned %s", id.c_str(), x ? "an instance" : "nothing");
        if (x)
        {
          SIM_CHECK(x->Identifier() == id && x->origin() == open_one(id), "plugin", "createPluginInstance('%s') is a '%s'", id.c_str(), x->Identifier().c_str());
          for (Iface* y : own) SIM_CHECK(x != y, "instances", "createPluginInstance() returned the same instance twice");
          for (auto& y : instance) SIM_CHECK(x != y.second, "instances", "createPluginInstance() returned the manager's instance");
          own.push_back(x);
        }
        loaded();
        break;
      }
      case 8: { Instance* s = new Instance(-1, id); Instance* old = statics.count(id) ? statics[id] : 0; m->addStaticPlugin(s); statics[id] = s; delete old; break; }
      case 9: m->removeStaticPlugin(id); if (statics.count(id)) { delete statics[id]; statics.erase(id); } break;
      case 10: SIM_CHECK(m->isStaticPlugin(id) == (statics.count(id) > 0), "static", "isStaticPlugin('%s') is wrong", id.c_str()); break;
      case 11:
        for (Iface* x : own) delete x;
        own.clear();
        probe("deleted"); delete m; m = 0;
        for (int i = 0; i < n; ++i)
        {
          SIM_CHECK(lib[i].alive == 0, "instances", "%d instances of %s are left", lib[i].alive, lib[i].path.c_str());
          SIM_CHECK(dl::libs[lib[i].path].refs == 0, "handle-leak", "the library %s is still open", lib[i].path.c_str());
          dl::libs[lib[i].path].opens = 0; lib[i].made = 0;
        }
        started = false; found.clear(); instance.clear();
        for (auto& s : statics) delete s.second;
        statics.clear();
        break;
    }
    SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a directory is still open");
  }
  if (m)
  {
    for (Iface* x : own) delete x;
    delete m;
    for (int i = 0; i < n; ++i)
    {
      SIM_CHECK(lib[i].alive == 0, "instances", "%d instances of %s are left", lib[i].alive, lib[i].path.c_str());
      SIM_CHECK(dl::libs[lib[i].path].refs == 0, "handle-leak", "the library %s is still open", lib[i].path.c_str());
    }
  }
}
SIM_SCENARIO_LONG(C23, plugins, gen_plugins, run_plugins, 40000, 300);
