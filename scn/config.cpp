// C21 configuration files, parameters and observers; C22 attribute trees
#include "common.h"
#include <iostream>
#include <sstream>
#include <icl_core_config/AttributeTree.h>
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigObserver.h>
using namespace scn;
namespace cf = icl_core::config;
namespace {
// ---------------------------------------------------------------- files
const char* const keys[] = { "/alpha", "/sec/beta", "/sec/gamma", "/sec/sub/delta", "/al.ha", "/sec" };
const int NKEY = 6;
std::string value_of(int id, int64_t kind)
{
  static const char* const bits[] = { "", " a b", "<&>\"'", ":{}#", "\xc3\xa4\xe2\x82\xac", "${HOME}", "\\n", "=1", "_COMMENT_" };
  std::string s = "v" + num(id) + bits[kind % 9];
  if (kind % 7 == 6) s += std::string(100 + (kind * 977) % 4000, (char)('a' + kind % 26));
  return s;
}
std::string xml(const std::string& s) { std::string r; for (char c : s) r += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : std::string(1, c); return r; }
struct File
{
  bool tree; std::string name, data; size_t end;     // end: up to here the file has to be there
  struct Item { int key; std::string value; int target; int style; };
  std::vector<Item> items;
  bool broken, bad_tail; int64_t cut;
};
struct Got { std::string key, value; bool maybe, dflt; Got(const std::string& k = "", const std::string& v = "", bool m = false, bool d = false) : key(k), value(v), maybe(m), dflt(d) { } };
std::string dir_of(const std::string& p) { return p.substr(0, p.rfind('/') + 1); }
// One file under another name: by way of its directory, absolute (only from a tree), with variables and backslashes (only from a tree)
std::string file_text(const std::string& dir, const std::string& to, int form, bool tree)
{
  static const std::string etc = "/simfs/etc/";
  std::string rel = to.compare(0, dir.size(), dir) == 0 ? to.substr(dir.size()) : "../" + to.substr(etc.size());
  switch (form % (tree ? 12 : 8))
  {
    case 3: return "./" + rel;
    case 4: return dir == etc ? "sub/../" + rel : "../sub/" + rel;
    case 5: return "././" + rel;
    case 6: return dir == etc ? "sub/./../" + rel : ".././sub/" + rel;
    case 7: return tree ? "no/such/../../" + rel : rel;
    case 8: return to;
    case 9: return "${SIMETC}/" + to.substr(etc.size());
    case 10: return "/${SIMFS}/${SIMDIR}/sub/../" + to.substr(etc.size());
    case 11: { std::string b = ".\\" + rel; for (char& c : b) if (c == '/') c = '\\'; return b; }
  }
  return rel;
}
std::string resolve(const std::string& dir, std::string n)
{
  for (size_t a; (a = n.find("${")) != std::string::npos; )
  {
    size_t b = n.find('}', a); if (b == std::string::npos) return ""; std::string v = n.substr(a + 2, b - a - 2);
    n = n.substr(0, a) + (v == "SIMETC" ? "/simfs/etc" : v == "SIMFS" ? "simfs" : "etc") + n.substr(b + 1);
  }
  for (char& c : n) if (c == '\\') c = '/';
  if (n.empty() || n[0] != '/') n = dir + n;
  std::vector<std::string> v;
  for (size_t a = 1; a < n.size(); )
  {
    size_t b = n.find('/', a); if (b == std::string::npos) b = n.size();
    std::string c = n.substr(a, b - a); a = b + 1;
    if (c == "..") { if (!v.empty()) v.pop_back(); } else if (c != "." && !c.empty()) v.push_back(c);
  }
  std::string r; for (const std::string& c : v) r += "/" + c;
  return r;
}
struct Files
{
  std::vector<File> f;
  int index(const std::string& name) const { for (size_t i = 0; i < f.size(); ++i) if (f[i].name == name) return (int)i; return -1; }
  void write(size_t i)
  {
    File& x = f[i];
    std::string d;
    if (!x.tree)
    {
      d = "<config>\n";
      for (const File::Item& it : x.items)
      {
        if (it.target >= 0)
        {
          std::string inc = "<INCLUDE>" + file_text(dir_of(x.name), f[it.target].name, it.style / 3, false) + "</INCLUDE>";
          d += it.style % 3 == 0 ? "<sec>" + inc + "</sec>\n" : " " + inc + "\n";
          continue;
        }
        std::string k = std::string(keys[it.key]).substr(1), open, close;
        for (size_t a = 0; a <= k.size(); ) { size_t b = k.find('/', a); if (b == std::string::npos) b = k.size(); std::string n = k.substr(a, b - a); open += "<" + n + ">"; close = "</" + n + ">" + close; a = b + 1; }
        if (it.style % 5 == 1) d += "<!-- <x> -->";
        d += (it.style % 3 == 1 ? "\t" : "") + open + (it.style % 3 == 2 ? " " : "") + xml(it.value) + (it.style % 4 == 2 ? "\n " : "") + close + (it.style % 2 ? "\n" : "");
      }
      d += "</config>";
      x.end = d.size();
      if (x.items.size() % 2) d += "\n";
    }
    else
    {
      for (const File::Item& it : x.items)
      {
        std::string nl = it.style % 5 == 3 ? "\r\n" : "\n";
        if (it.target >= 0) { d += "_INCLUDE_:" + file_text(dir_of(x.name), f[it.target].name, it.style / 5, true) + nl; continue; }
        std::string k = std::string(keys[it.key]).substr(1);
        for (char& c : k) if (c == '/') c = '.';
        if (it.style % 7 == 1) d += "# comment: {" + nl;
        if (it.style % 7 == 2) d += "_COMMENT_{" + nl + "sec.beta:no" + nl + nl + "}_COMMENT_" + nl;
        if (it.style % 7 == 3) d += nl;
        if (it.key == 3 && it.style % 2) d += "sec.sub{" + nl + " delta:" + it.value + nl + "}sec.sub" + nl;
        else if (it.key != 4 && it.style % 8 == 5)
        {
          // in braces, whether or not the node is there already
          size_t c = k.find('.');
          if (c == std::string::npos) d += k + "{" + nl + ":" + it.value + nl + "}" + nl;
          else d += k.substr(0, c) + "{" + nl + " " + k.substr(c + 1) + ":" + it.value + nl + "}" + nl;
        }
        else d += (it.style % 3 == 1 ? "  " : "") + k + ":" + it.value + nl;
      }
      if (x.items.size() % 2 && !d.empty()) { d.erase(d.size() - 1); if (!d.empty() && d[d.size() - 1] == '\r') d.erase(d.size() - 1); }
      x.end = d.size();
    }
    x.data = d;
  }
  // What loading a file gives, by an independent reader.
  bool load(int i, std::vector<int> stack, std::vector<Got>& out, bool maybe)
  {
    File& x = f[i];
    if (std::find(stack.begin(), stack.end(), i) != stack.end()) return false;
    if (x.broken || !fs::exists(x.name)) return false;
    stack.push_back(i);
    if (!x.tree)
    {
      if (x.cut < (int64_t)x.end) return false;
      for (const File::Item& it : x.items)
        if (it.target < 0) out.push_back(Got(keys[it.key], it.value, maybe));
        else load(it.target, stack, out, maybe);
      return true;
    }
    std::map<std::string, Got> m;
    bool ok = tree(i, stack, m, maybe);
    if (ok) for (std::map<std::string, Got>::iterator it = m.begin(); it != m.end(); ++it) out.push_back(it->second);
    return ok;
  }
  bool tree(int i, std::vector<int> stack, std::map<std::string, Got>& m, bool maybe, std::vector<Got>* all = 0)
  {
    File& x = f[i];
    bool bad = x.bad_tail && x.cut < (int64_t)x.data.size();
    std::string d = bad ? x.data : x.data.substr(0, x.cut);
    std::vector<std::string> at; bool comment = false;
    std::map<std::string, Got> mine = m;
    for (size_t a = 0; a < d.size(); )
    {
      size_t b = d.find('\n', a); bool last = b == std::string::npos; if (last) b = d.size();
      std::string l = d.substr(a, b - a); a = b + 1;
      if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1);
      size_t s = 0; while (s < l.size() && isspace((unsigned char)l[s])) ++s;
      l.erase(0, s);
      if (comment) { if (l.find("}_COMMENT_") != std::string::npos) comment = false; continue; }
      if (l.empty() || l[0] == '#') continue;
      size_t c = l.find(':'), o = l.find('{'), e = l.find('}');
      if (c != std::string::npos)
      {
        std::string k = l.substr(0, c), v = l.substr(c + 1);
        if (k == "_INCLUDE_")
        {
          int t = index(resolve(dir_of(x.name), v));
          if (t < 0 || std::find(stack.begin(), stack.end(), t) != stack.end() || f[t].broken || !fs::exists(f[t].name)) continue;
          std::vector<int> st = stack; st.push_back(t);
          std::map<std::string, Got> n = mine;
          std::vector<Got> some;
          if (tree(t, st, n, maybe, &some)) { mine = n; if (all) all->insert(all->end(), some.begin(), some.end()); }
          // any part of a file that fails to be included may have been taken
          else for (Got& g : some) { g.maybe = true; if (all) all->push_back(g); mine[g.key + "?" + num((int64_t)mine.size())] = g; }
          continue;
        }
        std::string q; for (const std::string& p : at) q += "/" + p;
        for (char& ch : k) if (ch == '.') ch = '/';
        if (!k.empty()) q += "/" + k;     // without a name it is the value of the node itself
        mine[q] = Got(q, v, maybe || bad);
        if (all) all->push_back(mine[q]);
      }
      else if (o != std::string::npos)
      {
        std::string k = l.substr(0, o);
        if (k == "_COMMENT_") comment = true;
        else { for (char& ch : k) if (ch == '.') ch = '/'; at.push_back(k); }
      }
      else if (e != std::string::npos) { if (at.empty()) { m = mine; return !bad; } at.pop_back(); }
      else if (!last) return false;
    }
    m = mine;
    return !comment && !bad;
  }
};
// ---------------------------------------------------------------- observers
struct Reg { int obs; std::string key; uint64_t from, done, to; std::set<std::string> had, maybe_had; };
struct Change { std::string key; uint64_t from, to; int count, maybe; };
struct Call { int obs; std::string key; uint64_t at; };
struct World;
struct Obs : cf::ConfigObserver
{
  World* w; int id;
  Obs(World* w, int id) : w(w), id(id) { }
  ~Obs() { w = 0; }
  virtual void valueChanged(const icl_core::String& key);
};
struct World
{
  Files files;
  std::map<std::string, std::set<std::string> > possible;   // the values a key may have
  std::vector<Reg> regs; std::vector<Change> changes; std::vector<Call> calls;
  Obs* obs[4];
  std::vector<std::vector<int64_t> > reactions[4]; size_t next[4];
  int depth, loading, serial;
  std::map<std::string, std::set<std::string> > coming;
  World() : depth(0), loading(0), serial(1000) { for (int i = 0; i < 4; ++i) obs[i] = 0, next[i] = 0; }
  void check_value(const std::string& k)
  {
    std::string v; bool has = cf::ConfigManager::instance().get(k, v);
    if (k.compare(0, 10, "/_ATTRIBUT") == 0 || k == "/configfile") return;
    SIM_CHECK(has, "value", "an observer was told about %s, which cannot be read", k.c_str());
    SIM_CHECK((possible.count(k) && possible[k].count(v)) || (coming.count(k) && coming[k].count(v)), "value", "the value of %s is '%.40s'", k.c_str(), v.c_str());
  }
  void check_all() { for (int i = 0; i < NKEY; ++i) { std::string v; std::string k = keys[i]; bool has = cf::ConfigManager::instance().get(k, v), need = possible.count(k) > 0 && !possible[k].count("");
      SIM_CHECK(has ? possible[k].count(v) : !need, "value", "the value of %s is '%.40s'%s", keys[i], v.c_str(), has ? "" : " (none)"); } }
  void set(int k, const std::string& v)
  {
    possible[keys[k]].clear(); possible[keys[k]].insert(v);
    Change c; c.key = keys[k]; c.count = 1; c.maybe = 0; c.from = seq(); c.to = 0;
    size_t i = changes.size(); changes.push_back(c);
    cf::setValue<icl_core::String>(keys[k], v);
    changes[i].to = seq();
  }
  // begins a load; the keys get their values in the course of it
  void before_load(const std::vector<Got>& g)
  {
    ++loading;
    for (const Got& x : g) coming[x.key].insert(x.value);
    std::map<std::string, int> n, maybe;
    for (const Got& x : g) { n[x.key] += !x.maybe; maybe[x.key] += x.maybe; }
    std::set<std::string> ks; for (const Got& x : g) ks.insert(x.key);
    for (const std::string& k : ks) { Change c; c.key = k; c.count = n[k]; c.maybe = maybe[k]; c.from = seq(); c.to = 0; changes.push_back(c); }
  }
  void after_load(const std::vector<Got>& g, size_t first_change, size_t nchange)
  {
    --loading;
    for (size_t i = first_change; i < first_change + nchange; ++i) changes[i].to = seq();
    // an observer that set the key meanwhile may have had the last word
    for (const Got& x : g)
    {
      bool touched = false;
      for (size_t i = first_change + nchange; i < changes.size(); ++i) touched |= changes[i].key == x.key;
      // ... and keeps the default away
      if (touched && x.dflt)
        for (size_t i = first_change; i < first_change + nchange; ++i)
          if (changes[i].key == x.key && changes[i].count) { --changes[i].count; ++changes[i].maybe; }
      std::set<std::string>& p = possible[x.key];
      if (!x.maybe && !touched) p.clear();
      else if (x.maybe && p.empty()) p.insert("");
      p.insert(x.value);
    }
    coming.clear();
  }
  void load(int i)
  {
    std::vector<Got> g;
    bool ok = files.load(i, std::vector<int>(), g, false);
    if (!ok) g.clear();
    size_t n0 = changes.size(); before_load(g); size_t n1 = changes.size();
    std::string n = files.f[i].name;
    if (i % 2) n.insert(7 + 4 * (i & 2 ? 1 : 0), i == 3 ? "sub/../" : "./");
    cf::setValue<icl_core::String>("/configfile", n);
    after_load(g, n0, n1 - n0);
  }
  void reg(int o, int k)
  {
    if (!obs[o]) obs[o] = new Obs(this, o);
    Reg r; r.obs = o; r.key = k < 0 ? "" : keys[k]; r.to = r.done = 0;
    for (auto& p : possible) (p.second.count("") ? r.maybe_had : r.had).insert(p.first);
    for (auto& p : coming) r.maybe_had.insert(p.first);
    r.from = seq();
    size_t i = regs.size(); regs.push_back(r);
    cf::ConfigManager::instance().registerObserver(obs[o], r.key);
    regs[i].done = seq();
  }
  void end(int o) { for (Reg& r : regs) if (r.obs == o && !r.to) r.to = seq(); }
  void unreg(int o) { if (!obs[o]) return; end(o); cf::ConfigManager::instance().unregisterObserver(obs[o]); }
  void destroy(int o) { if (!obs[o]) return; end(o); Obs* x = obs[o]; obs[o] = 0; delete x; }
  void act(const std::vector<int64_t>& o)
  {
    switch (arg(o, 1))
    {
      case 0: set((int)arg(o, 2) % NKEY, value_of(++serial, arg(o, 3))); break;
      case 1: if (loading == 0 && depth == 0) load((int)(arg(o, 2) % files.f.size())); break;
      case 2: reg((int)arg(o, 2) % 4, (int)arg(o, 3) % (NKEY + 1) - 1); break;
      case 3: unreg((int)arg(o, 2) % 4); break;
      case 4: destroy((int)arg(o, 2) % 4); break;
    }
  }
  void called(int o, const std::string& key)
  {
    if (key.compare(0, 10, "/_ATTRIBUT") == 0 || key == "/configfile") return;
    bool may = false;
    for (Reg& r : regs) may |= r.obs == o && !r.to && (r.key == "" || r.key == key);
    SIM_CHECK(may, "not-registered", "observer %d, which is not registered for %s, was told about it", o, key.c_str());
    check_value(key);
    Call c; c.obs = o; c.key = key; c.at = seq(); calls.push_back(c);
    if (next[o] < reactions[o].size() && depth < 4)
    {
      const std::vector<int64_t> a = reactions[o][next[o]++];
      ++depth; probe("reaction"); act(a); --depth;
    }
  }
  // each registration is told of each change within its time exactly once
  void check_calls()
  {
    for (int o = 0; o < 4; ++o)
      for (int k = 0; k < NKEY; ++k)
      {
        int lo = 0, hi = 0, n = 0;
        for (Reg& r : regs)
        {
          if (r.obs != o || (r.key != "" && r.key != keys[k])) continue;
          uint64_t to = r.to ? r.to : UINT64_MAX;
          bool before = r.had.count(keys[k]) > 0, maybe = r.maybe_had.count(keys[k]) > 0;
          for (Change& c : changes)
          {
            if (c.key != keys[k] || c.to < r.from || c.from > to) continue;
            hi += c.count + c.maybe;
            if (c.from > r.from && c.to < to) lo += c.count;
            // a key that appears while an observer is being registered for all may be reported
            if (c.from < r.done) maybe = true;
          }
          if (before || maybe) ++hi;
          if (before && to > r.done) ++lo;
        }
        for (Call& c : calls) n += c.obs == o && c.key == keys[k];
        SIM_CHECK(n >= lo && n <= hi, "notified", "observer %d was told %d times about %s, which changed %d to %d times for it", o, n, keys[k], lo, hi);
      }
  }
};
void Obs::valueChanged(const icl_core::String& key) { SIM_CHECK(w, "destroyed", "a destroyed observer was called"); w->called(id, key); }
}
// ------------------------------------------------------------------ C21
// cfg: files, type bits, bad file, how bad, where, short reads, main file, command line, dead registrations allowed
// how bad: 0 fine, 1 missing, 2 cannot be opened, 3 cut off, 4 unreadable from some point on
// op: 0 item (file, key, value kind, include or -1, style) | 1 action (kind, a, b) | 2 reaction of observer (kind, a, b)
static void gen_config(Rng& r, Plan& p)
{
  int nf = (int)r.range(1, 5);
  bool chain = r.chance(1, 8);       // each file includes the next one
  if (chain) nf = (int)r.range(4, 12);
  static const int64_t types[] = { 0, 4095, 4095 << 2 & 4095, 4095 << 5 & 4095 };
  p.cfg = { nf, chain ? types[r.below(4)] : (int64_t)r.below(32), (int64_t)r.below(nf), r.chance(1, 2) ? r.range(1, 4) : 0, r.chance(1, 4) ? 1000 : r.range(0, 1000), r.chance(1, 3) ? r.range(100, 900) : 0, (int64_t)r.below(nf), (int64_t)r.below(2048) };
  int n = (int)r.range(0, 12);
  if (chain)
  {
    if (r.chance(3, 4)) { p.cfg[3] = 0; p.cfg[6] = 0; p.cfg[7] |= 2; }
    for (int i = 0; i + 1 < nf; ++i) p.ops.push_back({ 0, i, 0, 0, i + 1, (int64_t)r.below(420) });
    p.ops.push_back({ 0, nf - 1, (int64_t)r.below(NKEY), (int64_t)r.below(63), -1, (int64_t)r.below(420) });
  }
  for (int i = 0; i < n; ++i) p.ops.push_back({ 0, (int64_t)r.below(nf), (int64_t)r.below(NKEY), (int64_t)r.below(63), r.chance(1, chain ? 12 : 3) ? (int64_t)r.below(nf) : -1, (int64_t)r.below(420) });
  n = (int)r.range(0, 10);
  for (int i = 0; i < n; ++i)
  {
    static const int64_t kinds[] = { 0, 0, 0, 1, 1, 2, 2, 2, 3, 4 };
    if (r.chance(1, 3)) p.ops.push_back({ 2, (int64_t)r.below(4), kinds[r.below(10)], (int64_t)r.below(12), (int64_t)r.below(42) });
    else p.ops.push_back({ 1, kinds[r.below(10)], (int64_t)r.below(12), (int64_t)r.below(42) });
  }
}
static void run_config(const Plan& p)
{
  static World w;
  int nf = (int)p.c(0, 1);
  fs::mkdir("/simfs/etc"); fs::mkdir("/simfs/etc/sub");
  setenv("SIMETC", "/simfs/etc", 1); setenv("SIMFS", "simfs", 1); setenv("SIMDIR", "etc", 1); setenv("PWD", "/simfs/cwd", 1);
  for (int i = 0; i < nf; ++i)
  {
    File f; f.tree = (p.c(1) >> i) & 1; f.broken = f.bad_tail = false; f.cut = 0; f.end = 0;
    static const char* const ext[] = { ".xml", ".conf", "", ".tree", ".AttributeTree" };
    f.name = std::string("/simfs/etc/") + (i >= 3 ? "sub/" : "") + "file" + num(i) + ext[f.tree ? 3 + i % 2 : i % 3];
    w.files.f.push_back(f);
  }
  int id = 0;
  for (const std::vector<int64_t>& o : p.ops)
  {
    if (arg(o, 0) == 2) { w.reactions[arg(o, 1) % 4].push_back({ 1, arg(o, 2), arg(o, 3), arg(o, 4) }); continue; }
    if (arg(o, 0)) continue;
    File& f = w.files.f[arg(o, 1) % nf];
    File::Item it; it.key = (int)arg(o, 2) % NKEY; it.value = value_of(++id, arg(o, 3)); it.target = (int)arg(o, 4); it.style = (int)arg(o, 5);
    if (it.target >= nf) it.target = -1;
    if (f.tree && it.key == 4) it.key = 0;
    if (it.target >= 0)
    {
      File& t = w.files.f[it.target];
      if (f.tree && !t.tree) it.target = -1;           // a tree can only include trees
    }
    f.items.push_back(it);
  }
  int bad = (int)p.c(2) % nf, how = (int)p.c(3);
  for (int i = 0; i < nf; ++i)
  {
    w.files.write(i);
    File& f = w.files.f[i];
    f.cut = (int64_t)f.data.size();
    if (i == bad && how >= 3) f.cut = f.data.size() * p.c(4) / 1000;
    // TinyXML takes "<" for an empty document
    if (f.cut == 1 && !f.tree) f.cut = 0;
    if (i == bad && how == 4) { f.bad_tail = true; if (f.data.empty()) how = 0; }
    if (!(i == bad && how == 1)) fs::put(f.name, how == 3 && i == bad ? f.data.substr(0, f.cut) : f.data);
  }
  auto spoil = [&](bool on) {
    File& f = w.files.f[bad];
    if (how == 2) { fs::fail_path(on ? f.name : "", on ? EACCES : 0); f.broken = on; if (on) count_fault(FT_OPEN_ERR); }
    if (how == 4) { fs::bad_sector(f.name, on ? f.cut : -1); if (!on) { f.bad_tail = false; f.cut = f.data.size(); } else if (!f.tree && f.cut < (int64_t)f.data.size()) f.broken = true; if (!on) f.broken = false; }
    if (!on && (how == 1 || how == 3)) { fs::put(f.name, f.data); f.cut = f.data.size(); }
  };
  spoil(true);
  if (p.c(5)) set_rate(FT_SHORT_READ, (int)p.c(5));
  cf::ConfigManager& cm = cf::ConfigManager::instance();
  int cl = (int)p.c(7);
  cf::ConfigParameterList opts;
  opts.push_back(cf::ConfigParameter("alpha:", "a", "/alpha", "help", cl & 1 ? "default" : ""));
  opts.push_back(cf::ConfigParameter("beta:", "b", "/sec/beta", "help", "default"));
  if (cl & 512) cm.addParameter(opts); else for (cf::ConfigParameter& x : opts) cm.addParameter(x);
  std::vector<std::string> args; args.push_back("prog");
  int mainf = (int)p.c(6) % nf; std::string mn = w.files.f[mainf].name;
  if (p.c(4) % 3 == 1) mn = "../" + mn.substr(7); else if (p.c(4) % 3 == 2) mn = "./.././" + mn.substr(7);
  bool withfile = cl & 2;
  if (withfile) { if (cl & 4) { args.push_back("-c"); args.push_back(mn); } else args.push_back("--configfile=" + mn); }
  if (cl & 8) args.push_back("--alpha=" + value_of(900, p.c(4)));
  if (cl & 16) { args.push_back("-o/sec/gamma"); args.push_back(value_of(901, p.c(2))); }
  if (cl & 256) { args.push_back("-o/alpha"); args.push_back(value_of(902, p.c(5))); }
  cf::ConfigPositionalParameterList pos;
  pos.push_back(cf::ConfigPositionalParameter("position", "/sec/sub/delta", "help", true, cl & 128 ? "default" : ""));
  if (cl & 512) cm.addParameter(pos); else cm.addParameter(pos.front());
  if (cl & 1024) args.push_back("--dump-config");
  if (cl & 64) args.push_back(value_of(903, p.c(0)));
  std::vector<char*> argv; for (std::string& a : args) argv.push_back((char*)a.c_str());
  argv.push_back(0);
  int argc = (int)argv.size() - 1;
  if (cl & 32) w.reg(0, -1);
  for (int attempt = 0; attempt < 2; ++attempt)
  {
    std::vector<Got> g;
    bool ok = !withfile || w.files.load(mainf, std::vector<int>(), g, false);
    if (!ok) g.clear();
    if (ok)
    {
      auto defaulted = [&](const char* k) {
        bool has = w.possible.count(k) > 0, maybe = false;
        for (const Got& x : g) if (x.key == k) { has |= !x.maybe; maybe |= x.maybe; }
        if (!has) g.push_back(Got(k, "default", maybe, true));
      };
      if (cl & 8) g.push_back(Got("/alpha", value_of(900, p.c(4)), false));
      else if (cl & 1) defaulted("/alpha");
      defaulted("/sec/beta");
      if (cl & 64) g.push_back(Got("/sec/sub/delta", value_of(903, p.c(0)), false));
      else if (cl & 128) defaulted("/sec/sub/delta");
      if (cl & 16) g.push_back(Got("/sec/gamma", value_of(901, p.c(2)), false));
      if (cl & 256) g.push_back(Got("/alpha", value_of(902, p.c(5)), false));
    }
    size_t n0 = w.changes.size(); w.before_load(g); size_t n1 = w.changes.size();
    std::ostringstream out; std::streambuf* terminal = std::cout.rdbuf(out.rdbuf());
    bool got = attempt ? cm.initialize() : cf::initialize(argc, &argv[0], cf::Getopt::eCLC_None, cf::Getopt::ePRC_Strict);
    std::cout.rdbuf(terminal);
    w.after_load(g, n0, n1 - n0);
    SIM_CHECK(got == ok, "result", "initialize() returned %s although %s", got ? "true" : "false", ok ? "the configuration can be read" : "the file is missing, unreadable or malformed");
    SIM_CHECK(cm.isInitialized() == ok, "result", "isInitialized() is wrong");
    w.check_all();
    if (cl & 1024 && ok)
    {
      std::string want;
      cf::ConfigIterator it = cm.find(".*");
      while (it.next()) want += it.key() + " = '" + it.value() + "'\n";
      SIM_CHECK(out.str().find(want) != std::string::npos && !want.empty(), "dump", "--dump-config does not print all entries");
      probe("dumped");
    }
    if (ok) break;
    SIM_CHECK(attempt == 0, "result", "the harness expects the repaired file to be readable");
    probe("refused"); spoil(false);
  }
  for (const std::vector<int64_t>& o : p.ops) if (arg(o, 0) == 1) { w.act(o); w.check_all(); }
  w.check_calls();
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open");
  for (int i = 0; i < 4; ++i) w.destroy(i);
}
SIM_SCENARIO(C21, config, gen_config, run_config, 120000);

// ------------------------------------------------------------------ C22
// cfg: threads, faults (0 none, 1 disk, 2 reads, 3 both), rate, short reads/writes
// op: thread, kind, a, b, c
//  0 set (name path, value) | 1 comment (name path, lines) | 2 save (depth, unmark, file) | 3 load the own file (comments, order, unmark, keep)
//  7 load a hand-written file (seed, unmark)
//  8 copy | 9 ask with a default that is set | 10 search | 11 move a subtree | 12 new numbered subtree | 13 rename or append | 14 other order | 15 forget changes | 16 copy into another node
//  4 little space on the disk (bytes; 0: as much as wanted) | 5 bad sector in the own file (where) and load | 6 remove an entry
namespace {
const char* const names[] = { "a", "b", "name 1", "c-d", "\xc3\xa4", "x/y", "12", "a1" };
std::string path_of(int64_t a)
{
  std::string s; int n = 1 + (int)(a % 4); a /= 4;
  for (int i = 0; i < n; ++i) { s += (i ? "." : "") + std::string(names[a % 8]); a /= 8; }
  return s;
}
std::string attr_of(int id, int64_t b)
{
  static const char* const bits[] = { "", " x ", ":", "{", "}", "#", ".y", "\t", "a:b{c}d", "\xe2\x82\xac" };
  std::string s = (b % 3 == 1 ? bits[b % 10] : "") + num(id) + bits[b % 10];
  if (b % 23 == 7) return "";
  if (b % 11 == 5) s += std::string(1 + b * 37 % 9000, (char)('a' + b % 26));
  return s;
}
std::string comment_of(int id, int64_t b)
{
  static const char* const lines[] = { "", "a:b", "x{", "}", "# y", "text  text", "_COMMENT_", "}x" };
  std::string s = "comment" + num(id);
  for (int64_t n = b % 4; n > 0; --n) { b /= 4; s += "\n" + std::string(lines[b % 8]); }
  if (b % 9 == 3) s += "\n" + std::string(1 + b * 61 % 5000, 'z');
  return s;
}
// What the tree holds: an entry per attribute, in the order of the tree.
void contents(cf::AttributeTree* t, const std::string& prefix, bool comments, std::vector<std::pair<std::string, std::string> >& out)
{
  if (t->attribute()) out.push_back(std::make_pair(prefix, std::string(t->attribute())));
  for (cf::AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    std::string d = k->getDescription() ? k->getDescription() : "(none)";
    if (d.compare(0, 21, "_ATTRIBUTE_TREE_FILE_") == 0 || (!comments && k->isComment())) continue;
    contents(k, prefix + "|" + d, comments, out);
  }
}
typedef std::vector<std::pair<std::string, std::string> > Contents;
struct Saver
{
  cf::AttributeTree* t; std::map<std::string, std::string> want; std::map<std::string, std::string> comment;
  bool dirty, on_file; Contents saved, saved_nc; std::string name; int id;
};
int entries(cf::AttributeTree* t)
{
  int n = t->attribute() != 0;
  for (cf::AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k)) n += entries(k);
  return n;
}
// The nodes one can move: children that are neither comments nor made by load().
std::vector<cf::AttributeTree*> children(cf::AttributeTree* t)
{
  std::vector<cf::AttributeTree*> v;
  for (cf::AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k))
    if (k->getDescription() && !k->isComment() && std::string(k->getDescription()).compare(0, 21, "_ATTRIBUTE_TREE_FILE_")) v.push_back(k);
  return v;
}
int count_named(cf::AttributeTree* t, const std::string& name)
{
  int n = 0;
  for (cf::AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k)) n += k->getDescription() && name == k->getDescription();
  return n;
}
bool has_part(const std::string& key, const std::string& name, bool last)
{
  for (size_t a = 0; a < key.size(); )
  {
    size_t b = key.find('|', a + 1); if (b == std::string::npos) b = key.size();
    if ((!last || b == key.size()) && key.compare(a + 1, b - a - 1, name) == 0) return true;
    a = b;
  }
  return false;
}
bool same(Contents a, Contents b, bool order) { if (!order) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); } return a == b; }
}
static void gen_tree(Rng& r, Plan& p)
{
  int nt = (int)(r.chance(1, 2) ? 1 : r.range(2, 3));
  p.cfg = { nt, (int64_t)r.below(4), r.chance(1, 2) ? r.range(5, 60) : r.range(50, 400), r.chance(1, 2) ? r.range(50, 900) : 0 };
  int n = (int)r.range(2, nt == 1 ? 40 : 28);
  bool busy = nt > 1 && r.chance(1, 2);            // little but saving and loading
  for (int i = 0; i < n; ++i)
  {
    static const int64_t kinds[] = { 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 11, 12, 13, 13, 14, 15, 16, 16, 17 };
    static const int64_t kinds2[] = { 0, 1, 1, 2, 2, 3, 3, 3, 7, 7 };
    int64_t k = busy ? kinds2[r.below(10)] : kinds[r.below(r.chance(1, 3) ? 16 : 31)];
    p.ops.push_back({ (int64_t)r.below(nt), k, (int64_t)r.below(1 << 14), (int64_t)r.below(1 << 10), (int64_t)r.below(16) });
  }
}
static void run_tree(const Plan& p)
{
  static const int MAXT = 3;
  int nt = (int)p.c(0, 1); if (nt > MAXT) nt = MAXT;
  int kind = (int)p.c(1), rate = (int)p.c(2);
  fs::mkdir("/simfs/at");
  static Saver sv[MAXT];
  static bool faulty; faulty = kind != 0;
  if (kind & 1) { set_rate(FT_WRITE_ERR, rate); set_rate(FT_OPEN_ERR, rate / 4); set_rate(FT_EINTR_WRITE, rate); }
  if (kind & 2) { set_rate(FT_READ_ERR, rate); set_rate(FT_EINTR_READ, rate); }
  if (p.c(3)) { set_rate(FT_SHORT_WRITE, (int)p.c(3)); set_rate(FT_SHORT_READ, (int)p.c(3)); }
  for (int i = 0; i < nt; ++i)
  {
    Saver& s = sv[i]; s.t = new cf::AttributeTree; s.dirty = s.on_file = false; s.name = "/simfs/at/file" + num(i) + ".tree"; s.id = 100 * i;
  }
  static std::function<void(Saver&, int, bool, bool)> save; static std::function<void(Saver&, bool, bool, bool, bool, bool)> load;
  save = [](Saver& s, int depth, bool unmark, bool must) {
    Contents c, nc; contents(s.t, "", true, c); contents(s.t, "", false, nc);
    SIM_CHECK(s.t->changed() == s.dirty, "changed", "changed() is %d before saving", (int)s.t->changed());
    s.on_file = false;
    int r = s.t->save(s.name.c_str(), depth, unmark);
    SIM_CHECK(r == cf::AttributeTree::eOK || (!must && faulty), "save-result", "save() returned %d although nothing failed", r);
    if (r == cf::AttributeTree::eOK) { s.on_file = true; s.saved = c; s.saved_nc = nc; if (unmark) s.dirty = false; }
    else probe("save_failed");
    SIM_CHECK(s.t->changed() == s.dirty, "changed", "changed() is %d after save() returned %d", (int)s.t->changed(), r);
  };
  load = [](Saver& s, bool comments, bool order, bool unmark, bool must, bool may_not) {
    cf::AttributeTree* t = new cf::AttributeTree;
    bool there = s.on_file;
    int r = t->load(s.name.c_str(), unmark, true, comments, order);
    if (there)
    {
      SIM_CHECK(r == cf::AttributeTree::eOK || (!must && faulty) || may_not, "load-result", "load() returned %d although nothing failed", r);
      SIM_CHECK(r != cf::AttributeTree::eOK || !may_not, "load-result", "load() succeeded although the file cannot be read");
      if (r == cf::AttributeTree::eOK)
      {
        Contents c; contents(t, "", true, c);
        const Contents& want = comments ? s.saved : s.saved_nc;
        if (!same(c, want, order))
        {
          if (verbose()) { for (auto& x : want) note("want %s = %.60s", x.first.c_str(), x.second.c_str()); for (auto& x : c) note("got  %s = %.60s", x.first.c_str(), x.second.c_str()); }
          fail("contents", "a tree that was loaded has %d entries, the saved one %d, and they differ", (int)c.size(), (int)want.size());
        }
        SIM_CHECK(!unmark || !t->changed(), "changed", "changed() after load()");
      }
      else probe("load_failed");
    }
    delete t;
  };
  std::vector<int> ids;
  for (int i = 0; i < nt; ++i)
    ids.push_back(spawn("tree", [i, &p]() {
      Saver& s = sv[i];
      for (const std::vector<int64_t>& o : p.ops)
      {
        if (arg(o, 0) != i) continue;
        int64_t a = arg(o, 2), b = arg(o, 3), c = arg(o, 4);
        switch (arg(o, 1))
        {
          case 0:
          {
            std::string k = path_of(a), v = attr_of(++s.id, b);
            const char* was = s.t->getAttribute(k.c_str());
            if (!was || v != was) s.dirty = true;
            s.t->setAttribute(k.c_str(), v.c_str()); s.want[k] = v;
            break;
          }
          case 1:
          {
            std::string k = c % 4 == 0 ? "" : path_of(a), v = comment_of(++s.id, b);
            cf::AttributeTree* t = s.t;
            for (std::string rest = k; !rest.empty(); )
            {
              size_t y = rest.find('.');
              t = t->subTree(rest.substr(0, y).c_str());
              rest = y == std::string::npos ? "" : rest.substr(y + 1);
            }
            t->setComment(v.c_str()); s.comment[k] = v; s.dirty = true;
            SIM_CHECK(v == t->comment(), "comment", "the comment differs from the one set");
            break;
          }
          case 2: save(s, (int)(a % 7), b % 4 != 0, false); break;
          case 3: load(s, a % 2, b % 2, c % 2, false, false); break;
          case 4: if (p.c(1) & 1) { fs::set_capacity(a % 3 ? a % 2000 : -1); count_fault(FT_DISK_FULL); faulty = true; } break;
          case 5:
            if (s.on_file && !fs::get(s.name).empty())
            {
              fs::bad_sector(s.name, a % (int64_t)fs::get(s.name).size());
              load(s, b % 2, c % 2, true, false, true);
              fs::bad_sector(s.name, -1);
            }
            break;
          case 7:
          {
            Rng r(a * 1024 + b);
            std::string d; std::vector<std::string> at; bool commented = false;
            std::map<std::string, std::string> exp; Contents inc;    // what the file says, and its includes (of missing files)
            std::vector<std::string> where(1, "");
            auto pipes = [](std::string k) { for (char& ch : k) if (ch == '.') ch = '|'; return "|" + k; };
            for (int64_t n = r.range(0, 14); n > 0; --n)
            {
              std::string nl = r.chance(1, 6) ? "\r\n" : "\n"; if (r.chance(1, 2)) d += " ";
              switch (r.below(9))
              {
                case 0: case 1: case 2:
                {
                  std::string k = path_of(r.below(1 << 14)), v = attr_of(++s.id, r.below(1 << 10)) + "!";
                  d += k + ":" + v + nl; exp[where.back() + pipes(k)] = v; break;
                }
                case 3: case 4: at.push_back(path_of(r.below(1 << 14))); d += at.back() + "{" + nl; where.push_back(where.back() + pipes(at.back())); break;
                case 5: if (!at.empty()) { d += "}" + (r.chance(1, 2) ? at.back() : "") + nl; at.pop_back(); where.pop_back(); } break;
                case 8:
                  if (r.chance(1, 2)) { std::string f = "none" + num(++s.id) + ".tree"; d += "_INCLUDE_:" + f + nl; inc.push_back(std::make_pair(where.back() + "|_INCLUDE_", f)); }
                  else { std::string v = "own" + num(++s.id); d += ":" + v + nl; exp[where.back()] = v; }
                  break;
                case 6: if (!commented) { commented = true; if (r.chance(1, 3)) d += "_COMMENT_:xy" + nl; else { d += "_COMMENT_{" + nl; for (int64_t k = r.range(0, 3); k > 0; --k) d += " line {" + num(k) + nl; d += "}_COMMENT_" + nl; } } break;
                case 7: d += (r.chance(1, 2) ? "# x:y" : "") + nl; break;
              }
            }
            while (!at.empty()) { d += "}" + at.back() + "\n"; at.pop_back(); }
            fs::put(s.name + "2", d);
            cf::AttributeTree* t = new cf::AttributeTree;
            int res = t->load((s.name + "2").c_str(), true, true, true, c % 2);
            SIM_CHECK(res == cf::AttributeTree::eOK || faulty, "load-result", "load() returned %d although nothing failed", res);
            if (res == cf::AttributeTree::eOK)
            {
              Contents x, e(exp.begin(), exp.end()); contents(t, "", false, x);
              if (!same(x, e, false) && verbose()) { for (auto& q : e) note("want %s = %.60s", q.first.c_str(), q.second.c_str()); for (auto& q : x) note("got  %s = %.60s", q.first.c_str(), q.second.c_str()); }
              SIM_CHECK(same(x, e, false), "contents", "a file written by hand has %d entries, the tree loaded from it %d, and they differ", (int)e.size(), (int)x.size());
              if (!inc.empty())
              {
                cf::AttributeTree kept;
                if (kept.load((s.name + "2").c_str(), true, false, false, c % 2) == cf::AttributeTree::eOK)
                {
                  x.clear(); contents(&kept, "", false, x); e.insert(e.end(), inc.begin(), inc.end());
                  SIM_CHECK(same(x, e, false), "contents", "a file with includes that are not processed has %d entries, the tree loaded from it %d, and they differ", (int)e.size(), (int)x.size());
                  probe("includes_kept");
                }
                else SIM_CHECK(faulty, "load-result", "load() failed although nothing did");
              }
            }
            if (res == cf::AttributeTree::eOK) { probe("hand_written"); delete s.t; s.t = t; s.dirty = false; s.want.clear(); } else delete t;
            break;
          }
          case 6:
            if (!s.want.empty())
            {
              std::map<std::string, std::string>::iterator it = s.want.begin(); std::advance(it, a % s.want.size());
              cf::AttributeTree* t = 0; s.t->getAttribute(it->first.c_str(), 0, &t);
              SIM_CHECK(t, "contents", "%s was set but is not there", it->first.c_str());
              if (t->firstSubTree()) break;
              delete t; s.want.erase(it); s.dirty = true;
            }
            break;
          case 8:
          {
            Contents x, y;
            if (a % 3)
            {
              // a copy of a part
              cf::AttributeTree* n = s.t;
              for (int64_t d = a % 3, w = a / 3; d > 0 && n->firstSubTree(); --d) { n = n->firstSubTree(); for (int64_t k = w % 4; k > 0 && n->parent()->nextSubTree(n); --k) n = n->parent()->nextSubTree(n); w /= 4; }
              contents(n, "", true, x);
              cf::AttributeTree* t = new cf::AttributeTree(*n);
              contents(t, "", true, y);
              SIM_CHECK(same(x, y, false) && entries(t) == entries(n), "copy", "a copied subtree differs from the original");
              SIM_CHECK(!t->parent() && t->root() == t && !t->getDescription() == !n->getDescription() && (!n->getDescription() || !strcmp(t->getDescription(), n->getDescription())), "copy", "a copied subtree has another description or a parent");
              if (n->attribute()) { t->setAttribute("another"); SIM_CHECK(std::string("another") == t->attribute(), "copy", "the attribute of a copy cannot be set"); }
              delete t;
              y.clear(); contents(n, "", true, y);
              SIM_CHECK(same(x, y, false), "copy", "the end of one of two copies changed the other one");
              if (n != s.t) break;
              x.clear(); y.clear();
            }
            contents(s.t, "", true, x);
            cf::AttributeTree* t = new cf::AttributeTree(*s.t);
            contents(t, "", true, y);
            SIM_CHECK(same(x, y, false), "copy", "a copied tree differs from the original");
            SIM_CHECK(t->contains() == s.t->contains(), "copy", "contains() is %d for a tree and %d for its copy", s.t->contains(), t->contains());
            SIM_CHECK(!t->changed(), "changed", "a copy has changes");
            if (c % 2) { std::swap(t, s.t); s.dirty = false; s.saved = s.saved_nc = Contents(); s.on_file = false; }
            delete t;
            y.clear(); contents(s.t, "", true, y);
            SIM_CHECK(same(x, y, false), "copy", "the end of one of two copies changed the other one");
            probe("copied");
            break;
          }
          case 9:
          {
            std::string k = path_of(a), v = attr_of(++s.id, b);
            const char* was = s.t->getAttribute(k.c_str());
            std::string before = was ? was : "";
            const char* got = c & 1 ? s.t->getOrSetDefault(k.c_str(), v.c_str()) : s.t->GetOrSetDefault(k.c_str(), v.c_str());
            SIM_CHECK(got && (was ? before : v) == got, "default", "getOrSetDefault() of an entry that %s gave something else", was ? "exists" : "does not exist");
            if (!was) { s.want[k] = v; s.dirty = true; }
            const char* now = s.t->getAttribute(k.c_str(), "nothing");
            SIM_CHECK((was ? before : v) == now, "default", "getOrSetDefault() left another value");
            SIM_CHECK(std::string("other") == s.t->getAttribute((k + ".none").c_str(), "other") , "default", "getAttribute() did not give the default of an entry that does not exist");
            break;
          }
          case 10:
          {
            Contents x; contents(s.t, "", true, x);
            std::string name = names[a % 8], v = x.empty() || c % 4 == 0 ? attr_of(s.id + 1000, b) : x[b % x.size()].second;
            bool exact = c & 1, must = false;
            for (auto& e : x) must |= has_part(e.first, name, exact) && (!exact || e.second == v);
            cf::AttributeTree* f = s.t->search(name.c_str(), exact ? v.c_str() : 0);
            SIM_CHECK(f || !must, "search", "search() did not find a node which exists");
            SIM_CHECK(!f || !exact || must, "search", "search() found an entry which does not exist");
            SIM_CHECK(!f || (f->getDescription() && name == f->getDescription() && f->root() == s.t), "search", "search() found another node");
            SIM_CHECK(!f || !exact || (f->attribute() && v == f->attribute()), "search", "search() found a node with another attribute");
            if (f) probe("found");
            SIM_CHECK(s.t->contains() == entries(s.t), "search", "contains() is %d for a tree with %d entries", s.t->contains(), entries(s.t));
            cf::AttributeTree* none = s.t;
            SIM_CHECK(!s.t->getAttribute("a.there is.no such", 0, &none) && !none, "search", "getAttribute() gave something for an entry that does not exist");
            if (!s.want.empty())
            {
              std::map<std::string, std::string>::iterator it = s.want.begin(); std::advance(it, a % s.want.size());
              cf::AttributeTree* at = 0; const char* got = s.t->getAttribute(it->first.c_str(), "default", &at);
              SIM_CHECK(got && it->second == got && at && at->root() == s.t && at->attribute() && it->second == at->attribute(), "search", "getAttribute() gave another value or node for an entry that was set");
              SIM_CHECK(s.t->isAttribute(it->first.c_str()) && s.t->isAttribute(it->first.c_str(), it->second.c_str()), "search", "isAttribute() is false for an entry that was set");
              SIM_CHECK(!s.t->isAttribute(it->first.c_str(), (it->second + "x").c_str()) && !s.t->isAttribute((it->first + ".none").c_str()), "search", "isAttribute() is true for something else than what was set");
            }
            break;
          }
          case 11: case 16:
          {
            std::vector<cf::AttributeTree*> k = children(s.t);
            if (k.empty() || (k.size() == 1 && arg(o, 1) == 16)) break;
            bool copy = arg(o, 1) == 16;
            size_t i = a % k.size(), j = b % k.size();
            cf::AttributeTree* t = k[i]; cf::AttributeTree* u = i == j ? 0 : k[j];
            if (copy && (!u || u->getSubTree(t->getDescription()) || s.t->contains() > 400)) break;
            std::string was = t->getDescription(), under = u ? u->getDescription() : "";
            if (count_named(s.t, was) > 1 || (u && count_named(s.t, under) > 1)) break;
            Contents all, mine, now; contents(s.t, "", true, all); contents(t, "", true, mine);
            cf::AttributeTree* at = s.t;
            if (copy)
            {
              t = new cf::AttributeTree(*t, u); at = u;
              SIM_CHECK(t->parent() == u && was == t->getDescription(), "move", "a copy is not below the node it was made for");
            }
            else
            {
              std::vector<bool> ch; for (cf::AttributeTree* n : k) ch.push_back(n->changed());
              t->unlink();
              for (size_t n = 0; n < k.size(); ++n) SIM_CHECK(k[n]->changed() == ch[n], "changed", "changed() of a subtree is %d after one of %zu subtrees was unlinked, %d before", (int)k[n]->changed(), k.size(), (int)ch[n]);
              SIM_CHECK(!t->parent() && t->root() == t, "move", "an unlinked tree still has a parent");
              contents(s.t, "", true, now);
              SIM_CHECK(now.size() + mine.size() == all.size(), "move", "%zu entries were unlinked from %zu, and %zu remain", mine.size(), all.size(), now.size());
              if (c & 4) { s.dirty = true; SIM_CHECK(s.t->changed(), "changed", "changed() is false after a subtree was unlinked"); s.t->unmarkChanges(); t->unmarkChanges(); }
              cf::AttributeTree* r; int others = 0;
              if (u && (c & 1)) { at = u; others = count_named(at, was); r = c & 2 ? at->addSubTree(t) : at->AddSubTree(t); }
              else if (u && (c & 2)) { others = count_named(at, was); r = u->addNextTree(t); SIM_CHECK(s.t->nextSubTree(u) == t, "move", "addNextTree() put the tree elsewhere"); }
              else { others = count_named(at, was); r = at->addSubTree(t); }
              SIM_CHECK(r == t && t->parent() == at && t->parentTree() == at, "move", "a subtree was not put where it was meant to be");
              SIM_CHECK(others || was == t->getDescription(), "move", "a subtree was renamed without need");
              SIM_CHECK(count_named(at, t->getDescription()) == 1, "move", "two subtrees of one node have the same description");
              if (others) probe("renamed");
            }
            s.dirty = true; probe("moved");
            std::string is = t->getDescription();
            Contents want; std::string q = (at == u ? "|" + under : std::string()) + "|" + is;
            for (auto& e : all)
            {
              bool of = e.first == "|" + was || e.first.compare(0, was.size() + 2, "|" + was + "|") == 0;
              if (of) want.push_back(std::make_pair(q + e.first.substr(was.size() + 1), e.second));
              if (!of || copy) want.push_back(e);
            }
            now.clear(); contents(s.t, "", true, now);
            SIM_CHECK(same(want, now, false), "move", "the entries of a tree of %zu entries are not the same after one was moved or copied into another node", all.size());
            std::map<std::string, std::string> nw;
            for (auto& e : s.want)
            {
              bool of = e.first == was || e.first.compare(0, was.size() + 1, was + ".") == 0;
              if (of) nw[(at == u ? under + "." : "") + is + e.first.substr(was.size())] = e.second;
              if (!of || copy) nw[e.first] = e.second;
            }
            s.want = nw;
            break;
          }
          case 12:
          {
            Contents x, y; contents(s.t, "", true, x);
            cf::AttributeTree* t = c & 1 ? s.t->addNewSubTree() : s.t->AddNewSubTree();
            SIM_CHECK(t && t->parent() == s.t && t->getDescription() && count_named(s.t, t->getDescription()) == 1, "new", "addNewSubTree() gave a node whose description is used already");
            contents(s.t, "", true, y);
            SIM_CHECK(same(x, y, true), "new", "addNewSubTree() changed other entries");
            std::string v = attr_of(++s.id, b);
            t->setAttribute(v.c_str());
            s.want[t->getDescription()] = v; s.dirty = true;
            break;
          }
          case 13:
            if (!s.want.empty())
            {
              std::map<std::string, std::string>::iterator it = s.want.begin(); std::advance(it, a % s.want.size());
              cf::AttributeTree* t = 0; s.t->getAttribute(it->first.c_str(), 0, &t);
              SIM_CHECK(t, "contents", "%s was set but is not there", it->first.c_str());
              std::string add = attr_of(++s.id, b), sep = c & 1 && !add.empty() ? "" : " ; ";
              if (c & 2 || t->firstSubTree())
              {
                t->appendAttribute(add.c_str(), sep.c_str());
                it->second += sep + add; if (!(sep + add).empty()) s.dirty = true;
              }
              else
              {
                std::string k = it->first, v = it->second, n = "renamed" + num(s.id);
                size_t y = k.rfind('.');
                t->setDescription(n.c_str());
                SIM_CHECK(!s.t->isAttribute(k.c_str(), v.c_str()), "rename", "a renamed entry is still there under its old name");
                s.want.erase(it); s.want[(y == std::string::npos ? "" : k.substr(0, y + 1)) + n] = v; s.dirty = true;
                probe("description_changed");
              }
            }
            break;
          case 14:
          {
            Contents x, y, z; contents(s.t, "", true, x);
            s.t->revertOrder(); contents(s.t, "", true, y);
            SIM_CHECK(same(x, y, false), "order", "revertOrder() changed the entries");
            if (c & 1) { s.t->revertOrder(); contents(s.t, "", true, z); SIM_CHECK(same(x, z, true), "order", "revertOrder() twice changed the order"); }
            break;
          }
          case 15:
            s.t->unmarkChanges(); s.dirty = false;
            SIM_CHECK(!s.t->changed(), "changed", "changed() after unmarkChanges()");
            break;
          case 17:
          {
            std::vector<cf::AttributeTree*> k; bool can = s.t->firstSubTree();
            for (cf::AttributeTree* t = s.t->firstSubTree(); t; t = s.t->nextSubTree(t)) { k.push_back(t); can = can && t->getDescription() && count_named(s.t, t->getDescription()) == 1; }
            if (!can) break;
            Contents all, left; contents(s.t, "", true, all);
            if (c & 1) { s.t->unmarkChanges(); s.dirty = false; }
            if (c & 2) s.t->unlinkSub(); else s.t->UnlinkSub();
            contents(s.t, "", true, left);
            SIM_CHECK(!s.t->firstSubTree() && left.size() == (s.t->attribute() ? 1u : 0u), "move", "there are subtrees after all of them were unlinked");
            SIM_CHECK(s.t->changed(), "changed", "changed() is false after all subtrees were unlinked");
            for (cf::AttributeTree* t : k) SIM_CHECK(!t->parent() && t->root() == t, "move", "a tree that was unlinked with the others still has a parent");
            for (cf::AttributeTree* t : k) s.t->addSubTree(t);
            s.dirty = true; probe("all_unlinked");
            left.clear(); contents(s.t, "", true, left);
            SIM_CHECK(same(left, all, false), "move", "the entries are not the same after all subtrees were unlinked and added again");
            break;
          }
        }
        for (auto& w : s.want) { const char* v = s.t->getAttribute(w.first.c_str()); SIM_CHECK(v && w.second == v, "contents", "%s is not what was set", w.first.c_str()); }
      }
    }));
  for (int i : ids) join(i);
  faults_off(); fs::set_capacity(-1);
  ids.clear();
  for (int i = 0; i < nt; ++i)
    ids.push_back(spawn("tree", [i]() {
      load(sv[i], true, true, true, true, false);
      for (int d = 0; d < 5; d += 2) { save(sv[i], d, true, true); load(sv[i], true, true, true, true, false); load(sv[i], false, false, true, true, false); }
      delete sv[i].t;
    }));
  for (int i : ids) join(i);
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "a file is still open");
}
SIM_SCENARIO_LONG(C22, tree, gen_tree, run_tree, 60000, 100);
