// Batch runner: explores many seeds in parallel, gates, minimises and replays violations, writes evidence.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>

using namespace sim;

static double now_s()
{
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static Result* new_result()
{
  void* p = mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (Result*)p;
}
// Executes one run in a forked child.
static void execute(const Scenario& s, const Plan& plan, uint64_t seed, const Replay* rep, Result* r, bool verbose)
{
  r->done = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0)
  {
    int n = ::open("/dev/null", O_RDWR);
    if (!verbose) { dup2(n, 1); dup2(n, 2); }
    dup2(n, 0);
    run_child(s, plan, seed, rep, r, verbose);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r->done == 0)
  {
    r->done = 2;
    if (WIFSIGNALED(st)) snprintf(r->cls, sizeof r->cls, "killed");
    else snprintf(r->cls, sizeof r->cls, "ended");
    snprintf(r->msg, sizeof r->msg, "the process of the run ended without a verdict (status 0x%x)", st);
  }
}

static uint64_t run_seed(uint64_t base, const Scenario& s, uint64_t idx)
{ return mix(mix(base, hash_str(s.property) ^ hash_str(s.name)), idx); }
// Now and then the operations of a plan are repeated, so that what needs many of them (a counter, a buffer, a leak) is met as well.
static Plan make_plan(const Scenario& s, uint64_t seed)
{
  Rng r(mix(seed, 1)); Plan p; s.gen(r, p);
  Rng l(mix(seed, 5));
  static const char* every = getenv("SIM_LONG_EVERY");
  if (!p.ops.empty() && s.longest > (int)p.ops.size() && l.chance(1, every ? atoi(every) : 40))
  {
    size_t n = p.ops.size(), to = (size_t)l.range(n, l.chance(1, 2) && s.longest / 4 > (int)n ? s.longest / 4 : s.longest);
    for (size_t i = n; i < to; ++i) p.ops.push_back(p.ops[i % n]);
  }
  // Not every program runs in this decade: before and behind the end of 32 bit times, in the next century, long ago.
  static const int64_t eras[] = { 447483648 - 1, 447483648 - 86400, 5180 * 86400LL, 28000 * 86400LL, -18000 * 86400LL, 36525 * 86400LL };
  Rng e(mix(seed, 6));
  if (e.chance(1, 6)) p.era = eras[e.below(6)];
  return p;
}

static std::string plan_text(const Plan& p)
{
  std::ostringstream o;
  if (p.era) o << "era=" << p.era << " ";
  o << "cfg=[";
  for (size_t i = 0; i < p.cfg.size(); ++i) o << (i ? "," : "") << p.cfg[i];
  o << "] ops=[";
  for (size_t i = 0; i < p.ops.size() && i < 40; ++i)
  {
    o << (i ? " " : "") << "(";
    for (size_t k = 0; k < p.ops[i].size(); ++k) o << (k ? "," : "") << p.ops[i][k];
    o << ")";
  }
  if (p.ops.size() > 40) o << " ...";
  o << "]";
  return o.str();
}

// ------------------------------------------------------------------ replay files
struct Case
{
  std::string property, scenario, cls, msg;
  uint64_t seed, hash;
  bool scripted;              // schedule and faults from the file; otherwise from the seed
  Plan plan;
  Replay rep;
  Case() : seed(0), hash(0), scripted(false) {}
};
static const Scenario* find(const std::string& prop, const std::string& name)
{
  for (size_t i = 0; i < scenarios().size(); ++i)
    if (prop == scenarios()[i].property && name == scenarios()[i].name) return &scenarios()[i];
  return 0;
}
static bool save_case(const std::string& path, const Case& c)
{
  std::ofstream o(path.c_str());
  o << "# simulation replay: bin/simrun-* --replay FILE   (see DESIGN.md)\n";
  o << "property " << c.property << "\nscenario " << c.scenario << "\nclass " << c.cls << "\n";
  std::string m = c.msg;
  for (size_t i = 0; i < m.size(); ++i) if (m[i] == '\n' || m[i] == '\r') m[i] = ' ';
  o << "message " << m << "\n";
  o << "seed " << c.seed << "\nhash " << c.hash << "\nmode " << (c.scripted ? "script" : "seed") << "\n";
  if (c.plan.era) o << "era " << c.plan.era << "\n";
  o << "cfg";
  for (size_t i = 0; i < c.plan.cfg.size(); ++i) o << " " << c.plan.cfg[i];
  o << "\n";
  for (size_t i = 0; i < c.plan.ops.size(); ++i)
  {
    o << "op";
    for (size_t k = 0; k < c.plan.ops[i].size(); ++k) o << " " << c.plan.ops[i][k];
    o << "\n";
  }
  for (size_t i = 0; i < c.rep.ft.size(); ++i)
    o << "fault " << c.rep.ft[i].fault << " " << c.rep.ft[i].fiber << " " << c.rep.ft[i].idx << " " << c.rep.ft[i].arg
      << "   # " << fault_name[c.rep.ft[i].fault] << "\n";
  for (size_t i = 0; i < c.rep.sw.size(); ++i)
    o << (c.rep.sw[i].kind ? "stall " : "switch ") << c.rep.sw[i].fiber << " " << c.rep.sw[i].step << " " << c.rep.sw[i].val << "\n";
  o.close();
  return (bool)o;
}
static bool load_case(const std::string& path, Case& c)
{
  std::ifstream in(path.c_str());
  if (!in) return false;
  std::string line;
  while (std::getline(in, line))
  {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "property") s >> c.property;
    else if (k == "scenario") s >> c.scenario;
    else if (k == "class") s >> c.cls;
    else if (k == "seed") s >> c.seed;
    else if (k == "hash") s >> c.hash;
    else if (k == "mode") { std::string m; s >> m; c.scripted = m == "script"; }
    else if (k == "era") s >> c.plan.era;
    else if (k == "cfg") { int64_t v; while (s >> v) c.plan.cfg.push_back(v); }
    else if (k == "op") { std::vector<int64_t> o; int64_t v; while (s >> v) o.push_back(v); c.plan.ops.push_back(o); }
    else if (k == "fault") { FaultRec r; s >> r.fault >> r.fiber >> r.idx >> r.arg; c.rep.ft.push_back(r); }
    else if (k == "switch" || k == "stall") { SwitchRec r; r.kind = k == "stall"; s >> r.fiber >> r.step >> r.val; c.rep.sw.push_back(r); }
  }
  return find(c.property, c.scenario) != 0;
}

// ------------------------------------------------------------------ known findings
struct Known { std::string property, cls, match, text; int hits; };
static std::vector<Known> load_known(const std::string& path)
{
  std::vector<Known> v;
  std::ifstream in(path.c_str());
  std::string line;
  while (std::getline(in, line))
  {
    if (line.compare(0, 7, "known: ")) continue;
    Known k; k.hits = 0;
    std::istringstream s(line.substr(7));
    std::string tok;
    while (s >> tok && tok != "::")
    {
      if (!tok.compare(0, 9, "property=")) k.property = tok.substr(9);
      else if (!tok.compare(0, 6, "class=")) k.cls = tok.substr(6);
      else if (!tok.compare(0, 6, "match=")) k.match = tok.substr(6);
    }
    std::getline(s, k.text);
    v.push_back(k);
  }
  return v;
}

// ------------------------------------------------------------------ batch
enum { MAXW = 16, HCAP = 1 << 19 };
struct WStat
{
  uint64_t runs, steps, calls, switches, preempt, nontrivial, sim_ns, rechecks;
  uint64_t faults[FT_COUNT];
  int n_probe;
  char pname[MAX_PROBE][40];
  uint64_t pcount[MAX_PROBE];
  uint64_t nh, max_fibers;
  uint64_t known[64];
  uint64_t hash[HCAP], shash[HCAP];
};
struct Found { int64_t index; int scen; uint64_t seed; };
struct Shared
{
  volatile int64_t next;
  volatile int64_t found_index;
  volatile int nondet;
  volatile int timed_out;
  volatile int lock;
  Found found;
  char nondet_msg[300];
};
static Shared* SH;
static std::vector<WStat*> WS;

struct Job { int scen; uint64_t idx; };

static void accumulate(WStat* w, const Result* r)
{
  ++w->runs; w->steps += r->steps; w->calls += r->calls; w->switches += r->switches; w->preempt += r->preemptions;
  w->sim_ns += r->sim_ns - 1000 * SEC;
  uint64_t f = 0;
  for (int i = 0; i < FT_COUNT; ++i) { w->faults[i] += r->fault_count[i]; f += r->fault_count[i]; }
  for (int i = 0; i < r->n_probe; ++i)
  {
    int k = 0;
    while (k < w->n_probe && strcmp(w->pname[k], r->probe_name[i])) ++k;
    if (k == w->n_probe) { if (k >= MAX_PROBE) continue; strcpy(w->pname[k], r->probe_name[i]); w->pcount[k] = 0; ++w->n_probe; }
    w->pcount[k] += r->probe_count[i];
  }
  if ((uint64_t)r->fibers > w->max_fibers) w->max_fibers = r->fibers;
  bool nontrivial = f > 0 || (r->fibers > 1 && r->switches > 2);
  if (nontrivial)
  {
    ++w->nontrivial;
    if (w->nh < HCAP) { w->hash[w->nh] = r->hash; w->shash[w->nh] = r->sched_hash; ++w->nh; }
  }
}

static bool matches_known(const std::vector<Known>& known, const char* prop, const Result* r, int* which)
{
  for (size_t i = 0; i < known.size(); ++i)
    if (known[i].property == prop && known[i].cls == r->cls && (known[i].match.empty() || strstr(r->msg, known[i].match.c_str())))
    { *which = (int)i; return true; }
  return false;
}

static void worker(int w, const std::vector<int>& scen, const std::vector<int64_t>& counts, uint64_t base, double deadline,
                   const std::vector<Known>& known)
{
  Result* r = new_result();
  Result* r2 = new_result();
  WStat* st = WS[w];
  int64_t total = 0;
  for (size_t i = 0; i < counts.size(); ++i) total += counts[i];
  for (;;)
  {
    int64_t n = __sync_fetch_and_add(&SH->next, 1);
    if (n >= total || SH->nondet) break;
    if (SH->found_index >= 0 && n > SH->found_index) break;
    if (now_s() > deadline) { SH->timed_out = 1; break; }
    // spread the scenarios evenly over the batch
    int64_t m = n, k = 0;
    {
      // proportional interleaving: scenario k gets its j-th run at position j/count
      double best = 2; (void)best;
      int64_t acc = 0;
      // deterministic permutation: stride through the concatenation
      int64_t stride = 1;
      for (int64_t s = total * 5 / 8 + 1; s < 2 * total; ++s) { int64_t a = s, b = total; while (b) { int64_t t = a % b; a = b; b = t; } if (a == 1) { stride = s; break; } }
      m = (int64_t)((__int128)n * stride % total);
      while (m >= acc + counts[k]) { acc += counts[k]; ++k; }
      m -= acc;
    }
    const Scenario& s = scenarios()[scen[k]];
    uint64_t seed = run_seed(base, s, (uint64_t)m);
    Plan plan = make_plan(s, seed);
    execute(s, plan, seed, 0, r, false);
    accumulate(st, r);
    int kn = -1;
    if (r->done == 2)
    {
      if (matches_known(known, s.property, r, &kn)) { ++st->known[kn & 63]; continue; }
      while (__sync_lock_test_and_set(&SH->lock, 1)) {}
      if (SH->found_index < 0 || n < SH->found_index)
      {
        SH->found.index = n; SH->found.scen = scen[k]; SH->found.seed = seed;
        SH->found_index = n;
      }
      __sync_lock_release(&SH->lock);
      continue;
    }
    if (n % 64 == 7)   // re-execute a sample: the same seed must give the same trace
    {
      ++st->rechecks;
      execute(s, plan, seed, 0, r2, false);
      Replay rp;
      bool bad = r2->hash != r->hash || r2->done != r->done;
      if (!bad && !r->overflow)
      {
        rp.sw.assign(r->sw, r->sw + r->n_sw); rp.ft.assign(r->ft, r->ft + r->n_ft);
        execute(s, plan, seed, &rp, r2, false);
        bad = r2->hash != r->hash || r2->done != r->done;
        if (bad) snprintf(SH->nondet_msg, sizeof SH->nondet_msg, "script replay differs: scenario %s index %ld (%lu/%lu steps) %s", s.name, (long)m, (unsigned long)r->steps, (unsigned long)r2->steps, r2->msg);
      }
      else if (bad) snprintf(SH->nondet_msg, sizeof SH->nondet_msg, "same seed differs: scenario %s index %ld (%lu/%lu steps) %s", s.name, (long)m, (unsigned long)r->steps, (unsigned long)r2->steps, r2->msg);
      if (bad) { SH->nondet = 1; break; }
    }
  }
  _exit(0);
}

// ------------------------------------------------------------------ minimisation
static int g_min_runs;
static double g_min_deadline;
static bool still(const Scenario& s, const Case& c, const Plan& p, const Replay& rep, Result* r)
{
  if (now_s() > g_min_deadline) return false;
  ++g_min_runs;
  execute(s, p, c.seed, &rep, r, false);
  return r->done == 2 && c.cls == r->cls;
}
template <class T, class F> static void ddmin(std::vector<T>& v, F ok)
{
  size_t chunk = std::max<size_t>(1, v.size() / 2);
  if (v.empty()) return;
  { std::vector<T> e; if (ok(e)) { v.clear(); return; } }
  for (;;)
  {
    bool any = false;
    for (size_t i = 0; i < v.size();)
    {
      std::vector<T> t(v.begin(), v.begin() + i);
      t.insert(t.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
      if (t.size() < v.size() && ok(t)) { v.swap(t); any = true; }
      else i += chunk;
      if (now_s() > g_min_deadline) return;
    }
    if (chunk == 1) { if (!any) return; }
    else chunk = std::max<size_t>(1, chunk / 2);
  }
}
static void minimise(const Scenario& s, Case& c, Result* r)
{
  for (int round = 0; round < 3; ++round)
  {
    size_t before = c.plan.ops.size() + c.rep.ft.size() + c.rep.sw.size();
    if (c.plan.era) { Plan p = c.plan; p.era = 0; if (still(s, c, p, c.rep, r)) c.plan = p; }
    ddmin(c.plan.ops, [&](const std::vector<std::vector<int64_t> >& v) { Plan p = c.plan; p.ops = v; return still(s, c, p, c.rep, r); });
    ddmin(c.rep.ft, [&](const std::vector<FaultRec>& v) { Replay q = c.rep; q.ft = v; return still(s, c, c.plan, q, r); });
    ddmin(c.rep.sw, [&](const std::vector<SwitchRec>& v) { Replay q = c.rep; q.sw = v; return still(s, c, c.plan, q, r); });
    for (size_t i = 0; i < c.plan.ops.size(); ++i)
      for (size_t k = 1; k < c.plan.ops[i].size(); ++k)
        while (c.plan.ops[i][k] > 0)
        {
          Plan p = c.plan;
          p.ops[i][k] = p.ops[i][k] / 2;
          if (!still(s, c, p, c.rep, r)) break;
          c.plan = p;
        }
    if (c.plan.ops.size() + c.rep.ft.size() + c.rep.sw.size() >= before) break;
  }
}

static std::string json_str(const std::string& s)
{
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i)
  {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

int main(int argc, char** argv)
{
  setenv("TZ", "UTC0", 1);
  setlocale(LC_ALL, "C");
  signal(SIGPIPE, SIG_IGN);
  std::string prop, tier = "quick", evidence, replay, rdir = ".", known_path, components;
  uint64_t seed = 1;
  double wall = 0, scale = 1;
  int jobs = 8;
  bool verbose = false, list = false, no_min = false;
  std::string only;
  int64_t one = -1;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--property") { prop = v; ++i; }
    else if (a == "--tier") { tier = v; ++i; }
    else if (a == "--seed") { seed = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--evidence") { evidence = v; ++i; }
    else if (a == "--replay") { replay = v; ++i; }
    else if (a == "--replay-dir") { rdir = v; ++i; }
    else if (a == "--known") { known_path = v; ++i; }
    else if (a == "--components") { components = v; ++i; }
    else if (a == "--wall") { wall = atof(v.c_str()); ++i; }
    else if (a == "--scale") { scale = atof(v.c_str()); ++i; }
    else if (a == "--jobs") { jobs = atoi(v.c_str()); ++i; }
    else if (a == "--scenario") { only = v; ++i; }
    else if (a == "--one") { one = atoll(v.c_str()); ++i; }
    else if (a == "--no-min") no_min = true;
    else if (a == "-v") verbose = true;
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (list)
  {
    for (size_t i = 0; i < scenarios().size(); ++i) printf("%s %s %d\n", scenarios()[i].property, scenarios()[i].name, scenarios()[i].quick_runs);
    return 0;
  }
  Result* r = new_result();
  if (!replay.empty())
  {
    Case c;
    if (!load_case(replay, c)) { fprintf(stderr, "cannot load %s\n", replay.c_str()); return 3; }
    const Scenario& s = *find(c.property, c.scenario);
    execute(s, c.plan, c.seed, c.scripted ? &c.rep : 0, r, verbose);
    if (r->done == 2)
    {
      printf("replayed property=%s class=%s hash=%lu: %s\n", c.property.c_str(), r->cls, (unsigned long)r->hash, r->msg);
      bool same = c.cls == r->cls && c.hash == r->hash;
      printf(same ? "REPRODUCED exactly\n" : "DIFFERENT from the recorded failure\n");
      return same ? 1 : 2;
    }
    printf("replayed property=%s: no violation\n", c.property.c_str());
    return 0;
  }
  std::vector<int> scen;
  std::vector<int64_t> counts;
  if (tier == "thorough") scale *= 40;
  for (size_t i = 0; i < scenarios().size(); ++i)
    if (prop == scenarios()[i].property && (only.empty() || only == scenarios()[i].name))
    {
      scen.push_back((int)i);
      counts.push_back(std::max<int64_t>(1, (int64_t)(scenarios()[i].quick_runs * scale)));
    }
  if (scen.empty()) { fprintf(stderr, "no scenario for property %s\n", prop.c_str()); return 3; }
  if (one >= 0)
  {
    const Scenario& s = scenarios()[scen[0]];
    uint64_t sd = run_seed(seed, s, (uint64_t)one);
    Plan p = make_plan(s, sd);
    printf("%s\n", plan_text(p).c_str());
    execute(s, p, sd, 0, r, verbose);
    printf("done=%d class=%s msg=%s hash=%lx steps=%lu calls=%lu switches=%lu sim=%.3fs sw=%d ft=%d\n", r->done, r->cls, r->msg,
           (unsigned long)r->hash, (unsigned long)r->steps, (unsigned long)r->calls, (unsigned long)r->switches, r->sim_ns / 1e9 - 1000, r->n_sw, r->n_ft);
    return r->done == 2;
  }
  double t0 = now_s();
  if (wall <= 0) wall = tier == "thorough" ? 840 : 300;
  std::vector<Known> known = load_known(known_path);
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->next = 0; SH->found_index = -1; SH->nondet = 0; SH->timed_out = 0; SH->lock = 0;
  jobs = std::max(1, std::min(jobs, (int)MAXW));
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) WS.push_back((WStat*)mmap(0, sizeof(WStat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  printf("property %s tier %s seed %lu: %zu scenario(s)\n", prop.c_str(), tier.c_str(), (unsigned long)seed, scen.size());
  fflush(stdout);
  for (int w = 0; w < jobs; ++w)
  {
    pid_t p = fork();
    if (p == 0) worker(w, scen, counts, seed, t0 + wall, known);
    pids.push_back(p);
  }
  bool worker_died = false;
  for (size_t i = 0; i < pids.size(); ++i)
  {
    int st = 0;
    while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_died = true;
  }
  double t_explore = now_s() - t0;
  if (worker_died) { fprintf(stderr, "ERROR: a worker process died\n"); return 3; }
  if (SH->nondet) { fprintf(stderr, "ERROR: not deterministic: %s\n", SH->nondet_msg); return 3; }

  int violations = 0;
  int rc = 0;
  std::string vio_line;
  if (SH->found_index >= 0)
  {
    const Scenario& s = scenarios()[SH->found.scen];
    Case c;
    c.property = s.property; c.scenario = s.name; c.seed = SH->found.seed;
    c.plan = make_plan(s, c.seed);
    // gate 1: the same seed twice, in fresh processes
    execute(s, c.plan, c.seed, 0, r, false);
    uint64_t h1 = r->hash; std::string cls1 = r->cls, msg1 = r->msg; int d1 = r->done;
    Replay rec; rec.sw.assign(r->sw, r->sw + r->n_sw); rec.ft.assign(r->ft, r->ft + r->n_ft);
    bool overflow = r->overflow;
    execute(s, c.plan, c.seed, 0, r, false);
    if (d1 != 2 || r->done != 2 || r->hash != h1 || cls1 != r->cls)
    { fprintf(stderr, "ERROR: violation '%s' (%s) does not repeat with the same seed\n", cls1.c_str(), msg1.c_str()); return 3; }
    c.cls = cls1; c.msg = msg1; c.hash = h1;
    c.scripted = false;
    if (!overflow)
    {
      execute(s, c.plan, c.seed, &rec, r, false);
      if (r->done == 2 && c.cls == r->cls)
      {
        c.rep = rec; c.scripted = true;
        g_min_deadline = now_s() + (no_min ? 0 : c.cls == "hang" ? 1 : 45);
        size_t a = c.plan.ops.size(), b = rec.ft.size(), d = rec.sw.size();
        if (!no_min) minimise(s, c, r);
        execute(s, c.plan, c.seed, &c.rep, r, false);
        c.msg = r->msg; c.hash = r->hash;
        printf("minimised: %zu->%zu operations, %zu->%zu faults, %zu->%zu schedule decisions (%d executions)\n",
               a, c.plan.ops.size(), b, c.rep.ft.size(), d, c.rep.sw.size(), g_min_runs);
      }
    }
    char name[300];
    snprintf(name, sizeof name, "%s/%s-%s-%016lx.replay", rdir.c_str(), c.property.c_str(), c.scenario.c_str(), (unsigned long)c.seed);
    if (!save_case(name, c)) { fprintf(stderr, "ERROR: cannot write %s\n", name); return 3; }
    // gate 2: replay in a fresh process
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
      int n = ::open("/dev/null", O_RDWR);
      dup2(n, 1); dup2(n, 2);
      execl("/proc/self/exe", argv[0], "--replay", name, (char*)0);
      _exit(9);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1)
    { fprintf(stderr, "ERROR: violation '%s' (%s) does not replay from %s\n", c.cls.c_str(), c.msg.c_str(), name); return 3; }
    printf("scenario=%s seed=%lu class=%s\n  %s\n  plan: %s\n", c.scenario.c_str(), (unsigned long)c.seed, c.cls.c_str(), c.msg.c_str(), plan_text(c.plan).c_str());
    vio_line = "VIOLATION property=" + c.property + " replay=" + name;
    violations = 1;
    rc = c.cls == "harness" ? 3 : 1;
  }

  // ---------------------------------------------------------------- evidence
  WStat* T = (WStat*)mmap(0, sizeof(WStat), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::vector<uint64_t> hs, shs;
  std::map<std::string, uint64_t> probes;
  for (size_t w = 0; w < WS.size(); ++w)
  {
    WStat* x = WS[w];
    T->runs += x->runs; T->steps += x->steps; T->calls += x->calls; T->switches += x->switches; T->preempt += x->preempt;
    T->nontrivial += x->nontrivial; T->sim_ns += x->sim_ns; T->rechecks += x->rechecks;
    T->max_fibers = std::max(T->max_fibers, x->max_fibers);
    for (int i = 0; i < FT_COUNT; ++i) T->faults[i] += x->faults[i];
    for (int i = 0; i < x->n_probe; ++i) probes[x->pname[i]] += x->pcount[i];
    hs.insert(hs.end(), x->hash, x->hash + x->nh); shs.insert(shs.end(), x->shash, x->shash + x->nh);
    for (size_t i = 0; i < known.size() && i < 64; ++i) known[i].hits += (int)x->known[i];
  }
  std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
  std::sort(shs.begin(), shs.end()); shs.erase(std::unique(shs.begin(), shs.end()), shs.end());
  double dt = now_s() - t0;
  if (!evidence.empty())
  {
    std::ofstream o(evidence.c_str());
    o << "{\n \"property\": " << json_str(prop) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"wall_s\": " << dt << ",\n \"violations\": " << violations << ",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << T->runs << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n";
    o << "  \"rule\": \"One case is one simulated run: workload, schedule, simulated time and faults all follow from one seed. "
         "A run is non-trivial if at least one fault fired or at least two threads ran with more than two context switches; "
         "runs are distinct if the hash over their complete event trace (system calls, switches with their step numbers, faults, history events) differs.\",\n";
    o << "  \"samples\": [";
    int ns = 0;
    for (size_t k = 0; k < scen.size() && ns < 6; ++k)
      for (int m = 0; m < 2 && ns < 6; ++m, ++ns)
      {
        const Scenario& s = scenarios()[scen[k]];
        uint64_t sd = run_seed(seed, s, m);
        Plan p = make_plan(s, sd);
        execute(s, p, sd, 0, r, false);
        std::ostringstream t;
        t << s.name << " seed=" << sd << ": " << plan_text(p) << " -> " << r->fibers << " threads, " << r->switches << " switches, "
          << r->calls << " system calls, " << r->steps << " scheduling points, " << (r->sim_ns - 1000 * SEC) / 1e9 << " s simulated; faults:";
        for (int i = 0; i < FT_COUNT; ++i) if (r->fault_count[i]) t << " " << fault_name[i] << "=" << r->fault_count[i];
        t << (r->done == 1 ? "; held" : std::string("; ") + r->cls);
        o << (ns ? ",\n   " : "\n   ") << json_str(t.str());
      }
    o << "],\n";
    o << "  \"runs_per_hour\": " << (uint64_t)(T->runs / t_explore * 3600) << ",\n";
    o << "  \"seeds_per_hour\": " << (uint64_t)(T->runs / t_explore * 3600) << ",\n";
    o << "  \"simulated_seconds\": " << T->sim_ns / 1e9 << ",\n";
    o << "  \"distinct_schedules\": " << shs.size() << ",\n";
    o << "  \"distinct_schedules_measure\": \"hash over the sequence of context switches and synchronisation events of a run\",\n";
    o << "  \"scheduling_points\": " << T->steps << ",\n  \"system_calls\": " << T->calls << ",\n  \"context_switches\": " << T->switches
      << ",\n  \"preemptions\": " << T->preempt << ",\n  \"max_threads\": " << T->max_fibers << ",\n";
    o << "  \"determinism_rechecks\": " << T->rechecks << ",\n";
    o << "  \"stopped_by_wall_clock\": " << (SH->timed_out ? "true" : "false") << ",\n";
    o << "  \"faults_fired\": {";
    bool first = true;
    for (int i = 0; i < FT_COUNT; ++i) if (T->faults[i]) { o << (first ? "" : ", ") << json_str(fault_name[i]) << ": " << T->faults[i]; first = false; }
    o << "},\n  \"probes\": {";
    first = true;
    for (std::map<std::string, uint64_t>::iterator it = probes.begin(); it != probes.end(); ++it) { o << (first ? "" : ", ") << json_str(it->first) << ": " << it->second; first = false; }
    o << "},\n  \"scenarios\": [";
    for (size_t k = 0; k < scen.size(); ++k) o << (k ? ", " : "") << json_str(scenarios()[scen[k]].name);
    o << "],\n  \"real_components\": " << json_str(components.empty() ? "the library code of /repo under test, libstdc++, boost, zlib, sqlite, tinyxml" : components)
      << ",\n  \"stubbed_components\": \"threads and their scheduling, pthread and semaphore primitives, clocks, sleeps, timerfd, file system, UDP sockets and name resolution, dynamic loader, heap\"\n";
    o << " },\n \"assumptions\": [\"sequentially consistent memory\", \"the simulator's pthread, file, timer and socket models follow POSIX\", \"sampling: absence of a violation is evidence, not proof\"]\n}\n";
  }
  printf("%lu runs in %.1f s (%.0f/s), %zu distinct traces, %zu distinct schedules, %.1f simulated s, %lu rechecks\n", (unsigned long)T->runs, t_explore,
         T->runs / t_explore, hs.size(), shs.size(), T->sim_ns / 1e9, (unsigned long)T->rechecks);
  printf("faults:");
  for (int i = 0; i < FT_COUNT; ++i) if (T->faults[i]) printf(" %s=%lu", fault_name[i], (unsigned long)T->faults[i]);
  printf("\nprobes:");
  for (std::map<std::string, uint64_t>::iterator it = probes.begin(); it != probes.end(); ++it) printf(" %s=%lu", it->first.c_str(), (unsigned long)it->second);
  printf("\n");
  for (size_t i = 0; i < known.size(); ++i)
    if (known[i].property == prop && known[i].hits) printf("KNOWN-FINDING: property=%s%s (seen in %d runs)\n", prop.c_str(), known[i].text.c_str(), known[i].hits);
  if (!vio_line.empty()) printf("%s\n", vio_line.c_str());
  fflush(stdout);
  _exit(rc);
}
