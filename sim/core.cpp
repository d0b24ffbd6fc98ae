// Fibers, scheduler, clock, fault rolls, record and replay, memory arena, compiler callbacks.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <algorithm>
#include <set>

extern "C" char __libc_single_threaded;

extern "C" void* __real_dlsym(void*, const char*);
namespace sim {

bool g_active = false;
int g_guard = 0;

const char* const fault_name[FT_COUNT] = {
  "eintr_sem", "eintr_sleep", "eintr_read", "eintr_write", "thread_create_fails", "thread_stall",
  "clock_jump", "open_fails", "read_error", "short_read", "write_error", "no_space", "short_write",
  "rename_fails", "unlink_fails", "fsync_fails", "close_fails", "process_crash", "socket_fails", "dns_fails",
  "connect_fails", "send_fails", "net_drop", "net_duplicate", "net_delay", "dlopen_fails", "dlsym_fails",
  "timer_fails", "timer_late", "alloc_fails", "spurious_wakeup", "dir_error", "disk_full", "stat_fails",
  "db_locked", "thread_cancel", "set_sched_fails", "stream_error", "lock_eagain" };

// ------------------------------------------------------------------ PRNG
static uint64_t splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
void Rng::reseed(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); if (!s[0] && !s[1]) s[0] = 1; }
uint64_t Rng::next()
{
  uint64_t a = s[0], b = s[1];
  s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return s[1] + b;
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a ^ (b * 0x9E3779B97F4A7C15ULL); return splitmix(x); }
uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ULL; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

// ------------------------------------------------------------------ scenarios
static std::vector<Scenario>& reg() { static std::vector<Scenario>* v = new std::vector<Scenario>; return *v; }
Register::Register(const Scenario& s) { reg().push_back(s); }
const std::vector<Scenario>& scenarios() { return reg(); }

// ------------------------------------------------------------------ memory arena
// All heap memory lives in one arena at a fixed address, so that addresses repeat from run to run.
// During a run nothing is reused: any access to freed memory is seen.
static char* const A_BASE = (char*)0x600000000000ULL;
static const size_t A_SIZE = 6ULL << 30;
static const size_t A_RUN = 1ULL << 30;     // a run allocates from here on
static uint8_t* const SH_BASE = (uint8_t*)0x500000000000ULL;
static bool a_ready = false;
static size_t a_top = 0;
static size_t a_live = 0;
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t MAGIC = 0xA110CA7ED0B10C4ULL, MAGIC_FREE = 0xF4EEDF4EEDF4EEDULL;
enum { SH_RED = 0xFA, SH_FREED = 0xFD };
struct FreeNode { FreeNode* next; };
static FreeNode* a_free[80];

static void a_init()
{
  void* p = mmap(A_BASE, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap(SH_BASE, A_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)A_BASE || q != (void*)SH_BASE)
  {
    static const char m[] = "sim: cannot map the arena\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(3);
  }
  a_ready = true;
}
static int size_class(size_t n)
{
  int c = 4;
  while (((size_t)1 << c) < n) ++c;
  return c;
}
// The simulator's own poisoning must not go through the checking wrappers.
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
static void* a_alloc(size_t n, size_t align)
{
  if (!a_ready) a_init();
  if (n > (1ULL << 30)) { errno = ENOMEM; return 0; }
  size_t cap = n ? n : 1;
  if (!g_active && align <= 16)
  {
    int c = size_class(cap);
    cap = (size_t)1 << c;
    if (a_free[c])
    {
      FreeNode* f = a_free[c];
      a_free[c] = f->next;
      Hdr* h = (Hdr*)f - 1;
      h->size = n; h->magic = MAGIC;
      size_t g = ((char*)f - A_BASE) / 16;
      memset(SH_BASE + g, 16, cap / 16);
      ++a_live;
      return f;
    }
  }
  size_t at = (a_top + 16 + align - 1) / align * align;
  size_t end = (at + cap + 15) / 16 * 16 + 16;
  if (end > A_SIZE) { errno = ENOMEM; return 0; }
  Hdr* h = (Hdr*)(A_BASE + at) - 1;
  h->size = n; h->magic = MAGIC;
  size_t g0 = a_top / 16, gp = at / 16;
  for (size_t g = g0; g < gp; ++g) SH_BASE[g] = SH_RED;
  if (g_active)
  {
    size_t full = n / 16;
    memset(SH_BASE + gp, 16, full);
    size_t g = gp + full;
    if (n % 16) SH_BASE[g++] = (uint8_t)(n % 16);
    while (g < end / 16) SH_BASE[g++] = SH_RED;
    __real_memset(A_BASE + at, 0xCB, n < 65536 ? n : 65536);
  }
  else
  {
    memset(SH_BASE + gp, 16, (end - 16 - at) / 16);
    SH_BASE[end / 16 - 1] = SH_RED;
  }
  a_top = end;
  ++a_live;
  return A_BASE + at;
}
static void a_release(void* p)
{
  if (!p) return;
  if ((char*)p < A_BASE || (char*)p >= A_BASE + A_SIZE) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != MAGIC)
  {
    if (g_active) vfail("memory", h->magic == MAGIC_FREE ? "double free of a heap block" : "free of a pointer that is no heap block");
    return;
  }
  h->magic = MAGIC_FREE;
  --a_live;
  size_t g = ((char*)p - A_BASE) / 16, n = (h->size + 15) / 16;
  if (g_active || (size_t)((char*)p - A_BASE) >= A_RUN)
  {
    memset(SH_BASE + g, SH_FREED, n ? n : 1);
    __real_memset(p, 0xDB, h->size < 65536 ? h->size : 65536);
  }
  else if (SH_BASE[g] == 16 || h->size == 0)
  {
    int c = size_class(h->size ? h->size : 1);
    FreeNode* f = (FreeNode*)p;
    f->next = a_free[c];
    a_free[c] = f;
  }
}
bool mem_accessible(const void* p, size_t n)
{
  const char* c = (const char*)p;
  if (c < A_BASE || c >= A_BASE + A_SIZE) return true;
  for (size_t i = 0; i < n; ++i)
  {
    size_t off = (size_t)(c + i - A_BASE);
    uint8_t s = SH_BASE[off / 16];
    if (s > 16 || off % 16 >= s) return false;
  }
  return true;
}
size_t live_allocs() { return a_live; }

// ------------------------------------------------------------------ fibers
struct Fiber
{
  int id;
  void* sp;
  char* stack;
  enum State { READY, BLOCKED, DONE } st;
  uint64_t steps, trigger;
  const char* what;
  const void* obj;
  uint64_t wait_seq;
  ns_t wake;
  bool wake_is_real;
  ns_t wake_real;
  bool timed_out;
  int err;
  struct { void* caught; unsigned int uncaught; } eh;
  std::function<void()> fn;
  char name[24];
  int prio;
  bool cancel;
  int64_t fault_idx[FT_COUNT];
  int guard;
};

static Fiber* fibers[MAX_FIBERS];
static int n_fibers;
static Fiber* cur;
static Result* R;
static bool g_verbose;
static Rng rng_sched, rng_fault, rng_env;
static ns_t t_mono, t_off;
static uint64_t g_seq, g_calls, g_total_steps, g_step_limit, g_wait_seq;
static std::string g_step_cls;
static ns_t g_next_wake;
static int rate[FT_COUNT], limit_[FT_COUNT];
static bool g_faults_on;
static const Replay* g_replay;
typedef std::pair<int, uint64_t> Key;
static std::map<Key, std::vector<SwitchRec> >* rep_sw;
static std::map<std::pair<int, Key>, int64_t>* rep_ft;
static std::vector<std::vector<uint64_t> >* rep_steps;   // per fiber: sorted steps with a switch record
static std::function<void(const std::string&)>* h_deadlock;
static std::function<void()>* h_crash;
static int64_t crash_in;
static bool g_crashed;
// scheduling strategy of this run
static int strat;            // 0 run to block, 1 random walk, 2 PCT, 3 at synchronisation points only
static int walk_den;         // random walk: mean number of points between preemptions
static int sync_pct;         // chance (percent) of a preemption at a synchronisation point
static std::vector<uint64_t>* pct_points;
static int stall_permille;
static int low_prio;
static ns_t stall_total;
static int consec_slices;
static int idle_slices;              // slices since anything but memory was used: threads are spinning

Rng& env_rng() { return rng_env; }
static char* stack_area()
{
  static char* base = 0;
  if (!base)
  {
    base = (char*)mmap((void*)0x580000000000ULL, (size_t)MAX_FIBERS * STACK_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base != (char*)0x580000000000ULL) { perror("sim: stacks"); _exit(3); }
  }
  return base;
}

extern "C" void sim_switch(void** save, void* load);
__asm__(
  ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
  "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
  "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
  "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n"
  "  ret\n.size sim_switch,.-sim_switch\n");

static void fiber_main();
__asm__(
  ".text\n.type sim_tramp,@function\nsim_tramp:\n  .cfi_startproc\n  .cfi_undefined rip\n"
  "  xorl %ebp, %ebp\n  call sim_fiber_main\n  ud2\n  .cfi_endproc\n.size sim_tramp,.-sim_tramp\n");
extern "C" void sim_tramp();
extern "C" __attribute__((used)) void sim_fiber_main() { fiber_main(); }

static void hash_ev(uint64_t x) { R->hash = (R->hash ^ x) * 0x100000001b3ULL; R->hash ^= R->hash >> 29; }
static void hash_sched(uint64_t x) { R->sched_hash = (R->sched_hash ^ x) * 0x100000001b3ULL; R->sched_hash ^= R->sched_hash >> 31; }

static void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf(const char* fmt, ...)
{
  char b[600];
  int n = snprintf(b, sizeof b, "[%5lu t=%.6f f%d] ", (unsigned long)g_seq, t_mono / 1e9, cur ? cur->id : -1);
  va_list ap; va_start(ap, fmt);
  int m = vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  n = std::min<int>(n + m, (int)sizeof b - 2);
  b[n++] = '\n';
  if (::write(1, b, n)) {}
}
bool verbose() { return g_verbose; }
void note(const char* fmt, ...)
{
  if (!g_verbose) return;
  Guard g;
  char b[500];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  logf("  # %s", b);
}

static void finish(int done)
{
  R->steps = g_total_steps; R->calls = g_calls; R->sim_ns = t_mono; R->fibers = n_fibers;
  hash_ev(g_total_steps); hash_ev((uint64_t)t_mono);
  __sync_synchronize();
  R->done = done;
  _exit(0);
}
void vfail(const char* cls, const char* msg)
{
  ++g_guard;
  g_active = false;
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  snprintf(R->msg, sizeof R->msg, "%s", msg);
  hash_ev(hash_str(R->cls));
  if (g_verbose) logf("VIOLATION %s: %s", cls, msg);
  finish(2);
  _exit(0);
}
void fail(const std::string& cls, const char* fmt, ...)
{
  ++g_guard;
  char b[1700];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  vfail(cls.c_str(), b);
}

static void on_signal(int sig, siginfo_t* si, void*)
{
  ++g_guard;
  g_active = false;
  char c[64], m[200];
  snprintf(c, sizeof c, "%s", sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : "crash");
  snprintf(m, sizeof m, "signal %d in fiber %d (%s)%s", sig, cur ? cur->id : -1, cur ? cur->name : "?",
           sig == SIGALRM ? ": code did not come back" : "");
  (void)si;
  vfail(c, m);
}

static Fiber* new_fiber(const char* name, std::function<void()> fn)
{
  if (n_fibers >= MAX_FIBERS) vfail("harness", "too many fibers");
  Fiber* f = new Fiber();
  f->id = n_fibers;
  f->stack = stack_area() + (size_t)f->id * STACK_SIZE;
  if (f->id) mprotect(f->stack, 4096, PROT_NONE);
  f->st = Fiber::READY;
  f->steps = 0; f->trigger = 0; f->what = ""; f->obj = 0; f->wake = NEVER; f->wake_is_real = false;
  f->timed_out = false; f->err = 0; f->eh.caught = 0; f->eh.uncaught = 0; f->cancel = false; f->guard = 1;
  f->fn = fn;
  snprintf(f->name, sizeof f->name, "%s", name);
  f->prio = (int)rng_sched.below(1000) + 1000;
  memset(f->fault_idx, 0, sizeof f->fault_idx);
  uint64_t* sp = (uint64_t*)(f->stack + STACK_SIZE - 64);
  *--sp = 0; *--sp = 0;
  *--sp = (uint64_t)&sim_tramp;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp;
  fibers[n_fibers++] = f;
  return f;
}

static void set_trigger(Fiber* f)
{
  uint64_t t = (f->steps / 4096 + 1) * 4096;
  if (g_replay)
  {
    if ((size_t)f->id < rep_steps->size())
    {
      std::vector<uint64_t>& v = (*rep_steps)[f->id];
      std::vector<uint64_t>::iterator it = std::upper_bound(v.begin(), v.end(), f->steps);
      if (it != v.end() && *it < t) t = *it;
    }
    f->trigger = t;
    return;
  }
  if (strat == 1 && walk_den > 0)
  {
    uint64_t d = 1 + rng_sched.below(2 * (uint64_t)walk_den);
    if (f->steps + d < t) t = f->steps + d;
  }
  else if (strat == 2)
  {
    std::vector<uint64_t>::iterator it = std::upper_bound(pct_points->begin(), pct_points->end(), g_total_steps);
    if (it != pct_points->end() && *it - g_total_steps < t - f->steps) t = f->steps + (*it - g_total_steps);
  }
  f->trigger = t;
}

static void switch_to(Fiber* to)
{
  if (to == cur) return;
  Fiber* from = cur;
  ++R->switches;
  hash_ev(0x100 + (uint64_t)to->id * 7919 + from->steps);
  hash_sched(0x5000 + (uint64_t)to->id);
  if (g_verbose) logf("  -> f%d (%s)", to->id, to->name);
  from->err = errno; from->guard = g_guard;
  memcpy(&from->eh, abi::__cxa_get_globals(), sizeof from->eh);
  consec_slices = 0;
  cur = to;
  g_guard = to->guard;
  memcpy(abi::__cxa_get_globals(), &to->eh, sizeof to->eh);
  sim_switch(&from->sp, to->sp);
  // back in "from"
  errno = cur->err;
}

static void record_switch(Fiber* f, int kind, int64_t val)
{
  if (R->n_sw < MAX_SW)
  {
    SwitchRec& r = R->sw[R->n_sw++];
    r.fiber = f->id; r.kind = kind; r.step = f->steps; r.val = val;
  }
  else R->overflow = 1;
}
static ns_t wake_mono(Fiber* f) { return f->wake_is_real ? f->wake_real - t_off : f->wake; }
static void check_timers()
{
  if (t_mono < g_next_wake) return;
  g_next_wake = NEVER;
  for (int i = 0; i < n_fibers; ++i)
  {
    Fiber* f = fibers[i];
    if (f->st != Fiber::BLOCKED) continue;
    ns_t w = wake_mono(f);
    if (w <= t_mono) { f->st = Fiber::READY; f->timed_out = true; }
    else if (w < g_next_wake) g_next_wake = w;
  }
}
static void retime()  // wake times changed
{
  g_next_wake = NEVER;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::BLOCKED) { ns_t w = wake_mono(fibers[i]); if (w < g_next_wake) g_next_wake = w; }
  check_timers();
}
static Fiber* lookup_replay_target(Fiber* f)
{
  std::map<Key, std::vector<SwitchRec> >::iterator it = rep_sw->find(Key(f->id, f->steps));
  if (it == rep_sw->end()) return 0;
  for (size_t i = 0; i < it->second.size(); ++i)
    if (it->second[i].kind == 0)
    {
      int64_t t = it->second[i].val;
      if (t >= 0 && t < n_fibers && fibers[t]->st == Fiber::READY) return fibers[t];
    }
  return 0;
}
static Fiber* default_next(Fiber* f)   // the next ready fiber, round robin
{
  for (int k = 1; k <= n_fibers; ++k)
  {
    Fiber* g = fibers[(f->id + k) % n_fibers];
    if (g->st == Fiber::READY) return g;
  }
  return 0;
}
static Fiber* random_ready(Fiber* except)
{
  int cnt = 0;
  for (int i = 0; i < n_fibers; ++i) if (fibers[i]->st == Fiber::READY && fibers[i] != except) ++cnt;
  if (!cnt) return 0;
  int k = (int)rng_sched.below(cnt);
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::READY && fibers[i] != except && k-- == 0) return fibers[i];
  return 0;
}
static Fiber* top_prio()
{
  Fiber* b = 0;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::READY && (!b || fibers[i]->prio > b->prio)) b = fibers[i];
  return b;
}

static void describe_blocked(std::string& out)
{
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::BLOCKED)
    {
      char b[120];
      snprintf(b, sizeof b, "%sf%d(%s) in %s", out.empty() ? "" : ", ", i, fibers[i]->name, fibers[i]->what);
      out += b;
    }
}

// The current fiber cannot go on (blocked or done): choose who runs.
static void schedule_away()
{
  Fiber* f = cur;
  for (;;)
  {
    check_timers();
    Fiber* d = default_next(f);
    if (d)
    {
      Fiber* to = d;
      if (g_replay) { Fiber* t = lookup_replay_target(f); if (t) to = t; }
      else
      {
        if (strat == 2) to = top_prio();
        else if (strat == 0 && (walk_den & 1)) to = d;
        else to = random_ready(0);
        if (to != d) record_switch(f, 0, to->id);
      }
      set_trigger(to);
      switch_to(to);
      return;
    }
    if (g_next_wake == NEVER)
    {
      std::string s;
      describe_blocked(s);
      if (h_deadlock && *h_deadlock) (*h_deadlock)(s);
      vfail("deadlock", ("no thread can ever run again: " + s).c_str());
    }
    if (g_next_wake > t_mono) t_mono = g_next_wake;
    if (t_mono > 4000LL * DAY) vfail("harness", "simulated time ran away");
  }
}

static void fiber_main()
{
  --g_guard;                     // entered through a guarded switch
  try { cur->fn(); }
  catch (abi::__forced_unwind&) { throw; }
  catch (std::exception& e)
  {
    ++g_guard;
    std::string m = std::string("uncaught exception ") + typeid(e).name() + ": " + e.what();
    vfail("exception", m.c_str());
  }
  ++g_guard;
  ++cur->steps; ++g_total_steps;
  cur->st = Fiber::DONE;
  if (g_verbose) logf("fiber ends");
  hash_ev(0xD0 + cur->id);
  if (cur->id == 0) finish(1);
  wake_all(cur);
  schedule_away();
  __builtin_trap();
}

static void slow_point(bool sync)
{
  // called with the guard held
  Fiber* f = cur;
  check_timers();
  if (g_total_steps > g_step_limit)
    vfail(g_step_cls.c_str(), "the run exceeded its step budget: some operation never ends");
  Fiber* to = 0;
  ns_t stall = 0;
  bool forced = false;
  if (f->steps % 4096 == 0)
  {
    t_mono += 20 * US;                       // computing takes time
    check_timers();
    // spinning threads wait for one that sleeps or is stalled: nothing else will happen before it wakes
    if (++idle_slices >= 24) { idle_slices = 0; if (g_next_wake != NEVER && g_next_wake > t_mono) { t_mono = g_next_wake; check_timers(); } }
    if (++consec_slices >= 8) { forced = true; consec_slices = 0; t_mono += 200 * US; check_timers(); }
  }
  if (g_replay)
  {
    to = lookup_replay_target(f);
    bool stay = to == f;
    if (stay) to = 0;
    std::map<Key, std::vector<SwitchRec> >::iterator it = rep_sw->find(Key(f->id, f->steps));
    if (it != rep_sw->end())
      for (size_t i = 0; i < it->second.size(); ++i) if (it->second[i].kind == 1) stall = it->second[i].val;
    if (!to && forced && !stay) to = default_next(f);
    if (to == f) to = 0;
  }
  else
  {
    bool want = false;
    if (sync) want = (strat == 1 || strat == 3) && (int)rng_sched.below(100) < sync_pct;
    else if (strat == 1) want = f->steps % 4096 != 0;
    else if (strat == 2)
    {
      if (std::binary_search(pct_points->begin(), pct_points->end(), g_total_steps)) { f->prio = --low_prio; want = true; }
    }
    if (forced)
    {
      if (strat == 2) f->prio = --low_prio;
      to = strat == 2 ? top_prio() : random_ready(f);
      Fiber* d = default_next(f);
      if (!to) to = f;
      if (to != d) record_switch(f, 0, to->id);
      if (to == f) to = 0;
    }
    else if (want)
    {
      if (g_faults_on && stall_permille && (int)rng_sched.below(1000) < stall_permille)
      {
        static const ns_t lens[] = { 10 * US, 100 * US, MS, 5 * MS, 20 * MS, 100 * MS, SEC };
        stall = lens[rng_sched.below(7)];
        if (stall_total + stall > 6 * SEC) stall = 10 * US;   // lateness stays bounded
        stall_total += stall;
        record_switch(f, 1, stall);
      }
      else
      {
        to = strat == 2 ? top_prio() : random_ready(f);
        if (to == f) to = 0;
        if (to) { record_switch(f, 0, to->id); ++R->preemptions; }
      }
    }
    else if (sync && strat == 2)
    {
      to = top_prio();
      if (to == f) to = 0;
      if (to) { record_switch(f, 0, to->id); ++R->preemptions; }
    }
  }
  if (stall)
  {
    ++R->fault_count[FT_STALL];
    if (g_verbose) logf("stalled for %.6f s", stall / 1e9);
    block("a stall", 0, t_mono + stall);
    set_trigger(cur);
    return;
  }
  set_trigger(f);
  if (to)
  {
    if (g_replay) ++R->preemptions;
    set_trigger(to);
    switch_to(to);
    set_trigger(cur);
  }
}

static inline void mem_point()
{
  ++g_total_steps;
  if (++cur->steps < cur->trigger) return;
  ++g_guard;
  slow_point(false);
  --g_guard;
}

Wake block(const char* what, const void* obj, ns_t mono_deadline, bool real_clock, ns_t real_deadline)
{
  Fiber* f = cur;
  ++f->steps; ++g_total_steps;
  f->st = Fiber::BLOCKED;
  f->what = what; f->obj = obj; f->wait_seq = ++g_wait_seq;
  f->timed_out = false;
  f->wake_is_real = real_clock; f->wake_real = real_deadline;
  f->wake = mono_deadline;
  ns_t w = wake_mono(f);
  if (w < g_next_wake) g_next_wake = w;
  hash_sched(0x7000 + hash_str(what) % 977);
  if (g_verbose) logf("blocks in %s", what);
  schedule_away();
  f->obj = 0; f->wake = NEVER; f->wake_is_real = false;
  set_trigger(f);
  return f->timed_out ? W_TIMEOUT : W_WOKEN;
}
void wake_all(const void* obj)
{
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::BLOCKED && fibers[i]->obj == obj && obj) { fibers[i]->st = Fiber::READY; fibers[i]->obj = 0; }
}
void wake_one(const void* obj)
{
  Fiber* b = 0;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->st == Fiber::BLOCKED && fibers[i]->obj == obj && (!b || fibers[i]->wait_seq < b->wait_seq)) b = fibers[i];
  if (b) { b->st = Fiber::READY; b->obj = 0; }
}

static void do_crash()
{
  ++R->fault_count[FT_CRASH];
  hash_ev(0xC4A5);
  if (g_verbose) logf("*** the process crashes here");
  g_crashed = true;
  for (int i = 0; i < n_fibers; ++i) fibers[i]->st = Fiber::DONE;
  Fiber* f = new_fiber("after-crash", []() { g_faults_on = false; (*h_crash)(); finish(1); });
  set_trigger(f);
  switch_to(f);
  __builtin_trap();
}
bool crashed() { return g_crashed; }
void crash() { Guard g; do_crash(); }
void crash_after_calls(int64_t n) { crash_in = n; }
void on_crash(std::function<void()> fn) { Guard g; *h_crash = fn; }
void on_deadlock(std::function<void(const std::string&)> fn) { Guard g; *h_deadlock = fn; }

void syscall_point(const char* name, int64_t a)
{
  // guard held by the caller
  ++g_calls;
  ++g_seq;
  uint64_t h = hash_str(name);
  hash_ev(h + (uint64_t)a * 31 + (uint64_t)cur->id * 0x1000);
  hash_sched(h + (uint64_t)cur->id);
  t_mono += 700;
  idle_slices = 0;
  if (g_verbose) logf("%s(%ld)", name, (long)a);
  if (crash_in > 0 && --crash_in == 0 && *h_crash && !g_crashed) do_crash();
  ++g_total_steps; ++cur->steps;
  slow_point(true);
}

// ------------------------------------------------------------------ public scheduling interface
int self() { return cur ? cur->id : -1; }
int spawn(const char* name, std::function<void()> fn)
{
  Guard g;
  Fiber* f = new_fiber(name, fn);
  set_trigger(f);
  return f->id;
}
void join(int id)
{
  Guard g;
  while (fibers[id]->st != Fiber::DONE) block("join", fibers[id], NEVER);
}
bool alive(int id) { return id >= 0 && id < n_fibers && fibers[id]->st != Fiber::DONE; }
int live_fibers() { int c = 0; for (int i = 0; i < n_fibers; ++i) if (fibers[i]->st != Fiber::DONE) ++c; return c; }
void yield()
{
  if (!in_sim()) return;
  Guard g;
  ++g_total_steps; ++cur->steps;
  slow_point(true);
}
void sleep_ns(ns_t d) { Guard g; block("sleep", 0, t_mono + (d > 0 ? d : 0)); }
void wait_until(std::function<bool()> pred, ns_t poll) { while (!pred()) sleep_ns(poll); }
uint64_t steps() { return g_total_steps; }
uint64_t seq() { return ++g_seq; }
void set_step_limit(uint64_t n) { g_step_limit = n; }
void step_limit_class(const char* c) { Guard g; g_step_cls = c; }
void no_stall() { stall_permille = 0; }
NoPreempt::NoPreempt() { ++g_guard; }
NoPreempt::~NoPreempt() { --g_guard; }

ns_t mono() { return t_mono; }
ns_t real() { return t_mono + t_off; }
static ns_t g_era;
void set_real(ns_t t) { t_off = t + (t + g_era > 100000000 * SEC ? g_era : 0) - t_mono; }
void jump_clock(ns_t delta)
{
  Guard g;
  t_off += delta;
  ++R->fault_count[FT_CLOCK_JUMP];
  ev("clock_jump", delta);
  retime();
}
void spend(ns_t d) { Guard g; t_mono += d; check_timers(); }

void probe(const char* name)
{
  for (int i = 0; i < R->n_probe; ++i)
    if (!strncmp(R->probe_name[i], name, 39)) { ++R->probe_count[i]; return; }
  if (R->n_probe < MAX_PROBE)
  {
    strncpy(R->probe_name[R->n_probe], name, 39);
    R->probe_count[R->n_probe++] = 1;
  }
}
void ev(const char* tag, int64_t a, int64_t b)
{
  ++g_seq;
  hash_ev(hash_str(tag) + (uint64_t)a * 131 + (uint64_t)b * 17 + (uint64_t)(cur ? cur->id : 0) * 0x1000);
  if (g_verbose) { Guard g; logf("* %s %ld %ld", tag, (long)a, (long)b); }
}

// ------------------------------------------------------------------ faults
void set_rate(Fault f, int permille, int limit) { rate[f] = permille; limit_[f] = limit; }
void faults_off() { g_faults_on = false; }
bool fault_locked(Fault f, int64_t* a, int64_t lo, int64_t hi)
{
  if (!cur) return false;
  int64_t idx = cur->fault_idx[f]++;
  if (!g_faults_on) return false;
  int64_t val = 0;
  bool fire = false;
  if (g_replay)
  {
    std::map<std::pair<int, Key>, int64_t>::iterator it = rep_ft->find(std::make_pair((int)f, Key(cur->id, (uint64_t)idx)));
    fire = it != rep_ft->end();
    if (fire) val = it->second;
  }
  else if (rate[f] > 0 && limit_[f] != 0)
  {
    fire = (int)rng_fault.below(1000) < rate[f];
    if (fire)
    {
      if (limit_[f] > 0) --limit_[f];
      val = rng_fault.range(lo, hi);
    }
  }
  if (!fire) return false;
  if (R->n_ft < MAX_FT) { FaultRec& r = R->ft[R->n_ft++]; r.fault = f; r.fiber = cur->id; r.idx = idx; r.arg = val; }
  else R->overflow = 1;
  ++R->fault_count[f];
  hash_ev(0xFA00 + f);
  if (g_verbose) logf("!! fault %s (%ld)", fault_name[f], (long)val);
  if (a) *a = val;
  return true;
}
bool fault(Fault f, int64_t* a, int64_t lo, int64_t hi) { Guard g; return fault_locked(f, a, lo, hi); }
void count_fault(Fault f) { ++R->fault_count[f]; }
int fired(Fault f) { return R->fault_count[f]; }

void* real_sym(const char* name)
{
  void* p = __real_dlsym(RTLD_NEXT, name);
  return p;
}

// ------------------------------------------------------------------ one run
static char sig_stack[65536];
static void* main_sp;
void run_child(const Scenario& s, const Plan& plan, uint64_t seed, const Replay* replay, Result* res, bool vb)
{
  __libc_single_threaded = 0;
  R = res;
  R->done = 0; R->n_sw = R->n_ft = R->n_probe = 0; R->overflow = 0; R->cls[0] = R->msg[0] = 0;
  R->hash = 0xcbf29ce484222325ULL; R->sched_hash = 0x84222325cbf29ce4ULL;
  R->steps = R->calls = R->switches = R->preemptions = 0;
  memset(R->fault_count, 0, sizeof R->fault_count);
  g_verbose = vb;
  g_replay = replay;
  rng_sched.reseed(mix(seed, 2)); rng_fault.reseed(mix(seed, 3)); rng_env.reseed(mix(seed, 4));
  a_top = A_RUN;
  // (all simulator state of the run is allocated from here on)
  Plan* p = new Plan(plan);
  h_deadlock = new std::function<void(const std::string&)>;
  h_crash = new std::function<void()>;
  pct_points = new std::vector<uint64_t>;
  rep_sw = new std::map<Key, std::vector<SwitchRec> >;
  rep_ft = new std::map<std::pair<int, Key>, int64_t>;
  rep_steps = new std::vector<std::vector<uint64_t> >;
  if (replay)
  {
    rep_steps->resize(MAX_FIBERS);
    for (size_t i = 0; i < replay->sw.size(); ++i)
    {
      const SwitchRec& r = replay->sw[i];
      (*rep_sw)[Key(r.fiber, r.step)].push_back(r);
      if (r.fiber >= 0 && r.fiber < MAX_FIBERS) (*rep_steps)[r.fiber].push_back(r.step);
    }
    for (size_t i = 0; i < rep_steps->size(); ++i) std::sort((*rep_steps)[i].begin(), (*rep_steps)[i].end());
    for (size_t i = 0; i < replay->ft.size(); ++i)
    {
      const FaultRec& r = replay->ft[i];
      (*rep_ft)[std::make_pair((int)r.fault, Key(r.fiber, (uint64_t)r.idx))] = r.arg;
    }
  }
  a_top = A_RUN + (256ULL << 20);            // the same addresses with and without a replay script
  // strategy of this run
  static const int dens[] = { 1, 2, 4, 8, 16, 64, 256, 1024 };
  strat = (int)rng_sched.below(10);
  strat = strat < 2 ? 0 : strat < 6 ? 1 : strat < 8 ? 2 : 3;
  walk_den = dens[rng_sched.below(8)];
  sync_pct = (int[]){ 5, 20, 40, 70 }[rng_sched.below(4)];
  stall_permille = rng_sched.chance(1, 3) ? (int)rng_sched.range(5, 60) : 0;
  if (strat == 2)
  {
    int d = (int)rng_sched.range(1, 8);
    for (int i = 0; i < d; ++i) pct_points->push_back(1 + rng_sched.below((uint64_t)1 << rng_sched.range(6, 17)));
    std::sort(pct_points->begin(), pct_points->end());
  }
  low_prio = 900;
  g_era = plan.era * SEC; t_mono = 1000 * SEC; set_real(1700000000LL * SEC);
  g_next_wake = NEVER;
  g_step_limit = 3000000 + (plan.ops.size() > 30 ? plan.ops.size() * 60000 : 0); g_step_cls = "no-progress";
  memset(rate, 0, sizeof rate);
  for (int i = 0; i < FT_COUNT; ++i) limit_[i] = -1;
  g_faults_on = true;
  crash_in = 0; g_crashed = false;
  reset_fs();

  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sig_stack; ss.ss_size = sizeof sig_stack;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
  for (size_t i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
  alarm(30);

  ++g_guard;
  void (*run)(const Plan&) = s.run;
  Fiber* f = new_fiber("main", [run, p]() { run(*p); });
  set_trigger(f);
  cur = f;
  g_active = true;
  sim_switch(&main_sp, f->sp);
  _exit(9);
}
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ allocator interface
extern "C" {
void* malloc(size_t n)
{
  if (in_sim() && rate[FT_ALLOC])
  {
    Guard g;
    if (fault_locked(FT_ALLOC, 0, 0, 0)) { errno = ENOMEM; return 0; }
  }
  return a_alloc(n, 16);
}
void free(void* p) { a_release(p); }
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  void* p = a_alloc(n, 16);
  if (p) __real_memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n)
{
  if (!p) return a_alloc(n, 16);
  if (!n) { a_release(p); return 0; }
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != MAGIC && g_active) vfail("memory", "realloc of a pointer that is no live heap block");
  void* q = a_alloc(n, 16);
  if (!q) return 0;
  __real_memcpy(q, p, h->size < n ? h->size : n);
  a_release(p);
  return q;
}
void* memalign(size_t al, size_t n) { return a_alloc(n, al < 16 ? 16 : al); }
void* aligned_alloc(size_t al, size_t n) { return a_alloc(n, al < 16 ? 16 : al); }
int posix_memalign(void** out, size_t al, size_t n) { *out = a_alloc(n, al < 16 ? 16 : al); return *out ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}

// ------------------------------------------------------------------ compiler callbacks
static void bad_access(uintptr_t a, size_t n, bool w) __attribute__((noinline));
static void bad_access(uintptr_t a, size_t n, bool w)
{
  uint8_t s = SH_BASE[(a - (uintptr_t)A_BASE) / 16];
  char b[160];
  snprintf(b, sizeof b, "%s of %zu bytes %s", w ? "write" : "read", n,
           s == SH_FREED ? "in freed heap memory" : "outside any live heap block");
  vfail("memory", b);
}
static inline void check_mem(uintptr_t a, size_t n, bool w)
{
  uintptr_t off = a - (uintptr_t)A_BASE;
  if (off >= A_SIZE) return;
  uint8_t s = SH_BASE[off / 16];
  if (__builtin_expect(s > 16 || (off & 15) >= s, 0)) bad_access(a, n, w);
  uintptr_t e = off + n - 1;
  s = SH_BASE[e / 16];
  if (__builtin_expect(s > 16 || (e & 15) >= s, 0)) bad_access((uintptr_t)A_BASE + e, n, w);
}
static inline void acc(const void* p, size_t n, bool w)
{
  if (!g_active || g_guard) return;
  check_mem((uintptr_t)p, n, w);
  mem_point();
}
static void range_check(const void* p, size_t n, bool w)
{
  if (!g_active || g_guard || !n) return;
  uintptr_t off = (uintptr_t)p - (uintptr_t)A_BASE;
  if (off >= A_SIZE) return;
  if (!mem_accessible(p, n))
  {
    for (size_t i = 0; i < n; ++i) if (!mem_accessible((const char*)p + i, 1)) bad_access((uintptr_t)p + i, n, w);
  }
}
static inline void sync_pt()
{
  if (!g_active || g_guard) return;
  ++g_guard;
  ++g_total_steps; ++cur->steps;
  hash_sched(0x11 + cur->id);
  slow_point(true);
  --g_guard;
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() { if (g_active && !g_guard) mem_point(); }
#define RW(n) \
  void __tsan_read##n(void* p) { acc(p, n, false); } \
  void __tsan_write##n(void* p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { acc(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); } \
  void __tsan_read##n##_pc(void* p, void*) { acc(p, n, false); } \
  void __tsan_write##n##_pc(void* p, void*) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { range_check(p, n, false); acc(p, 1, false); }
void __tsan_write_range(void* p, unsigned long n) { range_check(p, n, true); acc(p, 1, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
__extension__ typedef unsigned __int128 a128;
#define ATOMIC(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { acc((const void*)p, sizeof(T), false); sync_pt(); return *p; } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; *p = ~(o & v); return o; } \
  bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
  { acc((const void*)p, sizeof(T), true); sync_pt(); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
  bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) \
  { acc((const void*)p, sizeof(T), true); sync_pt(); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) \
  { acc((const void*)p, sizeof(T), true); sync_pt(); T o = *p; if (o == c) *p = v; return o; }
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64) ATOMIC(128, a128)
void __tsan_atomic_thread_fence(int) { sync_pt(); }
void __tsan_atomic_signal_fence(int) {}

// Memory functions called by instrumented objects (linked with --wrap; the simulator's own objects call the real
// ones): bounds checks, and points where the thread may lose the processor.
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcpy(char*, const char*);
int __real_strcmp(const char*, const char*);
static inline void lib_point() { if (g_active && !g_guard) mem_point(); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { lib_point(); range_check(s, n, false); range_check(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { lib_point(); range_check(s, n, false); range_check(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { lib_point(); range_check(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { lib_point(); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { lib_point(); size_t n = __real_strlen(s); range_check(s, n + 1, false); return n; }
char* __wrap_strncpy(char* d, const char* s, size_t n) { lib_point(); range_check(d, n, true); return __real_strncpy(d, s, n); }
char* __wrap_strcpy(char* d, const char* s) { lib_point(); size_t n = __real_strlen(s); range_check(s, n + 1, false); range_check(d, n + 1, true); return __real_strcpy(d, s); }
}

