// Deterministic simulator for fzi_icl_core: public interface for scenarios.
//
// Every "thread" of the code under test is a fiber on one OS thread.  A seeded scheduler decides at
// every memory access (compiler-inserted __tsan_* callbacks) and at every system call which fiber
// runs next; the clock, the file system, the network, the dynamic loader and the faults are simulated.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

typedef int64_t ns_t;
static const ns_t US = 1000LL, MS = 1000000LL, SEC = 1000000000LL;
static const ns_t DAY = 86400LL * SEC;

// ---------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  void reseed(uint64_t seed);
  uint64_t next();
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- plan
// A plan is the generated workload of one run: a fixed set of parameters and a list of operations.
// Only the plan, the schedule and the fired faults decide a run.
struct Plan
{
  std::vector<int64_t> cfg;
  std::vector<std::vector<int64_t> > ops;
  int64_t era;              // seconds added to the wall clock at the start of the run
  Plan() : era(0) {}
  int64_t c(size_t i, int64_t def = 0) const { return i < cfg.size() ? cfg[i] : def; }
};
inline int64_t arg(const std::vector<int64_t>& op, size_t i, int64_t def = 0) { return i < op.size() ? op[i] : def; }

struct Scenario
{
  const char* property;
  const char* name;
  void (*gen)(Rng&, Plan&);
  void (*run)(const Plan&);
  int quick_runs;           // number of runs of the quick tier
  int flags;
  int longest;              // the operations of a plan may be repeated until there are this many; 0: never
};
enum { F_DEADLOCK_OK = 1 };
struct Register { Register(const Scenario& s); };
#define SIM_SCENARIO(prop, nm, genf, runf, quick) SIM_SCENARIO_LONG(prop, nm, genf, runf, quick, 0)
#define SIM_SCENARIO_LONG(prop, nm, genf, runf, quick, longest) \
  static ::sim::Register sim_reg_##prop##_##nm(::sim::Scenario{ #prop, #nm, genf, runf, quick, 0, longest })

// ---------------------------------------------------------------- faults
enum Fault
{
  FT_EINTR_SEM, FT_EINTR_SLEEP, FT_EINTR_READ, FT_EINTR_WRITE, FT_THREAD_CREATE, FT_STALL,
  FT_CLOCK_JUMP, FT_OPEN_ERR, FT_READ_ERR, FT_SHORT_READ, FT_WRITE_ERR, FT_ENOSPC, FT_SHORT_WRITE,
  FT_RENAME_ERR, FT_UNLINK_ERR, FT_FSYNC_ERR, FT_CLOSE_ERR, FT_CRASH, FT_SOCK_ERR, FT_DNS_ERR,
  FT_CONNECT_ERR, FT_SEND_ERR, FT_NET_DROP, FT_NET_DUP, FT_NET_DELAY, FT_DLOPEN_ERR, FT_DLSYM_ERR,
  FT_TIMER_ERR, FT_TIMER_LATE, FT_ALLOC, FT_SPURIOUS, FT_DIR_ERR, FT_DISK_FULL, FT_STAT_ERR,
  FT_DB_LOCKED, FT_CANCEL, FT_SCHED_ERR, FT_STREAM_ERR, FT_LOCK_ERR, FT_COUNT
};
extern const char* const fault_name[FT_COUNT];
// Per-run probability of a fault kind, in 1/1000.  limit: the most often it may fire in the run (-1: any).
void set_rate(Fault f, int permille, int limit = -1);
void faults_off();                       // from here on nothing is injected ("faults stop")
bool fault(Fault f, int64_t* arg = 0, int64_t lo = 0, int64_t hi = 0);  // roll; recorded for replay
void count_fault(Fault f);               // a fault the scenario injected itself (clock jump, crash, ...)
int fired(Fault f);                      // how often it fired in this run

// ---------------------------------------------------------------- scheduling
int self();                              // id of the running fiber
int spawn(const char* name, std::function<void()> fn);   // a harness thread
void join(int id);
bool alive(int id);
int live_fibers();
void yield();                            // a possible preemption
void sleep_ns(ns_t d);                   // sleep of a harness thread, never interrupted
void wait_until(std::function<bool()> pred, ns_t poll = MS);  // harness thread polls simulated time
uint64_t steps();
uint64_t seq();                          // global event sequence number, unique per call
void on_deadlock(std::function<void(const std::string&)> fn); // replaces the default violation
void on_crash(std::function<void()> fn); // what runs (alone) after a simulated process crash
void crash();                            // crash the process now
void crash_after_calls(int64_t n);       // crash at the n-th system call from now
void set_step_limit(uint64_t n);
void step_limit_class(const char* cls);
void no_stall();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// ---------------------------------------------------------------- clock
ns_t mono();
ns_t real();
void set_real(ns_t t);                   // before the workload starts (the era of the plan is added)
void jump_clock(ns_t delta);             // step of CLOCK_REALTIME
void spend(ns_t d);                      // the running fiber uses CPU time (the clock advances)

// ---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void probe(const char* name);            // a rare condition was reached
void ev(const char* tag, int64_t a = 0, int64_t b = 0);  // history event: goes into the trace hash
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // only printed on replay
bool verbose();

// memory
bool mem_accessible(const void* p, size_t n);
size_t live_allocs();

// ---------------------------------------------------------------- file system (paths below /simfs)
namespace fs {
void mkdir(const std::string& path);
void put(const std::string& path, const std::string& data, ns_t mtime = -1);
bool exists(const std::string& path);
std::string get(const std::string& path);
ns_t mtime(const std::string& path);
void remove(const std::string& path);
std::vector<std::string> list(const std::string& dir);   // names of the files, sorted
void set_capacity(int64_t bytes);        // bytes left on the device (-1: unlimited)
int64_t capacity();
void fail_path(const std::string& substr, int err);      // open of such paths fails (0: clear)
void bad_sector(const std::string& path, int64_t offset); // reading the file fails from there on (-1: clear)
void chmod_dir(const std::string& dir, bool writable);
int open_fds();
struct Call { uint64_t seq; int fiber; const char* op; std::string path; std::string path2; int64_t ret; int err; };
extern std::vector<Call> log;            // mutating calls and their outcome
void fault_paths(const std::string& substr);   // I/O faults only hit files whose path contains this
void set_readdir_shuffle(bool on);
}
int open_timerfds();
int bad_closes();             // calls of close() with a descriptor that is not open
int open_sockets();

// ---------------------------------------------------------------- network
namespace net {
struct Datagram { uint64_t seq; int fiber; int fd; std::string host; std::string port; std::string data; bool delivered; };
extern std::vector<Datagram> sent;
extern int dns_calls;
}

// ---------------------------------------------------------------- dynamic loader
namespace dl {
struct Lib
{
  std::string path;
  std::map<std::string, void*> syms;
  bool loadable;
  std::string error;
  int refs, opens, closes;
  Lib() : loadable(true), refs(0), opens(0), closes(0) { }
};
extern std::map<std::string, Lib> libs;
extern std::map<std::string, void*> global_syms;   // what dlsym(RTLD_DEFAULT) finds
}

// ---------------------------------------------------------------- pthread bookkeeping
struct ThreadStats { int created, create_failed, joined, detached, finished; };
ThreadStats thread_stats();
void exit_hook(std::function<void(int)> fn);

} // namespace sim
#endif
