// Internals shared by the simulator's translation units.
#ifndef VERIF_SIM_CORE_H
#define VERIF_SIM_CORE_H
#include "sim.h"
#include <errno.h>
#include <string.h>

namespace sim {

enum { MAX_FIBERS = 1024, STACK_SIZE = 256 * 1024 };
static const ns_t NEVER = INT64_MAX;

struct SwitchRec { int32_t fiber; int32_t kind; uint64_t step; int64_t val; };   // kind 0: switch to val, 1: stall val ns
struct FaultRec { int32_t fault; int32_t fiber; int64_t idx; int64_t arg; };

enum { MAX_SW = 1 << 17, MAX_FT = 1 << 14, MAX_PROBE = 96 };

// Result of one run, in memory shared between the child that executes the run and its worker.
struct Result
{
  int32_t done;           // 0: died without a verdict, 1: ok, 2: violation
  char cls[96];
  char msg[1800];
  uint64_t hash;          // hash over the complete event trace
  uint64_t sched_hash;    // hash over the sequence of (fiber switch, synchronisation event)
  uint64_t steps, calls, switches, preemptions;
  int32_t fibers;
  int32_t overflow;
  int64_t sim_ns;
  int32_t fault_count[FT_COUNT];
  int32_t n_sw, n_ft;
  int32_t n_probe;
  char probe_name[MAX_PROBE][40];
  int32_t probe_count[MAX_PROBE];
  SwitchRec sw[MAX_SW];
  FaultRec ft[MAX_FT];
};

struct Replay
{
  std::vector<SwitchRec> sw;
  std::vector<FaultRec> ft;
};

// Runs the scenario in this process (a forked child) and never returns.
[[noreturn]] void run_child(const Scenario& s, const Plan& plan, uint64_t seed, const Replay* replay, Result* res, bool verbose);

const std::vector<Scenario>& scenarios();

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const char* s);

// --- internals used by the interposers
extern bool g_active;
extern int g_guard;
inline bool in_sim() { return g_active && g_guard == 0; }
struct Guard { Guard() { ++g_guard; } ~Guard() { --g_guard; } };

// Entry of a simulated system call: costs simulated time, is a preemption point and a crash point.
bool crashed();
void syscall_point(const char* name, int64_t a = 0);
enum Wake { W_WOKEN, W_TIMEOUT };
Wake block(const char* what, const void* obj, ns_t mono_deadline, bool real_clock = false, ns_t real_deadline = 0);
void wake_all(const void* obj);
void wake_one(const void* obj);
bool fault_locked(Fault f, int64_t* arg, int64_t lo, int64_t hi);
void fibers_abort();
Rng& env_rng();
bool cancel_pending();
void reset_fs();

[[noreturn]] void vfail(const char* cls, const char* msg);
void* real_sym(const char* name);
}
#define REAL(name) ((decltype(&name))([]() -> void* { static void* p = ::sim::real_sym(#name); return p; }()))
#endif
