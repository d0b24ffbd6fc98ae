// C09 Singleton
#include "common.h"
#include <cstdlib>
#include <stdexcept>
#include <icl_core/Singleton.hpp>
#include <icl_core/SingletonCreationPolicies.h>
#include <icl_core/SingletonLifetimePolicies.h>
#include <icl_core_thread/SingletonThreadingModels.h>
using namespace scn;
namespace {
int built[4], destroyed[4], fail_first;
ns_t ctor_time;
template <int N> struct Obj
{
  int64_t a[8]; bool complete;
  Obj()
  {
    bool boom = false;
    ATOMIC { if (fail_first > 0) { --fail_first; boom = true; } }
    complete = false;
    for (int i = 0; i < 8; ++i) { a[i] = 0; if (i == 3) { if (boom) throw std::runtime_error("ctor"); if (ctor_time) sleep_ns(ctor_time); else sim::yield(); } a[i] = 0x1000 + i; }
    complete = true;
    ATOMIC ++built[N];
  }
  ~Obj() { ATOMIC ++destroyed[N]; complete = false; for (int i = 0; i < 8; ++i) a[i] = -1; }
  bool ok() const { bool r = complete; for (int i = 0; i < 8; ++i) r = r && a[i] == 0x1000 + i; return r; }
};
std::vector<icl_core::DestructionFuncPtr> scheduled;
int dead_refs;
template <class T> struct Strict   // the default policy, with the end of the process under control
{
  static void scheduleDestruction(icl_core::DestructionFuncPtr f) { ATOMIC scheduled.push_back(f); }
  static void onDeadReference() { ATOMIC ++dead_refs; icl_core::SLPDefaultLifetime<T>::onDeadReference(); }
};
template <class T> struct Revive
{
  static void scheduleDestruction(icl_core::DestructionFuncPtr f) { ATOMIC scheduled.push_back(f); }
  static void onDeadReference() { ATOMIC ++dead_refs; }
};
typedef icl_core::Singleton<Obj<0>, icl_core::SCPCreateUsingNew, Strict, icl_core::thread::STMMultiThreadedWithMutex> S0;
typedef icl_core::Singleton<Obj<1>, icl_core::SCPCreateUsingNew, Revive, icl_core::thread::STMMultiThreadedWithMutex> S1;
typedef icl_core::Singleton<Obj<2>, icl_core::SCPCreateStatic, icl_core::SLPNoDestroy, icl_core::thread::STMMultiThreadedWithMutex> S2;
typedef icl_core::Singleton<Obj<3>, icl_core::SCPCreateUsingNew, icl_core::SLPNoDestroy, icl_core::thread::STMMultiThreadedWithMutex> S3;
template <int N, class S> void use(const Plan& p, int t, std::set<const void*>& seen, int& threw)
{
  for (int k = 0; k < (int)p.c(2, 1); ++k)
  {
    try
    {
      Obj<N>& o = S::instance();
      SIM_CHECK(o.ok(), "half-built", "thread %d was given an instance that is not completely constructed", t);
      ATOMIC seen.insert(&o);
      SIM_CHECK(&S::instance() == &o, "identity", "two calls gave different instances");
    }
    catch (std::runtime_error&) { ATOMIC ++threw; --k; probe("ctor_threw"); }
    sim::yield();
  }
}
template <int N, class S> void all(const Plan& p)
{
  int nt = (int)p.c(1, 2);
  for (int life = 0; life <= (int)p.c(5); ++life)
  {
    std::set<const void*> seen; int threw = 0;
    int fails = fail_first = (int)p.c(3);
    int b0 = built[N]; size_t s0 = scheduled.size();
    std::vector<int> ths;
    for (int t = 0; t < nt; ++t) ths.push_back(spawn("user", [&, t]() { if (arg(p.ops.empty() ? std::vector<int64_t>() : p.ops[0], t)) sleep_ns(p.ops[0][t]); use<N, S>(p, t, seen, threw); }));
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    bool fresh = life == 0 || N < 2;
    SIM_CHECK(built[N] - b0 == (fresh ? 1 : 0), "once", "%d instances were constructed", built[N] - b0);
    SIM_CHECK(seen.size() == 1, "identity", "%zu different instances were handed out", seen.size());
    SIM_CHECK(threw == (fresh ? fails : 0), "exception", "%d constructors threw, %d callers saw it", fails, threw);
    if (N < 2) SIM_CHECK(scheduled.size() - s0 == 1, "schedule", "the destruction was scheduled %zu times", scheduled.size() - s0);
    if (N >= 2) { SIM_CHECK(destroyed[N] == 0, "lifetime", "the instance was destroyed"); continue; }
    // the process ends: what was scheduled runs
    scheduled.back()();
    SIM_CHECK(destroyed[N] == built[N], "lifetime", "%d instances were built, %d destroyed", built[N], destroyed[N]);
    if (N == 0)
    {
      for (int k = 0; k < 2; ++k)
      {
        bool thrown = false;
        try { S::instance(); } catch (std::logic_error&) { thrown = true; }
        SIM_CHECK(thrown, "dead", "an access after the destruction was not refused");
      }
      SIM_CHECK(dead_refs == 2 && built[N] == 1, "dead", "a dead reference was not reported");
      return;
    }
    SIM_CHECK(dead_refs == life, "dead", "%d dead references were reported instead of %d", dead_refs, life);
    probe("revived");
  }
}
}
static void gen_single(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 5);
  static const int64_t d[] = { 0, 0, 0, 1000, 20 * US, MS };
  p.cfg = { (int64_t)r.below(4), nt, r.range(1, 3), (int64_t)(r.chance(1, 3) ? r.range(1, 2) : 0), d[r.below(6)], (int64_t)r.below(3) };
  std::vector<int64_t> w;
  for (int i = 0; i < nt; ++i) w.push_back(d[r.below(6)]);
  p.ops.push_back(w);
}
static void run_single(const Plan& p)
{
  ctor_time = p.c(4);
  switch (p.c(0))
  {
    case 0: all<0, S0>(p); break;
    case 1: all<1, S1>(p); break;
    case 2: all<2, S2>(p); break;
    default: all<3, S3>(p); break;
  }
}
SIM_SCENARIO_LONG(C09, singleton, gen_single, run_single, 200000, 400);
