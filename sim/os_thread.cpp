// Simulated pthreads, semaphores, clocks, sleeps and timers.  Outside a run every call goes to libc.
#include "core.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <algorithm>

namespace sim {
struct Cancelled { void* ret; };
struct MutexS { int type; int owner; int count; MutexS() : type(0), owner(-1), count(0) {} };
struct RwS { int writer; std::map<int, int> readers; int nreaders; RwS() : writer(-1), nreaders(0) {} };
struct SemS { int64_t value; SemS() : value(0) {} };
struct ThreadS { int fiber; bool detached, joined, done, cancel, cancel_disabled; void* ret; };
static std::map<const void*, MutexS>* mutexes;
static std::map<const void*, RwS>* rwlocks;
static std::map<const void*, SemS>* sems;
static std::vector<ThreadS>* threads;          // index: number of the thread
static std::map<int, int>* fiber_thread;       // fiber -> thread number
static ThreadStats tstats;
static std::function<void(int)>* h_exit;
template <class T> static T& lazy(T*& p) { if (!p) p = new T; return *p; }
static const unsigned long PT_BASE = 0x51A0000000UL;

ThreadStats thread_stats() { return tstats; }
void exit_hook(std::function<void(int)> fn) { Guard g; lazy(h_exit) = fn; }

static ThreadS* thread_of(pthread_t t)
{
  unsigned long n = (unsigned long)t - PT_BASE;
  if ((unsigned long)t < PT_BASE || !threads || n >= threads->size()) return 0;
  return &(*threads)[n];
}
static ThreadS* my_thread()
{
  if (!fiber_thread) return 0;
  std::map<int, int>::iterator it = fiber_thread->find(self());
  return it == fiber_thread->end() ? 0 : &(*threads)[it->second];
}
bool cancel_pending() { ThreadS* t = my_thread(); return t && t->cancel && !t->cancel_disabled; }
static void cancel_point()
{
  // guard held; leaves by exception when the thread has been cancelled
  if (cancel_pending())
  {
    my_thread()->cancel_disabled = true;
    ev("cancelled");
    throw Cancelled{PTHREAD_CANCELED};
  }
}
static ns_t to_ns(const struct timespec* t) { return (ns_t)t->tv_sec * SEC + t->tv_nsec; }
static ns_t to_ns_sat(const struct timespec* t)
{
  if (t->tv_sec > 9000000000LL) return INT64_MAX - 1000000 * SEC;
  if (t->tv_sec < -9000000000LL) return 0;
  return to_ns(t);
}
static bool bad_ts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000L; }
} // namespace sim
using namespace sim;

extern "C" {
// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  if (!in_sim()) return REAL(pthread_create)(out, at, fn, arg);
  Guard g;
  syscall_point("pthread_create");
  if (fault_locked(FT_THREAD_CREATE, 0, 0, 0)) { ++tstats.create_failed; return EAGAIN; }
  lazy(threads); lazy(fiber_thread);
  ++tstats.created;
  int det = 0;
  if (at) pthread_attr_getdetachstate(at, &det);
  int no = (int)threads->size();
  ThreadS t = { -1, det == PTHREAD_CREATE_DETACHED, false, false, false, false, 0 };
  threads->push_back(t);
  char nm[20]; snprintf(nm, sizeof nm, "thread%d", no);
  int fid = spawn(nm, [fn, arg, no]()
  {
    void* r = 0;
    try { r = fn(arg); }
    catch (Cancelled& c) { r = c.ret; }
    Guard g2;
    ThreadS& t2 = (*threads)[no];
    t2.ret = r; t2.done = true;
    ++tstats.finished;
    wake_all((const void*)(PT_BASE + no));
  });
  (*threads)[no].fiber = fid;
  (*fiber_thread)[fid] = no;
  *out = (pthread_t)(PT_BASE + no);
  syscall_point("pthread_created", no);
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  if (!in_sim()) return REAL(pthread_join)(th, ret);
  Guard g;
  syscall_point("pthread_join", (int64_t)(th - PT_BASE));
  ThreadS* t = thread_of(th);
  if (!t) vfail("thread-misuse", "pthread_join of something that is no thread");
  if (t->detached || t->joined) vfail("thread-misuse", "pthread_join of a thread that has already been joined or detached");
  if (t == my_thread()) return EDEADLK;
  while (!(t = thread_of(th))->done)
  {
    block("pthread_join", (const void*)th, NEVER);
    cancel_point();
  }
  t->joined = true;
  ++tstats.joined;
  if (ret) *ret = t->ret;
  return 0;
}
static int join_until(pthread_t th, void** ret, int mode, bool real_clock, ns_t deadline)   // 1: try, 2: timed
{
  ThreadS* t = thread_of(th);
  if (!t) vfail("thread-misuse", "a join of something that is no thread");
  if (t->detached || t->joined) vfail("thread-misuse", "a join of a thread that has already been joined or detached");
  if (t == my_thread()) return EDEADLK;
  while (!(t = thread_of(th))->done)
  {
    if (mode == 1) return EBUSY;
    if ((real_clock ? real() : mono()) >= deadline) return ETIMEDOUT;
    block("a timed join", (const void*)th, real_clock ? NEVER : deadline, real_clock, deadline);
    cancel_point();
  }
  t->joined = true;
  ++tstats.joined;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_tryjoin_np(pthread_t th, void** ret)
{
  if (!in_sim()) return REAL(pthread_tryjoin_np)(th, ret);
  Guard g; syscall_point("pthread_tryjoin");
  return join_until(th, ret, 1, false, 0);
}
int pthread_timedjoin_np(pthread_t th, void** ret, const struct timespec* ts)
{
  if (!in_sim()) return REAL(pthread_timedjoin_np)(th, ret, ts);
  Guard g; struct timespec t = *ts; syscall_point("pthread_timedjoin");
  if (bad_ts(&t)) return EINVAL;
  return join_until(th, ret, 2, true, to_ns_sat(&t));
}
int pthread_clockjoin_np(pthread_t th, void** ret, clockid_t c, const struct timespec* ts)
{
  if (!in_sim()) return REAL(pthread_clockjoin_np)(th, ret, c, ts);
  Guard g; struct timespec t = *ts; syscall_point("pthread_clockjoin");
  if (bad_ts(&t)) return EINVAL;
  return join_until(th, ret, 2, c == CLOCK_REALTIME, to_ns_sat(&t));
}
int pthread_detach(pthread_t th)
{
  if (!in_sim()) return REAL(pthread_detach)(th);
  Guard g;
  syscall_point("pthread_detach");
  ThreadS* t = thread_of(th);
  if (!t) return ESRCH;
  if (t->joined) vfail("thread-misuse", "pthread_detach of a joined thread");
  t->detached = true; ++tstats.detached;
  return 0;
}
pthread_t pthread_self(void)
{
  if (g_active)
  {
    Guard g;
    ThreadS* t = my_thread();
    if (t) return (pthread_t)(PT_BASE + (t - &(*threads)[0]));
    return (pthread_t)(PT_BASE + 0x100000 + (self() < 0 ? 0 : self()));
  }
  return REAL(pthread_self)();
}
int pthread_cancel(pthread_t th)
{
  if (!in_sim()) return REAL(pthread_cancel)(th);
  Guard g;
  syscall_point("pthread_cancel", (int64_t)(th - PT_BASE));
  ThreadS* t = thread_of(th);
  if (!t || t->joined) return ESRCH;
  if (t->done) return 0;
  t->cancel = true;
  count_fault(FT_CANCEL);
  return 0;
}
void pthread_testcancel(void) { if (!in_sim()) return; Guard g; cancel_point(); }
int pthread_setcancelstate(int st, int* old)
{
  if (!in_sim()) return REAL(pthread_setcancelstate)(st, old);
  ThreadS* t = my_thread();
  if (old) *old = t && t->cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
  if (t) t->cancel_disabled = st == PTHREAD_CANCEL_DISABLE;
  return 0;
}
void pthread_exit(void* r) { if (!g_active) REAL(pthread_exit)(r); throw Cancelled{r}; }
int pthread_setschedparam(pthread_t th, int pol, const struct sched_param* p)
{
  if (!in_sim()) return REAL(pthread_setschedparam)(th, pol, p);
  Guard g;
  syscall_point("pthread_setschedparam");
  if (!thread_of(th) && (unsigned long)th < PT_BASE) return ESRCH;
  if (pol != SCHED_OTHER && fault_locked(FT_SCHED_ERR, 0, 0, 0)) return EPERM;
  return 0;
}
int pthread_getschedparam(pthread_t th, int* pol, struct sched_param* p)
{
  if (!in_sim()) return REAL(pthread_getschedparam)(th, pol, p);
  Guard g;
  syscall_point("pthread_getschedparam");
  *pol = SCHED_OTHER; p->sched_priority = 0;
  return 0;
}
int sched_yield(void)
{
  if (!in_sim()) return REAL(sched_yield)();
  Guard g; syscall_point("sched_yield");
  return 0;
}

// ---------------------------------------------------------------- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  if (!in_sim()) return REAL(pthread_mutex_init)(m, a);
  Guard g;
  syscall_point("mutex_init");
  MutexS s;
  if (a) pthread_mutexattr_gettype(a, &s.type);
  lazy(mutexes)[m] = s;
  memset((void*)m, 0, sizeof *m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (!in_sim()) return REAL(pthread_mutex_destroy)(m);
  Guard g;
  syscall_point("mutex_destroy");
  MutexS& s = lazy(mutexes)[m];
  if (s.owner >= 0) return EBUSY;
  mutexes->erase(m);
  return 0;
}
static MutexS& mutex_state(pthread_mutex_t* m)
{
  std::map<const void*, MutexS>& t = lazy(mutexes);
  std::map<const void*, MutexS>::iterator it = t.find(m);
  if (it != t.end()) return it->second;
  MutexS s;
  s.type = m->__data.__kind & 3;     // statically initialised, or initialised before the run
  return t[m] = s;
}
static int mutex_lock(pthread_mutex_t* m, int mode, bool real_clock, ns_t deadline, bool bad, bool may_fail = true)
{
  if (!mem_accessible(m, sizeof *m)) vfail("memory", "mutex operation on freed memory");
  if (mode == 0 && may_fail && fault_locked(FT_LOCK_ERR, 0, 0, 0)) return EAGAIN;
  MutexS* s = &mutex_state(m);
  if (s->owner == self())
  {
    if (s->type == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
    if (mode == 1) return EBUSY;
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (crashed() && s->owner != self()) s->owner = -1;     // the process that owned it is gone
  while (s->owner >= 0)
  {
    if (mode == 1) return EBUSY;
    if (mode == 2)
    {
      if (bad) return EINVAL;
      if ((real_clock ? real() : mono()) >= deadline) return ETIMEDOUT;
      block("a timed mutex lock", m, real_clock ? NEVER : deadline, real_clock, deadline);
    }
    else block("a mutex lock", m, NEVER);
    if (!mem_accessible(m, sizeof *m)) vfail("memory", "mutex was freed while a thread waited for it");
    s = &mutex_state(m);
  }
  s->owner = self(); s->count = 1;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!in_sim()) { if (g_active) return 0; return REAL(pthread_mutex_lock)(m); }
  Guard g;
  syscall_point("mutex_lock");
  return mutex_lock(m, 0, false, 0, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!in_sim()) { if (g_active) return 0; return REAL(pthread_mutex_trylock)(m); }
  Guard g;
  syscall_point("mutex_trylock");
  return mutex_lock(m, 1, false, 0, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
  if (!in_sim()) return REAL(pthread_mutex_timedlock)(m, ts);
  Guard g;
  struct timespec t = *ts;
  syscall_point("mutex_timedlock");
  return mutex_lock(m, 2, true, to_ns_sat(&t), bad_ts(&t));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
  if (!in_sim()) return REAL(pthread_mutex_clocklock)(m, c, ts);
  Guard g;
  struct timespec t = *ts;
  syscall_point("mutex_clocklock");
  return mutex_lock(m, 2, c == CLOCK_REALTIME, to_ns_sat(&t), bad_ts(&t));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!in_sim()) { if (g_active) return 0; return REAL(pthread_mutex_unlock)(m); }
  Guard g;
  syscall_point("mutex_unlock");
  if (!mem_accessible(m, sizeof *m)) vfail("memory", "mutex operation on freed memory");
  MutexS& s = mutex_state(m);
  if (s.owner != self() && s.type != PTHREAD_MUTEX_NORMAL) return EPERM;
  if (s.owner < 0) return 0;
  if (--s.count == 0) { s.owner = -1; wake_all(m); }
  syscall_point("mutex_unlocked");
  return 0;
}

// ---------------------------------------------------------------- read/write locks
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a)
{
  if (!in_sim()) return REAL(pthread_rwlock_init)(m, a);
  Guard g; syscall_point("rwlock_init");
  lazy(rwlocks)[m] = RwS();
  memset((void*)m, 0, sizeof *m);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* m)
{
  if (!in_sim()) return REAL(pthread_rwlock_destroy)(m);
  Guard g; syscall_point("rwlock_destroy");
  lazy(rwlocks).erase(m);
  return 0;
}
static int rw_lock(pthread_rwlock_t* m, bool write, int mode, bool real_clock, ns_t deadline, bool bad)
{
  if (!mem_accessible(m, sizeof *m)) vfail("memory", "rwlock operation on freed memory");
  if (mode == 2 && bad) return EINVAL;
  if (mode == 0 && fault_locked(FT_LOCK_ERR, 0, 0, 0)) return EAGAIN;
  for (;;)
  {
    RwS& s = lazy(rwlocks)[m];
    if (s.writer == self()) return mode == 1 ? EBUSY : EDEADLK;
    bool free_ = write ? (s.writer < 0 && s.nreaders == 0) : s.writer < 0;
    if (free_)
    {
      if (write) s.writer = self();
      else { ++s.nreaders; ++s.readers[self()]; }
      return 0;
    }
    if (mode == 1) return EBUSY;
    if (mode == 2)
    {
      if ((real_clock ? real() : mono()) >= deadline) return ETIMEDOUT;
      block(write ? "a timed write lock" : "a timed read lock", m, real_clock ? NEVER : deadline, real_clock, deadline);
    }
    else block(write ? "a write lock" : "a read lock", m, NEVER);
    if (!mem_accessible(m, sizeof *m)) vfail("memory", "rwlock was freed while a thread waited for it");
  }
}
#define RWFN(name, write, mode) \
int name(pthread_rwlock_t* m) \
{ if (!in_sim()) { if (g_active) return 0; return REAL(name)(m); } Guard g; syscall_point(#name); return rw_lock(m, write, mode, false, 0, false); }
RWFN(pthread_rwlock_rdlock, false, 0)
RWFN(pthread_rwlock_tryrdlock, false, 1)
RWFN(pthread_rwlock_wrlock, true, 0)
RWFN(pthread_rwlock_trywrlock, true, 1)
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* ts)
{ if (!in_sim()) return REAL(pthread_rwlock_timedrdlock)(m, ts); Guard g; struct timespec t = *ts; syscall_point("timedrdlock"); return rw_lock(m, false, 2, true, to_ns_sat(&t), bad_ts(&t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* ts)
{ if (!in_sim()) return REAL(pthread_rwlock_timedwrlock)(m, ts); Guard g; struct timespec t = *ts; syscall_point("timedwrlock"); return rw_lock(m, true, 2, true, to_ns_sat(&t), bad_ts(&t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* ts)
{ if (!in_sim()) return REAL(pthread_rwlock_clockrdlock)(m, c, ts); Guard g; struct timespec t = *ts; syscall_point("timedrdlock"); return rw_lock(m, false, 2, c == CLOCK_REALTIME, to_ns_sat(&t), bad_ts(&t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* ts)
{ if (!in_sim()) return REAL(pthread_rwlock_clockwrlock)(m, c, ts); Guard g; struct timespec t = *ts; syscall_point("timedwrlock"); return rw_lock(m, true, 2, c == CLOCK_REALTIME, to_ns_sat(&t), bad_ts(&t)); }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if (!in_sim()) { if (g_active) return 0; return REAL(pthread_rwlock_unlock)(m); }
  Guard g; syscall_point("rwlock_unlock");
  if (!mem_accessible(m, sizeof *m)) vfail("memory", "rwlock operation on freed memory");
  RwS& s = lazy(rwlocks)[m];
  if (s.writer >= 0) s.writer = -1;
  else if (s.nreaders > 0)
  {
    --s.nreaders;
    std::map<int, int>::iterator it = s.readers.find(self());
    if (it != s.readers.end() && --it->second == 0) s.readers.erase(it);
  }
  wake_all(m);
  syscall_point("rwlock_unlocked");
  return 0;
}

// ---------------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{ if (!in_sim()) return REAL(pthread_cond_init)(c, a); memset((void*)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (!in_sim()) return REAL(pthread_cond_destroy)(c); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, bool real_clock, ns_t deadline)
{
  MutexS& s = mutex_state(m);
  int cnt = s.count;
  s.owner = -1; s.count = 0; wake_all(m);
  int r = 0;
  if (fault_locked(FT_SPURIOUS, 0, 0, 0)) syscall_point("spurious");
  else if (timed)
  {
    if (block("a timed condition wait", c, real_clock ? NEVER : deadline, real_clock, deadline) == W_TIMEOUT) r = ETIMEDOUT;
  }
  else block("a condition wait", c, NEVER);
  mutex_lock(m, 0, false, 0, false, false);
  mutex_state(m).count = cnt;
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{ if (!in_sim()) return REAL(pthread_cond_wait)(c, m); Guard g; syscall_point("cond_wait"); return cond_wait(c, m, false, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{ if (!in_sim()) return REAL(pthread_cond_timedwait)(c, m, t); Guard g; ns_t d = to_ns_sat(t); syscall_point("cond_timedwait"); return cond_wait(c, m, true, true, d); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{ if (!in_sim()) return REAL(pthread_cond_clockwait)(c, m, k, t); Guard g; ns_t d = to_ns_sat(t); syscall_point("cond_timedwait"); return cond_wait(c, m, true, k == CLOCK_REALTIME, d); }
int pthread_cond_signal(pthread_cond_t* c)
{ if (!in_sim()) { if (g_active) return 0; return REAL(pthread_cond_signal)(c); } Guard g; syscall_point("cond_signal"); wake_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c)
{ if (!in_sim()) { if (g_active) return 0; return REAL(pthread_cond_broadcast)(c); } Guard g; syscall_point("cond_broadcast"); wake_all(c); return 0; }

// ---------------------------------------------------------------- semaphores
int sem_init(sem_t* s, int sh, unsigned v)
{
  if (!in_sim()) return REAL(sem_init)(s, sh, v);
  Guard g; syscall_point("sem_init", v);
  memset((void*)s, 0, sizeof *s);
  SemS x; x.value = v;
  lazy(sems)[s] = x;
  return 0;
}
static SemS& sem_state(sem_t* s)
{
  if (!mem_accessible(s, sizeof *s)) vfail("memory", "semaphore operation on freed memory");
  std::map<const void*, SemS>& t = lazy(sems);
  std::map<const void*, SemS>::iterator it = t.find(s);
  if (it != t.end()) return it->second;
  SemS x;
  int v = 0;
  REAL(sem_getvalue)(s, &v);          // initialised before the run
  x.value = v;
  return t[s] = x;
}
int sem_destroy(sem_t* s)
{ if (!in_sim()) return REAL(sem_destroy)(s); Guard g; syscall_point("sem_destroy"); lazy(sems).erase(s); return 0; }
int sem_getvalue(sem_t* s, int* v)
{ if (!in_sim()) return REAL(sem_getvalue)(s, v); Guard g; syscall_point("sem_getvalue"); *v = (int)sem_state(s).value; return 0; }
int sem_post(sem_t* s)
{
  if (!in_sim()) return REAL(sem_post)(s);
  Guard g;
  syscall_point("sem_post");
  ++sem_state(s).value;
  wake_all(s);
  syscall_point("sem_posted");
  return 0;
}
int sem_trywait(sem_t* s)
{
  if (!in_sim()) return REAL(sem_trywait)(s);
  Guard g;
  syscall_point("sem_trywait");
  SemS& x = sem_state(s);
  if (x.value <= 0) { errno = EAGAIN; return -1; }
  --x.value;
  return 0;
}
int sem_wait(sem_t* s)
{
  if (!in_sim()) return REAL(sem_wait)(s);
  Guard g;
  syscall_point("sem_wait");
  cancel_point();
  for (;;)
  {
    SemS& x = sem_state(s);
    if (x.value > 0) { --x.value; return 0; }
    int64_t when = 0;
    if (fault_locked(FT_EINTR_SEM, &when, 0, 3))
    {
      if (when) block("sem_wait (to be interrupted)", s, mono() + when * when * 300 * US);
      errno = EINTR;
      return -1;
    }
    block("sem_wait", s, NEVER);
    cancel_point();
  }
}
static int sem_timed(sem_t* s, const struct timespec* ts, bool real_clock)
{
  Guard g;
  struct timespec t = *ts;
  syscall_point("sem_timedwait");
  cancel_point();
  if (bad_ts(&t)) { errno = EINVAL; return -1; }
  ns_t deadline = to_ns_sat(&t);
  for (;;)
  {
    SemS& x = sem_state(s);
    if (x.value > 0) { --x.value; return 0; }
    if ((real_clock ? real() : mono()) >= deadline) { errno = ETIMEDOUT; return -1; }
    int64_t when = 0;
    if (fault_locked(FT_EINTR_SEM, &when, 0, 3))
    {
      if (when) block("sem_timedwait (to be interrupted)", s, mono() + when * when * 300 * US);
      errno = EINTR;
      return -1;
    }
    block("sem_timedwait", s, real_clock ? NEVER : deadline, real_clock, deadline);
    cancel_point();
  }
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{ if (!in_sim()) return REAL(sem_timedwait)(s, ts); return sem_timed(s, ts, true); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{ if (!in_sim()) return REAL(sem_clockwait)(s, c, ts); return sem_timed(s, ts, c == CLOCK_REALTIME); }

// ---------------------------------------------------------------- clocks and sleeping
static void put_ts(struct timespec* t, ns_t n) { t->tv_sec = n / SEC; t->tv_nsec = n % SEC; }
int clock_gettime(clockid_t c, struct timespec* t)
{
  if (!g_active) return REAL(clock_gettime)(c, t);
  if (g_guard == 0) { Guard g; syscall_point("clock_gettime", c); }
  put_ts(t, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? real() : mono());
  return 0;
}
int gettimeofday(struct timeval* t, void* z)
{
  if (!g_active) return REAL(gettimeofday)(t, z);
  if (g_guard == 0) { Guard g; syscall_point("gettimeofday"); }
  t->tv_sec = real() / SEC; t->tv_usec = real() % SEC / 1000;
  return 0;
}
time_t time(time_t* t)
{
  if (!g_active) { struct timespec ts; REAL(clock_gettime)(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  if (g_guard == 0) { Guard g; syscall_point("time"); }
  time_t r = real() / SEC;
  if (t) *t = r;
  return r;
}
static int sleep_rel(ns_t d, struct timespec* rem)
{
  // guard held
  cancel_point();
  ns_t end = mono() + d;
  int64_t part = 0;
  if (d > 0 && fault_locked(FT_EINTR_SLEEP, &part, 0, 99))
  {
    block("an interrupted sleep", 0, mono() + d / 100 * part);
    cancel_point();
    if (rem) put_ts(rem, end > mono() ? end - mono() : 0);
    errno = EINTR;
    return -1;
  }
  block("sleep", 0, end + 50 * US);         // the usual timer slack
  cancel_point();
  if (rem) put_ts(rem, 0);
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
  if (!in_sim()) return REAL(nanosleep)(t, rem);
  Guard g;
  struct timespec x = *t;
  syscall_point("nanosleep");
  if (bad_ts(&x) || x.tv_sec < 0) { errno = EINVAL; return -1; }
  return sleep_rel(to_ns_sat(&x), rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
  if (!in_sim()) return REAL(clock_nanosleep)(c, flags, t, rem);
  Guard g;
  struct timespec x = *t;
  syscall_point("clock_nanosleep");
  if (bad_ts(&x)) return EINVAL;
  ns_t d = to_ns_sat(&x);
  if (flags & TIMER_ABSTIME)
  {
    bool rc = c == CLOCK_REALTIME;
    cancel_point();
    if (d > (rc ? real() : mono()) && fault_locked(FT_EINTR_SLEEP, 0, 0, 0)) return EINTR;
    while ((rc ? real() : mono()) < d) { block("absolute sleep", 0, rc ? NEVER : d, rc, d); cancel_point(); }
    return 0;
  }
  return sleep_rel(d, rem) ? EINTR : 0;
}
int usleep(useconds_t us)
{
  if (!in_sim()) return REAL(usleep)(us);
  Guard g; syscall_point("usleep", us);
  return sleep_rel((ns_t)us * US, 0);
}
unsigned sleep(unsigned s)
{
  if (!in_sim()) return REAL(sleep)(s);
  Guard g; syscall_point("sleep", s);
  struct timespec rem;
  if (sleep_rel((ns_t)s * SEC, &rem)) return (unsigned)(rem.tv_sec + (rem.tv_nsec >= 500000000 ? 1 : 0));
  return 0;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
  if (!in_sim() || n > 0 || !t) return (int)syscall(SYS_select, n, r, w, e, t);
  Guard g; ns_t d = (ns_t)t->tv_sec * SEC + (ns_t)t->tv_usec * US; syscall_point("select");
  return sleep_rel(d, 0);
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t* m)
{
  if (!in_sim() || n > 0 || !t) return (int)syscall(SYS_pselect6, n, r, w, e, t, m);
  Guard g; ns_t d = to_ns_sat(t); syscall_point("pselect");
  return sleep_rel(d, 0);
}
int timespec_get(struct timespec* t, int base)
{
  if (base != TIME_UTC) return 0;
  clock_gettime(CLOCK_REALTIME, t);
  return base;
}
// ---------------------------------------------------------------- spin locks, once
int pthread_spin_init(pthread_spinlock_t* s, int) { *s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* s)
{
  if (!in_sim()) { while (__atomic_exchange_n(s, 1, __ATOMIC_ACQUIRE)) {} return 0; }
  Guard g; syscall_point("spin_lock");
  while (*s) block("a spin lock", (const void*)s, NEVER);
  *s = 1;
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* s)
{
  if (!in_sim()) return __atomic_exchange_n(s, 1, __ATOMIC_ACQUIRE) ? EBUSY : 0;
  Guard g; syscall_point("spin_trylock");
  if (*s) return EBUSY;
  *s = 1;
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* s)
{
  if (!in_sim()) { __atomic_store_n(s, 0, __ATOMIC_RELEASE); return 0; }
  Guard g; syscall_point("spin_unlock");
  *s = 0; wake_all((const void*)s);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!in_sim()) return REAL(pthread_once)(o, fn);
  {
    Guard g; syscall_point("pthread_once");
    while (*o == 0x51) block("pthread_once", o, NEVER);
    if (*o) return 0;
    *o = 0x51;
  }
  try { fn(); }
  catch (...) { Guard g; *o = 0; wake_all(o); throw; }
  Guard g; *o = 2; wake_all(o);
  return 0;
}
pid_t getpid(void) { if (g_active) return 4242; return REAL(getpid)(); }
void exit(int code)
{
  if (g_active)
  {
    ++g_guard;
    ev("exit", code);
    if (h_exit && *h_exit) { --g_guard; (*h_exit)(code); ++g_guard; }
    char b[60]; snprintf(b, sizeof b, "the code under test called exit(%d)", code);
    vfail("exit", b);
  }
  REAL(exit)(code);
  __builtin_trap();
}
int getrusage(__rusage_who_t who, struct rusage* r)
{
  if (!g_active) return REAL(getrusage)(who, r);
  memset(r, 0, sizeof *r);
  r->ru_utime.tv_sec = mono() / SEC; r->ru_utime.tv_usec = mono() % SEC / 1000;
  return 0;
}
}

// ---------------------------------------------------------------- calendar
// The non-reentrant conversions return a static buffer: other threads may run before the caller reads it.
#include <time.h>
extern "C" {
struct tm* gmtime(const time_t* t) { struct tm* r = REAL(gmtime)(t); sim::yield(); return r; }
struct tm* localtime(const time_t* t) { struct tm* r = REAL(localtime)(t); sim::yield(); return r; }
size_t strftime(char* d, size_t n, const char* f, const struct tm* t) { sim::yield(); return REAL(strftime)(d, n, f, t); }
}
