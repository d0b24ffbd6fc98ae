// C01 Mutex, C02 RWLock, C03 Semaphore, C04 SpinLock
#include "common.h"
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/ScopedMutexLock.h>
#include <icl_core_thread/RWLock.h>
#include <icl_core_thread/ScopedRWLock.h>
#include <icl_core_thread/Sem.h>
#include <icl_core_thread/SpinLock.h>
#include <icl_core_thread/ScopedSpinLock.h>
#include <icl_core_logging/Semaphore.h>
#include <icl_core_logging/ScopedSemaphore.h>
using namespace scn;
using namespace icl_core::thread;

// Where a thread is told that it could not get the lock, another thread must have held it (or, for
// a refused lock attempt, must have been about to) at some time during the call.
static void check_refusals(const char* cls, const std::vector<Hold>& holds, const std::vector<Refusal>& refs)
{
  for (size_t i = 0; i < refs.size(); ++i)
  {
    const Refusal& r = refs[i];
    bool ok = false;
    for (size_t k = 0; k < holds.size() && !ok; ++k)
    {
      const Hold& h = holds[k];
      if (h.thread == r.thread) continue;
      if (r.mode == 0 && h.mode == 0) continue;          // readers do not exclude readers
      ok = h.from <= r.to && r.from <= h.to;
    }
    SIM_CHECK(ok, cls, "%s of thread %d was refused although nobody else held the lock", r.what, r.thread);
  }
}
static ns_t pick_offset(Rng& r)
{
  static const ns_t o[] = { -1 * SEC, -1, 0, 1, 700, 999, 50 * US, MS, 20 * MS, 999 * MS + 999999, SEC, SEC + 1, 3 * SEC, 20 * SEC };
  return o[r.below(sizeof o / sizeof *o)];
}
static ns_t pick_hold(Rng& r)
{
  static const ns_t o[] = { 0, 0, 0, 1, 50 * US, MS, 30 * MS, 600 * MS, 2 * SEC, 5 * SEC, 60 * SEC };
  return o[r.below(r.chance(1, 2) ? 4 : sizeof o / sizeof *o)];
}
// A lock may also be held for days (but not for years: the simulated time is limited).
static ns_t pick_long_hold(Rng& r) { return r.chance(1, 400) ? (r.chance(1, 4) ? 30 : 2) * 86400 * SEC : pick_hold(r); }
static const ns_t SLACK = 7 * SEC;   // more than all stalls of a thread that is merely late

// Result of a timed call against the clocks.
static void check_deadline(const char* cls, const char* what, bool absolute, ns_t off, bool got, ns_t r0, ns_t m0, bool jumped, ns_t latest)
{
  if (got)
  {
    if (!jumped && (absolute || off >= 0))
      SIM_CHECK(mono() - m0 <= (off > 0 ? off : 0) + latest, cls, "%s with a timeout of %.9f s came back after %.9f s", what, off / 1e9, (mono() - m0) / 1e9);
    return;
  }
  if (absolute)
  {
    ns_t dl = r0 + off;
    SIM_CHECK(real() >= dl - US || jumped, cls, "%s gave up %.9f s before its deadline", what, (dl - real()) / 1e9);
  }
  else if (!jumped && off >= 0)
    SIM_CHECK(mono() - m0 >= off - US, cls, "%s with a timeout of %.9f s gave up after %.9f s", what, off / 1e9, (mono() - m0) / 1e9);
  else if (off < 0)
    SIM_CHECK(jumped, cls, "%s with an unlimited (negative) timeout gave up", what);
  if (!jumped)
    SIM_CHECK(mono() - m0 <= (off > 0 ? off : 0) + latest, cls, "%s with a timeout of %.9f s came back after %.9f s", what, off / 1e9, (mono() - m0) / 1e9);
}

// ------------------------------------------------------------------ C01
// op: thread, mutex, kind (0 lock, 1 try, 2 absolute, 3 relative, 4 scoped, 5 unlimited absolute, 6 scoped unforced),
//     offset, hold time, recursion, recursion kind
static void gen_mutex(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 5), nm = r.chance(3, 4) ? 1 : 2;
  p.cfg = { nt, nm, r.chance(1, 4), r.chance(1, 4) ? r.range(1, 300) : 0 };
  int n = (int)r.range(nt, 4 * nt + 6);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(nm), (int64_t)r.below(7), pick_offset(r), pick_long_hold(r),
                      (int64_t)(r.chance(1, 3) ? r.range(1, 3) : 0), (int64_t)r.below(4) });
}
static void run_mutex(const Plan& p)
{
  set_real(EPOCH0 + 999999000);
  int nt = (int)p.c(0, 2), nm = (int)p.c(1, 1);
  if (p.c(3)) set_rate(FT_LOCK_ERR, (int)p.c(3), 20);
  struct M { Mutex m; int owner, depth; int64_t data, expect; std::vector<Hold> holds; std::vector<Refusal> refs; M() : owner(-1), depth(0), data(0), expect(0) { } };
  std::vector<M*> ms;
  for (int i = 0; i < nm; ++i) ms.push_back(new M);
  int jumps = 0, doing = 0, days = 0;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("locker", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        M& m = *ms[arg(o, 1) % nm];
        int kind = (int)arg(o, 2); bool old = i & 1;   // every other operation uses the deprecated names
        ns_t off = arg(o, 3), hold = arg(o, 4);
        if (hold >= DAY && ++days > 3) hold = SEC;   // an unlimited wait ends after a year
        uint64_t from = seq();
        int j0 = jumps;
        ns_t r0 = real(), m0 = mono();
        bool got = false;
        int lock_errs = fired(FT_LOCK_ERR);
        ScopedMutexLock* sc = 0;
        const char* what = "lock";
        switch (kind)
        {
          case 0: got = old ? m.m.Lock() : m.m.lock(); break;
          case 1: got = old ? m.m.TryLock() : m.m.tryLock(); what = "tryLock"; break;
          case 2: got = old ? m.m.Lock(stamp(r0 + off)) : m.m.lock(stamp(r0 + off)); what = "lock(TimeStamp)"; break;
          case 3: got = old ? m.m.Lock(span(off)) : m.m.lock(span(off)); what = "lock(TimeSpan)"; break;
          case 4: sc = new ScopedMutexLock(m.m); got = old ? sc->IsLocked() : sc->isLocked(); what = "ScopedMutexLock"; SIM_CHECK(got && (bool)*sc, "scoped", "a forced ScopedMutexLock does not hold the lock"); break;
          case 5: got = old ? m.m.Lock(icl_core::TimeStamp::MaxTime()) : m.m.lock(icl_core::TimeStamp::maxTime()); what = "lock(maxTime)"; SIM_CHECK(got, "timed", "lock(maxTime) gave up"); break;
          default: sc = new ScopedMutexLock(m.m, false); got = *sc; what = "ScopedMutexLock(unforced)"; break;
        }
        uint64_t to = seq();
        ev(what, got, arg(o, 1));
        if (kind == 0 || kind == 6) SIM_CHECK(got || fired(FT_LOCK_ERR) > lock_errs, "result", "a blocking lock failed without a reason");
        if (kind == 2 || kind == 3) check_deadline("timed", what, kind == 2, off, got, r0, m0, jumps != j0, SLACK);
        if (!got)
        {
          if (kind != 0 && kind != 6) ATOMIC m.refs.push_back(Refusal{ t, from, to, what, 1 });
          if (sc) { delete sc; }
          probe("refused");
          continue;
        }
        SIM_CHECK(m.owner == -1, "exclusion", "%s of thread %d succeeded while thread %d holds the mutex", what, t, m.owner);
        m.owner = t; m.depth = 1;
        int64_t d = m.data;
        if (hold) sleep_ns(hold); else yield();
        // recursion: the owner is never refused, and inner unlocks do not release
        int rec = (int)arg(o, 5), done = 0;
        for (int k = 0; k < rec; ++k)
        {
          bool ok = false;
          switch (arg(o, 6))
          {
            case 0: ok = old ? m.m.Lock() : m.m.lock(); break;
            case 1: ok = old ? m.m.TryLock() : m.m.tryLock(); break;
            case 2: ok = m.m.lock(stamp(real() + off)); break;
            default: ok = m.m.lock(span(off > 0 ? off : 0)); break;
          }
          SIM_CHECK(ok || (arg(o, 6) == 0 && p.c(3)), "recursion", "the owner was refused a recursive lock");
          if (ok) ++done;
          SIM_CHECK(m.owner == t, "exclusion", "thread %d got in while thread %d holds the mutex", m.owner, t);
        }
        for (int k = 0; k < done; ++k) { if (old ^ (k & 1)) m.m.Unlock(); else m.m.unlock(); yield(); SIM_CHECK(m.owner == t, "exclusion", "an inner unlock released the mutex to thread %d", m.owner); probe("recursive"); }
        m.data = d + 1; ++m.expect;
        SIM_CHECK(m.owner == t, "exclusion", "thread %d got in while thread %d holds the mutex", m.owner, t);
        m.owner = -1; m.depth = 0;
        if (sc) delete sc; else if (old) m.m.Unlock(); else m.m.unlock();
        ATOMIC m.holds.push_back(Hold{ t, from, seq(), 1 });
        ATOMIC ++doing;
      }
    }));
  if (p.c(2))
    for (int k = 0; k < 3; ++k) { sleep_ns(400 * MS); ATOMIC { ++jumps; jump_clock(k & 1 ? -7 * SEC : 3 * SEC); count_fault(FT_CLOCK_JUMP); } }
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  for (int i = 0; i < nm; ++i)
  {
    M& m = *ms[i];
    SIM_CHECK(m.data == m.expect, "exclusion", "%ld updates under the mutex, %ld arrived", (long)m.expect, (long)m.data);
    check_refusals("result", m.holds, m.refs);
    faults_off();
    SIM_CHECK(m.m.tryLock(), "release", "the mutex is still locked after every holder released it");
    m.m.unlock();
    delete ms[i];
  }
}
SIM_SCENARIO_LONG(C01, mutex, gen_mutex, run_mutex, 300000, 600);

// ------------------------------------------------------------------ C02
// op: thread, kind (0 read, 1 tryRead, 2 read abs, 3 read rel, 4 write, 5 tryWrite, 6 write abs, 7 write rel,
//     8 scoped read, 9 scoped write, 10/11 unforced scoped), offset, hold
static void gen_rw(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 6);
  p.cfg = { nt, r.chance(1, 4) ? r.range(1, 300) : 0 };
  int n = (int)r.range(nt, 5 * nt);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(12), pick_offset(r), pick_long_hold(r), (int64_t)r.chance(1, 4) });
}
static void run_rw(const Plan& p)
{
  set_real(EPOCH0 + 999999000);
  int nt = (int)p.c(0, 2);
  if (p.c(1)) set_rate(FT_LOCK_ERR, (int)p.c(1), 20);
  RWLock rw;
  int writers = 0, readers = 0, days = 0;
  int64_t data = 0, copy = 0, expect = 0;
  std::vector<Hold> holds; std::vector<Refusal> refs;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("rw", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        int kind = (int)arg(o, 1); bool old = i & 1;
        ns_t off = arg(o, 2), hold = arg(o, 3);
        if (hold >= DAY && ++days > 3) hold = SEC;
        bool write = (kind >= 4 && kind <= 7) || kind == 9 || kind == 11;
        uint64_t from = seq();
        ns_t r0 = real(), m0 = mono();
        int le = fired(FT_LOCK_ERR);
        bool got = false; ScopedRWLock* sc = 0; const char* what = write ? "write lock" : "read lock";
        switch (kind)
        {
          case 0: got = old ? rw.ReadLock() : rw.readLock(); break;
          case 1: got = old ? rw.TryReadLock() : rw.tryReadLock(); what = "tryReadLock"; break;
          case 2: got = old ? rw.ReadLock(stamp(r0 + off)) : rw.readLock(stamp(r0 + off)); break;
          case 3: got = old ? rw.ReadLock(span(off)) : rw.readLock(span(off)); break;
          case 4: got = old ? rw.WriteLock() : rw.writeLock(); break;
          case 5: got = old ? rw.TryWriteLock() : rw.tryWriteLock(); what = "tryWriteLock"; break;
          case 6: got = old ? rw.WriteLock(stamp(r0 + off)) : rw.writeLock(stamp(r0 + off)); break;
          case 7: got = old ? rw.WriteLock(span(off)) : rw.writeLock(span(off)); break;
          case 8: sc = new ScopedRWLock(rw, ScopedRWLock::eLM_READ_LOCK); break;
          case 9: sc = new ScopedRWLock(rw, ScopedRWLock::eLM_WRITE_LOCK); break;
          case 10: sc = new ScopedRWLock(rw, ScopedRWLock::eLM_READ_LOCK, false); break;
          default: sc = new ScopedRWLock(rw, ScopedRWLock::eLM_WRITE_LOCK, false); break;
        }
        if (sc) { got = old ? sc->IsLocked() : sc->isLocked(); SIM_CHECK(got == (bool)*sc, "scoped", "isLocked() and operator bool differ"); }
        uint64_t to = seq();
        if (kind == 8 || kind == 9) SIM_CHECK(got, "scoped", "a forced ScopedRWLock does not hold the lock");
        if (kind == 0 || kind == 4 || kind >= 10) SIM_CHECK(got || fired(FT_LOCK_ERR) > le, "result", "a blocking %s failed without a reason", what);
        if (kind == 2 || kind == 3 || kind == 6 || kind == 7) check_deadline("timed", what, kind == 2 || kind == 6, off, got, r0, m0, false, SLACK);
        ev(what, got, kind);
        if (!got)
        {
          if ((kind & 3) != 0 && kind < 8) ATOMIC refs.push_back(Refusal{ t, from, to, what, write });
          probe("refused");
          delete sc;
          continue;
        }
        SIM_CHECK(writers == 0, "exclusion", "%s granted while a writer holds the lock", what);
        if (write)
        {
          SIM_CHECK(readers == 0, "exclusion", "write lock granted while %d readers hold the lock", readers);
          ATOMIC ++writers;
          int64_t d = data;
          if (hold) sleep_ns(hold); else yield();
          data = d + 1; yield(); copy = data; ++expect;
          SIM_CHECK(writers == 1 && readers == 0, "exclusion", "%d writers and %d readers at once", writers, readers);
          ATOMIC --writers;
        }
        else
        {
          ATOMIC if (++readers > 1) probe("shared");
          int64_t d = data;
          SIM_CHECK(copy == d, "exclusion", "a reader saw a half-done update");
          if (hold) sleep_ns(hold); else yield();
          int nested = 0;
          if (arg(o, 4)) { if (rw.tryReadLock()) { nested = 1; probe("nested_read"); } else sim::fail("result", "a second reader was refused while only readers hold the lock"); }
          SIM_CHECK(copy == d && data == d && !writers, "exclusion", "the data changed under a read lock");
          if (nested) { if (old) rw.Unlock(); else rw.unlock(); }
          yield();
          SIM_CHECK(copy == d && data == d && !writers, "exclusion", "the data changed under a read lock");
          ATOMIC --readers;
        }
        if (sc) delete sc; else if (old) rw.Unlock(); else rw.unlock();
        ATOMIC holds.push_back(Hold{ t, from, seq(), write });
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  faults_off();
  SIM_CHECK(data == expect, "exclusion", "%ld updates under the write lock, %ld arrived", (long)expect, (long)data);
  check_refusals("result", holds, refs);
  SIM_CHECK(rw.tryWriteLock(), "release", "the lock is still held after every holder released it");
  rw.unlock();
}
SIM_SCENARIO_LONG(C02, rwlock, gen_rw, run_rw, 300000, 600);

// ------------------------------------------------------------------ C03
// op: thread, kind (0 post, 1 wait, 2 try, 3 abs, 4 rel, 5 unlimited rel), offset, pause
static int64_t initial_units(Rng& r)
{
  static const int64_t big[] = { 4, 7, 8, 9, 16, 33, 255, 256, 257, 1000 };
  return r.chance(1, 12) ? big[r.below(10)] : (int64_t)r.below(4);
}
static void gen_sem(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 5);
  p.cfg = { nt, initial_units(r), r.chance(1, 2) ? (int64_t)r.range(20, 400) : 0, r.chance(1, 5) };
  int n = (int)r.range(nt, 6 * nt);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(6), pick_offset(r), r.chance(1, 3) ? pick_hold(r) : 0 });
}
static void run_sem(const Plan& p)
{
  set_real(EPOCH0 + 999999000);
  int nt = (int)p.c(0, 2); int64_t init = p.c(1);
  if (p.c(2)) set_rate(FT_EINTR_SEM, (int)p.c(2), 40);
  Semaphore sem((size_t)init);
  // started posts bound what can have been taken; finished posts bound what must be available
  int64_t posts_started = 0, posts_done = 0, takes = 0, waits = 0;
  int waiting_forever = 0; int done = 0; int jumps = 0;
  struct Ev { uint64_t from, to; int kind; };   // 0 post, 1 take
  std::vector<Ev> hist; struct Ref { uint64_t from, to; const char* what; }; std::vector<Ref> refs;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("sem", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        int kind = (int)arg(o, 1); bool old = i & 1; ns_t off = arg(o, 2);
        if (arg(o, 3)) sleep_ns(arg(o, 3));
        uint64_t from = seq();
        if (kind == 0)
        {
          ATOMIC ++posts_started; if (old) sem.Post(); else sem.post(); ATOMIC ++posts_done;
          ATOMIC hist.push_back(Ev{ from, seq(), 0 });
          ev("post");
          continue;
        }
        int j0 = jumps; ns_t r0 = real(), m0 = mono(); int ei = fired(FT_EINTR_SEM);
        bool got; const char* what;
        if (kind == 1 || kind == 5) ATOMIC { ++waiting_forever; ++waits; }
        switch (kind)
        {
          case 1: got = old ? sem.Wait() : sem.wait(); what = "wait"; break;
          case 2: got = old ? sem.TryWait() : sem.tryWait(); what = "tryWait"; break;
          case 3: got = old ? sem.Wait(stamp(r0 + off)) : sem.wait(stamp(r0 + off)); what = "wait(TimeStamp)"; break;
          case 4: if (off < 0) off = 0; got = old ? sem.Wait(span(off)) : sem.wait(span(off)); what = "wait(TimeSpan)"; break;
          default: got = old ? sem.Wait(span(-SEC)) : sem.wait(span(-SEC)); what = "wait(unlimited)"; break;
        }
        if (kind == 1 || kind == 5) ATOMIC --waiting_forever;
        bool interrupted = fired(FT_EINTR_SEM) > ei;
        ev(what, got, interrupted);
        if (got)
        {
          ATOMIC ++takes;
          ATOMIC hist.push_back(Ev{ from, seq(), 1 });
          SIM_CHECK(takes <= init + posts_started, "overtake", "%ld waits succeeded with only %ld units ever available", (long)takes, (long)(init + posts_started));
          continue;
        }
        probe("refused");
        SIM_CHECK((kind != 1 && kind != 5) || interrupted, "result", "an untimed wait returned false");
        if (interrupted) continue;
        if (kind == 3 || kind == 4) check_deadline("timed", what, kind == 3, off, got, r0, m0, jumps != j0, SLACK);
        ATOMIC refs.push_back(Ref{ from, seq(), what });
      }
      ATOMIC ++done;
    }));
  if (p.c(3)) { sleep_ns(300 * MS); ATOMIC { ++jumps; jump_clock(5 * SEC); count_fault(FT_CLOCK_JUMP); } sleep_ns(300 * MS); ATOMIC { ++jumps; jump_clock(-9 * SEC); count_fault(FT_CLOCK_JUMP); } }
  // Every unit that was posted wakes somebody: feed the untimed waiters until all threads are done.
  int fed = 0;
  while (done < nt)
  {
    sleep_ns(100 * SEC);
    if (done >= nt) break;
    if (waiting_forever)
    {
      int64_t avail = init + posts_done - takes;
      if (avail > 0) { int64_t w = waits, n = takes; sleep_ns(30 * SEC); if (w != waits || n != takes) continue; avail = init + posts_done - takes; }
      SIM_CHECK(avail <= 0, "lost-wakeup", "%ld units are available but a thread still waits for one", (long)avail);
      uint64_t from = seq();
      ATOMIC ++posts_started; sem.post(); ATOMIC ++posts_done; ++fed;
      ATOMIC hist.push_back(Ev{ from, seq(), 0 });
    }
    SIM_CHECK(fed < 200 + (int)p.ops.size(), "no-progress", "threads do not finish although they are fed");
  }
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  faults_off();
  // a refusal needs a moment in the call at which no unit was certainly available
  for (size_t i = 0; i < refs.size(); ++i)
  {
    int64_t lo = init;           // units certainly available all through the call
    for (size_t k = 0; k < hist.size(); ++k)
    {
      if (hist[k].kind == 0 && hist[k].to < refs[i].from) ++lo;
      if (hist[k].kind == 1 && hist[k].from < refs[i].to) --lo;
    }
    SIM_CHECK(lo <= 0, "result", "%s was refused although a unit was available all the time", refs[i].what);
  }
  int64_t left = init + posts_done - takes;
  int64_t n = 0;
  while (n <= left + 2 && sem.tryWait()) ++n;
  SIM_CHECK(n == left, "conservation", "%ld units should be left, %ld could be taken", (long)left, (long)n);
}
SIM_SCENARIO_LONG(C03, semaphore, gen_sem, run_sem, 300000, 400);

// The semaphore of the logging library: wait() always gets a unit, a ScopedSemaphore has one for as long as it lives.
// op: thread, kind (0 post, 1 wait, 2/3 scoped), pause, hold
static void gen_logsem(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 5);
  p.cfg = { nt, initial_units(r), r.chance(1, 2) ? (int64_t)r.range(20, 400) : 0 };
  int n = (int)r.range(nt, 5 * nt);
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(4), r.chance(1, 3) ? pick_hold(r) : 0, r.chance(1, 2) ? pick_hold(r) : 0 });
}
static void run_logsem(const Plan& p)
{
  namespace icl = icl_core::logging;
  int nt = (int)p.c(0, 2); int64_t init = p.c(1);
  if (p.c(2)) set_rate(FT_EINTR_SEM, (int)p.c(2), 40);
  icl::Semaphore sem((size_t)init);
  int64_t posts_started = 0, posts_done = 0, takes = 0, waiting = 0, waits = 0, done = 0;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("logsem", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        bool old = i & 1;
        if (arg(o, 2)) sleep_ns(arg(o, 2));
        if (arg(o, 1) == 0)
        {
          ATOMIC ++posts_started;
          if (old) sem.Post(); else sem.post();
          ATOMIC ++posts_done;
          ev("post");
          continue;
        }
        ATOMIC { ++waiting; ++waits; }
        icl::ScopedSemaphore* sc = 0; bool got;
        if (arg(o, 1) == 1) got = old ? sem.Wait() : sem.wait();
        else { sc = new icl::ScopedSemaphore(sem); got = old ? sc->IsDecremented() : sc->isDecremented(); SIM_CHECK((bool)*sc == got, "result", "isDecremented() and operator bool differ"); }
        ATOMIC { --waiting; ++takes; }
        ev("got", got, arg(o, 1));
        SIM_CHECK(got, "result", "a wait for a unit came back without one");
        SIM_CHECK(takes <= init + posts_started, "overtake", "%ld units were handed out with only %ld ever available", (long)takes, (long)(init + posts_started));
        if (arg(o, 3)) sleep_ns(arg(o, 3));
        if (sc)
        {
          ATOMIC ++posts_started;
          delete sc;
          ATOMIC ++posts_done;
          probe("scoped");
        }
      }
      ATOMIC ++done;
    }));
  for (int fed = 0; done < nt; ++fed)
  {
    sleep_ns(200 * SEC);
    if (done >= nt) break;
    if (waiting)
    {
      int64_t avail = init + posts_done - takes;
      if (avail > 0) { int64_t w = waits, n = takes; sleep_ns(30 * SEC); if (w != waits || n != takes) { --fed; continue; } avail = init + posts_done - takes; }
      SIM_CHECK(avail <= 0, "lost-wakeup", "%ld units are available but a thread still waits for one", (long)avail);
      ATOMIC ++posts_started; sem.post(); ATOMIC ++posts_done;
    }
    SIM_CHECK(fed < 200 + (int)p.ops.size(), "no-progress", "threads do not finish although they are fed");
  }
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  faults_off();
  // exactly the units that are left can be taken
  int64_t left = init + posts_done - takes, n = 0;
  int last = spawn("drain", [&]() { for (int64_t k = 0; k < left + 1; ++k) { sem.wait(); ATOMIC ++n; } });
  sleep_ns(100 * SEC);
  SIM_CHECK(n == left, "conservation", "%ld units should be left, %ld could be taken", (long)left, (long)n);
  sem.post();
  sleep_ns(100 * SEC);
  SIM_CHECK(n == left + 1, "lost-wakeup", "a unit was posted but the waiting thread did not get it");
  join(last);
}
SIM_SCENARIO_LONG(C03, logging, gen_logsem, run_logsem, 100000, 400);

// ------------------------------------------------------------------ C04
static void gen_spin(Rng& r, Plan& p)
{
  int nt = (int)r.range(2, 4);
  p.cfg = { nt };
  int n = (int)r.range(nt, 5 * nt);
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nt), (int64_t)r.below(3), (int64_t)r.below(6) });
}
static void run_spin(const Plan& p)
{
  int nt = (int)p.c(0, 2);
  SpinLock sp;
  int owner = -1; int64_t data = 0, expect = 0;
  std::vector<Hold> holds; std::vector<Refusal> refs;
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("spin", [&, t]() {
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        uint64_t from = seq();
        ScopedSpinLock* sc = 0; bool got = false;
        switch (arg(o, 1))
        {
          case 0: got = sp.lock(); SIM_CHECK(got, "result", "SpinLock::lock returned false"); break;
          case 1: got = sp.tryLock(); break;
          default: sc = new ScopedSpinLock(sp); got = sc->isLocked(); SIM_CHECK(got && (bool)*sc, "result", "a ScopedSpinLock says it is not locked"); break;
        }
        uint64_t to = seq();
        ev("spin", got, arg(o, 1));
        if (!got) { ATOMIC refs.push_back(Refusal{ t, from, to, "tryLock", 1 }); probe("refused"); continue; }
        SIM_CHECK(owner == -1, "exclusion", "thread %d got the spin lock while thread %d holds it", t, owner);
        owner = t;
        int64_t d = data;
        for (int k = 0; k < (int)arg(o, 2); ++k) { yield(); SIM_CHECK(owner == t, "exclusion", "thread %d got in while thread %d holds the spin lock", owner, t); }
        SIM_CHECK(!sp.tryLock(), "exclusion", "tryLock succeeded on a spin lock that is held");
        data = d + 1; ++expect;
        owner = -1;
        if (sc) delete sc; else sp.unlock();
        ATOMIC holds.push_back(Hold{ t, from, seq(), 1 });
      }
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  SIM_CHECK(data == expect, "exclusion", "%ld updates under the spin lock, %ld arrived", (long)expect, (long)data);
  check_refusals("result", holds, refs);
  SIM_CHECK(sp.tryLock(), "release", "the spin lock is still held after every holder released it");
  SIM_CHECK(!sp.tryLock(), "exclusion", "the spin lock was granted twice");
  sp.unlock();
}
SIM_SCENARIO_LONG(C04, spinlock, gen_spin, run_spin, 250000, 600);
