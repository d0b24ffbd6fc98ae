// C05 Thread lifecycle, C06 Thread::wait, C07 periodic threads, C08 active objects
#include "common.h"
#include <icl_core/os_time.h>
#include <icl_core_thread/Thread.h>
#include <icl_core_thread/PeriodicThread.h>
#include <icl_core_thread/PeriodicThreadImplEmulate.h>
#include <icl_core_thread/ActiveObject.h>
using namespace scn;
namespace ict = icl_core::thread;
namespace {
struct State { int inside, runs, finished; bool no_stop; ns_t fin_at; State() : inside(0), runs(0), finished(0), no_stop(true), fin_at(0) { } };
enum Mode { M_RETURN, M_LOOP, M_SLEEP, M_SPIN, M_BLOCK, M_COUNT };
struct Worker : ict::Thread
{
  State& s; int mode; ns_t len;
  Worker(State& st, int m, ns_t l) : ict::Thread("worker"), s(st), mode(m), len(l) { }
  struct In { State& s; In(State& x) : s(x) { ATOMIC { ++s.inside; ++s.runs; } } ~In() { ATOMIC { --s.inside; ++s.finished; s.fin_at = mono(); } } };
  void run()
  {
    In in(s);
    SIM_CHECK(s.inside == 1, "overlap", "two activations of run() of one thread at the same time");
    SIM_CHECK((running() && Running()) || !s.no_stop, "state", "running() is false inside run()");
    SIM_CHECK((execute() && Execute()) || !s.no_stop, "state", "execute() is false inside run() although nobody stopped the thread");
    SIM_CHECK(threadSelf() && ThreadSelf(), "identity", "threadSelf() is false in the thread itself");
    SIM_CHECK(ict::Thread::selfId() == threadId() && SelfId() == ThreadId(), "identity", "selfId() is not threadId() in the thread itself");
    ev("run");
    switch (mode)
    {
      case M_LOOP: while (execute()) icl_core::os::usleep(500); break;
      case M_SLEEP: icl_core::os::usleep((unsigned long)(len / US)); break;
      case M_SPIN: while (execute()) { sim::yield(); sim::sleep_ns(len > 1000000000 ? MS : 200 * US); } break;
      case M_BLOCK: while (execute()) icl_core::os::usleep(3000000); break;
      default: break;
    }
    SIM_CHECK(running() || !s.no_stop, "state", "running() is false inside run()");
    ev("run_end");
  }
};
}

// ------------------------------------------------------------------ C05
// cfg: number of threads, create failure rate, EINTR rate; op: thread, kind, pause
//  kinds: 0 start, 1 stop, 2 join (after stop if it loops), 3 query, 4 cancel, 5 stop+destroy+new, 6 start twice, 7 poll until not running
static void gen_life(Rng& r, Plan& p)
{
  int nt = (int)r.range(1, 3);
  p.cfg = { nt, r.chance(1, 3) ? r.range(50, 600) : 0 };
  for (int i = 0; i < nt; ++i) { p.cfg.push_back(r.below(M_COUNT)); p.cfg.push_back((int64_t[]){ 0, 1 * US, 300 * US, 5 * MS, 2 * SEC }[r.below(5)]); }
  int n = (int)r.range(2, 14);
  static const int64_t pause[] = { 0, 0, 0, 0, 100, 60 * US, 700 * US, 6 * MS, 3 * SEC };
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(nt), (int64_t)(r.chance(1, 3) ? 0 : r.below(8)), pause[r.below(9)] });
}
static void run_life(const Plan& p)
{
  set_real(EPOCH0);
  if (p.c(1)) set_rate(FT_THREAD_CREATE, (int)p.c(1), 6);
  int nt = (int)p.c(0, 1);
  std::vector<int> ths;
  for (int t = 0; t < nt; ++t)
    ths.push_back(spawn("controller", [&, t]() {
      State* s = new State;
      int mode = (int)p.c(2 + 2 * t) % M_COUNT; ns_t len = p.c(3 + 2 * t);
      bool loops = mode == M_LOOP || mode == M_SPIN || mode == M_BLOCK;
      Worker* w = new Worker(*s, mode, len);
      int effective = 0;                 // starts that must have led to an activation of run()
      bool up = false;                   // started and not joined
      bool stopped = false;
      SIM_CHECK(!w->running(), "state", "a thread that was never started says it is running");
      for (size_t i = 0; i < p.ops.size(); ++i)
      {
        const std::vector<int64_t>& o = p.ops[i];
        if (arg(o, 0) != t) continue;
        bool old = i & 1;              // every other operation uses the deprecated names
        switch (arg(o, 1))
        {
          case 6:
          case 0:
          {
            int failed = fired(FT_THREAD_CREATE);
            bool over = up && s->finished == effective && !w->running();
            int runs0 = s->runs;
            if (!up || over) { s->no_stop = true; }
            bool ok = old ? w->Start() : w->start();
            ev("start", ok, up);
            if (!up || over)
            {
              if (!ok)
              {
                SIM_CHECK(fired(FT_THREAD_CREATE) > failed, "start", "start() failed without a reason");
                SIM_CHECK(!w->running(), "state", "a thread that could not be started says it is running");
                SIM_CHECK(s->runs == runs0, "start", "start() failed but run() was executed");
                up = false; probe("create_failed");
                break;
              }
              if (over) probe("restart_unjoined");
              if (effective) probe("restart");
              up = true; stopped = false; ++effective;
              if (loops) SIM_CHECK(w->running(), "state", "a started thread is not running");
              SIM_CHECK(w->execute() || (!loops && s->finished >= 0), "state", "execute() is false after start()");
              if (arg(o, 1) == 6 && loops)
              {
                SIM_CHECK(w->start(), "start", "start() of a running thread returned false");
                SIM_CHECK(w->running(), "state", "running() is false after a second start()");
                probe("start_twice");
              }
            }
            else if (!stopped && loops) { SIM_CHECK(ok, "start", "start() of a running thread returned false"); }
            else
            {
              // it was about to end: the call either found it running or started it anew
              if (w->running() || s->runs > effective) { }
              s->no_stop = false; w->stop(); w->join();
              SIM_CHECK(s->runs == s->finished, "join", "join() returned while run() is executing");
              SIM_CHECK(s->runs == effective || s->runs == effective + 1, "start", "run() was executed %d times after %d starts", s->runs, effective + 1);
              effective = s->runs; up = false;
            }
            break;
          }
          case 1: s->no_stop = false; if (old) w->Stop(); else w->stop(); stopped = true; SIM_CHECK(!w->execute() && !w->Execute(), "stop", "execute() is true after stop()"); ev("stop"); break;
          case 2:
            if (up && loops && !stopped) { s->no_stop = false; w->stop(); stopped = true; }
            if (old) w->Join(); else w->join();
            ev("join");
            SIM_CHECK(s->inside == 0 && s->finished == effective && s->runs == effective, "join", "join() returned after %d starts, with run() entered %d times and left %d times", effective, s->runs, s->finished);
            SIM_CHECK(!w->running(), "state", "running() is true after join()");
            SIM_CHECK(!w->Running(), "state", "Running() is true after join()");
            up = false;
            break;
          case 3:
            SIM_CHECK(!w->threadSelf() && !w->ThreadSelf(), "identity", "threadSelf() is true in another thread");
            if (up && loops && !stopped) SIM_CHECK(w->running() && w->execute() && w->Running() && w->Execute(), "state", "a looping thread is not running");
            if (!up) SIM_CHECK(!w->running(), "state", "a joined thread is running");
            break;
          case 4:
            if (mode == M_SPIN) break;      // has no cancellation point
            if (!up) break;
            s->no_stop = false;
            if (old) w->Cancel(); else w->cancel();
            stopped = true;
            ev("cancel");
            w->join();
            if (s->runs < effective) { effective = s->runs; probe("cancelled_before_run"); }
            SIM_CHECK(s->inside == 0 && s->runs == s->finished, "cancel", "the thread is executing after cancel() and join()");
            SIM_CHECK(!w->running(), "state", "running() is true after cancel() and join()");
            probe("cancelled");
            up = false;
            break;
          case 5:
            if (loops && up) { s->no_stop = false; w->stop(); w->join(); up = false; }
            else if (up)
            {
              while (w->running()) sleep_ns(50 * US);    // ended by itself, never joined
              probe("destroy_unjoined");
            }
            delete w;
            SIM_CHECK(s->inside == 0 && s->runs == effective, "join", "the destructor returned while run() is executing");
            s->no_stop = true;
            w = new Worker(*s, mode, len); up = false; stopped = false;
            break;
          default:
            if (!up || (loops && !stopped)) break;
            for (int k = 0; w->running(); ++k) { sleep_ns(k < 20 ? 50 * US : 100 * MS); SIM_CHECK(k < 400, "stop", "the thread does not end"); }
            SIM_CHECK(s->inside == 0 && s->finished == effective, "state", "running() is false while run() executes");
            break;
        }
        if (arg(o, 2)) sleep_ns(arg(o, 2));
      }
      s->no_stop = false;
      if (loops && up) w->stop();
      if (up) w->join();
      delete w;
      SIM_CHECK(s->runs == effective && s->finished == effective, "start", "%d starts led to %d activations", effective, s->runs);
    }));
  for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
  ThreadStats st = thread_stats();
  SIM_CHECK(st.joined + st.detached == st.created, "thread-leak", "%d threads were created, only %d of them were ever joined", st.created, st.joined);
  SIM_CHECK(st.finished == st.created, "thread-leak", "%d threads were created, %d ended", st.created, st.finished);
}
SIM_SCENARIO_LONG(C05, lifecycle, gen_life, run_life, 250000, 300);

// ------------------------------------------------------------------ C06
// op: kind (0 wait(), 1 wait(abs), 2 wait(rel), 3 pause, 4 stop), offset
static void gen_wait(Rng& r, Plan& p)
{
  static const int64_t lens[] = { 0, 1 * US, 100 * US, 2 * MS, 500 * MS, 2 * SEC, 10 * SEC };
  p.cfg = { (int64_t)(r.chance(1, 2) ? M_SLEEP : r.below(M_COUNT)), lens[r.below(7)], r.range(1, 3), lens[r.below(6)], r.chance(1, 4), (int64_t)r.chance(1, 2) };
  int n = (int)r.range(1, 6);
  static const int64_t off[] = { -SEC, -1, 0, 1000, 99 * US, 100 * US, 101 * US, 2 * MS - 50 * US, 2 * MS, 2 * MS + 60 * US, 500 * MS, SEC, 1999 * MS, 3 * SEC, 12 * SEC };
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(5), off[r.below(15)] });
}
static void run_wait(const Plan& p)
{
  set_real(EPOCH0 + 999900000);
  int mode = (int)p.c(0) % M_COUNT; ns_t len = p.c(1);
  bool loops = mode == M_LOOP || mode == M_SPIN || mode == M_BLOCK;
  State* s = new State;
  int jumps = 0, logging_up = 0;       // a wait that fails logs, which starts the thread of the default log output
  for (int round = 0; round < (int)p.c(2, 1); ++round)
  {
    Worker w(*s, mode, len);
    SIM_CHECK(w.wait() && w.wait(span(0)) && w.wait(stamp(0)), "result", "waiting for a thread that was never started failed");
    SIM_CHECK(w.start(), "start", "start() failed");
    int want = s->finished + 1; if (s->finished > round) want = round + 1;
    bool stopped = false, over = false;
    int stopper = -1;
    ns_t stop_at = -1;
    s->no_stop = false;
    if (loops)
    {
      ns_t d = p.c(3);
      stopper = spawn("stopper", [&, d]() { if (d) sleep_ns(d); w.stop(); stopped = true; });
      stop_at = mono() + d;
    }
    int jumper = -1;
    if (p.c(4)) jumper = spawn("clock", [&]() { sleep_ns(p.c(3) / 2 + 1); ATOMIC { ++jumps; jump_clock(p.c(5) ? 4 * SEC : -4 * SEC); count_fault(FT_CLOCK_JUMP); } });
    for (size_t i = 0; i < p.ops.size() && !over; ++i)
    {
      const std::vector<int64_t>& o = p.ops[i];
      ns_t off = arg(o, 1); int j0 = jumps; ns_t r0 = real(), m0 = mono();
      bool fin0 = s->finished >= want && !w.running();
      bool ok;
      switch (arg(o, 0))
      {
        case 0: ok = i & 1 ? w.Wait() : w.wait(); SIM_CHECK(ok, "result", "wait() without a limit returned false"); break;
        case 1: ok = i & 1 ? w.Wait(stamp(r0 + off)) : w.wait(stamp(r0 + off)); break;
        case 2: ok = i & 1 ? w.Wait(span(off)) : w.wait(span(off)); break;
        case 3: sleep_ns(off > 0 ? off : 0); continue;
        default: w.stop(); stopped = true; continue;
      }
      ev("wait", ok, arg(o, 0));
      if (ok)
      {
        SIM_CHECK(s->inside == 0 && s->finished >= want, "result", "wait returned true while run() is executing");
        SIM_CHECK(!w.running(), "result", "wait returned true but the thread is running");
        ThreadStats ts = thread_stats();
        SIM_CHECK(ts.created - ts.joined - ts.detached <= logging_up + (arg(o, 0) ? 1 : 0), "joined", "the thread was waited for successfully but was not joined");
        if (arg(o, 0) && ts.created > ts.joined + ts.detached) logging_up = 1;
        SIM_CHECK(mono() - std::max(s->fin_at, m0) <= 7 * SEC, "late", "wait came back only %.9f s after the end of the thread", (mono() - std::max(s->fin_at, m0)) / 1e9);
        if (jumps == j0 && arg(o, 0) && (off >= 0 || arg(o, 0) == 1)) SIM_CHECK(mono() - m0 <= (off > 0 ? off : 0) + 7 * SEC, "late", "wait for %.9f s took %.9f s", off / 1e9, (mono() - m0) / 1e9);
        over = true;
        continue;
      }
      probe("timed_out"); logging_up = 1;
      SIM_CHECK(!fin0, "result", "wait returned false although the thread had finished before the call");
      if (arg(o, 0) == 1) SIM_CHECK(jumps != j0 || real() >= r0 + off - US, "early", "wait until a time gave up %.9f s early", (r0 + off - real()) / 1e9);
      else if (off >= 0) SIM_CHECK(jumps != j0 || mono() - m0 >= off - US, "early", "wait for %.9f s gave up after %.9f s", off / 1e9, (mono() - m0) / 1e9);
      else SIM_CHECK(jumps != j0, "early", "wait with a negative (unlimited) span gave up");
      if (jumps == j0) SIM_CHECK(mono() - m0 <= (off > 0 ? off : 0) + 7 * SEC, "late", "wait for %.9f s gave up only after %.9f s", off / 1e9, (mono() - m0) / 1e9);
    }
    (void)stop_at;
    w.stop();
    SIM_CHECK(w.wait(), "result", "wait() without a limit returned false");
    SIM_CHECK(s->inside == 0 && s->finished == want, "result", "wait() returned before the thread ended");
    SIM_CHECK(w.wait(span(0)), "result", "wait on a joined thread returned false");
    if (stopper >= 0) join(stopper);
    if (jumper >= 0) join(jumper);
  }
}
SIM_SCENARIO_LONG(C06, wait, gen_wait, run_wait, 150000, 300);

// ------------------------------------------------------------------ C07
namespace {
struct Beat { ns_t called, back; };
struct Ticker : ict::PeriodicThread
{
  std::vector<Beat>& beats; const std::vector<int64_t>& work; int n; ns_t* began; int from;
  Ticker(ns_t period, std::vector<Beat>& b, const std::vector<int64_t>& w, int n_, ns_t* st)
    : ict::PeriodicThread("ticker", span(period)), beats(b), work(w), n(n_), began(st), from(0) { }
  void run()
  {
    ATOMIC *began = mono();
    for (int i = 0; i < n && execute(); ++i)
    {
      ns_t w = work.empty() ? 0 : work[i % work.size()];
      if (w) sleep_ns(w);
      Beat b; b.called = mono();
      if (i & 1) WaitPeriod(); else waitPeriod();
      b.back = mono();
      ATOMIC beats.push_back(b);
    }
  }
};
}
static ns_t pick_period(Rng& r)
{ static const ns_t v[] = { 100 * US, MS, 10 * MS, 999999, 1000001, 999 * MS + 999999, SEC, SEC + 1, 1500 * MS, 70 * SEC }; return v[r.below(10)]; }
// cfg: period, beats, EINTR, restarts, late timer, jump, second period, when to change
static void gen_tick(Rng& r, Plan& p)
{
  ns_t per = pick_period(r);
  p.cfg = { per, r.chance(1, 50) ? r.range(20, 400) : r.range(2, 12), r.chance(1, 2) ? r.range(50, 500) : 0, r.range(0, 2), r.chance(1, 3) ? r.range(50, 500) : 0, r.chance(1, 3), r.chance(1, 3) ? pick_period(r) : 0, (int64_t)r.below(6),
            r.chance(1, 20) ? r.range(200, 1000) : 0, r.chance(1, 10) };
  std::vector<int64_t> w;
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) w.push_back((int64_t)(per * (double[]){ 0, 0, 0.1, 0.5, 0.9, 1.0, 1.3, 2.0, 3.7 }[r.below(9)]));
  p.ops.push_back(w);
}
static void run_tick(const Plan& p)
{
  set_real(EPOCH0);
  no_stall();
  if (p.c(2)) { set_rate(FT_EINTR_READ, (int)p.c(2), 60); set_rate(FT_EINTR_SLEEP, (int)p.c(2), 60); }
  if (p.c(4)) set_rate(FT_TIMER_LATE, (int)p.c(4), 20);
  ns_t per = p.c(0, MS); int n = (int)p.c(1, 2);
  std::vector<int64_t> work;
  if (!p.ops.empty()) work = p.ops[0];
  int fds0 = open_timerfds();
  {
    std::vector<Beat> beats; ns_t began = 0;
    Ticker t(per, beats, work, n, &began);
    if (p.c(9)) { Ticker never(per, beats, work, n, &began); never.setPeriod(span(2 * per)); SIM_CHECK(never.period() == span(2 * per), "period", "period() of a thread that was not started is not the period that was set"); }
    SIM_CHECK(t.period() == span(per), "period", "period() is not the period the thread was made with");
    for (int round = 0; round <= (int)p.c(3); ++round)
    {
      beats.clear();
      ns_t before = mono();
      if (p.c(8)) set_rate(FT_TIMER_ERR, (int)p.c(8));
      int refused = fired(FT_TIMER_ERR);
      SIM_CHECK(t.start(), "start", "start() failed");
      if (p.c(8))
      {
        // The system has no timer: the thread is told so when it sets a period, and ends all the same.
        ns_t b = mono();
        while (beats.size() < 1 && mono() < b + 3 * per) sleep_ns(per / 4);
        if (fired(FT_TIMER_ERR) > refused)
        {
          SIM_CHECK(!t.setPeriod(span(per)), "period", "setPeriod() reported success although there is no timer");
          probe("no_timer");
        }
        SIM_CHECK(t.wait(), "stop", "waiting for the thread failed");
        SIM_CHECK((int)beats.size() == n, "beats", "%zu of %d calls of waitPeriod() came back", beats.size(), n);
        continue;
      }
      ns_t changed_before = -1, changed_after = -1;
      ns_t per2 = p.c(6);
      if (p.c(5)) { sleep_ns(per * 3 / 2); jump_clock(round & 1 ? -1000 * SEC : 5000 * SEC); count_fault(FT_CLOCK_JUMP); }
      if (per2 && round == 0)
      {
        sleep_ns(per / 4 + per * p.c(7) / 2);
        changed_before = mono();
        if (!t.running()) { changed_before = -1; t.setPeriod(span(per2)); }
        else { SIM_CHECK(p.c(3) & 1 ? t.SetPeriod(span(per2)) : t.setPeriod(span(per2)), "period", "setPeriod() on a running thread failed"); changed_after = mono(); probe("period_changed"); }
        SIM_CHECK(t.period() == span(per2) && t.Period() == span(per2), "period", "period() is not the period that was set");
      }
      SIM_CHECK(t.wait(), "stop", "waiting for the thread failed");
      SIM_CHECK((int)beats.size() == n, "beats", "%zu of %d calls of waitPeriod() came back", beats.size(), n);
      ns_t now_per = round == 0 ? per : (per2 ? per2 : per);
      ns_t slack = 20 * US + (p.c(4) ? 4 * MS : 0);
      // no more beats than whole periods have passed; each call ends at the next period boundary at the latest
      ns_t t0 = before; ns_t pp = now_per; size_t base = 0;
      bool overload = false;
      for (size_t k = 0; k < beats.size(); ++k)
      {
        if (changed_after >= 0 && beats[k].back > changed_before && t0 == before)
        {
          if (beats[k].back <= changed_after + slack || beats[k].back - changed_before < per2) { base = k + 1; continue; }   // the beat at the switch-over
          t0 = changed_before; pp = per2; if (base == 0) base = k;
        }
        int64_t most = (beats[k].back - t0) / pp;
        SIM_CHECK((int64_t)(k - base) + 1 <= most, "early", "beat %zu came %.9f s after the start, with a period of %.9f s", k - base + 1, (beats[k].back - t0) / 1e9, pp / 1e9);
        ns_t since = std::max(beats[k].called, t0 == before ? t0 : changed_after);
        SIM_CHECK(beats[k].back - since <= pp + slack + (began - before), "late", "waitPeriod() took %.9f s with a period of %.9f s", (beats[k].back - since) / 1e9, pp / 1e9);
        if (k > base && t0 == before)
        {
          // on the grid unless the work was too long
          if (beats[k].called - beats[k - 1].back > pp - slack) overload = true;
          if (!overload && !p.c(4))
            SIM_CHECK(beats[k].back - beats[base].back <= (ns_t)(k - base) * pp + slack + 60 * US, "drift", "%zu periods of %.9f s took %.9f s", k - base, pp / 1e9, (beats[k].back - beats[base].back) / 1e9);
        }
      }
      if (overload) probe("overload");
    }
  }
  SIM_CHECK(open_timerfds() == fds0, "fd-leak", "%d timer descriptors were left open", open_timerfds() - fds0);
  SIM_CHECK(bad_closes() == 0, "fd-close", "a descriptor was closed that was not open");
}
SIM_SCENARIO_LONG(C07, timer, gen_tick, run_tick, 200000, 400);

static void gen_emul(Rng& r, Plan& p)
{
  ns_t per = pick_period(r);
  p.cfg = { per, r.range(2, 10), r.chance(1, 2) ? r.range(50, 500) : 0, r.chance(1, 3) };
  std::vector<int64_t> w;
  for (int i = 0; i < 4; ++i) w.push_back((int64_t)(per * (double[]){ 0, 0, 0.1, 0.5, 0.9, 1.0, 1.3, 3.7 }[r.below(8)]));
  p.ops.push_back(w);
}
static void run_emul(const Plan& p)
{
  set_real(EPOCH0);
  no_stall();
  if (p.c(2)) set_rate(FT_EINTR_SLEEP, (int)p.c(2), 60);
  ns_t per = p.c(0, MS);
  ict::PeriodicThreadImplEmulate e(span(per));
  SIM_CHECK(e.period() == span(per), "period", "period() is not the period");
  ns_t last = -1; bool jumped = false;
  for (int i = 0; i < (int)p.c(1); ++i)
  {
    ns_t w = p.ops.empty() || p.ops[0].empty() ? 0 : p.ops[0][i % p.ops[0].size()];
    if (w) sleep_ns(w);
    if (p.c(3) && i == 1) { jump_clock(-100 * SEC); jumped = true; count_fault(FT_CLOCK_JUMP); }
    ns_t c = mono();
    e.waitPeriod();
    ns_t b = mono();
    ev("beat", b);
    if (i > 0)
    {
      if (!jumped) SIM_CHECK(b - last >= per - 2 * US, "early", "two beats are only %.9f s apart, the period is %.9f s", (b - last) / 1e9, per / 1e9);
      SIM_CHECK(b - c <= per + MS + 60 * US * 60, "late", "waitPeriod() took %.9f s with a period of %.9f s", (b - c) / 1e9, per / 1e9);
      if (!jumped) SIM_CHECK(b <= std::max(c, last + per) + MS + 60 * US * 60, "late", "a beat came %.9f s after it was due", (b - std::max(c, last + per)) / 1e9);
    }
    jumped = false;
    last = b;
  }
  SIM_CHECK(e.setPeriod(span(2 * per)) && e.period() == span(2 * per), "period", "setPeriod() had no effect");
  ns_t c = mono();
  e.waitPeriod();
  SIM_CHECK(mono() - c >= 2 * per - 5 * US, "early", "the new period was not used");
}
SIM_SCENARIO_LONG(C07, emulated, gen_emul, run_emul, 60000, 400);

// ------------------------------------------------------------------ C08
namespace {
struct Rec { int producer, no; int invoked, deleted; uint64_t q_from, q_to, order; bool by_object; };
struct Obj;
struct Op : ict::ActiveOperation
{
  Rec* r; Obj* o; ns_t work; int* order; int requeue;
  Op(Rec* r_, Obj* o_, ns_t w, int* ord) : r(r_), o(o_), work(w), order(ord), requeue(0) { }
  ~Op() { ATOMIC { ++r->deleted; SIM_CHECK(r->deleted == 1, "exactly-once", "an operation was deleted twice"); } }
  void invoke();
};
struct Obj : ict::ActiveObject
{
  int started, stopped, busy; bool accepting;
  std::function<void()> at_start;
  Obj() : ict::ActiveObject("object"), started(0), stopped(0), busy(0) { }
  void onThreadStart() { ATOMIC ++started; SIM_CHECK(threadSelf(), "thread", "onThreadStart() runs in a foreign thread"); }
  void onThreadStop() { ATOMIC ++stopped; SIM_CHECK(threadSelf(), "thread", "onThreadStop() runs in a foreign thread"); }
  void put(Op* op) { queue(op); }
};
void Op::invoke()
{
  ATOMIC
  {
    ++r->invoked; r->order = (uint64_t)(++*order);
    SIM_CHECK(r->invoked == 1, "exactly-once", "an operation was invoked twice");
    SIM_CHECK(r->deleted == 0, "exactly-once", "an operation was invoked after its deletion");
    SIM_CHECK(++o->busy == 1, "serial", "two operations run at the same time");
    SIM_CHECK(o->started > o->stopped, "thread", "an operation runs outside onThreadStart() .. onThreadStop()");
  }
  SIM_CHECK(o->threadSelf(), "thread", "an operation runs outside the thread of its object");
  ev("invoke", r->producer, r->no);
  if (work) sleep_ns(work); else sim::yield();
  ATOMIC --o->busy;
}
}
// cfg: producers, EINTR rate, stop after, mode (0 drain, then stop; 1 stop in between), restart
// op: producer, pause, work
static void gen_active(Rng& r, Plan& p)
{
  int np = (int)r.range(1, 4);
  static const int64_t d[] = { 0, 0, 0, 100, 20 * US, MS, 30 * MS };
  p.cfg = { np, r.chance(1, 3) ? r.range(50, 500) : 0, d[r.below(7)], (int64_t)r.below(2), (int64_t)r.below(2), (int64_t)r.chance(1, 4) };
  int n = (int)r.range(1, 16);
  for (int i = 0; i < n; ++i) p.ops.push_back({ (int64_t)r.below(np), d[r.below(7)], d[r.below(7)] });
}
static void run_active(const Plan& p)
{
  set_real(EPOCH0);
  if (p.c(1)) set_rate(FT_EINTR_SEM, (int)p.c(1), 30);
  int np = (int)p.c(0, 1);
  std::vector<Rec*> recs;
  int order = 0;
  Obj* o = new Obj;
  for (int round = 0; round <= (int)p.c(4); ++round)
  {
    if (p.c(5))        // an object that does not run takes nothing
    {
      Rec r0 = Rec();
      o->put(new Op(&r0, o, 0, &order));
      SIM_CHECK(r0.deleted == 1 && r0.invoked == 0, "stopped", "an operation queued on an object that is not running was not discarded");
      probe("queued_while_stopped");
    }
    SIM_CHECK(o->start(), "start", "start() failed");
    std::vector<int> ths; bool stop_called = false;
    size_t first = recs.size();
    for (int t = 0; t < np; ++t)
      ths.push_back(spawn("producer", [&, t]() {
        int k = 0;
        for (size_t i = 0; i < p.ops.size(); ++i)
        {
          if (arg(p.ops[i], 0) != t) continue;
          if (arg(p.ops[i], 1)) sleep_ns(arg(p.ops[i], 1));
          Rec* r = new Rec();
          r->producer = t; r->no = k++;
          Op* op = new Op(r, o, arg(p.ops[i], 2), &order);
          ATOMIC recs.push_back(r);
          r->q_from = seq();
          o->put(op);
          r->q_to = seq();
          r->by_object = !stop_called;      // the call was over before anybody stopped the object
        }
      }));
    if (p.c(3) == 0)
    {
      for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
      // everything queued is executed within bounded time
      size_t done = 0;
      for (int k = 0; k < 4000; ++k)
      {
        ATOMIC { done = 0; for (size_t i = first; i < recs.size(); ++i) done += recs[i]->deleted; }
        if (done == recs.size() - first) break;
        sleep_ns(10 * MS);
      }
      SIM_CHECK(done == recs.size() - first, "lost", "%zu of %zu operations were never executed", recs.size() - first - done, recs.size() - first);
      for (size_t i = first; i < recs.size(); ++i) SIM_CHECK(recs[i]->invoked == 1, "lost", "an operation was deleted without being executed although the object was running");
    }
    else if (p.c(2)) sleep_ns(p.c(2));
    stop_called = true;
    if (round & 1) o->Stop(); else o->stop();
    o->join();
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    SIM_CHECK(o->started == round + 1 && o->stopped == round + 1, "hooks", "onThreadStart()/onThreadStop() ran %d/%d times in %d activations", o->started, o->stopped, round + 1);
    for (size_t i = first; i < recs.size(); ++i)
      SIM_CHECK(recs[i]->deleted == 1, "lost", "an operation was neither executed nor deleted when the object had stopped (invoked: %d)", recs[i]->invoked);
    // order of execution: an operation queued completely before another one runs first
    for (size_t i = first; i < recs.size(); ++i)
      for (size_t k = first; k < recs.size(); ++k)
        if (recs[i]->q_to < recs[k]->q_from && recs[k]->invoked)
        {
          SIM_CHECK(recs[i]->invoked, "order", "an operation was executed but one queued before it was dropped");
          SIM_CHECK(recs[i]->order < recs[k]->order, "order", "operations were executed out of order");
        }
    Rec r1 = Rec();
    o->put(new Op(&r1, o, 0, &order));
    SIM_CHECK(r1.deleted == 1 && r1.invoked == 0, "stopped", "an operation queued on a stopped object was not discarded");
  }
  delete o;
}
SIM_SCENARIO_LONG(C08, active, gen_active, run_active, 250000, 500);
