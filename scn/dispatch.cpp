// C24 periodic dispatch thread
#include "common.h"
#include <icl_core_dispatch/PeriodicDispatchThread.h>
#include <icl_core_dispatch/CallbackOperation.h>
#include <icl_core_dispatch/Operation.h>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <memory>
namespace icd = icl_core::dispatch;
using namespace scn;

namespace {
struct Exec { int op; uint64_t from, to; ns_t begin, end; };
struct Addition { int op; uint64_t from, to; };
struct World
{
  icd::PeriodicDispatchThread* thread;
  std::vector<Exec> execs;
  std::vector<Addition> adds;
  std::vector<icd::Operation*> ops;
  std::vector<int> deleted;
  std::vector<ns_t> work;
  std::vector<std::vector<int> > child;     // operations that the operation adds, one at a time it is executed
  int busy; bool gone; int stop_by; int stop_at; uint64_t stopped;
  World() : thread(0), busy(0), gone(false), stop_by(-1), stop_at(0), stopped(0) { }
  void add(int op)
  {
    size_t i;
    ATOMIC { Addition a; a.op = op; a.from = seq(); a.to = ~0ULL; adds.push_back(a); i = adds.size() - 1; }
    thread->addOperation(ops[op]);
    ATOMIC adds[i].to = seq();
  }
  void run(int op)
  {
    size_t i;
    ATOMIC
    {
      SIM_CHECK(!gone, "late-run", "an operation is executed after the thread has ended");
      SIM_CHECK(!deleted[op], "deleted", "a deleted operation is executed");
      SIM_CHECK(++busy == 1, "serial", "two operations are executed at the same time");
      Exec e; e.op = op; e.from = seq(); e.begin = mono(); e.to = ~0ULL; e.end = -1;
      execs.push_back(e); i = execs.size() - 1;
    }
    SIM_CHECK(thread->threadSelf(), "thread", "an operation is executed outside the dispatch thread");
    ev("exec", op);
    if (work[op]) sleep_ns(work[op]); else sim::yield();
    if (!child[op].empty()) { int c = child[op].back(); child[op].pop_back(); add(c); probe("added_by_operation"); }
    if (op == stop_by && --stop_at == 0) { thread->stop(); stopped = seq(); probe("stopped_by_operation"); }
    ATOMIC { --busy; execs[i].to = seq(); execs[i].end = mono(); }
  }
};
struct Task : icd::Operation
{
  World& w; int id;
  Task(World& w_, int i) : w(w_), id(i) { }
  ~Task() { ATOMIC ++w.deleted[id]; }
  void execute() { w.run(id); }
};
static const ns_t periods[] = { 100 * US, MS, 10 * MS, 999999, SEC, 1500 * MS };
}
// cfg: period, adders, EINTR, rounds, jump, how it ends (0 stop+join, 1 delete, 2 an operation stops it, 3 stop, later join), cycles, thread creation faults, first op before start, stall
// op: adder, pause (per mille of the period), which operation, work (per mille), child
static void gen_dispatch(Rng& r, Plan& p)
{
  int na = (int)r.range(1, 3);
  p.cfg = { periods[r.below(6)], na, r.chance(1, 3) ? r.range(50, 500) : 0, r.range(1, 3), r.chance(1, 4), (int64_t)r.below(4), r.range(1, 6), r.chance(1, 6) ? 300 : 0, (int64_t)r.below(2), r.chance(1, 4) };
  int n = (int)r.range(0, r.chance(1, 12) ? 80 : 10);
  static const int64_t pause[] = { 0, 0, 0, 0, 1, 300, 1000, 1700 };
  static const int64_t work[] = { 0, 0, 0, 0, 50, 300, 1200 };
  for (int i = 0; i < n; ++i)
    p.ops.push_back({ (int64_t)r.below(na), pause[r.below(8)], r.chance(1, 6) ? (int64_t)r.range(1, n) : i + 1, work[r.below(7)], r.chance(1, 5) ? (int64_t)r.range(1, n) : 0 });
}
static void run_dispatch(const Plan& p)
{
  set_real(EPOCH0);
  if (!p.c(9)) no_stall();
  if (p.c(2)) { set_rate(FT_EINTR_READ, (int)p.c(2), 60); set_rate(FT_EINTR_SLEEP, (int)p.c(2), 60); set_rate(FT_EINTR_SEM, (int)p.c(2), 60); }
  if (p.c(7)) set_rate(FT_THREAD_CREATE, (int)p.c(7), 3);
  ns_t per = p.c(0, MS);
  if (p.c(9)) per = std::max(per, 100 * MS);     // a stalled controller would see too many cycles
  int na = (int)p.c(1, 1), rounds = (int)p.c(3, 1), how = (int)p.c(5), cycles = (int)p.c(6, 1);
  World w;
  int n = 1;
  for (size_t i = 0; i < p.ops.size(); ++i) n = std::max(n, (int)std::max(arg(p.ops[i], 2), arg(p.ops[i], 4)) + 1);
  w.ops.resize(n); w.deleted.assign(n, 0); w.work.assign(n, 0); w.child.resize(n);
  for (size_t i = 0; i < p.ops.size(); ++i)
  {
    int id = std::max(1, (int)arg(p.ops[i], 2));
    w.work[id] = per / 1000 * arg(p.ops[i], 3);
    if (arg(p.ops[i], 4)) w.child[id].push_back((int)arg(p.ops[i], 4));
  }
  for (int i = 0; i < n; ++i)
  {
    if (i % 3 == 2) { w.ops[i] = new icd::CallbackOperation(boost::bind(&World::run, &w, i)); }
    else w.ops[i] = new Task(w, i);
  }
  w.execs.reserve(4000); w.adds.reserve(200);
  struct Round { uint64_t start, stop; ns_t before, joining, after_join; size_t first, last; bool ran; };
  std::vector<Round> rs;
  icd::PeriodicDispatchThread* t = new icd::PeriodicDispatchThread("dispatch", span(per));
  w.thread = t;
  SIM_CHECK(t->period() == span(per), "period", "period() is not the period the thread was made with");
  if (p.c(8)) w.add(0);
  for (int round = 0; round < rounds; ++round)
  {
    bool last = round == rounds - 1;
    Round R; R.joining = 0; R.first = w.execs.size(); R.stop = 0; R.ran = true;
    w.stop_by = -1; w.stopped = 0; w.gone = false;
    if (how == 2) { w.stop_by = 0; w.stop_at = cycles; }
    R.before = mono(); R.start = seq();
    int c0 = thread_stats().created;
    if (!t->start())
    {
      SIM_CHECK(thread_stats().created == c0, "start", "start() failed although the thread was created");
      SIM_CHECK(w.execs.size() == R.first, "start", "start() failed and an operation was executed");
      w.stop_by = -1;
      R.ran = false; probe("start_failed");
      if (!p.c(8) && round == 0) w.add(0);
      if (round == 0)
        for (size_t i = 0; i < p.ops.size(); ++i) w.add(std::max(1, (int)arg(p.ops[i], 2)));
      if (last) { delete t; t = 0; }
      R.last = w.execs.size(); R.after_join = mono();
      rs.push_back(R);
      continue;
    }
    if (!p.c(8) && round == 0) { if (p.c(9)) sleep_ns(per * 2 + per / 2); w.add(0); }
    std::vector<int> ths;
    if (round == 0)
      for (int a = 0; a < na; ++a)
        ths.push_back(spawn("adder", [&, a]() {
          for (size_t i = 0; i < p.ops.size(); ++i)
          {
            if (arg(p.ops[i], 0) != a) continue;
            if (arg(p.ops[i], 1)) sleep_ns(per / 1000 * arg(p.ops[i], 1));
            w.add(std::max(1, (int)arg(p.ops[i], 2)));
          }
        }));
    if (p.c(4)) { sleep_ns(per / 2); jump_clock(round & 1 ? -1000 * SEC : 5000 * SEC); count_fault(FT_CLOCK_JUMP); }
    if (how != 2)
    {
      // wait for some cycles: bounded progress
      size_t c = 0;
      ns_t sum = 0; for (int i = 0; i < n; ++i) sum += w.work[i];
      ns_t limit = mono() + (cycles + 3) * (per + 20 * sum) + 20 * SEC;
      while (c < (size_t)cycles)
      {
        SIM_CHECK(mono() < limit, "progress", "only %zu of %d cycles within %d periods", c, cycles, cycles + 3);
        sleep_ns(per / 3);
        ATOMIC { c = 0; for (size_t i = R.first; i < w.execs.size(); ++i) c += w.execs[i].op == 0; }
      }
    }
    if (how == 1 && last) for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    R.joining = mono();
    if (how == 0) { t->stop(); R.stop = seq(); t->join(); }
    else if (how == 3) { t->stop(); R.stop = seq(); sleep_ns(3 * per + 20 * SEC); t->join(); }
    else if (how == 1) { if (last) { delete t; t = 0; } else { t->stop(); R.stop = seq(); t->join(); } }
    else { t->join(); R.stop = w.stopped; SIM_CHECK(w.stopped, "join", "join() returned before anybody stopped the thread"); }
    ATOMIC
    {
      w.gone = true;
      SIM_CHECK(w.busy == 0, "join", "an operation is being executed although the thread has been %s", t ? "joined" : "destroyed");
      R.last = w.execs.size();
    }
    if (t) SIM_CHECK(!t->running(), "join", "running() is true although the thread has been joined");
    R.after_join = mono();
    for (size_t i = 0; i < ths.size(); ++i) join(ths[i]);
    if (last) sleep_ns(2 * per);
    rs.push_back(R);
  }
  delete t;
  for (int i = 0; i < n; ++i) SIM_CHECK(w.deleted[i] == 0, "deleted", "the dispatch thread deleted an operation");
  // the history
  std::vector<std::vector<int> > cyc; std::vector<uint64_t> begin, end; std::vector<int> rnd;
  for (size_t k = 0; k < rs.size(); ++k)
  {
    if (rs[k].first < rs[k].last)
      SIM_CHECK(w.execs[rs[k].first].op == 0, "order", "a cycle does not begin with the operation that was added first");
    size_t j = 0; size_t after_stop = 0;
    for (size_t i = rs[k].first; i < rs[k].last; ++i)
    {
      const Exec& e = w.execs[i];
      SIM_CHECK(e.end >= 0, "join", "an operation was still being executed when the thread had ended");
      if (e.op == 0)
      {
        cyc.push_back(std::vector<int>()); begin.push_back(e.from); end.push_back(0); rnd.push_back((int)k);
        if (rs[k].stop && e.from > rs[k].stop) ++after_stop;
        // the grid of the periods (cycles before the first operation was added count as well)
        SIM_CHECK(e.begin - rs[k].before >= (ns_t)j * per, "early", "cycle %zu began %.9f s after the start with a period of %.9f s", j, (e.begin - rs[k].before) / 1e9, per / 1e9);
        if (!p.c(9))
        {
          if (j == 0 && (p.c(8) || k > 0)) SIM_CHECK(e.begin - rs[k].before < 2 * MS, "late", "the first cycle began %.9f s after the start", (e.begin - rs[k].before) / 1e9);
          if (j > 0) SIM_CHECK(e.begin - w.execs[i - 1].end <= per + 60 * US, "late", "a cycle began %.9f s after the end of the one before it with a period of %.9f s", (e.begin - w.execs[i - 1].end) / 1e9, per / 1e9);
        }
        ++j;
      }
      else if (!p.c(9)) SIM_CHECK(e.begin - w.execs[i - 1].end < 100 * US, "late", "there are %.9f s between two operations of a cycle", (e.begin - w.execs[i - 1].end) / 1e9);
      SIM_CHECK(!cyc.empty() && rnd.back() == (int)k, "order", "a cycle does not begin with the operation that was added first");
      cyc.back().push_back(e.op); end.back() = e.to;
    }
    if (!p.c(9) && rs[k].first < rs[k].last)
    {
      const Exec& e = w.execs[rs[k].last - 1];
      if ((how == 0 || how == 2) && rs[k].stop && rs[k].stop < e.to)
      {
        probe("stopped_in_cycle");
        SIM_CHECK(rs[k].after_join - std::max(e.end, rs[k].joining) < MS, "stop", "the thread was stopped during a cycle and ended %.9f s after it", (rs[k].after_join - e.end) / 1e9);
      }
    }
    SIM_CHECK(after_stop <= 1, "stop", "%zu cycles began after stop()", after_stop);
    if (how == 2 && rs[k].ran) SIM_CHECK((int)j == cycles, "stop", "an operation stopped the thread in cycle %d, but there were %zu", cycles, j);
  }
  for (size_t c = 0; c < cyc.size(); ++c)
  {
    if (c) SIM_CHECK(cyc[c].size() >= cyc[c - 1].size() && std::equal(cyc[c - 1].begin(), cyc[c - 1].end(), cyc[c].begin()), "order", "cycle %zu does not execute the operations of the cycle before it in the same order (%zu and %zu operations)", c, cyc[c - 1].size(), cyc[c].size());
    std::vector<int> must(n, 0), may(n, 0), did(n, 0);
    for (size_t i = 0; i < w.adds.size(); ++i) { must[w.adds[i].op] += w.adds[i].to < begin[c]; may[w.adds[i].op] += w.adds[i].from < end[c]; }
    for (size_t i = 0; i < cyc[c].size(); ++i) ++did[cyc[c][i]];
    for (int i = 0; i < n; ++i)
    {
      SIM_CHECK(did[i] >= must[i], "lost", "operation %d was added %d times before cycle %zu, which executed it %d times", i, must[i], c, did[i]);
      SIM_CHECK(did[i] <= may[i], "twice", "operation %d was added %d times before the end of cycle %zu, which executed it %d times", i, may[i], c, did[i]);
    }
  }
  if (!cyc.empty())
  {
    const std::vector<int>& L = cyc.back();
    for (size_t a = 0; a < w.adds.size(); ++a)
      for (size_t b = 0; b < w.adds.size(); ++b)
      {
        const Addition &x = w.adds[a], &y = w.adds[b];
        if (x.op == y.op || x.to >= y.from || std::count_if(w.adds.begin(), w.adds.end(), [&](const Addition& q) { return q.op == x.op || q.op == y.op; }) != 2) continue;
        std::vector<int>::const_iterator px = std::find(L.begin(), L.end(), x.op), py = std::find(L.begin(), L.end(), y.op);
        if (py != L.end()) SIM_CHECK(px < py, "order", "operation %d was added before operation %d but is not executed before it", x.op, y.op);
      }
    if (cyc.size() > 1 && cyc.back().size() > cyc.front().size()) probe("grown");
  }
  for (int i = 0; i < n; ++i) delete w.ops[i];
}
SIM_SCENARIO(C24, dispatch, gen_dispatch, run_dispatch, 200000);
