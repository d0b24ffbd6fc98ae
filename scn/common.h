// Helpers shared by the scenarios.
#ifndef VERIF_SCN_COMMON_H
#define VERIF_SCN_COMMON_H
#include "sim.h"
#include <icl_core/TimeStamp.h>
#include <icl_core/TimeSpan.h>
#include <algorithm>
#include <set>
#include <cstring>
#include <cstdio>
namespace scn {
using namespace sim;
static const ns_t EPOCH0 = 1700000000LL * SEC;      // 2023-11-14 22:13:20 UTC
inline icl_core::TimeSpan span(ns_t d) { return icl_core::TimeSpan(d / SEC, (int32_t)(d % SEC)); }
inline icl_core::TimeStamp stamp(ns_t t)
{
  int64_t s = t / SEC; int64_t n = t % SEC;
  if (n < 0) { n += SEC; --s; }
  return icl_core::TimeStamp((time_t)s, (int32_t)n);
}
template <class T> inline ns_t ns_of(const T& t) { return (ns_t)t.tsSec() * SEC + (ns_t)t.tsNSec(); }
inline std::string num(int64_t v) { return std::to_string((long long)v); }
// The bookkeeping of a scenario is one step: no other thread runs inside.
#define ATOMIC if (::sim::NoPreempt sim_np_; true)
// A history of holds [from, to] per object and of refusals, checked when the run is over.
struct Hold { int thread; uint64_t from, to; int mode; };
struct Refusal { int thread; uint64_t from, to; const char* what; int mode; };
}
#endif
