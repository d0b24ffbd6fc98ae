// One translation unit per kind of build: PERF_BUILD 0, 1 or 2.
#if PERF_BUILD != 2
#define IC_PERFORMANCE_MONITOR
#endif
#if PERF_BUILD == 1
#define _IC_DEBUG_
#endif
#include "perfmon_call.h"
#include <icl_core_performance_monitor/PerformanceMonitorMacros.h>
namespace icl = icl_core::logging;
#if PERF_BUILD == 2
#define PERF_RESULT(m) m
#else
#define PERF_RESULT(m) r = m
#endif
#if PERF_BUILD == 1
#define PERF_DEBUG_RESULT(m) r = m
#else
#define PERF_DEBUG_RESULT(m) m
#endif
namespace {
double call(const PerfCall& c)
{
  double r = 0;
  bool p = !c.prefix.empty() || !c.dflt;
  int level = c.level == icl::eLL_DEBUG ? 1 : c.level == icl::eLL_TRACE ? 2 : 0;
  switch (c.kind)
  {
    case 0: PERF_MON_START(c.timer); break;
    case 1:
      if (p && level == 0) { PERF_RESULT(PERF_MON_PRINT_INFO_P(c.timer, c.desc, c.prefix)); }
      else if (p && level == 1) { PERF_DEBUG_RESULT(PERF_MON_PRINT_DEBUG_P(c.timer, c.desc, c.prefix)); }
      else if (p) { PERF_DEBUG_RESULT(PERF_MON_PRINT_TRACE_P(c.timer, c.desc, c.prefix)); }
      else if (level == 0) { PERF_RESULT(PERF_MON_PRINT_INFO(c.timer, c.desc)); }
      else if (level == 1) { PERF_DEBUG_RESULT(PERF_MON_PRINT_DEBUG(c.timer, c.desc)); }
      else { PERF_DEBUG_RESULT(PERF_MON_PRINT_TRACE(c.timer, c.desc)); }
      break;
    case 2:
      if (p && level == 0) { PERF_RESULT(PERF_MON_PRINT_AND_RESET_INFO_P(c.timer, c.desc, c.prefix)); }
      else if (p && level == 1) { PERF_DEBUG_RESULT(PERF_MON_PRINT_AND_RESET_DEBUG_P(c.timer, c.desc, c.prefix)); }
      else if (p) { PERF_DEBUG_RESULT(PERF_MON_PRINT_AND_RESET_TRACE_P(c.timer, c.desc, c.prefix)); }
      else if (level == 0) { PERF_RESULT(PERF_MON_PRINT_AND_RESET_INFO(c.timer, c.desc)); }
      else if (level == 1) { PERF_DEBUG_RESULT(PERF_MON_PRINT_AND_RESET_DEBUG(c.timer, c.desc)); }
      else { PERF_DEBUG_RESULT(PERF_MON_PRINT_AND_RESET_TRACE(c.timer, c.desc)); }
      break;
    case 3: if (p) { PERF_MON_ADD_DATA_P(c.desc, c.value, c.prefix); } else { PERF_MON_ADD_DATA(c.desc, c.value); } break;
    case 4: if (p) { PERF_MON_ADD_DATA_NONTIME_P(c.desc, c.value, c.prefix); } else { PERF_MON_ADD_DATA_NONTIME(c.desc, c.value); } break;
    case 5: if (p) { PERF_MON_ADD_STATIC_DATA_P(c.desc, c.value, c.prefix); } else { PERF_MON_ADD_STATIC_DATA(c.desc, c.value); } break;
    case 6: PERF_MON_ENABLE(c.prefix); break;
    case 7: PERF_MON_DISABLE(c.prefix); break;
    case 8: PERF_MON_ENABLE_ALL(c.on); break;
    case 11: PERF_MON_INITIALIZE(c.names, c.events); break;
    case 14: if (level == 0) { PERF_MON_SUMMARY_INFO(c.prefix, c.desc); } else if (level == 1) { PERF_MON_SUMMARY_DEBUG(c.prefix, c.desc); } else { PERF_MON_SUMMARY_TRACE(c.prefix, c.desc); } break;
    case 15: if (level == 0) { PERF_MON_SUMMARY_PREFIX_INFO(c.prefix); } else if (level == 1) { PERF_MON_SUMMARY_PREFIX_DEBUG(c.prefix); } else { PERF_MON_SUMMARY_PREFIX_TRACE(c.prefix); } break;
    case 16: if (level == 0) { PERF_MON_SUMMARY_ALL_INFO; } else if (level == 1) { PERF_MON_SUMMARY_ALL_DEBUG; } else { PERF_MON_SUMMARY_ALL_TRACE; } break;
  }
  return r;
}
struct Register { Register() { perf_caller(PERF_BUILD) = &call; } } registrar;
}
