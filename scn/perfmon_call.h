// The calls of the performance monitor, directly or by the macros in one of three builds.
#ifndef VERIF_SCN_PERFMON_CALL_H
#define VERIF_SCN_PERFMON_CALL_H
#include "common.h"
#include <icl_core_performance_monitor/PerformanceMonitor.h>
// kinds as in the operations of perfmon.cpp
struct PerfCall { int kind; std::string timer, desc, prefix; double value; icl_core::logging::LogLevel level; bool dflt; uint32_t names, events; bool on; };
// 0: macros without _IC_DEBUG_, 1: macros with _IC_DEBUG_, 2: macros without IC_PERFORMANCE_MONITOR
typedef double (*PerfCaller)(const PerfCall& c);
PerfCaller& perf_caller(int i);
#endif
