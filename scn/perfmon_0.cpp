#define PERF_BUILD 0
#include "perfmon_impl.h"
