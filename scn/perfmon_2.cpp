#define PERF_BUILD 2
#include "perfmon_impl.h"
