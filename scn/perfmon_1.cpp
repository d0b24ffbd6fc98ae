#define PERF_BUILD 1
#include "perfmon_impl.h"
