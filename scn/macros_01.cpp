#define MACROS_DEBUG 0
#define MACROS_LOCAL 1
#include "macros_impl.h"
