#define MACROS_DEBUG 1
#define MACROS_LOCAL 0
#include "macros_impl.h"
