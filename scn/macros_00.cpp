#define MACROS_DEBUG 0
#define MACROS_LOCAL 0
#include "macros_impl.h"
