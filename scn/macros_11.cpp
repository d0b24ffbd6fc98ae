#define MACROS_DEBUG 1
#define MACROS_LOCAL 1
#include "macros_impl.h"
