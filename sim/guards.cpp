#include "core.h"
using namespace sim;
// ------------------------------------------------------------------ function-local statics
extern "C" int __cxa_guard_acquire(uint64_t* gv)
{
  unsigned char* g = (unsigned char*)gv;
  if (g[0]) return 0;
  if (!g_active || g_guard) { g[1] = 1; return 1; }
  ++g_guard;
  syscall_point("static_init");
  while (g[1] && !g[0]) block("static initialisation", g, NEVER);
  int r = 0;
  if (!g[0]) { g[1] = 1; r = 1; }
  --g_guard;
  return r;
}
extern "C" void __cxa_guard_release(uint64_t* gv)
{
  unsigned char* g = (unsigned char*)gv;
  g[1] = 0; g[0] = 1;
  if (g_active) { ++g_guard; wake_all(g); --g_guard; }
}
extern "C" void __cxa_guard_abort(uint64_t* gv)
{
  unsigned char* g = (unsigned char*)gv;
  g[1] = 0;
  if (g_active) { ++g_guard; wake_all(g); --g_guard; }
}
