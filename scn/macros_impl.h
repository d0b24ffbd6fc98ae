// One translation unit per kind of build: MACROS_DEBUG (with _IC_DEBUG_) and MACROS_LOCAL (with ICL_CORE_LOCAL_LOGGING).
#if MACROS_DEBUG
#define _IC_DEBUG_
#endif
#if MACROS_LOCAL
#define ICL_CORE_LOCAL_LOGGING
#endif
#include <icl_core_logging/Logging.h>
#include "macros.h"
#define MACROS_CAT2(a, b, c) a##b##c
#define MACROS_CAT(a, b, c) MACROS_CAT2(a, b, c)
#define MACROS_NAME(n) MACROS_CAT(n, MACROS_DEBUG, MACROS_LOCAL)
// the names of the streams differ, the macros see plain names
#define SimMa MACROS_NAME(SimMa)
#define SimMb MACROS_NAME(SimMb)
#define MACROS_DECLARE(n) DECLARE_LOG_STREAM(n) REGISTER_LOG_STREAM(n)
MACROS_DECLARE(SimMa)
MACROS_DECLARE(SimMb)
namespace {
struct Caller
{
  bool debug;
  bool Debug() const { return debug; }
  void call(MacroCall& c);
};
#define MACROS_FLUSHED c.text() << icl_core::logging::endl
#define MACROS_LEVELS(F, v, tail) \
  switch (c.level) \
  { \
    case 4: F##_ERROR##v tail; break; case 3: F##_WARNING##v tail; break; case 2: F##_INFO##v tail; break; \
    case 1: F##_DEBUG##v tail; break; default: F##_TRACE##v tail; break; \
  }
#define MACROS_THREE(F, s, ...) \
  c.fn = __FUNCTION__; c.line = __LINE__; c.file = __FILE__; \
  switch (c.variant) \
  { \
    case 0: MACROS_LEVELS(F, , (s, __VA_ARGS__)) break; \
    case 1: c.cls = "Some::Class<int>"; MACROS_LEVELS(F, _C, (s, Some::Class<int>, __VA_ARGS__)) break; \
    default: c.cls = "Caller"; c.obj = c.object(); MACROS_LEVELS(F, _CO, (s, Caller, c.object(), __VA_ARGS__)) break; \
  }
#define MACROS_GENERIC(F, CO, FN, s, ...) \
  c.fn = __FUNCTION__; c.line = __LINE__; c.file = __FILE__; \
  switch (c.variant) \
  { \
    case 3: F##_LOG(s, (icl_core::logging::LogLevel)c.level, __VA_ARGS__); break; \
    case 4: c.cls = "int"; F##_LOG_C(s, (icl_core::logging::LogLevel)c.level, int, __VA_ARGS__); break; \
    case 5: c.cls = "Caller::call"; c.obj = c.object(); F##_LOG_##CO(s, (icl_core::logging::LogLevel)c.level, Caller::call, c.object() FN, __VA_ARGS__); break; \
    default: c.file = "some file"; c.line = c.id * 11 + 1; c.cls = "a class"; c.obj = "an object"; F##_LOG_FLCO(s, (icl_core::logging::LogLevel)c.level, "some file", c.id * 11 + 1, "a class", "an object", __VA_ARGS__); break; \
  }
#define MACROS_COMMA_FUNCTION , function
#define MACROS_STREAM(S, R) \
  if (c.variant < 3) \
    switch (c.family) \
    { \
      case 0: MACROS_THREE(LOGGING, S, MACROS_FLUSHED) break; \
      case 1: MACROS_THREE(LOGGING_FMT, S, "%s:%d", c.text().c_str(), c.id) break; \
      case 2: MACROS_THREE(SLOGGING, R, MACROS_FLUSHED) break; \
      case 3: MACROS_THREE(SLOGGING_FMT, R, "%s:%d", c.text().c_str(), c.id) break; \
      case 4: MACROS_THREE(MLOGGING, S, MACROS_FLUSHED) break; \
      case 5: MACROS_THREE(MLOGGING_FMT, S, "%s:%d", c.text().c_str(), c.id) break; \
      case 6: MACROS_THREE(LLOGGING, S, MACROS_FLUSHED) break; \
      default: MACROS_THREE(LLOGGING_FMT, S, "%s:%d", c.text().c_str(), c.id) break; \
    } \
  else \
    switch (c.family % 6) \
    { \
      case 0: MACROS_GENERIC(LOGGING, CO, , S, MACROS_FLUSHED) break; \
      case 1: MACROS_GENERIC(LOGGING_FMT, CO, , S, "%s:%d", c.text().c_str(), c.id) break; \
      case 2: MACROS_GENERIC(SLOGGING, CO, , R, MACROS_FLUSHED) break; \
      case 3: MACROS_GENERIC(SLOGGING_FMT, CO, , R, "%s:%d", c.text().c_str(), c.id) break; \
      case 4: MACROS_GENERIC(MLOGGING, COF, MACROS_COMMA_FUNCTION, S, MACROS_FLUSHED) break; \
      default: MACROS_GENERIC(MLOGGING_FMT, COF, MACROS_COMMA_FUNCTION, S, "%s:%d", c.text().c_str(), c.id) break; \
    }
void Caller::call(MacroCall& c)
{
  // The macros are statements, also without braces.
  if (c.stream)
    MACROS_STREAM(SimMb, SimMb::instance())
  else
    MACROS_STREAM(SimMa, SimMa::instance())
}
void run_call(MacroCall& c) { Caller k; k.debug = c.debug; k.call(c); }
#define MACROS_STR2(x) #x
#define MACROS_STR(x) MACROS_STR2(x)
struct Register { Register() { MacroBuild b = { run_call, MACROS_DEBUG, MACROS_LOCAL, { MACROS_STR(SimMa), MACROS_STR(SimMb) }, { SimMa::create, SimMb::create } }; macro_build(MACROS_DEBUG * 2 + MACROS_LOCAL) = b; } } registrar;
}
