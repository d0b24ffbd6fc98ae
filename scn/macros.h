// The logging macros, called in one of four builds.
#ifndef VERIF_SCN_MACROS_H
#define VERIF_SCN_MACROS_H
#include "common.h"
namespace icl_core { namespace logging { class LogStream; } }
namespace Some { template <class T> struct Class { }; }
struct MacroCall
{
  // what to call: family, with class or object or in general, level, stream, answer of Debug()
  int family, variant, level, stream; bool debug; int id, thread, nested;
  // what should come out
  int line; std::string fn, file, cls, obj, plain;
  int evaluated; uint64_t from, to; MacroCall* inner;
  const std::string& text();
  const char* object();
};
struct MacroBuild { void (*call)(MacroCall& c); bool debug, local; const char* name[2]; icl_core::logging::LogStream* (*create[2])(); };
MacroBuild& macro_build(int i);
#endif
