// Workloads for the allocation (P17) and determinism (P24) checks: histories of library use that depend on the
// seed only. Everything a user could observe (bytes, text, logs, results, orders of returned lists) is recorded.
#pragma once
#include "hx.h"
namespace work {
using hx::u32; using hx::u64;
extern int g_depth;                        // > 0 while library code runs (see Lib, Out)
struct Lib { int d; Lib() : d(g_depth) { g_depth = 1; } ~Lib() { g_depth = d; } };  // calls into the library ...
struct Out { int d; Out() : d(g_depth) { g_depth = 0; } ~Out() { g_depth = d; } };  // ... and callbacks out of it
const u32 Allocators = 6;
struct Env {
  spvgentwo::IAllocator* al[Allocators] = {};
  std::string out;                         // transcript
  std::map<std::string, u64> seen;
  std::function<void(u32 allocator, const char* what)> settled; // nothing allocated from it may be alive
  std::function<void()> between;           // unrelated library use between two calls
  void bytes(const char* tag, const void* p, size_t n);
  void text(const char* f, ...) __attribute__((format(printf, 2, 3)));
  void count(const char* n) { Out o; ++seen[n]; }
};
void init();
const u32 Kinds = 10;
const char* kind_name(u32 kind);
void run(Env& e, u32 kind, u64 seed);
}
