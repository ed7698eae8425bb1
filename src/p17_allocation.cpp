// P17: every block goes back once, to the allocator it came from, with its size; no other memory is used.
// library: -finstrument-functions
#include "work.h"
#include "spvgentwo/Allocator.h"
#include <execinfo.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P17", "a case is one history of library use with six allocators (building, parsing valid and damaged binaries, printing, editing, linking, moving and assigning modules, vectors, strings, lists, maps, types, constants, graphs and callables across allocators); every block is recorded with allocator, size and alignment, releases are matched with it, nothing may be left when the objects of an allocator are gone, and malloc/new while library code runs is reported", 6000, 60000}; }
#define NOI __attribute__((no_instrument_function))
namespace { thread_local int t_lib = 0; u64 g_foreign = 0, g_foreign_size = 0, g_calls = 0; void* g_where[12]; int g_frames = 0; bool g_on = false, g_busy = false; }
// the library's own functions are compiled with -finstrument-functions; Lib and Out mark calls into its templates and back into the workload
extern "C" NOI void __cyg_profile_func_enter(void*, void*) { ++t_lib; ++work::g_depth; ++g_calls; }
extern "C" NOI void __cyg_profile_func_exit(void*, void*) { --t_lib; --work::g_depth; }
namespace {
NOI void on_malloc(const volatile void*, size_t n) { if (!g_on || g_busy || work::g_depth <= 0) return; g_busy = true; if (!g_foreign++) { g_foreign_size = n; g_frames = backtrace(g_where, 12); } g_busy = false; }
NOI void on_free(const volatile void*) {}
struct Strict : TrackAlloc { u64 zero = 0, odd = 0; u32 index = 0;
  void* allocate(sgt_size_t n, unsigned a) override { work::Out o; if (a == 0 || (a & (a - 1))) ++odd; count("blocks"); return TrackAlloc::allocate(n, a); }
  void deallocate(void* p, sgt_size_t n) override { work::Out o; auto it = live.find(p); if (p && n == 0 && it != live.end() && it->second.size) { ++zero; errors.push_back(fmt("block of %zu bytes released without its size", it->second.size)); } TrackAlloc::deallocate(p, n); } };
}
void hx::init() { work::init(); void* w[2]; backtrace(w, 2); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
void hx::finish() { count("library_functions_entered", g_calls); }
void hx::run_case(u64 index, Rng& r) {
  u32 kind = (u32)(index % work::Kinds); u64 seed = r.next(); Strict al[work::Allocators]; work::Env e; std::set<u32> used; std::string k = work::kind_name(kind);
  for (u32 i = 0; i < work::Allocators; ++i) { al[i].index = i; e.al[i] = &al[i]; }
  auto check = [&](u32 i, const char* when) { std::string s = al[i].imbalance(); if (!s.empty()) { violation((al[i].errors.empty() ? "outstanding:" : "released:") + k, fmt("allocator %u after ", i) + when + ": " + s); al[i].errors.clear(); for (auto& b : al[i].live) free(b.first); al[i].live.clear(); } if (al[i].odd) { violation("alignment:" + k, "an alignment is no power of two"); al[i].odd = 0; } count("settled"); };
  e.settled = [&](u32 i, const char* when) { work::Out o; check(i, when); };
  g_foreign = 0; g_on = true; work::run(e, kind, seed); g_on = false; work::g_depth = 0; t_lib = 0;
  for (u32 i = 0; i < work::Allocators; ++i) check(i, "the end"); if (g_foreign) { char s[400]; std::string d; for (int i = 0; i < g_frames; ++i) { __sanitizer_symbolize_pc((char*)g_where[i] - 1, "%f %S", s, sizeof s); d += std::string(s) + "\n"; } violation("elsewhere:" + k, fmt("%llu allocations not from the user's allocator, the first of %llu bytes\n", (unsigned long long)g_foreign, (unsigned long long)g_foreign_size) + d); }
  u64 blocks = 0, hash = kind; for (auto& a : al) { blocks += a.allocs; used.insert(a.allocs ? a.index : 0); hash = hash * 1000003 + a.allocs; if (a.frees > a.allocs + 100000) violation("frees:" + k, ""); } distinct(fnv(e.out) ^ hash); for (auto& s : e.seen) count(s.first, s.second); if (used.size() > 2) count("several_allocators"); if (index < 10) sample(k + fmt(": %llu blocks from %zu allocators, transcript of %zu bytes", (unsigned long long)blocks, used.size(), e.out.size()));
}
