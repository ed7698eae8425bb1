// P24 (second half): no result depends on uninitialised memory; the histories of work.cpp run under MemorySanitizer.
// sanitizer: memory
// build: -D_GLIBCXX_ASSERTIONS
#include "work.h"
#include "spvgentwo/Allocator.h"
#include <sanitizer/msan_interface.h>
#include <malloc.h>
#include <sanitizer/allocator_interface.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P24", "a case is one history of library use with the library, its callers and the memory of its allocators under MemorySanitizer: memory is uninitialised until the library writes it, and every word, byte of text, message and returned value is checked when it leaves the library", 3000, 60000}; }
// memory of the harness and of the (uninstrumented) C++ library counts as initialised, that of the library's allocators does not
extern "C" const char* __msan_default_options() { return "poison_in_malloc=0:poison_in_free=0"; }
namespace { u64 g_blocks = 0, g_bytes = 0;
struct Raw : IAllocator { void* allocate(sgt_size_t n, unsigned) override { ++g_blocks; g_bytes += n; void* p = malloc(n ? n : 1); __msan_poison(p, n); return p; } void deallocate(void* p, sgt_size_t) override { if (p) __msan_unpoison(p, malloc_usable_size(p)); free(p); } }; }
static void on_malloc(const volatile void* p, size_t n) { __msan_unpoison((const void*)p, n); } // memory may be used again
static void on_free(const volatile void*) {}
void hx::init() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); work::init(); }
void hx::finish() { count("uninitialised_blocks_handed_out", g_blocks); count("uninitialised_bytes_handed_out", g_bytes); }
void hx::run_case(u64 index, Rng& r) {
  u32 kind = (u32)(index % work::Kinds); Raw al[work::Allocators]; work::Env e; for (u32 i = 0; i < work::Allocators; ++i) e.al[i] = &al[i];
  work::run(e, kind, r.next()); __msan_check_mem_is_initialized(e.out.data(), e.out.size()); for (auto& s : e.seen) count(("msan " + s.first).c_str(), s.second); distinct(fnv(e.out)); count("transcript_bytes_checked", e.out.size());
}
