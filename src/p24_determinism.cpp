// P24 (first half): the same calls give the same bytes, text, messages and orders whatever the addresses, memory contents and earlier work.
// needs: tools
#include "work.h"
#include "gen.h"
#include "corpus.h"
#include "spvgentwo/Allocator.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "common/HeapAllocator.h"
#include "common/ModulePrinter.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fstream>
#include <iterator>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P24", "a case is one history of library use (10 kinds, see P17) that is run in five environments: plain heap memory, ascending and descending addresses, scattered addresses with blocks reused at once, after other histories in the same process and with unrelated library calls between the calls, each with other contents in fresh memory; words, texts, messages, results and orders of everything the library returned must be the same byte for byte; every 40th case runs the tools in two processes with different memory contents; a second part runs the histories under MemorySanitizer", 2000, 9000}; }
namespace {
const size_t ArenaSize = 1536u << 20, Part = ArenaSize / work::Allocators, Bins = 32, Bin = Part / Bins; unsigned char* g_arena; u64 g_used_up = 0, g_runs = 0;
// hands out memory with addresses and contents under our control
struct Arena : IAllocator { u32 mode = 0, fill = 0; size_t lo = 0, hi = 0, start = 0; std::vector<size_t> bins; Rng* r = nullptr; std::map<size_t, std::vector<void*>> reuse; static u64 blocks;
  void dirty(void* p, size_t n) { unsigned char* c = (unsigned char*)p; switch (fill) { case 0: memset(c, 0, n); break; case 1: memset(c, 0xff, n); break; case 2: memset(c, 0xa5, n); break; case 3: for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)(i * 37 + 11); break; default: for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)r->u(); } }
  void* allocate(sgt_size_t n, unsigned align) override { ++blocks; if (!align) align = 1; size_t a = align < 16 ? 16 : align, m = (n + a - 1) / a * a; if (!m) m = a; void* p = nullptr;
    if (mode == 3) { auto& l = reuse[m]; if (!l.empty()) { p = l.back(); l.pop_back(); } }
    if (!p) { if (mode == 0) p = malloc(m); else if (mode == 1) { lo = (lo + a - 1) / a * a; if (lo + m <= hi) { p = g_arena + lo; lo += m; } } else if (mode == 2) { if (hi >= lo + m + a) { hi = (hi - m) / a * a; p = g_arena + hi; } } else { for (u32 k = 0; k < 64 && !p; ++k) { u32 b = r->below(Bins); size_t s = (bins[b] + a - 1) / a * a; if (s + m <= start + (b + 1) * Bin) { p = g_arena + s; bins[b] = s + m; } } } if (!p) { ++g_used_up; if (hx::verbose()) fprintf(stderr, "used up: %zu mode %u lo %zu hi %zu\n", m, mode, lo, hi); p = malloc(m); } }
    dirty(p, n); return p; }
  void deallocate(void* p, sgt_size_t n) override { if (!p) return; if ((unsigned char*)p < g_arena || (unsigned char*)p >= g_arena + ArenaSize) { free(p); return; } dirty(p, n); if (mode == 3 && n) { size_t m = (n + 15) / 16 * 16; reuse[m].push_back(p); } } };
u64 Arena::blocks = 0;
struct Setup { const char* name; u32 mode, fill; bool before, between; };
const Setup setups[] = {{"heap memory of zeroes", 0, 0, false, false}, {"ascending addresses, 0xff", 1, 1, false, false}, {"descending addresses, 0xa5", 2, 2, false, false}, {"scattered and reused addresses, random contents", 3, 4, false, false}, {"heap after other work, with other calls in between", 0, 3, true, true}};
std::string transcript(const Setup& s, u32 kind, u64 seed, Rng& own, std::map<std::string, u64>* seen) {
  Arena al[work::Allocators]; work::Env e;
  for (u32 i = 0; i < work::Allocators; ++i) { al[i].mode = s.mode; al[i].fill = s.fill; al[i].r = &own; e.al[i] = &al[i]; }
  // every allocator has a part of the arena of its own
  for (u32 i = 0; i < work::Allocators; ++i) { al[i].lo = al[i].start = i * Part; al[i].hi = (i + 1) * Part; for (size_t b = 0; b < Bins; ++b) al[i].bins.push_back(i * Part + b * Bin); }
  if (s.before) for (u32 k = own.range(1, 2); k; --k) { work::Env o; Arena oa[work::Allocators]; for (u32 i = 0; i < work::Allocators; ++i) { oa[i].fill = own.below(4); o.al[i] = &oa[i]; } work::run(o, own.below(work::Kinds), own.next()); }
  if (s.between) e.between = [&own] { if (own.below(6)) return; static HeapAllocator h; Module m(&h); m.addCapability(spv::Capability::Shader); m.addExtension(own.coin() ? "SPV_KHR_a" : "SPV_KHR_b"); Function& f = m.addFunction<float, float>("between", spv::FunctionControlMask::Const); BasicBlock& b = *f; b.returnValue(b.Add(f.getParameter(0), m.constant((float)own.below(9)))); m.finalize(); hx::count("calls_in_between"); };
  work::run(e, kind, seed); if (seen) *seen = e.seen; if (s.mode) { if (++g_runs % 16 == 0) madvise(g_arena, ArenaSize, MADV_DONTNEED); } return e.out;
}
std::string around(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t ln = 0, at = 0; for (size_t k = 0; k < i; ++k) if (a[k] == '\n') { ++ln; at = k + 1; } auto clean = [](std::string s) { for (auto& c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '.'; return s; }; return fmt("line %zu: '", ln) + clean(a.substr(at, std::max<size_t>(i - at + 60, 100))) + "' against '" + clean(b.substr(at, std::max<size_t>(i - at + 60, 100))) + "'"; }
std::string label(const std::string& a, const std::string& b) { size_t i = 0, at = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') at = i + 1; ++i; } std::string s; for (size_t k = at; k < a.size() && isalpha((unsigned char)a[k]); ++k) s += a[k]; return s.substr(0, 20); }
// ---- the tools in separate processes
std::string g_dir, g_bin;
int run(const std::string& cmd) { int s = system(cmd.c_str()); return WIFEXITED(s) ? WEXITSTATUS(s) : 1000; }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
void tools(Rng& r) {
  std::vector<u32> w; if (r.coin()) w = r.pick(corpus::all()).words; else { gen::Opt o; o.size = r.range(3, 12); w = gen::module(r, o); } std::string in = g_dir + "/in.spv"; { std::ofstream f(in, std::ios::binary); f.write((const char*)w.data(), (long)w.size() * 4); }
  const char* what; std::string args, bin; switch (r.below(3)) { case 0: what = "disassembler"; bin = "tool_dis_bin"; args = in + " -serialize"; if (r.coin()) args += " -assignIDs"; break; case 1: what = "reflection"; bin = "tool_refl_bin"; args = in; for (const char* a : {" -functions", " -variables", " -entrypoints", " -localsize"}) if (r.coin()) args += a; break; default: what = "disassembler options"; bin = "tool_dis_bin"; args = in; for (const char* a : {" -noinstrnames", " -noopnames", " -nopreamble", " -colors", " -tabs"}) if (r.coin()) args += a; }
  std::string t[2], o[2]; int rc[2]; const char* fillv[2] = {"malloc_fill_byte=0:max_free_fill_size=100000:free_fill_byte=255", "malloc_fill_byte=190:max_free_fill_size=100000:free_fill_byte=17"}; for (int k = 0; k < 2; ++k) { std::string a = args, of = g_dir + fmt("/out%d", k); const char* opt = getenv("ASAN_OPTIONS"); rc[k] = run("cd " + g_dir + " && ASAN_OPTIONS='" + std::string(opt ? opt : "") + ":max_malloc_fill_size=100000000:" + fillv[k] + "' " + g_bin + "/" + bin + " " + a + " > " + of + " 2>&1"); t[k] = slurp(of); o[k] = slurp(g_dir + "/serialized.spv"); for (auto& p : {of, g_dir + "/serialized.spv"}) unlink(p.c_str()); if (!o[k].empty()) count("tool_files"); }
  count("tool_runs", 2); if (rc[0] != rc[1] || t[0] != t[1]) violation(std::string("tool:") + what, fmt("exit %d and %d; ", rc[0], rc[1]) + around(t[0], t[1])); else if (o[0] != o[1]) violation(std::string("tool file:") + what, "the written files differ"); unlink(in.c_str()); distinct(fnv(t[0] + o[0]));
}
}
void hx::init() { work::init(); g_arena = (unsigned char*)mmap(nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_arena == MAP_FAILED) harness_error("no arena"); const char* b = getenv("VERIF_BUILD_DIR"); g_bin = b ? b : "/verif/build"; char d[] = "/tmp/p24XXXXXX"; if (!mkdtemp(d)) harness_error("no directory"); g_dir = d; }
void hx::finish() { rmdir(g_dir.c_str()); count("blocks_under_control", Arena::blocks); if (g_used_up) count("arena_used_up", g_used_up); }
void hx::run_case(u64 index, Rng& r) {
  if (index % 40 == 39) { tools(r); return; }
  u32 kind = (u32)(index % work::Kinds); u64 seed = r.next(); std::map<std::string, u64> seen; std::string base = transcript(setups[0], kind, seed, r, &seen); for (auto& s : seen) count(s.first, s.second); count("transcript_bytes", base.size()); distinct(fnv(base));
  for (u32 k = 1; k < 5; ++k) { std::string t = transcript(setups[k], kind, seed, r, nullptr); count("transcripts_compared"); if (t != base) { violation(std::string(work::kind_name(kind)) + ":" + label(base, t), std::string("heap memory of zeroes against ") + setups[k].name + ": " + around(base, t)); break; } }
  if (index < 10) sample(std::string(work::kind_name(kind)) + fmt(": five transcripts of %zu bytes equal", base.size()));
}
