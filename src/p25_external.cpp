// P25: ExternalMemoryAllocator and containers / modules living in it.
#include "obj.h"
#include "build.h"
#include "common/ExternalMemoryAllocator.h"
#include "common/HeapAllocator.h"
#include "spvgentwo/String.h"
#include <memory>
#include <cstring>
using namespace spvgentwo; using namespace hx;
const Info hx::g_info = {"P25", "four kinds of cases: (1) random request/release histories (20-200) over buffers of 0-4096 bytes at every misalignment, sizes up to SIZE_MAX and alignments 1-512, every block filled with a pattern that is re-verified after each step, ranges checked against the buffer and all live blocks, refusals checked against the space left; (2) Vectors, Strings and Lists in such a buffer driven until (and beyond) exhaustion, compared with models; (3) StackContainer/StackAllocator; (4) random programs built and parsed in a large buffer, bytes equal to a heap build. Buffers are exact heap blocks, so ASan sees any access outside", 24000, 1200000};
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
namespace {
struct Buf { std::unique_ptr<char[]> mem; size_t off, cap; char* p; Buf(Rng& r, size_t c) : off(r.below(17)), cap(c) { mem.reset(new char[off + cap]); memset(mem.get(), 0x5A, off + cap); p = mem.get() + off; } bool in(const void* q, size_t n) const { auto a = (size_t)q, b = (size_t)p; return a >= b && n <= cap && a - b <= cap - n; } bool canary() const { for (size_t i = 0; i < off; ++i) if (mem[i] != 0x5A) return false; return true; } };
void raw(Rng& r) {
  struct Blk { char* p; size_t n; char pat; }; Buf b(r, r.chance(1, 12) ? r.below(3) : r.coin() ? r.below(200) : r.below(4097)); ExternalMemoryAllocator a(b.cap || r.coin() ? (void*)b.p : nullptr, b.cap); std::vector<Blk> live; size_t hw = (size_t)b.p; bool null = false; if (b.cap == 0) null = true; u64 h = b.cap; char pat = 1; bool clamped = false;
  for (u32 s = 0, n = r.range(20, 200); s < n; ++s) { std::string what; bool rel = !live.empty() && r.chance(1, 3); if (rel) { u32 k = r.chance(2, 3) ? (u32)live.size() - 1 : r.below((u32)live.size()); Blk x = live[k]; if (x.n && r.chance(1, 10)) { a.deallocate(nullptr); } a.deallocate(x.p, x.n); live.erase(live.begin() + k); if ((size_t)x.p + x.n == hw) hw = (size_t)x.p; what = "deallocate"; count("releases"); }
    else { unsigned al = 1u << r.below(r.chance(1, 6) ? 10 : 5); size_t n; size_t left = b.cap - std::min(b.cap, hw - (size_t)b.p); switch (r.below(12)) { case 0: n = 0; break; case 1: n = left; break; case 2: n = left + 1; break; case 3: n = ~(size_t)0 - r.below(300); break; case 4: n = (size_t)1 << r.below(63); break; case 5: n = left > 3 ? left - r.below(4) : left; break; default: n = r.below(1 + (u32)b.cap / (1 + r.below(12))); }
      size_t at = (hw + al - 1) & ~((size_t)al - 1); bool fits = !null && at - (size_t)b.p <= b.cap && n <= b.cap - (at - (size_t)b.p); char* q = (char*)a.allocate(n, al); what = fmt("allocate(%zu, %u)", n, al); h = h * 33 + (fits ? 1 : 2) + n; count(q ? "blocks" : "refusals");
      if (!q) { if (fits) { violation("refused", what + fmt(" with %zu bytes left", left)); return; } clamped = true; } else { if (clamped) count("blocks_after_refusal"); if ((size_t)q & (al - 1)) { violation("misaligned", what); return; } if (!b.in(q, n)) { violation("outside", what + fmt(" at offset %zd of %zu", (ptrdiff_t)((size_t)q - (size_t)b.p), b.cap)); return; } for (auto& x : live) if (n && x.n && q < x.p + x.n && x.p < q + n) { violation("overlap", what); return; } memset(q, pat, n); live.push_back({q, n, pat}); hw = (size_t)q + n; if (++pat == 0x5A) ++pat; } }
    for (auto& x : live) for (size_t i = 0; i < x.n; ++i) if (x.p[i] != x.pat) { violation("block-changed", what); return; } if (!b.canary()) { violation("canary", what); return; } }
  { // scoped allocations return their block
    Buf c(r, 256); ExternalMemoryAllocator e(c.p, 256); void* first = nullptr; for (int i = 0; i < 20; ++i) { ScopedAllocation s = e.allocateScoped(100, 16); if (!s) { violation("scoped", "refused although the previous one was released"); return; } ScopedAllocation t(std::move(s)); if (s || !t || t.size != 100 || !c.in(t.ptr, 100)) violation("scoped-move", ""); if (!first) first = t.ptr; else if (first != t.ptr) violation("scoped-place", "not released"); memset(t.ptr, 1, 100); ScopedAllocation u = e.allocateScoped(1000, 1); if (u || u.ptr) violation("scoped-too-large", ""); } } distinct(h); }
void containers(Rng& r) {
  Buf b(r, r.below(r.coin() ? 300 : 3000)); ExternalMemoryAllocator a(b.p, b.cap); u64 h = b.cap; { Vector<Obj> v(&a); String s(&a); List<Obj> l(&a); Vector<u64> w(&a); std::vector<int> mv, ml; std::string ms; std::vector<u64> mw; bool full = false; for (u32 st = 0, n = r.range(20, 150); st < n; ++st) { u32 op = r.below(14); const char* on = ""; switch (op) {
        case 0: case 1: { on = "vector emplace_back"; int x = (int)r.below(1000); Obj* p = v.emplace_back(x); if (p) { mv.push_back(x); if (p->v != x) violation("emplaced", ""); } else full = true; break; } case 2: { on = "vector reserve"; u32 k = r.below(40); bool ok = v.reserve(k); if (ok && v.capacity() < k) violation("reserve", ""); break; } case 3: { on = "vector resize"; u32 k = r.below(20); if (v.resize(k)) mv.resize(k); else full = true; break; } case 4: { on = "vector assignment"; Vector<Obj> c(&a); c = v; if (c.size() != v.size() && c.size() != 0) violation("partial-copy", fmt("%zu of %zu", (size_t)c.size(), (size_t)v.size())); break; }
        case 5: { on = "string append"; std::string t(r.below(12), (char)('a' + r.below(26))); size_t k = s.size(); s += t.c_str(); if (s.size() == k + t.size()) ms += t; else full = true; break; } case 6: { on = "string assign"; std::string t(r.below(40), 'q'); size_t k = s.size(); s = t.c_str(); if (s.size() == t.size() && (t.empty() || s == t.c_str())) ms = t; else { full = true; if (s.size() != k) violation("string-partial", ""); } break; } case 7: { on = "string insert"; if (ms.empty()) break; size_t pos = r.below((u32)ms.size()); size_t k = s.size(); s.insert(pos, "xyz"); if (s.size() == k + 3) ms.insert(pos, "xyz"); else full = true; break; }
        case 8: case 9: { on = "list emplace_back_entry"; int x = (int)r.below(1000); if (l.emplace_back_entry(x)) ml.push_back(x); else full = true; break; } case 10: { on = "list emplace_front_entry"; int x = (int)r.below(1000); if (l.emplace_front_entry(x)) ml.insert(ml.begin(), x); else full = true; break; } case 11: { on = "list erase"; if (ml.empty()) break; u32 k = r.below((u32)ml.size()); l.erase(l.begin() + k); ml.erase(ml.begin() + k); break; } case 12: { on = "list clear"; if (r.chance(1, 6)) { l.clear(); ml.clear(); } break; } default: { on = "u64 vector"; u64 x = r.u(); if (w.emplace_back(x)) mw.push_back(x); else full = true; } }
      h = h * 37 + op; count(full ? "ops_when_full" : "ops"); std::string k = on; if (v.size() != mv.size() || l.size() != ml.size() || s.size() != ms.size() || w.size() != mw.size()) { violation("size:" + k, fmt("%zu %zu, %zu %zu, %zu %zu", (size_t)v.size(), mv.size(), (size_t)l.size(), ml.size(), (size_t)s.size(), ms.size())); return; } for (size_t i = 0; i < mv.size(); ++i) if (v[i].v != mv[i]) { violation("vector:" + k, ""); return; } for (size_t i = 0; i < mw.size(); ++i) if (w[i] != mw[i]) { violation("u64:" + k, ""); return; } size_t i = 0; for (auto& o : l) if (o.v != ml[i++]) { violation("list:" + k, ""); return; } if (!ms.empty() && ms != s.c_str()) { violation("string:" + k, ms + " vs " + s.c_str()); return; } if (v.size() && !b.in(&v[0], sizeof(Obj) * v.size())) violation("vector-outside", k); if (!b.canary()) { violation("canary:" + k, ""); return; } if (!Obj::error().empty()) { violation("object:" + k, Obj::error()); Obj::error().clear(); return; } } }
  if (!Obj::live().empty()) { violation("leak", ""); Obj::live().clear(); } distinct(h); }
template <size_t N> void stacks(Rng& r) { { StackContainer<List<int>, N> l; std::vector<int> m; StackContainer<Vector<int>, N> v; std::vector<int> mv; StackContainer<String, N> s("abc"); std::string ms = N >= 4 ? "abc" : ""; auto t = make_stack_container<String, N>("hello"); if (N >= 6 && std::string(t.c_str()) != "hello") violation("make_stack_container", ""); for (u32 i = 0; i < 60; ++i) { int x = (int)r.below(99); if (l.emplace_back_entry(x)) m.push_back(x); if (v.emplace_back(x)) mv.push_back(x); if (r.chance(1, 5)) { size_t k = s.size(); s += "de"; if (s.size() == k + 2) ms += "de"; } size_t i2 = 0; if (l.size() != m.size() || v.size() != mv.size()) { violation("stack-size", ""); return; } for (int y : l) if (y != m[i2++]) { violation("stack-list", ""); return; } for (size_t q = 0; q < mv.size(); ++q) if (v[q] != mv[q]) { violation("stack-vector", ""); return; } if (!ms.empty() && ms != s.c_str()) { violation("stack-string", ms); return; } if (v.size() && ((char*)&v[0] < (char*)&v || (char*)(&v[0] + v.size()) > (char*)(&v + 1))) { violation("stack-outside", ""); return; } } count("stack_lists", m.size()); if (N >= 512 && mv.size() < 8) violation("stack-refused", ""); }
  { StackAllocator<N> a; void* p = a.allocate(N, 1); if (!p || (char*)p < (char*)&a || (char*)p + N > (char*)(&a + 1)) violation("stack-allocator", ""); else memset(p, 1, N); if (a.allocate(1, 1)) violation("stack-allocator-full", ""); a.deallocate(p, N); if (a.allocate(N, 1) != p) violation("stack-allocator-again", ""); alignas(16) int arr[N / 4 + 1]; ExternalMemoryAllocator e(arr); void* q = e.allocate(sizeof arr, 4); if (q != arr) violation("array-allocator", ""); if (e.allocate(1, 1)) violation("array-allocator-full", ""); } }
void programs(Rng& r) { build::Opt o; o.size = 2; build::Prog p = build::random(r, o); Rng r1 = r, r2 = r; std::vector<u32> w; { TrackAlloc al; Log log; Module m(&al, &log); build::Built b = build::lower(p, m, r1); VecWriter vw; if (!m.finalizeAndWrite(vw, g)) { count("rejected"); return; } w = vw.w; }
  static std::vector<char> big(64u << 20); ExternalMemoryAllocator e(big.data(), big.size()); { Log log; Module m(&e, &log); build::Built b = build::lower(p, m, r2); VecWriter vw; if (!m.finalizeAndWrite(vw, g)) violation("external-build", log.last); else if (vw.w != w) violation("external-differs", "the module built in external memory has other bytes"); Module n(&e, &log); VecReader rd(w); VecWriter vx; if (!n.readAndInit(rd, *g)) violation("external-parse", log.last); else if (!n.write(vx) || vx.w.size() != w.size()) violation("external-rewrite", ""); count("programs"); } distinct(fnv(w)); }
}
void hx::run_case(u64, Rng& r) { switch (r.below(20)) { case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: raw(r); break; case 8: case 9: case 10: case 11: case 12: case 13: case 14: containers(r); break; case 15: stacks<512>(r); break; case 16: stacks<64>(r); break; case 17: stacks<4096>(r); break; default: programs(r); } }
