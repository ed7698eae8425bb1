// P20: HashMap against an associative model (multimap keeping insertion order per key).
#include "obj.h"
#include "spvgentwo/HashMap.h"
#include "spvgentwo/String.h"
#include "spvgentwo/Spv.h"
#include "common/HeapHashMap.h"
#include "common/HeapString.h"
#include <memory>
using namespace spvgentwo; using namespace hx;
const Info hx::g_info = {"P20", "random histories (20-150 ops) over HashMap<unsigned|enum|String|pointer|Hash64, Obj> with 1..64 buckets, default and colliding-bucket hash functions; after each op every key is looked up through get/[]/find/count/getRange and the whole map iterated; distinct = distinct (key type, op, buckets class, multiplicity, chain length class)", 24000, 400000};
void hx::init() {} void hx::finish() { count("object lifetime events", Obj::ops()); }
template <class K> struct KeyGen; // model key index <-> key
template <> struct KeyGen<unsigned> { static constexpr const char* name = "unsigned"; static unsigned make(int i, IAllocator*) { return (unsigned)i * 2654435761u; } };
template <> struct KeyGen<spv::Op> { static constexpr const char* name = "enum"; static spv::Op make(int i, IAllocator*) { return (spv::Op)(i * 7); } };
template <> struct KeyGen<const int*> { static constexpr const char* name = "pointer"; static const int* make(int i, IAllocator*) { static int a[256]; return a + i; } };
template <> struct KeyGen<Hash64> { static constexpr const char* name = "Hash64"; static Hash64 make(int i, IAllocator*) { return Hash64((unsigned)(i % 5), (unsigned)(i / 5)); } };
template <> struct KeyGen<String> { static constexpr const char* name = "String"; static String make(int i, IAllocator* a) { static const char* b[] = {"", "a", "ab", "abc", "abd", "b", "ba", "Main", "main", "main0"}; static const char* pre[] = {"", "", "pppppppppppppppppppppppppppppp", "pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppp"}; String s(a, pre[i % 4]); s += b[i % 10]; for (int q = 0; q < i / 10; ++q) s += "x"; return s; } };
template <class K> using Map = HashMap<K, Obj>;
static unsigned hfUnsigned(unsigned k) { return k; }
static Hash64 hfLow(const unsigned& k) { return Hash64(hfUnsigned(k) & 3u, k); } // low word (bucket choice) collides, hashes stay distinct
template <class K> using Model = std::map<int, std::vector<int>>;
template <class K> static std::string check(Map<K>& m, const std::map<int, std::vector<int>>& mo, int keys, IAllocator* a) {
  size_t total = 0; for (auto& e : mo) total += e.second.size();
  if (m.elements() != total) return fmt("elements() is %u, model holds %zu", m.elements(), total);
  for (int i = 0; i < keys; ++i) {
    K k = KeyGen<K>::make(i, a); auto it = mo.find(i); size_t n = it == mo.end() ? 0 : it->second.size();
    if (m.count(k) != n) return fmt("count(key %d) is %u, model %zu", i, m.count(k), n);
    Obj* g = m.get(k); if ((g != nullptr) != (n != 0)) return fmt("get(key %d) %s", i, g ? "finds an absent key" : "misses a stored key");
    if (g && g->v != it->second.front()) return fmt("get(key %d) is %d, first value stored is %d", i, g->v, it->second.front());
    if (m[k] != g) return "operator[] differs from get";
    auto f = m.find(k); if ((f != m.end()) != (n != 0)) return fmt("find(key %d)", i); if (n && (!(f->key == k) || f->value.v != it->second.front())) return fmt("find(key %d) returns another entry", i);
    if (n && !f) return "valid iterator tests false";
    auto r = m.getRange(k); if (r.empty() != (n == 0)) return fmt("getRange(key %d).empty()", i);
    size_t q = 0; for (auto& node : r) { if (!(node.kv.key == k)) return fmt("getRange(key %d) contains an entry of another key", i); if (q >= n || node.kv.value.v != it->second[q]) return fmt("getRange(key %d) value %zu", i, q); ++q; } if (q != n) return fmt("getRange(key %d) covers %zu of %zu", i, q, n);
  }
  std::multiset<int> all, seen; for (auto& e : mo) for (int v : e.second) all.insert(v);
  size_t steps = 0; for (auto& kv : m) { kv.value.chk("dead value"); seen.insert(kv.value.v); if (++steps > total) return "iteration visits more entries than stored"; }
  if (seen != all) return "iteration does not visit every entry once";
  steps = 0; unsigned b = 0; for (unsigned i = 0; i < m.getBucketCount(); ++i) b += (unsigned)m.getBucket(i).size(); if (b != total) return "buckets hold a different number of entries";
  auto p = m.begin(); if (total) { auto q = p++; if (q != m.begin() || p != m.begin().next()) return "post increment"; } else if (p != m.end()) return "begin of an empty map";
  return "";
}
template <class K> static void history(u64 idx, Rng& r, typename Map<K>::HashFunc hf) {
  Obj::error().clear(); Obj::live().clear(); std::string trace, why, key; int next = 1; TrackAlloc a; const int keys = 3 + (int)r.below(14); unsigned bk[2]; for (auto& b : bk) b = r.chance(1, 4) ? 1 : r.range(1, 64); const typename Map<K>::HashFunc hfs[2] = {hf, hf && r.coin() ? typename Map<K>::HashFunc(nullptr) : hf}; // moving takes buckets and hash function along
  { std::unique_ptr<Map<K>> m[2]; std::map<int, std::vector<int>> mo[2]; for (int q = 0; q < 2; ++q) m[q].reset(hfs[q] ? new Map<K>(&a, bk[q], hfs[q]) : new Map<K>(&a, bk[q]));
  unsigned n = r.range(20, thorough() ? 150 : 70);
  for (unsigned s = 0; s < n && why.empty(); ++s) {
    int k = (int)r.below(2); const unsigned buckets = bk[k]; Map<K>& x = *m[k]; auto& mm = mo[k]; int ki = (int)r.below(keys); K kk = KeyGen<K>::make(ki, &a); const char* on = ""; const bool dead = x.getBucketCount() == 0;
    u32 o = r.below(14);
    if (dead) { on = "revive"; x = hfs[k] ? Map<K>(&a, buckets, hfs[k]) : Map<K>(&a, buckets); }
    else switch (o) {
      case 0: case 1: case 2: case 3: { on = "emplace"; auto& nd = x.emplace(kk, next); if (!(nd.kv.key == kk) || nd.kv.value.v != next) why = "node returned"; mm[ki].push_back(next++); } break;
      case 4: case 5: { on = "emplaceUnique"; auto& nd = x.emplaceUnique(kk, next); if (mm[ki].empty()) mm[ki].push_back(next); ++next; if (nd.kv.value.v != mm[ki].front()) why = "emplaceUnique returned another entry"; } break;
      case 6: { on = "eraseRange"; unsigned c = x.eraseRange(kk); unsigned w = mm.count(ki) ? (unsigned)mm[ki].size() : 0; if (c != w) why = fmt("eraseRange returned %u, model %u", c, w); mm.erase(ki); } break;
      case 7: case 8: { on = "erase(find)"; auto it = x.find(kk); auto nx = it != x.end() ? it.next() : x.end(); auto e = x.erase(it); if (e != nx) why = "erase returns the successor"; if (mm.count(ki) && !mm[ki].empty()) { mm[ki].erase(mm[ki].begin()); } if (mm.count(ki) && mm[ki].empty()) mm.erase(ki); } break;
      case 9: if (r.chance(1, 4)) { on = "clear"; x.clear(); mm.clear(); } break;
      case 10: if (r.chance(1, 3)) { on = "move-assign"; x = std::move(*m[1 - k]); mm = mo[1 - k]; mo[1 - k].clear(); } else if (r.coin()) { on = "self move-assign"; Map<K>& y = x; x = std::move(y); } break;
      case 11: if (r.chance(1, 3)) { on = "move-construct"; std::unique_ptr<Map<K>> c(new Map<K>(std::move(x))); m[k] = std::move(c); } break;
      case 12: { on = "erase while iterating"; u32 mod = r.range(2, 4); size_t guard = 0; for (auto it = x.begin(); it != x.end() && guard < 10000; ++guard) { if ((u32)it->value.v % mod == 0) it = x.erase(it); else ++it; } for (auto it = mm.begin(); it != mm.end();) { auto& v = it->second; v.erase(std::remove_if(v.begin(), v.end(), [&](int q) { return (u32)q % mod == 0; }), v.end()); if (v.empty()) it = mm.erase(it); else ++it; } } break;
      case 13: { on = "findKey"; int probe = r.coin() && !mm.empty() && !mm.begin()->second.empty() ? mm.begin()->second[0] : next + 3; K* f = x.findKey(Obj(probe)); bool has = false; int fk = -1; for (auto& e : mm) for (int v : e.second) if (v == probe) { has = true; fk = e.first; } if ((f != nullptr) != has) why = "findKey"; else if (f && !(*f == KeyGen<K>::make(fk, &a))) why = "findKey returns another key"; Map<K> none; if (none.get(kk) || none.count(kk) || !none.getRange(kk).empty() || none.find(kk) != none.end() || none.eraseRange(kk) || none.elements()) why = "default constructed map"; typename Map<K>::Iterator di; none.erase(di); } break;
    }
    if (!*on) continue; trace += fmt("m%d.%s(key%d) ", k, on, ki); key = on; count("map operations");
    distinct(fnv(fmt("%s %s %u %zu", KeyGen<K>::name, on, std::min(buckets, 4u), std::min<size_t>(mm.count(ki) ? mm[ki].size() : 0, 3))));
    for (int i = 0; i < 2 && why.empty(); ++i) { why = check<K>(*m[i], mo[i], keys, &a); if (!why.empty()) why = fmt("m%d: ", i) + why; }
    if (why.empty()) { size_t tot = 0; for (auto& mp : mo) for (auto& e : mp) tot += e.second.size(); if (Obj::live().size() != tot) why = fmt("%zu values alive, maps hold %zu", Obj::live().size(), tot); }
    if (why.empty() && !Obj::error().empty()) why = Obj::error(); }
  if (idx < 3) sample(fmt("%s buckets=%u,%u ", KeyGen<K>::name, bk[0], bk[1]) + trace.substr(0, 500)); }
  if (why.empty() && (!a.imbalance().empty() || !Obj::live().empty() || !Obj::error().empty())) { key = "destruction"; why = a.imbalance() + Obj::error(); }
  if (!why.empty()) violation(std::string("P20:") + KeyGen<K>::name + ":" + key, why + fmt(" | buckets %u,%u | history: ", bk[0], bk[1]) + trace);
}
void hx::run_case(u64 idx, Rng& r) {
  switch (idx % 6) {
    case 0: history<unsigned>(idx, r, nullptr); break; case 1: history<unsigned>(idx, r, &hfLow); break; case 2: history<spv::Op>(idx, r, nullptr); break;
    case 3: history<String>(idx, r, nullptr); break; case 4: history<const int*>(idx, r, nullptr); break;
    case 5: if (idx % 12 == 5) history<Hash64>(idx, r, nullptr); else { // argument constructor
      TrackAlloc a; { HashMap<const char*, int> m(&a, "a", 1, "bb", 2, "ccc", 3); const char* ks[] = {"a", "bb", "ccc"}; for (int i = 0; i < 3; ++i) { std::string k = ks[i]; int* p = m[k.c_str()]; if (!p || *p != i + 1) violation("P20:args-constructor", "value"); } if (m.elements() != 3 || m["d"]) violation("P20:args-constructor", "elements");
        HeapHashMap<const char*, int> h("x", 9, "y", 8); HeapHashMap<const char*, int> h2(std::move(h)); HeapHashMap<const char*, int> h3; h3 = std::move(h2); if (!h3["x"] || *h3["x"] != 9 || !h3["y"] || *h3["y"] != 8 || h3.elements() != 2) violation("P20:HeapHashMap", "move"); }
      if (!a.imbalance().empty()) violation("P20:args-constructor", a.imbalance()); distinct(77); } break;
  }
}
