// P19: Vector/String against std::vector/std::string models, element lifetimes tracked, failing allocations injected.
#include "obj.h"
#include "spvgentwo/String.h"
#include "common/HeapString.h"
#include "common/HeapVector.h"
#include <memory>
using namespace spvgentwo; using namespace hx;
const Info hx::g_info = {"P19", "random histories (20-120 ops) over 4 Vector<Obj> and 4 Strings (3 allocators, one container without) incl. failing allocations; after each op contents, size, capacity, termination, lifetimes of all containers are compared with std models; uintToString/stringLength against snprintf/strlen; distinct = distinct (op, size/capacity relation, position class) tuples", 40000, 600000};
void hx::init() {} void hx::finish() { count("object lifetime events", Obj::ops()); }
using VO = Vector<Obj>;
static std::string check(const VO& v, const std::vector<int>& m) {
  if (v.size() != m.size()) return fmt("size() %zu, model %zu", (size_t)v.size(), m.size());
  if (v.empty() != m.empty()) return "empty()"; if (v.capacity() < v.size()) return "capacity() < size()";
  for (size_t i = 0; i < m.size(); ++i) { v[i].chk("element is not alive"); if (v[i].v != m[i]) return fmt("element %zu is %d, model %d", i, v[i].v, m[i]); }
  size_t i = 0; for (const Obj& o : v) if (&o != v.data() + i || o.v != m[i++]) return "iteration"; if (i != m.size()) return "iteration length";
  if (!m.empty() && (v.front().v != m.front() || v.back().v != m.back())) return "front/back";
  return "";
}
static void vec_case(u64 idx, Rng& r) {
  Obj::error().clear(); Obj::live().clear(); std::string trace, why, key; int next = 1;
  TrackAlloc a[2]; IAllocator* al[4] = {&a[0], &a[0], &a[1], nullptr}; std::unique_ptr<VO> v[4]; std::vector<int> m[4];
  for (int i = 0; i < 4; ++i) v[i].reset(new VO(al[i]));
  unsigned n = r.range(20, thorough() ? 160 : 80);
  auto objs = [&](size_t k) { std::vector<Obj> t; t.reserve(k); for (size_t i = 0; i < k; ++i) t.emplace_back(next + (int)i); return t; };
  for (unsigned s = 0; s < n && why.empty(); ++s) {
    int k = (int)r.below(4), j = (int)r.below(4); VO& x = *v[k]; auto& mm = m[k]; const char* on = "";
    size_t pos = r.below((u32)mm.size() + 1), cnt = r.below(7); auto* ta = (TrackAlloc*)al[k]; bool fail = ta && r.chance(1, 12);
    if (fail) { ta->fail_at = ta->allocs + 1; ta->fail_all = true; }
    size_t f0 = ta ? ta->failed : 0; bool noal = ta == nullptr;
    const bool atcap = x.size() == x.capacity(); const size_t cap0 = x.capacity(), sz0 = x.size();
    bool reported = true; std::vector<int> want = mm;
    switch (r.below(16)) {
      case 0: case 1: { on = "emplace_back"; Obj* p = x.emplace_back(next); reported = p != nullptr; if (p) { want.push_back(next); if (p != &x.back()) why = "pointer returned is not the last element"; } ++next; } break;
      case 2: { on = "emplace_back_args"; x.emplace_back_args(Obj(next), Obj(next + 1), Obj(next + 2)); for (int q = 0; q < 3; ++q) if (x.size() > sz0 + q) want.push_back(next + q); reported = x.size() == sz0 + 3; next += 3; } break;
      case 3: { on = "reserve"; size_t c = r.below(20); reported = x.reserve(c); if (reported && x.capacity() < c) why = "capacity below reserved"; if (x.capacity() < cap0) why = "capacity shrank"; } break;
      case 4: case 5: { on = "resize"; size_t c = r.coin() ? r.below((u32)mm.size() + 6) : r.below((u32)x.capacity() + 2); Obj init(next); bool wi = r.coin(); reported = x.resize(c, wi ? &init : nullptr); if (reported) want.resize(c, wi ? next : 0); ++next; } break;
      case 6: on = "clear"; x.clear(); want.clear(); if (x.capacity() != cap0) why = "clear changed the capacity"; break;
      case 7: { on = "assign"; Obj o(next); size_t c = r.coin() ? (size_t)-1 : cnt; if (r.chance(1, 3)) { x.assign(o); for (auto& e : want) e = next; } else { x.assign(o, pos, c); for (size_t q = pos; q < want.size() && q - pos < c; ++q) want[q] = next; } ++next; } break;
      case 8: case 9: case 10: { on = "insert"; auto t = objs(cnt); if (r.chance(1, 10)) pos += 1 + r.below(3); auto it = x.insert(pos, t.data(), cnt); size_t p2 = mm.empty() ? 0 : pos;
          if (p2 > mm.size()) { if (it != nullptr) why = "insert behind the end must return nullptr"; reported = true; }
          else { bool ok = it != nullptr || (cnt == 0 && x.data() == nullptr); reported = ok; if (ok) { for (size_t q = 0; q < cnt; ++q) want.insert(want.begin() + (long)(p2 + q), next + (int)q); if (it && it != x.data() + p2) why = "iterator returned is not the first inserted element"; } }
          next += (int)cnt; } break;
      case 11: { on = "insert one"; Obj o(next); auto it = x.insert(pos, o); reported = it != nullptr; if (it) { want.insert(want.begin() + (long)(mm.empty() ? 0 : pos), next); } ++next; } break;
      case 12: { on = j == k ? "self copy-assign" : "copy-assign"; x = *v[j]; if (j != k && al[k] == nullptr && x.getAllocator()) al[k] = x.getAllocator(); reported = true; if (fail && x.size() != m[j].size()) { reported = false; } else want = m[j]; if (x.getAllocator() != al[k]) why = "allocator changed"; } break;
      case 13: if (!fail) { on = j == k ? "self move-assign" : "move-assign"; VO& o = *v[j]; x = std::move(o); if (j != k) { want = m[j]; m[j].clear(); al[k] = al[j]; al[j] = nullptr; } } break;
      case 14: if (!fail) { if (r.coin()) { on = "copy-construct"; VO c(*v[j]); why = check(c, al[j] ? m[j] : std::vector<int>{}); if (al[j]) c.emplace_back(-1); } else { on = "move-construct"; std::unique_ptr<VO> c(new VO(std::move(*v[j]))); if (v[j]->size() || v[j]->getAllocator() || v[j]->data()) why = "moved-from vector not empty"; v[j] = std::move(c); } } break;
      case 15: if (fail) { on = "constructors"; VO src(al[(k + 1) % 3] == al[k] ? al[2] : al[0]); auto t = objs(3); Obj arr[2] = {Obj(next), Obj(next + 1)}; VO c1(al[k], t.data(), 3), c2(al[k], Obj(next), Obj(next + 1)), c3(al[k], arr), c4(al[k], (sgt_size_t)3), c5(al[k]); c5 = arr; for (VO* c : {&c1, &c2, &c3, &c4, &c5}) if (c->size() || c->capacity() || c->data() || !c->empty() || c->begin() != c->end()) why = "a vector without memory is not empty"; }
        else if (!noal) { on = "constructors"; auto t = objs(3); VO c1(al[k], t.data(), 3); VO c2(al[k], Obj(next), Obj(next + 1)); Obj arr[2] = {Obj(next), Obj(next + 1)}; VO c3(al[k], arr); VO c4(al[k], (sgt_size_t)cnt); std::vector<int> m2{next, next + 1}, m3{next, next + 1, next + 2}; why = check(c1, m3); if (why.empty()) why = check(c2, m2); if (why.empty()) why = check(c3, m2); if (why.empty() && c4.size()) why = "reserving constructor adds elements"; c4 = arr; if (why.empty()) why = check(c4, m2); HeapVector<Obj> h(arr); h.emplace_back(5); HeapVector<Obj> h2(h); h2 = h; m2.push_back(5); if (why.empty()) why = check(h2, m2); } break;
    }
    if (ta) { ta->fail_at = 0; ta->fail_all = false; }
    if (!*on) continue;
    bool failed = ta && ta->failed != f0;
    if (failed) count("failed allocations");
    if (!reported && !failed && al[k] != nullptr && why.empty()) why = "reported failure although no allocation failed";
    if (reported) mm = want; else { if (x.size() != sz0) mm = want; }
    trace += fmt("v%d.%s(v%d,@%zu,#%zu)%s ", k, on, j, pos, cnt, failed ? "FAIL" : ""); key = on; count("vector operations");
    distinct(fnv(fmt("v %s %d %d %zu %d %d", on, atcap, cap0 == 0, std::min<size_t>(cnt, 3), pos == 0 ? 0 : pos >= mm.size() ? 2 : 1, failed)));
    for (int i = 0; i < 4 && why.empty(); ++i) { why = check(*v[i], m[i]); if (!why.empty()) why = fmt("v%d: ", i) + why; }
    if (why.empty()) { size_t tot = 0; for (auto& e : m) tot += e.size(); if (Obj::live().size() != tot) why = fmt("%zu objects alive, vectors hold %zu", Obj::live().size(), tot); }
    if (why.empty() && !Obj::error().empty()) why = Obj::error();
  }
  if (idx < 2) sample(trace.substr(0, 800));
  for (auto& p : v) p.reset();
  if (why.empty()) { for (auto& t : a) if (!t.imbalance().empty()) { key = "destruction"; why = t.imbalance(); } if (!Obj::live().empty() || !Obj::error().empty()) { key = "destruction"; why = "objects alive " + Obj::error(); } }
  if (!why.empty()) violation("P19:Vector:" + key, why + " | history: " + trace);
}
static std::string checks(const String& s, const std::string& m) {
  if (s.size() != m.size()) return fmt("size() %zu, model %zu ('%s')", (size_t)s.size(), m.size(), m.c_str());
  const char* c = s.c_str(); if (!c) return m.empty() ? "" : "c_str() is null"; if (s.capacity() == 0) return "";
  if (memcmp(c, m.data(), m.size()) != 0) return fmt("text is '%.*s', model '%s'", (int)m.size(), c, m.c_str());
  if (c[m.size()] != 0) return "not terminated behind the last character";
  if (!m.empty() && (s.front() != m.front() || s.back() != m.back())) return "front/back";
  std::string it; for (char ch : s) it += ch; if (it != m) return "iteration"; if ((const char*)(char*)s != c) return "operator char*";
  if (!(s == m.c_str()) || s == (m + "x").c_str() || (m.size() && s == m.substr(1).c_str())) return "operator==(const char*)";
  return "";
}
static void str_case(u64 idx, Rng& r) {
  std::string trace, why, key; TrackAlloc a[2]; IAllocator* al[4] = {&a[0], &a[0], &a[1], nullptr}; std::unique_ptr<String> v[4]; std::string m[4];
  for (int i = 0; i < 4; ++i) v[i].reset(new String(al[i], (const char*)nullptr));
  unsigned n = r.range(20, thorough() ? 160 : 80);
  auto text = [&](size_t len) { std::string t; for (size_t i = 0; i < len; ++i) t += (char)(r.chance(1, 6) ? 0x80 + r.below(100) : 'a' + r.below(26)); return t; };
  for (unsigned s = 0; s < n && why.empty(); ++s) {
    int k = (int)r.below(4), j = (int)r.below(4); String& x = *v[k]; const char* on = ""; auto* ta = (TrackAlloc*)al[k];
    std::string t = text(r.below(r.chance(1, 8) ? 40 : 7)); size_t pos = r.below((u32)m[k].size() + 1), len = r.below((u32)t.size() + 1); bool fail = ta && r.chance(1, 14);
    if (fail) { ta->fail_at = ta->allocs + 1; ta->fail_all = true; } size_t f0 = ta ? ta->failed : 0; const size_t sz0 = m[k].size(), cap0 = x.capacity();
    std::string want = m[k];
    switch (r.below(20)) {
      case 17: { on = "reserve"; size_t c = r.below(40); bool ok = x.reserve(c); if (ok && x.capacity() < c) why = "capacity below reserved"; if (!ok && !fail && al[k]) why = "reserve failed"; } break;
      case 18: on = "= nullptr"; x = (const char*)nullptr; want.clear(); break;
      case 0: on = "= const char*"; x = t.c_str(); want = t; break;
      case 1: on = "+= const char*"; x += t.c_str(); want += t; break;
      case 2: on = j == k ? "+= itself" : "+= String"; x += *v[j]; want += m[j]; break;
      case 3: on = "append(len)"; if (len) { x.append(t.c_str(), len); want += t.substr(0, len); } else { x.append(t.c_str()); want += t; } break;
      case 4: { on = "insert(const char*)"; auto it = x.insert(pos, t.c_str()); want.insert(m[k].empty() ? 0 : pos, t); if (!fail && al[k] && !it && !(t.empty())) why = "insert returned nullptr"; } break;
      case 5: if (len) { on = "insert(const char*,len)"; x.insert(pos, t.c_str(), len); want.insert(pos, t.substr(0, len)); } break;
      case 6: on = j == k ? "insert itself" : "insert(String)"; x.insert(pos, *v[j]); want.insert(pos, std::string(m[j])); break;
      case 19: if (!m[k].empty()) { size_t o = r.below((u32)m[k].size()), l = r.below((u32)(m[k].size() - o) + 1); std::string part = l ? m[k].substr(o, l) : m[k].substr(o); const char* own = x.c_str() + o; switch (r.below(4)) { case 0: on = "append own text"; x.append(own, l); want += part; break; case 1: on = "insert own text"; x.insert(pos, own, l); want.insert(pos, part); break; case 2: on = "+= own text"; x += own; want += m[k].substr(o); break; default: on = "= own text"; x = own; want = m[k].substr(o); } } break;
      case 7: if (!m[k].empty()) { on = "insert behind the end"; auto it = x.insert(m[k].size() + 1 + r.below(3), "zz"); if (it) why = "position behind the end accepted"; } break;
      case 8: on = "emplace_back"; { char c = (char)('A' + r.below(26)); auto p = x.emplace_back(c); want += c; if (p && *p != c) why = "returned element"; if (!p && !fail && al[k]) why = "emplace_back failed"; } break;
      case 9: on = "emplace_back_args"; x.emplace_back_args('x', 'y', 'z'); want += "xyz"; break;
      case 10: on = "clear"; x.clear(); want.clear(); break;
      case 11: on = j == k ? "self copy-assign" : "copy-assign"; x = *v[j]; want = m[j]; if (al[k] == nullptr) al[k] = x.getAllocator(); break;
      case 12: if (!fail) { on = j == k ? "self move-assign" : "move-assign"; String& o = *v[j]; x = std::move(o); if (j != k) { want = m[j]; m[j].clear(); al[k] = al[j]; al[j] = nullptr; } } break;
      case 13: if (!fail && al[k]) { on = "operator+"; { String c = x + *v[j]; why = checks(c, m[k] + m[j]); } if (why.empty()) { String c = x + t.c_str(); why = checks(c, m[k] + t); } } break;
      case 14: if (!fail && al[k]) { on = "substr"; size_t o = r.below((u32)m[k].size() + 3), l = r.below((u32)m[k].size() + 3); String c = x.substr(o, l); why = checks(c, o >= m[k].size() ? "" : m[k].substr(o, l)); } break;
      case 15: on = "compare/hash"; { bool e = m[k] == m[j]; if ((x == *v[j]) != e) why = "operator==(String)"; if (why.empty() && e && Hasher<String>()(x) != Hasher<String>()(*v[j])) why = "equal strings hash differently"; } break;
      case 16: if (!fail && al[k]) { on = "constructors"; String c(al[k], t.c_str()); why = checks(c, t); if (why.empty() && len) { String d(al[k], t.c_str(), len); why = checks(d, t.substr(0, len)); String e(d), f(std::move(d)); if (why.empty()) why = checks(e, t.substr(0, len)); if (why.empty()) why = checks(f, t.substr(0, len)); }
          HeapString h(t.c_str()); HeapString h2(h); h2 += "q"; HeapString h3("lit"); h3 = h2; if (why.empty()) why = checks(h, t); if (why.empty()) why = checks(h3, t + "q"); if (stringLength(t.c_str()) != t.size() + 1) why = "stringLength"; } break;
    }
    if (ta) { ta->fail_at = 0; ta->fail_all = false; }
    if (!*on) continue; bool failed = (ta && ta->failed != f0); if (failed) count("failed allocations");
    if (failed || (al[k] == nullptr && x.size() != want.size())) { // out of memory: the old text stays, or a prefix of the operation was done
      if (x.size() == sz0) want = m[k]; else if (x.size() < want.size() && want.compare(0, x.size(), std::string(x.c_str(), x.size())) == 0) want.resize(x.size()); }
    m[k] = want; trace += fmt("s%d.%s(s%d,'%s',@%zu,#%zu)%s ", k, on, j, t.c_str(), pos, len, failed ? "FAIL" : ""); key = on; count("string operations");
    distinct(fnv(fmt("s %s %d %d %zu %d %d", on, cap0 == 0, (int)std::min<size_t>(sz0, 2), std::min<size_t>(t.size(), 2), pos == 0 ? 0 : pos >= sz0 ? 2 : 1, failed)));
    for (int i = 0; i < 4 && why.empty(); ++i) { why = checks(*v[i], m[i]); if (!why.empty()) why = fmt("s%d: ", i) + why; }
  }
  if (idx < 3) sample(trace.substr(0, 500));
  for (auto& p : v) p.reset();
  if (why.empty()) for (auto& t : a) if (!t.imbalance().empty()) { key = "destruction"; why = t.imbalance(); }
  if (!why.empty()) violation("P19:String:" + key, why + " | history: " + trace);
}
static void num_case(Rng& r) {
  for (int i = 0; i < 40; ++i) {
    u32 v = r.chance(1, 6) ? 0 : r.chance(1, 6) ? ~0u : r.u() >> r.below(32); u32 base = r.range(2, 16); std::string w; { u32 q = v; do { w.insert(w.begin(), "0123456789ABCDEF"[q % base]); q /= base; } while (q); }
    std::vector<char> b(w.size() + 4 + r.below(30), '#'); uintToString(v, b.data(), (unsigned)b.size(), base);
    if (std::string(b.data(), w.size()) != w || b[w.size()] != '#') { violation("P19:uintToString", fmt("value %u base %u gives '%.*s', expected '%s'", v, base, (int)b.size(), b.data(), w.c_str())); return; }
    std::vector<char> e(w.size(), '#'); uintToString(v, e.data(), (unsigned)e.size(), base); if (std::string(e.data(), e.size()) != w) { violation("P19:uintToString", "exact buffer"); return; }
    distinct(fnv(fmt("n %u %zu", base, w.size()))); count("numbers formatted");
  }
}
void hx::run_case(u64 idx, Rng& r) { if (idx % 16 == 15) num_case(r); else if (idx & 1) str_case(idx, r); else vec_case(idx, r); }
