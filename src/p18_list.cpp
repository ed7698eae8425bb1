// P18: List/Entry against a sequence model. Histories of operations on five lists over two allocators;
// after every step the complete link structure of every list is walked in both directions.
#include "obj.h"
#include "spvgentwo/List.h"
#include <memory>
using namespace spvgentwo; using namespace hx;
const Info hx::g_info = {"P18", "random histories (30-120 ops) of List<Obj>/Entry<Obj> operations over 5 lists and 2 allocators incl. failing allocations; after each op links, order, size, lifetimes of all lists are compared with std::vector models; distinct = distinct (op, size-class, position-class, allocator relation) tuples observed", 40000, 600000};
using L = List<Obj>;
namespace {
struct State { TrackAlloc a[2]; std::unique_ptr<L> l[5]; std::vector<int> m[5]; IAllocator* al[5]; std::string trace; };
std::string show(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += fmt("%d ", x); return s + "]"; }
std::string check(State& s, int k) {
  L& l = *s.l[k]; auto& m = s.m[k]; const L& cl = l;
  if (l.size() != m.size()) return fmt("size() is %zu, model has %zu", (size_t)l.size(), m.size());
  if (l.empty() != m.empty()) return fmt("empty() is %d, model size %zu", l.empty(), m.size());
  if (m.empty()) { if (l.begin() != nullptr || l.last() != nullptr || l.lastEntry() != nullptr) return "empty list has begin/last"; return ""; }
  size_t i = 0; const Entry<Obj>* prev = nullptr;
  for (auto e = l.begin().entry(); e; e = e->next()) {
    if (i >= m.size()) return "more elements than the model"; if (e->prev() != prev) return fmt("back link of element %zu wrong", i);
    if (e->inner().v != m[i]) return fmt("element %zu is %d, model %d %s", i, e->inner().v, m[i], show(m).c_str()); e->inner().chk("listed object is dead"); prev = e; ++i; }
  if (i != m.size()) return fmt("only %zu of %zu elements reachable from begin()", i, m.size());
  if (l.lastEntry() != prev || l.last().entry() != prev) return "last() is not the final element";
  i = m.size(); for (auto it = l.last(); it != nullptr; --it) { if (i == 0) return "more elements backwards"; --i; if ((*it).v != m[i]) return fmt("backwards: element %zu differs", i); }
  if (i) return "not all elements reachable backwards";
  i = 0; for (const Obj& o : cl) { if (o.v != m[i++]) return "range-for differs"; }
  if (l.front().v != m.front() || l.back().v != m.back()) return "front()/back() differ";
  if (l.lastEntry()->first() != l.begin().entry() || l.begin().entry()->last() != l.lastEntry()) return "Entry::first()/last() differ";
  return "";
}
}
void hx::init() {} void hx::finish() { count("object lifetime events", Obj::ops()); }
// Standalone Entry chains
static void entry_case(Rng& r) {
  TrackAlloc a; std::vector<int> m; std::string tr; Entry<Obj>* head = nullptr; int next = 1;
  Obj::error().clear(); Obj::live().clear();
  unsigned n = r.range(5, 50);
  for (unsigned step = 0; step < n; ++step) {
    if (!head) { head = Entry<Obj>::create(&a, next); m.push_back(next++); tr += "create; "; }
    size_t p = r.below((u32)m.size()); Entry<Obj>* at = head; for (size_t i = 0; i < p; ++i) at = at->next();
    int op = (int)r.below(7); const char* on = "";
    switch (op) {
      case 0: on = "emplace_back"; { auto e = at->emplace_back(&a, next); if (!e || e->inner().v != next) { violation("P18:entry:emplace_back", tr); return; } m.push_back(next++); } break;
      case 1: on = "emplace_front"; { auto e = at->emplace_front(&a, next); if (!e || e->inner().v != next) { violation("P18:entry:emplace_front", tr); return; } head = e; m.insert(m.begin(), next++); } break;
      case 2: on = "insertBefore"; { auto e = at->insertBefore(&a, next); if (p == 0) head = e; m.insert(m.begin() + p, next++); } break;
      case 3: on = "insertAfter"; { at->insertAfter(&a, next); m.insert(m.begin() + p + 1, next++); } break;
      case 4: on = "remove"; { auto e = at->remove(&a); if (p == 0) head = e; int want = p + 1 < m.size() ? m[p + 1] : -1; if ((e ? e->inner().v : -1) != want) { violation("P18:entry:remove-result", tr); return; } m.erase(m.begin() + p); } break;
      case 5: on = "remove-append"; { auto nx = at->remove(nullptr); if (p == 0) head = nx; int v = m[p]; m.erase(m.begin() + p);
          Entry<Obj>* fresh = Entry<Obj>::create(&a, v); a.destruct(at); if (!head) { head = fresh; m.push_back(v); } else if (r.coin()) { head->append(fresh); m.push_back(v); } else { head = head->prepend(fresh); m.insert(m.begin(), v); } } break;
      case 6: on = "move-assign"; { Entry<Obj> tmp(next); *at = std::move(tmp); m[p] = next++; } break;
    }
    tr += fmt("%s@%zu; ", on, p); count("entry operations"); distinct(fnv(fmt("entry %s %zu %d", on, std::min<size_t>(m.size(), 3), p == 0 ? 0 : p + 1 >= m.size() ? 2 : 1)));
    size_t i = 0; const Entry<Obj>* prev = nullptr; std::string bad;
    for (auto e = head; e; e = e->next()) { if (i >= m.size()) { bad = "too many"; break; } if (e->prev() != prev) { bad = fmt("back link of %zu", i); break; } if (e->inner().v != m[i]) { bad = fmt("value at %zu", i); break; } prev = e; ++i; }
    if (bad.empty() && i != m.size()) bad = "too few"; if (bad.empty() && !Obj::error().empty()) bad = Obj::error();
    if (bad.empty() && head && (head->last() != prev || prev->first() != head)) bad = "first/last";
    if (!bad.empty()) { violation(fmt("P18:entry:%s", on), bad + " after " + tr); return; }
  }
  if (head) head->destroyList(&a);
  if (!a.imbalance().empty()) violation("P18:entry:balance", a.imbalance() + tr);
  if (!Obj::live().empty() || !Obj::error().empty()) violation("P18:entry:lifetime", Obj::error() + tr);
}
void hx::run_case(u64 idx, Rng& r) {
  if (idx % 5 == 4) { entry_case(r); return; }
  Obj::error().clear(); Obj::live().clear();
  State s; int next = 1;
  for (int i = 0; i < 5; ++i) { s.al[i] = i == 4 ? nullptr : &s.a[i / 2]; s.l[i].reset(new L(s.al[i])); }
  unsigned n = r.range(30, thorough() ? 200 : 90);
  std::string key, why;
  for (unsigned step = 0; step < n && why.empty(); ++step) {
    int k = (int)r.below(5), j = (int)r.below(5); L& l = *s.l[k]; auto& m = s.m[k]; const char* on = "";
    size_t pos = m.empty() ? 0 : r.below((u32)m.size()); bool fail = r.chance(1, 25);
    if (s.al[k] == nullptr) { // lists without allocator: adopt one, or receive by assignment
      int o = (int)r.below(4);
      if (o == 0) { on = "setAllocator"; s.al[k] = &s.a[r.below(2)]; l.setAllocator(s.al[k]); l.setAllocator(&s.a[0]); if (l.getAllocator() != s.al[k]) why = "setAllocator replaced an allocator"; }
      else if (o == 1 && j != k) { on = "copy-assign(no allocator)"; l = *s.l[j]; m = s.m[j]; s.al[k] = l.getAllocator(); if (!m.empty() && !s.al[k]) why = "no allocator after assignment"; }
      else if (o == 2 && j != k) { on = "move-assign(no allocator)"; l = std::move(*s.l[j]); m = s.m[j]; s.m[j].clear(); s.al[k] = s.al[j]; s.al[j] = nullptr; }
      else { on = "clear(no allocator)"; l.clear(); }
    } else {
      TrackAlloc* ta = (TrackAlloc*)s.al[k];
      u32 o = r.below(24);
      if (fail && o <= 6) { ta->fail_at = ta->allocs + 1; Entry<Obj>* e = nullptr;
        switch (o) { case 0: case 1: on = "emplace_back_entry(fail)"; e = l.emplace_back_entry(next); break; case 2: case 3: on = "emplace_front_entry(fail)"; e = l.emplace_front_entry(next); break;
          case 4: case 5: if (!m.empty()) { on = "insert_before(fail)"; e = l.insert_before(l.begin() + (unsigned)pos, next); } break; default: if (!m.empty()) { on = "insert_after(fail)"; e = l.insert_after(l.begin() + (unsigned)pos, next); } }
        ta->fail_at = 0; if (e) why = "returned an entry although the allocation failed"; count("failed allocations");
      } else switch (o) {
        case 0: on = "emplace_back"; { Obj& x = l.emplace_back(next); m.push_back(next++); if (&x != &l.back()) why = "returned reference"; } break;
        case 1: on = "emplace_front"; { Obj& x = l.emplace_front(next); m.insert(m.begin(), next++); if (&x != &l.front()) why = "returned reference"; } break;
        case 2: on = "emplace_back_entry"; { auto e = l.emplace_back_entry(next); m.push_back(next++); if (e != l.lastEntry()) why = "returned entry"; } break;
        case 3: on = "emplace_front_entry"; { auto e = l.emplace_front_entry(next); m.insert(m.begin(), next++); if (e != l.begin().entry()) why = "returned entry"; } break;
        case 4: case 5: if (!m.empty()) { on = "insert_before"; auto e = l.insert_before(l.begin() + (unsigned)pos, next); m.insert(m.begin() + pos, next); if (!e || e->inner().v != next) why = "returned entry"; ++next; } break;
        case 6: case 7: if (!m.empty()) { on = "insert_after"; auto e = l.insert_after(l.begin() + (unsigned)pos, next); m.insert(m.begin() + pos + 1, next); if (!e || e->inner().v != next) why = "returned entry"; ++next; } break;
        case 8: case 9: if (!m.empty()) { on = "erase"; auto e = l.erase(l.begin() + (unsigned)pos); int want = pos + 1 < m.size() ? m[pos + 1] : -1; m.erase(m.begin() + pos); if ((e ? e->inner().v : -1) != want) why = "returned entry is not the successor"; } break;
        case 10: if (!m.empty()) { on = "pop_back"; Obj x = l.pop_back(); if (x.v != m.back()) why = "value"; m.pop_back(); } break;
        case 11: if (!m.empty()) { on = "pop_front"; Obj x = l.pop_front(); if (x.v != m.front()) why = "value"; m.erase(m.begin()); } break;
        case 12: on = "clear"; l.clear(); m.clear(); break;
        case 13: case 14: on = j == k ? "self copy-assign" : "copy-assign"; l = *s.l[j]; m = s.m[j]; break;
        case 15: on = j == k ? "self move-assign" : "move-assign"; { L& o2 = *s.l[j]; l = std::move(o2); if (j != k) { m = s.m[j]; s.m[j].clear(); s.al[k] = s.al[j]; s.al[j] = nullptr; } } break;
        case 16: on = "copy-construct"; { L c(*s.l[j]); std::vector<int> keep = s.m[j]; size_t i = 0; for (Obj& x : c) if (i >= keep.size() || x.v != keep[i++]) why = "copy differs"; if (i != keep.size() || c.size() != keep.size()) why = "copy size"; if (s.al[j]) c.emplace_back(-1); } break;
        case 17: on = "move-construct"; { std::unique_ptr<L> c(new L(std::move(*s.l[j]))); if (!s.l[j]->empty() || s.l[j]->size() || s.l[j]->getAllocator()) why = "moved-from list not empty"; s.l[j] = std::move(c); } break;
        case 18: on = "find"; { int v = m.empty() || r.coin() ? next + 5 : m[pos]; auto it = l.find(v); size_t w = (size_t)(std::find(m.begin(), m.end(), v) - m.begin()); auto it2 = l.find_if([v](const Obj& x) { return x.v == v; }); bool f = w < m.size(); if ((it != nullptr) != f || it != it2 || l.contains(v) != f || (f && (*it).v != v)) why = "find/contains"; } break;
        case 19: on = "compare"; { bool e = s.m[j] == m; if ((l == *s.l[j]) != e || (l != *s.l[j]) == e) why = "operator==/!="; } break;
        case 20: if (!m.empty()) { on = "iterator arithmetic"; u32 d = r.below((u32)m.size() + 3); auto it = l.begin() + d; if ((it != nullptr) != (d < m.size()) || (it != nullptr && (*it).v != m[d])) why = "begin()+n"; auto b = l.last() - d; if ((b != nullptr) != (d < m.size()) || (b != nullptr && (*b).v != m[m.size() - 1 - d])) why = "last()-n"; auto p = l.begin(); auto q = p++; if (q != l.begin() || p != l.begin().next()) why = "post-increment"; auto t = l.last(); auto t2 = t--; if (t2 != l.last() || t != l.last().prev()) why = "post-decrement"; } break;
        case 21: if (!m.empty() && j != k && s.al[j] == s.al[k]) { on = "erase(keep)+append to other list"; Entry<Obj>* e = (l.begin() + (unsigned)pos).entry(); int v = m[pos]; l.erase(l.begin() + (unsigned)pos, false); m.erase(m.begin() + pos); if (e->next() || e->prev()) why = "the removed entry is still linked"; else if (r.coin()) { s.l[j]->append_entry(e); s.m[j].push_back(v); } else { s.l[j]->prepend_entry(e); s.m[j].insert(s.m[j].begin(), v); } } break;
        case 22: on = "list constructor"; { L c(s.al[k], Obj(next), Obj(next + 1), Obj(next + 2)); int i = 0; for (Obj& x : c) if (x.v != next + i++) why = "values"; if (c.size() != 3) why = "size"; } break;
        case 23: on = "prepend_entry"; { auto e = l.prepend_entry(Entry<Obj>::create(s.al[k], next)); m.insert(m.begin(), next++); if (e != l.begin().entry()) why = "returned entry"; } break;
      }
    }
    if (!*on) continue;
    s.trace += fmt("L%d.%s(L%d,@%zu) ", k, on, j, pos); key = on; count("list operations");
    distinct(fnv(fmt("%s %zu %d %zu %d", on, std::min<size_t>(m.size(), 3), pos == 0 ? 0 : pos + 1 >= m.size() ? 2 : 1, std::min<size_t>(s.m[j].size(), 3), s.al[k] == s.al[j])));
    for (int i = 0; i < 5 && why.empty(); ++i) { std::string w = check(s, i); if (!w.empty()) why = fmt("L%d: ", i) + w; }
    if (why.empty()) { size_t tot = 0; for (auto& v : s.m) tot += v.size(); if (Obj::live().size() != tot) why = fmt("%zu objects alive, lists hold %zu", Obj::live().size(), tot); }
    if (why.empty() && !Obj::error().empty()) why = Obj::error();
  }
  if (idx < 2) sample(s.trace.substr(0, 900));
  for (auto& l : s.l) l.reset();
  if (why.empty()) { for (int i = 0; i < 2; ++i) if (!s.a[i].imbalance().empty()) { key = "destruction"; why = s.a[i].imbalance(); } if (!Obj::live().empty()) { key = "destruction"; why = "objects alive after destruction"; } if (!Obj::error().empty()) { key = "destruction"; why = Obj::error(); } }
  if (!why.empty()) violation("P18:" + key, why + " | history: " + s.trace);
}
