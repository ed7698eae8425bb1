// P21: Graph/Node, ExprGraph/Expression and Callable against models.
#include "obj.h"
#include "common/ExprGraph.h"
#include "common/Callable.h"
#include "common/HeapCallable.h"
#include <memory>
#include <algorithm>
#include <cstdarg>
#include <cstring>
using namespace spvgentwo; using namespace hx;
const Info hx::g_info = {"P21", "three kinds of cases: (1) random histories (20-120 ops) of Graph/Node emplace, connect (multi edges, self loops, edge data), disconnect, erase, node move, graph move, clear, after each of which all edge lists are compared to a model; (2) random DAGs (1-40 nodes, multi edges, deep chains) evaluated by ExprGraph recursively from random exits, again after reset, and explicitly, with the complete call trace and the arguments checked; (3) random histories of Callable/HeapCallable construction from functors, lambdas, functions, member functions, copies, moves, re-assignments, self-assignment, reset and invocation, with functor lifetimes, identities, states and arguments checked", 24000, 900000};
void hx::init() {}
void hx::finish() {}
namespace {
struct EdgeVal { std::string s; int v = 0; EdgeVal() = default; EdgeVal(int i) : s(fmt("edge number %d with some text", i)), v(i) {} EdgeVal(std::string t, int i) : s(std::move(t)), v(i) {} bool is(int i) const { return v == i && s == fmt("edge number %d with some text", i); } };
// ---------------------------------------------------------------- graphs
using Gr = Graph<Obj, EdgeVal>; using No = Gr::NodeType;
struct MN { No* p; int id; std::vector<std::pair<int, int>> in, out; }; // (node id, edge id)
struct MG { std::vector<MN> n; MN* find(int id) { for (auto& x : n) if (x.id == id) return &x; return nullptr; } };
std::string check(Gr& g, MG& m) {
  if (g.size() != m.n.size() || g.empty() != m.n.empty()) return fmt("size %zu, model %zu", (size_t)g.size(), m.n.size()); size_t k = 0; std::map<const No*, int> id; for (auto& x : m.n) id[x.p] = x.id;
  for (No& n : g) { if (k >= m.n.size()) return "too many nodes"; MN& x = m.n[k++]; if (&n != x.p) return fmt("node %d has moved", x.id); n.data().chk("node data is dead"); if (n.data().v != x.id) return fmt("node data %d, model %d", n.data().v, x.id);
    auto cmp = [&](const List<No::EdgeType>& l, const std::vector<std::pair<int, int>>& e, const char* w) -> std::string { if (l.size() != e.size()) return fmt("node %d has %zu %s, model %zu", x.id, (size_t)l.size(), w, e.size()); size_t i = 0; for (auto& ed : l) { auto q = id.find(ed.pTarget); if (q == id.end()) return fmt("node %d: %s %zu refers to a node which is not in the graph", x.id, w, i); if (q->second != e[i].first) return fmt("node %d: %s %zu is node %d, model %d", x.id, w, i, q->second, e[i].first); if (!ed.data.is(e[i].second)) return fmt("node %d: %s %zu has data '%s', expected edge %d", x.id, w, i, ed.data.s.c_str(), e[i].second); ++i; } return ""; };
    const No& cn = n; if (std::string s = cmp(cn.inputs(), x.in, "inputs"); !s.empty()) return s; if (std::string s = cmp(cn.outputs(), x.out, "outputs"); !s.empty()) return s; }
  if (k != m.n.size()) return "not all nodes are reachable"; if (k) { const Gr& c = g; if (&g.front() != m.n.front().p || &c.front() != m.n.front().p) return "front() is not the first node"; if (&g.back() != m.n.back().p || &c.back() != m.n.back().p) return "back() is not the last node"; } return ""; }
void rm(std::vector<std::pair<int, int>>& v, int id) { for (size_t i = 0; i < v.size(); ++i) if (v[i].first == id) { v.erase(v.begin() + (long)i); return; } }
void drop(MG& m, int id) { for (auto& x : m.n) { auto f = [&](auto& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return p.first == id; }), v.end()); }; f(x.in); f(x.out); } }
void ren(MG& m, int from, int to) { for (auto& x : m.n) for (auto* v : {&x.in, &x.out}) for (auto& p : *v) if (p.first == from) p.first = to; }
void graphs(Rng& r) {
  TrackAlloc al, al2; std::string trace; { auto g = std::make_unique<Gr>(&al); MG m; int nid = 1, eid = 1; u64 h = 0; for (u32 step = 0, n = r.range(20, 120); step < n; ++step) { u32 op = r.below(m.n.size() < 2 ? 2 : 20); h = h * 31 + op; auto pick = [&]() -> MN& { return m.n[r.below((u32)m.n.size())]; };
      if (m.n.size() < 2 || op < 3) { int id = nid++; No* p = g->emplace(id); m.n.push_back({p, id, {}, {}}); trace = fmt("emplace %d", id); count("g_emplace"); }
      else if (op < 10) { MN &a = pick(), &b = pick(); int e = eid++; if (r.coin()) a.p->connect(b.p, e); else { EdgeVal v(e); if (r.coin()) a.p->connect(b.p, v); else a.p->connect(b.p, std::move(v)); } a.out.push_back({b.id, e}); b.in.push_back({a.id, e}); trace = fmt("connect %d %d edge %d", a.id, b.id, e); count(&a == &b ? "g_selfloop" : "g_connect"); }
      else if (op < 13) { MN &a = pick(), &b = pick(); a.p->disconnect(b.p); rm(a.out, b.id); rm(b.in, a.id); trace = fmt("disconnect %d %d", a.id, b.id); count("g_disconnect"); }
      else if (op < 16) { u32 k = r.below((u32)m.n.size()); auto it = g->begin(); for (u32 i = 0; i < k; ++i) ++it; int id = m.n[k].id; trace = fmt("erase %d", id); auto nx = g->erase(it); m.n.erase(m.n.begin() + k); drop(m, id); if ((k < m.n.size()) != (nx != nullptr) || (nx != nullptr && &*nx != m.n[k].p)) violation("erase-iterator", trace); count("g_erase"); }
      else if (op == 16) { auto ng = r.coin() ? std::make_unique<Gr>(&al) : std::make_unique<Gr>(&al2); bool assign = r.coin(); if (assign) { if (r.coin()) { auto* x = ng->emplace(777); auto* y = ng->emplace(778); x->connect(y, 1); } Gr& res = (*ng = std::move(*g)); if (&res != ng.get()) violation("move-assign-result", "not the graph itself"); if (g->size()) violation("moved-from", "not empty"); g = std::move(ng); trace = "graph move assign"; } else { auto q = std::make_unique<Gr>(std::move(*g)); if (g->size()) violation("moved-from", "not empty"); g = std::move(q); trace = "graph move construct"; } count("g_move"); }
      else if (op == 17 && r.chance(1, 8)) { g->clear(); m.n.clear(); trace = "clear"; count("g_clear"); }
      else if (op == 18) { MN &a = pick(), &b = pick(); if (&a == &b) { No* p = a.p; *a.p = std::move(*p); trace = fmt("node self move %d", a.id); } else { // a takes over data and edges of b
          trace = fmt("node move %d = %d", a.id, b.id); *a.p = std::move(*b.p); int ai = a.id, bi = b.id; drop(m, ai); a.in = b.in; a.out = b.out; b.in.clear(); b.out.clear(); ren(m, bi, ai); int nb = nid++; (void)nb; a.id = bi; ren(m, ai, bi); No* bp = b.p; auto it = g->begin(); while (&*it != bp) ++it; g->erase(it); for (size_t k = 0; k < m.n.size(); ++k) if (m.n[k].p == bp) { m.n.erase(m.n.begin() + (long)k); break; } } count("g_node_move"); }
      else { // a node is replaced by one which is constructed from it
        MN& a = pick(); No tmp(std::move(*a.p)); if (tmp.data().v != a.id) violation("node-move-data", trace); if (!a.p->inputs().empty() || !a.p->outputs().empty()) violation("moved-node-edges", "the moved node still has edges"); bool ok = true; for (auto& x : m.n) if (&x != &a) for (auto* l : {&x.p->outputs(), &x.p->inputs()}) for (auto& e : *l) ok &= e.pTarget != a.p; if (!ok) violation("moved-node-neighbour", "a neighbour refers to the old node"); *a.p = std::move(tmp); trace = fmt("node move out and in %d", a.id); count("g_node_roundtrip"); }
      if (std::string e = check(*g, m); !e.empty()) { violation("graph:" + trace.substr(0, trace.find(' ')), e + " after " + trace); return; } if (!Obj::error().empty()) { violation("graph-object", Obj::error() + " after " + trace); Obj::error().clear(); return; } } distinct(h); }
  if (!Obj::live().empty()) { violation("graph-leak", fmt("%zu objects alive", Obj::live().size())); Obj::live().clear(); } for (auto* a : {&al, &al2}) if (std::string e = a->imbalance(); !e.empty()) violation("graph-alloc", e); }
// ---------------------------------------------------------------- expression graphs
struct Ev { int id; std::vector<int> in, out; };
struct Fn { int id = 0; std::vector<Ev>* trace = nullptr; u64 value = 0; Obj life;
  void operator()(const List<Fn*>& in, const List<Fn*>& out) { Ev e{id, {}, {}}; value = (u64)id; for (auto* f : in) { e.in.push_back(f->id); value = value * 1000003 + f->value; } for (auto* f : out) e.out.push_back(f->id); trace->push_back(e); }
  template <class L> auto operator()(L& in, L& out) -> std::enable_if_t<!std::is_pointer_v<std::remove_const_t<typename L::ValueType>>> { Ev e{id, {}, {}}; value = (u64)id; for (auto& x : in) { e.in.push_back(x.pTarget->data()->id); value = value * 1000003 + x.pTarget->data()->value; } for (auto& x : out) e.out.push_back(x.pTarget->data()->id); trace->push_back(e); } };
template <ExprArgs A> void exprs(Rng& r) {
  TrackAlloc al; { ExprGraph<Fn> g(&al); std::vector<Ev> trace; u32 n = r.chance(1, 30) ? r.range(100, 1500) : r.range(1, 40); std::vector<typename ExprGraph<Fn>::NodeType*> p; std::vector<std::vector<int>> in(n), out(n); u64 h = n; bool chain = n >= 100; // node i only has inputs j < i, but the nodes are created in random order
    std::vector<u32> order(n); for (u32 i = 0; i < n; ++i) order[i] = i; for (u32 i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); p.resize(n); for (u32 k = 0; k < n; ++k) { Fn f; f.id = (int)order[k]; f.trace = &trace; p[order[k]] = r.coin() ? g.emplace(f) : g.emplace(Expression<Fn>(std::move(f))); }
    for (u32 i = 1; i < n; ++i) for (u32 k = 0, d = chain ? 1 + r.below(2) : r.below(5); k < d; ++k) { u32 j = chain && !k ? i - 1 : r.below(i); p[j]->connect(p[i]); in[i].push_back((int)j); out[j].push_back((int)i); h = h * 131 + i * 7 + j; if (r.chance(1, 6)) { p[j]->connect(p[i]); in[i].push_back((int)j); out[j].push_back((int)i); } } distinct(h);
    std::vector<bool> done(n, false); std::vector<u64> value(n, 0); for (u32 i = 0; i < n; ++i) { value[i] = i; for (int j : in[i]) value[i] = value[i] * 1000003 + value[(size_t)j]; }
    auto verify = [&](const std::vector<bool>& want, const char* how) { std::vector<int> times(n, 0); for (auto& e : trace) { if (e.id < 0 || (u32)e.id >= n) { violation(std::string("unknown-node:") + how, fmt("%d", e.id)); return; } if (times[(size_t)e.id]++) violation(std::string("twice:") + how, fmt("node %d was evaluated twice", e.id)); if (done[(size_t)e.id]) violation(std::string("again:") + how, fmt("node %d was evaluated although it already was", e.id)); for (int j : in[(size_t)e.id]) if (!done[(size_t)j] && !times[(size_t)j]) violation(std::string("too-early:") + how, fmt("node %d before its input %d", e.id, j)); if (e.in != in[(size_t)e.id]) violation(std::string("inputs:") + how, fmt("node %d got other inputs", e.id)); if (e.out != out[(size_t)e.id]) violation(std::string("outputs:") + how, fmt("node %d got other outputs", e.id)); }
      for (u32 i = 0; i < n; ++i) { if (want[i] && !done[i] && !times[i]) violation(std::string("missing:") + how, fmt("node %u was not evaluated", i)); if (!want[i] && times[i]) violation(std::string("unreachable:") + how, fmt("node %u was evaluated", i)); if (times[i]) done[i] = true; if (done[i] != p[i]->data().evaluated() || done[i] != (bool)p[i]->data()) violation(std::string("state:") + how, fmt("node %u evaluated() is %d", i, p[i]->data().evaluated())); if (done[i] && p[i]->data()->value != value[i]) violation(std::string("value:") + how, fmt("node %u", i)); } count("evaluations", trace.size()); trace.clear(); };
    auto reach = [&](u32 e) { std::vector<bool> w(n, false); std::vector<u32> st{e}; while (!st.empty()) { u32 x = st.back(); st.pop_back(); if (w[x]) continue; w[x] = true; if (done[x]) continue; for (int j : in[x]) st.push_back((u32)j); } return w; };
    for (u32 round = 0, k = r.range(1, 4); round < k; ++round) { for (u32 q = 0, c = r.range(1, 3); q < c; ++q) { u32 e = r.coin() ? n - 1 : r.below(n); auto w = reach(e); for (u32 i = 0; i < n; ++i) if (done[i]) w[i] = false; ExprGraph<Fn>::template evaluateRecursive<A>(p[e]); verify(w, "recursive"); }
      g.resetEvaluationState(); done.assign(n, false); for (u32 i = 0; i < n; ++i) if (p[i]->data().evaluated()) violation("reset", fmt("node %u still counts as evaluated", i));
      if (r.coin()) { List<typename ExprGraph<Fn>::NodeType*> l(&al); std::vector<bool> w(n, false); u32 m = r.coin() ? n : r.below(n + 1); for (u32 i = 0; i < m; ++i) { l.emplace_back(p[i]); w[i] = true; } bool dup = m && r.chance(1, 4); if (dup) { u32 d = r.below(m); l.emplace_back(p[d]); } bool ok = ExprGraph<Fn>::template evaluateExplicit<A>(l); if (ok == dup) violation("explicit-result", fmt("%d with %s nodes", ok, dup ? "repeated" : "unique")); verify(w, "explicit"); count("explicit"); g.resetEvaluationState(); done.assign(n, false); } } }
  if (!Obj::error().empty()) { violation("expr-object", Obj::error()); Obj::error().clear(); } if (!Obj::live().empty()) { violation("expr-leak", ""); Obj::live().clear(); } if (std::string e = al.imbalance(); !e.empty()) violation("expr-alloc", e); }
// ---------------------------------------------------------------- callables
int g_called = 0; // id of the function which ran last
struct Arg { Obj o; Arg(int v) : o(v) {} };
template <int N> int fn(int& a, const std::string& s, Arg b) { g_called = N; a += N; return (int)s.size() + b.o.v; }
struct Mem { int id; int state = 0; int f(int& a, const std::string& s, Arg b) { g_called = id; ++state; a += id; return (int)s.size() + b.o.v; } };
struct Small { int id; Obj life; int n = 0; int operator()(int& a, const std::string& s, Arg b) { life.chk("called functor is dead"); g_called = id; ++n; a += id + 1000 * n; return (int)s.size() + b.o.v; } };
struct Big { int id; Obj life; char pad[200]; std::string text; int n = 0; Big(int i) : id(i), life(i), text(fmt("functor %d with text beyond the small string size", i)) { memset(pad, i & 127, sizeof pad); } int operator()(int& a, const std::string& s, Arg b) { life.chk("called functor is dead"); for (char c : pad) if (c != (id & 127)) g_called = -1; if (text != fmt("functor %d with text beyond the small string size", id)) g_called = -2; else g_called = id; ++n; a += id + 1000 * n; return (int)s.size() + b.o.v; } };
using Sig = int(int&, const std::string&, Arg);
struct Slot { int id = 0; int n = -1; bool has = false; Mem* mem = nullptr; }; // n: number of calls of a stateful functor, -1: stateless
template <class C, bool Heap> void callables(Rng& r) {
  TrackAlloc al[2]; { Mem mem[3]; for (int i = 0; i < 3; ++i) mem[i].id = 5000 + i; std::unique_ptr<C> c[6]; Slot m[6]; int next = 1; u64 h = 0; std::string trace; size_t live0 = Obj::live().size();
    auto fresh = [&](u32 i, auto&& f) { if constexpr (Heap) c[i] = std::make_unique<C>(std::forward<decltype(f)>(f)); else c[i] = std::make_unique<C>(&al[r.below(2)], std::forward<decltype(f)>(f)); };
    for (u32 step = 0, n = r.range(20, 100); step < n; ++step) { u32 i = r.below(6), j = r.below(6), op = r.below(16); if (!c[i] && op > 5) op = r.below(6); h = h * 37 + op * 6 + i; int id = next++; trace = fmt("op %u slot %u %u", op, i, j);
      switch (op) { case 0: { if (r.coin()) fresh(i, Small{id, Obj(id)}); else { Small s{id, Obj(id)}; if (r.coin()) fresh(i, s); else { const Small& q = s; fresh(i, q); } } m[i] = {id, 0, true}; break; }
        case 1: { if (r.coin()) fresh(i, Big(id)); else { const Big b(id); fresh(i, b); } m[i] = {id, 0, true}; break; }
        case 2: { int k = id; Obj o(id); auto l = [k, o](int& a, const std::string& s, Arg b) { o.chk("capture is dead"); g_called = k; a += k; return (int)s.size() + b.o.v; }; if (r.coin()) fresh(i, l); else fresh(i, std::move(l)); m[i] = {id, -1, true}; break; }
        case 3: { if (r.coin()) { fresh(i, &fn<7001>); m[i] = {7001, -1, true}; } else { fresh(i, fn<7002>); m[i] = {7002, -1, true}; } break; }
        case 4: { Mem* q = &mem[r.below(3)]; if constexpr (Heap) c[i] = std::make_unique<C>(q, &Mem::f); else if (r.coin()) c[i] = std::make_unique<C>(&al[0], q, &Mem::f); else c[i] = std::make_unique<C>(make_callable((IAllocator*)&al[1], q, &Mem::f)); m[i] = {q->id, -1, true, q}; break; }
        case 5: { if (c[j] && i != j) { if (r.coin()) { c[i] = std::make_unique<C>(*c[j]); m[i] = m[j]; trace += " copy"; } else if (r.coin()) { const C& q = *c[j]; c[i] = std::make_unique<C>(q); m[i] = m[j]; trace += " copy const"; } else { c[i] = std::make_unique<C>(std::move(*c[j])); m[i] = m[j]; m[j] = Slot{}; trace += " move"; } } break; }
        case 6: { if (!c[j]) break; if (r.coin()) *c[i] = *c[j]; else { const C& q = *c[j]; C& x = (*c[i] = q); if (&x != c[i].get()) violation("assign-result", trace); } m[i] = m[j]; trace += i == j ? " self assign" : " copy assign"; count(i == j ? "c_self" : "c_assign"); break; }
        case 7: { if (!c[j]) break; C& q = *c[j]; *c[i] = std::move(q); if (i != j) { m[i] = m[j]; m[j] = Slot{}; } trace += i == j ? " self move" : " move assign"; count("c_moveassign"); break; }
        case 8: { if (r.coin()) *c[i] = Small{id, Obj(id)}; else { Small s{id, Obj(id)}; *c[i] = s; } m[i] = {id, 0, true}; trace += " assign functor"; break; }
        case 9: { if (r.coin()) { *c[i] = &fn<7003>; m[i] = {7003, -1, true}; } else { *c[i] = Big(id); m[i] = {id, 0, true}; } trace += " assign"; break; }
        case 10: { c[i]->reset(); m[i] = Slot{}; trace += " reset"; break; }
        case 11: { if (r.chance(1, 3)) { c[i].reset(); m[i] = Slot{}; trace += " destroy"; } break; }
        default: break; }
      size_t owners = 0; for (u32 k = 0; k < 6; ++k) { if (!c[k]) continue; C& f = *c[k]; if ((bool)f != m[k].has) { violation("bool", fmt("slot %u is %d, model %d after ", k, (bool)f, m[k].has) + trace); return; } if (!m[k].has) continue; (void)owners; if (k != i && !r.chance(1, 4)) continue;
        int a = 17, st = m[k].mem ? m[k].mem->state : 0; std::string s(r.below(40), 'x'); g_called = 0; int res = f(a, s, Arg((int)step)); count("c_calls"); int wa = 17 + m[k].id + (m[k].n >= 0 ? 1000 * ++m[k].n : 0); if (g_called != m[k].id) violation("wrong-functor", fmt("slot %u called %d, expected %d after ", k, g_called, m[k].id) + trace); else if (a != wa) violation("argument", fmt("reference argument is %d, expected %d after ", a, wa) + trace); if (res != (int)(s.size() + step)) violation("result", fmt("%d after ", res) + trace); if (m[k].mem && m[k].mem->state != st + 1) violation("member", trace); }
      if (!Obj::error().empty()) { violation("callable-object", Obj::error() + " after " + trace); Obj::error().clear(); return; } size_t want = live0; for (u32 k = 0; k < 6; ++k) if (m[k].has && m[k].id < 5000) ++want; if (Obj::live().size() != want) { violation("functor-lifetime", fmt("%zu functors alive, expected %zu after ", Obj::live().size(), want) + trace); return; } }
    distinct(h); }
  if (!Obj::live().empty()) { violation("callable-leak", ""); Obj::live().clear(); } for (auto& a : al) if (std::string e = a.imbalance(); !e.empty()) violation("callable-alloc", e); }
int va(int n, ...) { va_list l; va_start(l, n); int s = 0; for (int i = 0; i < n; ++i) s += va_arg(l, int); va_end(l); return s; } int vb(int n, ...) { return n * 100; }
void misc(Rng& r) { TrackAlloc al; { IAllocator* ia = &al; auto c = make_callable(ia, &va); auto d = make_callable(ia, &vb); int x = r.range(1, 50), y = r.range(1, 50); if (c(2, x, y) != x + y) violation("variadic", ""); auto e = c; if (e(3, x, y, 1) != x + y + 1) violation("variadic-copy", ""); e = d; if (e(3, x) != 300) violation("variadic-assign", ""); e = &va; if (e(1, y) != y) violation("variadic-assign-function", ""); Mem m{9}; auto f = make_memeber_func(&m, &Mem::f); int a = 1; if (!f || f(a, "ab", Arg(3)) != 5 || a != 10) violation("member-func", ""); auto g = maker_func(&fn<5>); if (!g || g(a, "abc", Arg(3)) != 6 || a != 15) violation("func", "");
    auto h = make_callable(ia, &fn<6>); if (h(a, "", Arg(2)) != 2 || a != 21) violation("make_callable", ""); Callable<std::unique_ptr<int>(std::unique_ptr<int>)> mo(&al, [](std::unique_ptr<int> p) { *p += 1; return p; }); if (*mo(std::make_unique<int>(4)) != 5) violation("move-only-argument", ""); Callable<Sig> em(&al), e2; Callable<Sig> e3(em); em = e2; e2 = e3; if (em || e2 || e3) violation("empty", ""); auto hc = make_callable(&fn<8>); if (hc(a, "", Arg(0)) != 0 || a != 29) violation("heap-make_callable", ""); auto hm = make_callable(&m, &Mem::f); if (hm(a, "q", Arg(0)) != 1 || m.state != 2) violation("heap-make_callable-member", "");
    Callable<void(Mem&)> vm(&al, [](Mem& q) { q.state = 77; }); vm(m); if (m.state != 77) violation("void", ""); count("misc"); } if (std::string e = al.imbalance(); !e.empty()) violation("misc-alloc", e); if (!Obj::live().empty()) { violation("misc-leak", ""); Obj::live().clear(); } }
}
void hx::run_case(u64, Rng& r) { switch (r.below(9)) { case 0: case 1: case 2: graphs(r); break; case 3: exprs<ExprArgs::FunctionPtrLists>(r); break; case 4: exprs<ExprArgs::EdgeLists>(r); break; case 5: case 6: callables<Callable<Sig>, false>(r); break; case 7: callables<HeapCallable<Sig>, true>(r); break; default: misc(r); } }
