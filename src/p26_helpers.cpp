// P26: type names, operand lookup, flags, log filtering and container algorithms.
#include "tmodel.h"
#include "gen.h"
#include "corpus.h"
#include "obj.h"
#include "common/TypeHelper.h"
#include "common/GrammarHelper.h"
#include "common/HeapAllocator.h"
#include "common/HeapList.h"
#include "common/HeapVector.h"
#include "common/HeapString.h"
#include "common/ConsoleLogger.h"
#include "common/Algorithms.h"
#include "spvgentwo/Flag.h"
#include <cstring>
#include <memory>
#include <unistd.h>
#include <sys/mman.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P26", "a case is (1) a random type, with and without named structs, described through its Type, its instruction, a variable or a function of it and compared with a text built from the structural model, (2) a parsed module in which, for every instruction, each operand kind and each operand name of the grammar (and near misses of the names) is looked up and compared with a walk over the operand words, (3) a random history of flag operations compared with plain bit operations, (4) messages of every level sent through random filters and callbacks, also through the console logger, compared with what should be printed, or (5) transform / any / all over vectors and lists of observed elements compared with the standard algorithms, including the order and number of calls", 12000, 220000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
using tym::T;
namespace {
// ---- type names
std::string leaf(const T& t) { auto sc = [](const T& s) -> std::string { if (s.op == SpvOpTypeBool) return "bool"; if (s.op == SpvOpTypeInt) return (s.lit[1] ? "int" : "uint") + std::to_string(s.lit[0]); if (s.op == SpvOpTypeFloat) return s.lit[0] == 16 ? "half" : s.lit[0] == 32 ? "float" : "double"; return ""; };
  switch (t.op) { case SpvOpTypeVoid: return "void"; case SpvOpTypeBool: case SpvOpTypeInt: case SpvOpTypeFloat: return sc(t); case SpvOpTypeVector: return sc(t.kids[0]) + "_" + std::to_string(t.lit[0]); case SpvOpTypeMatrix: return sc(t.kids[0].kids[0]) + "_" + std::to_string(t.lit[0]) + "x" + std::to_string(t.kids[0].lit[0]);
    case SpvOpTypeRuntimeArray: return "runtime_array"; case SpvOpTypeImage: return "image"; case SpvOpTypeSampledImage: return "sampled_image"; case SpvOpTypeSampler: return "sampler"; case SpvOpTypeEvent: return "event"; case SpvOpTypeDeviceEvent: return "device_event"; case SpvOpTypeReserveId: return "reserved_id"; case SpvOpTypeQueue: return "queue"; case SpvOpTypePipe: return "pipe"; case SpvOpTypePipeStorage: return "pipe_storage"; case SpvOpTypeRayQueryKHR: return "ray_query_khr"; case SpvOpTypeAccelerationStructureKHR: return "acceleration_structure_khr"; default: return ""; } }
using Names = std::map<std::string, std::string>;
std::string text(const T& t, const Names* n, u32 indent, const std::string& own = "") { auto named = [&](const T& k) -> std::string { if (!n) return ""; auto it = n->find(k.key()); return it == n->end() ? "" : it->second; };
  switch (t.op) { case SpvOpTypeStruct: { std::string s = "struct " + (own.empty() ? named(t) : own) + " {\n"; for (auto& k : t.kids) { s += std::string(indent + 1, '\t') + text(k, n, indent + 1); if (k.op != SpvOpTypeStruct) s += ";\n"; } return s + std::string(indent, '\t') + "};\n"; }
    case SpvOpTypeFunction: { std::string s = text(t.kids[0], n, 0); if (!own.empty()) s += " " + own; s += "("; for (size_t i = 1; i < t.kids.size(); ++i) { std::string nm = named(t.kids[i]); s += (i > 1 ? ", " : "") + (nm.empty() ? text(t.kids[i], n, 0) : nm); } return s + ")"; }
    case SpvOpTypePointer: return text(t.kids[0], n, 0) + "*" + (own.empty() ? "" : " " + own); case SpvOpTypeArray: return text(t.kids[0], n, 0) + "[" + std::to_string(t.lit[0]) + "]"; default: return leaf(t); } }
void structs(const T& t, std::vector<T>& o) { for (auto& k : t.kids) structs(k, o); if (t.op == SpvOpTypeStruct) o.push_back(t); }
std::string word(Rng& r) { static const std::vector<std::string> w{"Light", "S", "my_struct", "a", "struct", "Material_with_a_long_name", "x1"}; return r.pick(w) + (r.coin() ? std::to_string(r.below(30)) : ""); }
void names(Rng& r) { T t = tym::any(r, (int)r.range(0, 4)); distinct(fnv(t.key())); TrackAlloc al; { Log log; Module m(&al, &log); Type ty = m.newType(); tym::fill(ty, t, r); auto say = [&](const Type& ty, const Instruction* i) { String s(&al); TypeHelper::getTypeName(ty, s, i); return std::string(s.c_str() ? s.c_str() : "", s.size()); };
    auto expect = [&](const char* how, const std::string& got, const std::string& want) { count(std::string("described_") + how); if (got != want) violation(std::string("name:") + how + ":" + sv::opname(t.op), "'" + got + "' instead of '" + want + "' for " + tym::str(t)); };
    expect("type", say(ty, nullptr), text(t, nullptr, 0)); if (r.chance(1, 5)) { String s(&al, "tail"); TypeHelper::getTypeName(ty, s); expect("in_front", s.c_str(), text(t, nullptr, 0) + "tail"); }
    Names n; std::vector<T> ss; structs(t, ss); for (auto& k : ss) if (!n.count(k.key()) && r.chance(2, 3)) { Type x = m.newType(); tym::fill(x, k, r); std::string w = word(r); if (!m.getTypeInstr(x)) { m.addType(x, w.c_str()); n[k.key()] = w; } } if (!n.empty()) count("with_names");
    Instruction* i = m.addType(ty); if (!i) { violation("add-type", tym::str(t)); return; } expect("instruction", say(ty, i), text(t, &n, 0));
    if (t.op == SpvOpTypeFunction) { std::string w = r.coin() ? word(r) : ""; Function& f = m.addFunction(); f.setFunctionType(i); for (auto& k : ty.getSubTypes()) { (void)k; } Type ret = ty.front(); f.setReturnType(m.addType(ret)); f.finalize(spv::FunctionControlMask::MaskNone, w.empty() ? nullptr : w.c_str()); Instruction* fi = f.getFunction(); if (fi && *fi == spv::Op::OpFunction && fi->getResultTypeInstr()) expect("function", say(ty, fi), text(t, &n, 0, w)); }
    else if (t.op != SpvOpTypeVoid) { spv::StorageClass sc = r.coin() ? spv::StorageClass::Private : spv::StorageClass::Workgroup; Instruction* p = m.addType(ty.wrapPointer(sc)); std::string w = r.coin() ? word(r) : ""; Instruction* v = m.addGlobalVariableInstr(); v->opVariable(p, sc); if (!w.empty()) m.addName(v, w.c_str()); T pt = tym::mk(SpvOpTypePointer, {(u32)sc}, {t}); if (v->getType()) expect("variable", say(*v->getType(), v), text(pt, &n, 0, w)); }
    log.errors = 0; } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
// ---- operand lookup
void operands(Rng& r) { std::vector<u32> w; if (r.chance(1, 4)) w = r.pick(corpus::all()).words; else { gen::Opt o; o.size = r.range(2, 12); w = gen::module(r, o); } distinct(fnv(w)); TrackAlloc al; Log log; Module m(&al, &log); VecReader rd(w); if (!m.readAndInit(rd, *g)) { count("not_parsed"); return; }
  using K = Grammar::OperandKind; m.iterateInstructions([&](const Instruction& ins) { const Grammar::Instruction* info = g->getInfo((u32)ins.getOperation()); if (!info) return; std::vector<const Operand*> ops; for (auto& o : ins) ops.push_back(&o);
    struct At { K kind; std::string name; bool has_name; size_t pos; }; std::vector<At> at; size_t p = 0; bool whole = true; for (auto& o : info->operands) { if (!whole) break; at.push_back({o.kind, o.name ? o.name : "", o.name != nullptr, p}); if (o.quantifier == Grammar::Quantifier::ZeroOrAny) { break; } if (o.kind == K::LiteralString) { while (p < ops.size() && ops[p]->isLiteral()) { u32 v = ops[p]->getLiteral().value; ++p; bool end = false; for (int b = 0; b < 4; ++b) end |= ((v >> (8 * b)) & 255) == 0; if (end) break; } } else { if (Grammar::hasOperandParameters(o.kind) && &o != &info->operands.back()) whole = false; ++p; } }
    auto check = [&](const char* how, const std::string& what, Instruction::Iterator got, const At* want) { const Operand* w = want && want->pos < ops.size() ? ops[want->pos] : nullptr; const Operand* o = got == nullptr ? nullptr : got.operator->(); count(w ? std::string("found_") + how : std::string("absent_") + how); if (o != w) violation(std::string(how) + ":" + sv::opname((u32)ins.getOperation()), fmt("%s: operand %zd instead of %zd", what.c_str(), o ? (ssize_t)(std::find(ops.begin(), ops.end(), o) - ops.begin()) : (ssize_t)-1, w ? (ssize_t)want->pos : (ssize_t)-1)); };
    std::set<K> kinds; for (auto& a : at) kinds.insert(a.kind); kinds.insert((K)r.below(60u)); for (K k : kinds) { const At* f = nullptr; for (auto& a : at) if (a.kind == k) { f = &a; break; } if (!f && !whole) continue; check("kind", fmt("kind %u", (u32)k), GrammarHelper::getFirstOperandOfKind(&ins, *g, k), f); }
    std::set<std::string> nm; for (auto& a : at) if (a.has_name) { nm.insert(a.name); if (r.chance(1, 4) && a.name.size() > 1) { std::string x = a.name; switch (r.below(4)) { case 0: x.pop_back(); break; case 1: x += "s"; break; case 2: x[r.below((u32)x.size())] ^= 32; break; default: x = x.substr(1); } nm.insert(x); } } if (r.chance(1, 4)) nm.insert(""); for (auto& x : nm) { const At* f = nullptr; for (auto& a : at) if (a.has_name && a.name == x) { f = &a; break; } if (!f && !whole) continue; check("name", "'" + x + "'", GrammarHelper::getOperandByName(&ins, *g, x.c_str()), f); } if (r.chance(1, 20) && GrammarHelper::getOperandByName(&ins, *g, nullptr) != nullptr) violation("name:null", "found"); });
  al.errors.clear(); }
// ---- flags
enum class E : unsigned { None = 0 }; E e(u32 v) { return (E)v; }
void flags(Rng& r) { auto val = [&]() -> u32 { switch (r.below(4)) { case 0: return 1u << r.below(32); case 1: return r.u() & r.u() & r.u(); case 2: return r.chance(1, 4) ? 0u : ~0u >> r.below(32); default: return r.u(); } }; Flag<E> f; u32 x = 0; if (!f.empty()) violation("flag:default", ""); u64 h = 1;
  for (u32 n = r.range(5, 40); n; --n) { u32 a = val(), b = val(), c = val(), k = r.below(22); std::string on = fmt("flag:%u", k); switch (k) { case 0: f = Flag<E>(e(a)); x = a; break; case 1: f = Flag<E>(e(a), e(b), e(c)); x = a | b | c; break; case 2: f = Flag<E>(a); x = a; break; case 3: f = Flag<E>::OR(e(a), e(b)); x = a | b; break; case 4: f = Flag<E>::AND(e(a), e(b), e(c)); x = a & b & c; break; case 5: f = Flag<E>::XOR(e(a), e(b), e(c)); x = a ^ b ^ c; break; case 6: f.set(e(a)); x |= a; break; case 7: f.set(e(a), e(b)); x |= a | b; break; case 8: f |= Flag<E>(a); x |= a; break; case 9: f &= Flag<E>(a); x &= a; break; case 10: f ^= Flag<E>(a); x ^= a; break; case 11: f |= e(a); x |= a; break; case 12: f &= e(a | b); x &= a | b; break; case 13: f ^= e(a); x ^= a; break; case 14: f = f | Flag<E>(a); x |= a; break; case 15: f = f & Flag<E>(a | b | c); x &= a | b | c; break; case 16: f = f ^ Flag<E>(a); x ^= a; break; case 17: f = f | e(a); x |= a; break; case 18: f = f & e(a | b); x &= a | b; break; case 19: f = f ^ e(a); x ^= a; break; case 20: f = e(a) | f; x |= a; break; default: f = e(a | b) & f; x &= a | b; f = e(c) ^ f; x ^= c; }
    h = h * 31 + k; count("flag_operations"); u32 now = (unsigned int)f; if (now != x || (u32)(E)f != x || f.empty() != (x == 0) || (bool)f != (x != 0)) { violation(on, fmt("%08x instead of %08x (operands %08x %08x %08x)", now, x, a, b, c)); return; }
    u32 p = r.coin() ? x & val() : val(), q = r.coin() ? x & val() : val(); if (f.any(e(p)) != ((x & p) != 0) || f.none(e(p)) != ((x & p) == 0) || f.all(e(p)) != ((x & p) == p)) { violation("flag:query", fmt("%08x of %08x", p, x)); return; } if (f.any(e(p), e(q)) != ((x & (p | q)) != 0) || f.none(e(p), e(q)) != ((x & (p | q)) == 0) || f.all(e(p), e(q)) != ((x & (p | q)) == (p | q))) { violation("flag:query-two", fmt("%08x %08x of %08x", p, q, x)); return; } } distinct(h); }
// ---- logging
struct Cap : ILogger { std::vector<std::pair<u32, std::string>> got; ILogger* who = nullptr; static void cb(ILogger* self, LogLevel l, const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); auto* c = static_cast<Cap*>(self); c->who = self; c->got.push_back({(u32)l, b}); } static void cb2(ILogger* self, LogLevel l, const char*, ...) { static_cast<Cap*>(self)->got.push_back({(u32)l, "second"}); } Cap() : ILogger(&cb) {} explicit Cap(u32 f) : ILogger(&cb, Flag<LogLevel>(f)) {} explicit Cap(int) = delete; };
const char* lname(u32 l) { switch (l) { case 1: return "Debug: "; case 2: return "Info: "; case 4: return "Warning: "; case 8: return "Error: "; case 16: return "Fatal: "; default: return ""; } }
void logging(Rng& r) { u32 filter = 31; std::unique_ptr<Cap> c; if (r.coin()) c.reset(new Cap()); else c.reset(new Cap(filter = r.below(32))); std::vector<std::pair<u32, std::string>> want; int mode = 1; u64 h = filter;
  for (u32 n = r.range(3, 30); n; --n) { switch (r.below(8)) { case 0: filter = r.below(32); c->setFilter(Flag<LogLevel>(filter)); break; case 1: mode = (int)r.below(3); c->setCallback(mode == 0 ? nullptr : mode == 1 ? &Cap::cb : &Cap::cb2); break; default: { u32 l = 1u << r.below(5), a = r.u(); std::string s = word(r), m = fmt("%u-%s-%lld", a, s.c_str(), (long long)a << 20); const char* f = "%u-%s-%lld"; bool direct = r.chance(1, 3); if (direct) { if (r.chance(1, 4)) l |= 1u << r.below(5); c->log((LogLevel)l, f, a, s.c_str(), (long long)a << 20); } else switch (l) { case 1: c->logDebug(f, a, s.c_str(), (long long)a << 20); break; case 2: c->logInfo(f, a, s.c_str(), (long long)a << 20); break; case 4: c->logWarning(f, a, s.c_str(), (long long)a << 20); break; case 8: c->logError(f, a, s.c_str(), (long long)a << 20); break; default: c->logFatal(f, a, s.c_str(), (long long)a << 20); }
        h = h * 31 + l + filter; if (mode && (l & filter)) { want.push_back({l & filter, mode == 1 ? m : "second"}); count("messages_passed"); } else count("messages_filtered"); } }
    if (c->got != want) { violation("log", fmt("%zu messages instead of %zu, filter %u, last %u '%s'", c->got.size(), want.size(), filter, c->got.empty() ? 0 : c->got.back().first, c->got.empty() ? "" : c->got.back().second.c_str())); return; } } distinct(h);
  // a module passes its messages on
  { TrackAlloc al; Cap k(filter); Module m(&al, &k); for (u32 i = 0; i < 5; ++i) { u32 l = 1u << r.below(5); size_t n = k.got.size(); std::string s = word(r); switch (l) { case 1: m.logDebug("%s %u", s.c_str(), i); break; case 2: m.logInfo("%s %u", s.c_str(), i); break; case 4: m.logWarning("%s %u", s.c_str(), i); break; case 8: m.logError("%s %u", s.c_str(), i); break; default: m.logFatal("%s %u", s.c_str(), i); } bool on = (l & filter) != 0; if (k.got.size() != n + on || (on && k.got.back() != std::make_pair(l, s + fmt(" %u", i)))) { violation("log:module", fmt("level %u filter %u", l, filter)); return; }
      bool p = r.coin(); n = k.got.size(); if (m.logError(p, "%s", s.c_str()) != p) { violation("log:predicate", "result"); return; } if (k.got.size() != n + (!p && (filter & 8))) { violation("log:predicate", fmt("predicate %d filter %u", p, filter)); return; } } Module q(&al, nullptr); q.logError("nobody listens %u", 1u); }
  if (r.chance(1, 8)) { int fd = memfd_create("p26", 0); if (fd < 0) return; fflush(stdout); int old = dup(1); std::string w; u32 f = r.coin() ? 31 : r.below(32); dup2(fd, 1); { ConsoleLogger k = f == 31 ? ConsoleLogger() : ConsoleLogger(Flag<LogLevel>(f)); ILogger& il = k; for (u32 n = r.range(1, 8); n; --n) { u32 l = 1u << r.below(5); std::string s = word(r); il.log((LogLevel)l, "%s=%u", s.c_str(), n); if (l & f) w += lname(l) + s + fmt("=%u\n", n); } } fflush(stdout); dup2(old, 1); close(old); std::string got((size_t)lseek(fd, 0, SEEK_END), 0); if (!got.empty() && pread(fd, &got[0], got.size(), 0) != (ssize_t)got.size()) got = "?"; close(fd); count("console"); if (got != w) violation("console", "'" + got + "' instead of '" + w + "'"); } }
// ---- algorithms
template <template <class> class C, class D> void algorithm(Rng& r, const char* kind) { TrackAlloc al; { C<Obj> v(&al); std::vector<int> m; for (u32 i = r.below(12); i; --i) { int x = (int)r.below(9); v.emplace_back(x); m.push_back(x); } u64 h = 7; for (int x : m) h = h * 11 + (u64)x; distinct(h + kind[0]); std::vector<int> seen; std::string k = kind;
    const C<Obj>& cv = v; { auto o = algo::transform(cv, [&](const Obj& x) { seen.push_back(x.v); return (u64)x.v * 3u + 1u; }); std::vector<u64> a, b; for (u64 x : o) a.push_back(x); for (int x : m) b.push_back((u64)x * 3 + 1); if (a != b || seen != m || o.getAllocator() != &al) violation("transform:" + k, fmt("%zu results of %zu elements", a.size(), m.size())); }
    seen.clear(); { auto o = algo::transform(v, [&](Obj& x) { seen.push_back(x.v); x.v += 1; return Obj(x.v * 2); }); std::vector<int> a, b; for (auto& x : o) a.push_back(x.v); for (int& x : m) { b.push_back((x + 1) * 2); } if (seen != m) violation("transform-order:" + k, ""); for (int& x : m) x += 1; if (a != b) violation("transform-mutable:" + k, ""); std::vector<int> now; for (auto& x : v) now.push_back(x.v); if (now != m) violation("transform-in-place:" + k, ""); }
    for (int t = 0; t < 3; ++t) { int x = (int)r.below(11); std::vector<int> a, b; auto p = [&](std::vector<int>& s) { return [&s, x](const auto& y) { s.push_back((int)y); return (int)y >= x; }; }; bool ga = algo::any(cv, p(a)), wa = false; for (int y : m) { b.push_back(y); if (y >= x) { wa = true; break; } } if (ga != wa || a != b) violation("any:" + k, fmt("%d instead of %d, %zu calls instead of %zu", ga, wa, a.size(), b.size())); a.clear(); b.clear(); bool gl = algo::all(cv, p(a)), wl = true; for (int y : m) { b.push_back(y); if (y < x) { wl = false; break; } } if (gl != wl || a != b) violation("all:" + k, fmt("%d instead of %d, %zu calls instead of %zu", gl, wl, a.size(), b.size())); count("searches", 2); } }
  if (!al.imbalance().empty()) violation("allocation:algorithm", al.imbalance());
  { D d; std::vector<int> m; if (d.getAllocator() != HeapAllocator::instance()) violation(std::string("heap:") + kind, "allocator"); for (u32 i = r.below(8); i; --i) { int x = (int)r.below(50); d.emplace_back(x); m.push_back(x); } auto same = [&](const D& q, const std::vector<int>& w) { std::vector<int> a; for (auto& x : q) a.push_back(x.v); return a == w && (size_t)q.size() == w.size(); }; D c(d); if (!same(c, m) || !same(d, m)) violation(std::string("heap-copy:") + kind, ""); c.emplace_back(7); D e(std::move(c)); m.push_back(7); if (!same(e, m)) violation(std::string("heap-move:") + kind, ""); D f; f.emplace_back(1); f = e; if (!same(f, m) || !same(e, m)) violation(std::string("heap-assign:") + kind, ""); D q; q.emplace_back(2); q = std::move(f); if (!same(q, m)) violation(std::string("heap-move-assign:") + kind, ""); D l(Obj(4), Obj(5), Obj(6)); if (!same(l, {4, 5, 6})) violation(std::string("heap-elements:") + kind, ""); count("heap_containers"); }
  if (!Obj::live().empty()) { violation("leak", kind); Obj::live().clear(); } if (!Obj::error().empty()) { violation("element", Obj::error()); Obj::error().clear(); } }
}
void hx::run_case(u64, Rng& r) { switch (r.below(16)) { case 0: case 1: case 2: case 3: case 4: case 5: names(r); break; case 6: case 7: case 8: operands(r); break; case 9: case 10: flags(r); break; case 11: case 12: case 13: logging(r); break; case 14: algorithm<Vector, HeapVector<Obj>>(r, "vector"); break; default: algorithm<List, HeapList<Obj>>(r, "list"); } evaluated(); }
