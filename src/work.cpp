#include "work.h"
#include "gen.h"
#include "build.h"
#include "extra.h"
#include "corpus.h"
#include "linkmodel.h"
#include "tmodel.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/String.h"
#include "spvgentwo/HashMap.h"
#include "common/HeapAllocator.h"
#include "common/ModulePrinter.h"
#include "common/LinkerHelper.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/TypeHelper.h"
#include "common/FunctionCallGraph.h"
#include "common/ControlFlowGraph.h"
#include "common/ExprGraph.h"
#include "common/Callable.h"
#include "common/BinaryVectorWriter.h"
#include <memory>
using namespace hx; using namespace spvgentwo;
namespace work {
int g_depth = 0;
void Env::bytes(const char* tag, const void* p, size_t n) { Out o; out += tag; out += fmt(" %zu:", n); out.append((const char*)p, n); out += '\n'; }
void Env::text(const char* f, ...) { Out o; char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > 0) out.append(b, std::min((size_t)n, sizeof b - 1)); out += '\n'; }
namespace {
HeapAllocator* g_heap; Grammar* g;
// logger, reader and writer of the workload; what they get is part of the transcript
struct TLog : ILogger { Env* e; u32 errors = 0; explicit TLog(Env* env) : ILogger(&cb), e(env) {}
  static void cb(ILogger* self, LogLevel l, const char* f, ...) { Out o; TLog* t = static_cast<TLog*>(self); char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); t->errors += l >= LogLevel::Error; t->e->text("log %u %s", (u32)l, b); } };
struct Rd : IReader { const std::vector<u32>& w; size_t pos = 0; explicit Rd(const std::vector<u32>& v) : w(v) {} bool get(unsigned int& o) override { if (pos >= w.size()) return false; o = w[pos++]; return true; } };
struct Wr : IWriter { std::vector<u32> w; size_t limit = ~size_t(0); bool put(unsigned int v) override { Out o; if (w.size() >= limit) return false; w.push_back(v); return true; } };
u32 id(const Instruction* i) { return i ? (u32)i->getResultId() : 0xfffffff0u; }
u32 op(const Instruction* i) { return i ? (u32)i->getOperation() : 0xffffu; }
// everything that can be asked of a module
void dump(Env& e, Module& m, Rng& r, u32 helper) { IAllocator* a = e.al[helper]; e.count("dumps");
  { Wr w; bool ok; { Lib l; ok = m.write(w); } e.text("write %d", ok); e.bytes("words", w.w.data(), w.w.size() * 4); e.text("header %x %x %x %u", m.getSpvVersion(), m.getSpvGenerator(), m.getSpvSchema(), m.getSpvBound()); }
  u32 f = r.chance(1, 3) ? 127u : r.below(128); Flag<ModulePrinter::PrintOptionsBits> po{(ModulePrinter::PrintOptionsBits)f};
  if (r.coin()) { String s(a); ModulePrinter::ModuleStringPrinter p(s, r.coin()); bool ok; { Lib l; ok = ModulePrinter::printModule(m, *g, p, po, r.coin() ? "" : "  "); } e.text("print %d", ok); if (s.c_str()) e.bytes("text", s.c_str(), s.size()); }
  else { std::string t; auto p = ModulePrinter::ModuleSimpleFuncPrinter([&t](const char* s) { Out o; if (s) t += s; }, r.coin()); bool ok; { Lib l; ok = ModulePrinter::printModule(m, *g, p, po); } e.text("print %d", ok); e.bytes("text", t.data(), t.size()); }
  for (auto& kv : m.getCapabilities()) e.text("cap %u", (u32)kv.key); for (auto& kv : m.getExtensions()) e.text("ext %s", kv.key.c_str()); for (auto& kv : m.getExtInstrImports()) e.text("import %s", kv.key.c_str());
  u32 k = 0; std::vector<Instruction*> all; m.iterateInstructions([&](Instruction& i) { Out o; all.push_back(&i); }); e.text("instructions %zu", all.size());
  std::set<std::string> names; for (Instruction* i : all) { ++k; if (!i->hasResult() || !r.chance(1, 3)) continue; Lib lib; List<Module::MemberNameCStr> l = m.getNames(i, a); for (auto& n : l) { Out o; e.text("name %u %s %u", k, n.name ? n.name : "(null)", n.memberIndex); if (n.name) names.insert(n.name); } const char* q = m.getName(i); if (q) { Out o; e.text("main name %s", q); }
    List<Instruction*> d(a); ReflectionHelper::getDecorations(i, d); for (auto* x : d) { Out o; e.text("decoration %u", op(x)); }
    if (i->isType()) { String s(a); const Type* t = i->getType(); if (t) { TypeHelper::getTypeName(*t, s, i); Type c(*t); Out o; e.text("type %s %u %d", s.c_str() ? s.c_str() : "", id(m.getTypeInstr(c)), c == *t); } }
    else if (const Constant* c = i->getConstant()) { Constant q2(*c); Out o; e.text("constant %u %u %u", (u32)q2.getOperation(), (u32)q2.getData().size(), (u32)q2.getComponents().size()); for (u32 w : q2.getData()) e.text("%08x", w); } }
  for (auto& n : names) { Instruction* i; { Lib l; i = m.getInstructionByName(n.c_str()); } size_t at = 0; while (at < all.size() && all[at] != i) ++at; e.text("by name %s %zu", n.c_str(), at); }
  for (int sc : {0, 1, 3, 6, 12}) { Lib lib; List<const Instruction*> l(a); ReflectionHelper::getGlobalVariablesByStorageClass(m, (spv::StorageClass)sc, l); Out o; for (auto* v : l) e.text("global %u", id(v)); } { unsigned x = 0, y = 0, z = 0; bool ok; { Lib l; ok = ReflectionHelper::getLocalSize(m, x, y, z); } e.text("local size %d %u %u %u", ok, x, y, z); }
  auto graphs = [&](const Function& fn) { if (!r.chance(1, 3)) return; Lib lib; FunctionCallGraph cg(fn, a); for (auto& n : cg) { Out o; e.text("calls of %u", id(n.data()->getFunction())); for (auto& d : n.outputs()) e.text(" %u by %u", id(d.pTarget->data()->getFunction()), op(d.data)); } if (fn.empty()) return; ControlFlowGraph<> cf(fn, a); for (auto& n : cf) { Out o; e.text("block %u", id(n.data()->getLabel())); for (auto& d : n.outputs()) e.text(" to %u", id(d.pTarget->data()->getLabel())); for (auto& d : n.inputs()) e.text(" from %u", id(d.pTarget->data()->getLabel())); } };
  for (auto& fn : m.getFunctions()) graphs(fn); for (auto& fn : m.getEntryPoints()) { graphs(fn); Lib lib; List<Operand> v(a); collectReferencedVariables(fn, v, m.getSpvVersion() < makeVersion(1, 4) ? GlobalInterfaceVersion::SpirV1_3 : GlobalInterfaceVersion::SpirV14_x, a); Out o; for (auto& x : v) e.text("interface %u", id(x.getInstruction())); }
}
void sub(Env& e, const char* tag, const std::vector<u32>& w) { e.bytes(tag, w.data(), w.size() * 4); }
build::Opt popt(Rng& r) { build::Opt o; o.size = r.range(1, 3); o.depth = r.range(1, 2); o.entries = r.range(1, 2); return o; }
bool make(Env& e, Module& m, TLog&, Rng& r, bool extra) { build::Prog p = build::random(r, popt(r)); Rng q(r.next()); build::Built b; { Out o; b = build::lower(p, m, q, [&] { if (e.between) e.between(); }); } e.text("rejected %s", b.rejected.c_str()); if (!b.rejected.empty()) { e.count("rejected"); return false; } if (extra) { build::extras(m, r); } e.count("built"); return true; }
std::vector<u32> words(Rng& r) { switch (r.below(4)) { case 0: return r.pick(corpus::all()).words; case 1: { gen::Opt o; o.size = r.range(1, 6); o.any_op = true; return gen::module(r, o); } default: { gen::Opt o; o.size = r.range(2, 12); o.any_op = r.coin(); o.weird_types = r.coin(); return gen::module(r, o); } } }
bool parse(Env& e, Module& m, const std::vector<u32>& w, Rng& r, bool own = false) { Rd rd(w); bool ok; Lib l; if (r.coin()) ok = m.readAndInit(rd, *g); else { IAllocator* a = r.coin() ? nullptr : e.al[r.below(Allocators)]; if (own) a = nullptr; /* names keep their allocator */ ok = m.read(rd, *g) && m.resolveIDs(a) && m.reconstructTypeAndConstantInfo(a) && m.reconstructNames(a); } Out o; e.text("parsed %d", ok); if (ok) e.count("parsed"); return ok; }
// ---- workloads
void k_build(Env& e, Rng& r) { u32 a = r.below(Allocators), b = r.below(Allocators); TLog log(&e); Wr w; { Module m(e.al[a], &log); bool ok = make(e, m, log, r, r.coin()); if (ok) { if (r.coin()) dump(e, m, r, b); u32 fin = r.below(4); { Lib l; if (fin == 0) m.finalize(); else if (fin == 1) m.finalize(g); else if (fin == 2) { m.finalizeEntryPoints(); m.assignIDs(g); } else m.finalizeAndWrite(w, g); } if (fin == 3) sub(e, "finalized", w.w); dump(e, m, r, b); if (r.coin()) { build::extras(m, r); { Lib l; m.finalize(r.coin() ? g : nullptr); } dump(e, m, r, b); } w.w.clear(); { Lib l; m.write(w); } } }
  if (a != b) e.settled(a, "the module was destroyed"); if (!w.w.empty()) { Module n(e.al[b], &log); if (parse(e, n, w.w, r)) { { Lib l; if (r.coin()) n.assignIDs(g); } dump(e, n, r, a); } } }
void k_parse(Env& e, Rng& r) { u32 a = r.below(Allocators), b = r.below(Allocators); TLog log(&e); std::vector<u32> w = words(r); { Module m(e.al[a], &log); u32 times = r.range(1, 2); for (u32 t = 0; t < times; ++t) { if (t) { w = words(r); { Lib l; m.reset(); } } if (!parse(e, m, w, r)) continue; if (r.coin()) dump(e, m, r, b); { Lib l; switch (r.below(4)) { case 0: m.assignIDs(); break; case 1: m.assignIDs(g); break; case 2: m.finalize(g); break; default: break; } } if (r.coin()) { Type t2 = m.newType(); tym::fill(t2, tym::any(r, 2), r); Instruction* i; { Lib l; i = m.addType(t2, "added type"); m.constant(r.below(7)); m.constant(make_vector(1.f, (float)r.below(4))); } e.text("added %u", op(i)); { Lib l; m.assignIDs(); } } dump(e, m, r, b); } } e.settled(a, "the parsed module was destroyed"); }
void k_hostile(Env& e, Rng& r) { u32 a = r.below(Allocators); TLog log(&e); std::vector<u32> w = words(r); for (u32 n = r.range(1, 4); n; --n) { if (w.size() < 8) break; switch (r.below(6)) { case 0: w.resize(5 + r.below((u32)w.size() - 5)); break; case 1: w[r.below((u32)w.size())] ^= 1u << r.below(32); break; case 2: { size_t p = 5, c = 0; std::vector<size_t> at; while (p < w.size() && (w[p] >> 16)) { at.push_back(p); p += w[p] >> 16; } if (at.empty()) break; size_t q = at[r.below((u32)at.size())]; c = w[q] >> 16; if (q + c <= w.size()) w.erase(w.begin() + (long)q, w.begin() + (long)(q + c)); break; } case 3: w[5 + r.below((u32)w.size() - 5)] = r.below(300); break; case 4: { size_t p = 5 + r.below((u32)w.size() - 5); w[p] = (w[p] & 0xffffu) | (r.below(12) << 16); break; } default: w.insert(w.begin() + 5 + r.below((u32)w.size() - 5), r.below(200)); } }
  { Module m(e.al[a], &log); bool ok = parse(e, m, w, r); e.count(ok ? "hostile_accepted" : "hostile_refused"); if (ok) dump(e, m, r, r.below(Allocators)); else if (r.coin()) { std::vector<u32> v = words(r); { Lib l; m.reset(); } if (parse(e, m, v, r)) dump(e, m, r, r.below(Allocators)); } } e.settled(a, "the module was destroyed"); }
void k_edit(Env& e, Rng& r) { u32 a = r.below(Allocators), b = r.below(Allocators); TLog log(&e); { Module m(e.al[a], &log); bool ok = r.chance(1, 3) ? make(e, m, log, r, true) : parse(e, m, words(r), r); if (!ok) return; bool cleared = false; { Lib l; m.assignIDs(); } for (u32 n = r.range(1, 10); n; --n) { std::vector<Instruction*> v; m.iterateInstructions([&](Instruction& i) { Out o; v.push_back(&i); }); std::vector<Instruction*> res; for (auto* i : v) if (i->hasResult() && i->getOperation() != spv::Op::OpLabel) res.push_back(i); if (res.empty()) break; Instruction* i = r.pick(res); std::vector<Function*> fs; for (auto& f : m.getFunctions()) fs.push_back(&f); for (auto& f : m.getEntryPoints()) fs.push_back(&f);
      switch (r.below(8)) { case 0: case 1: { Lib l; List<Instruction*> uses(e.al[b]); m.gatherUses(i, uses); Out o; for (auto* u : uses) e.text("use %u %u", op(u), id(u)); break; }
        case 2: { Instruction* q = r.pick(res); if (q->getOperation() != i->getOperation()) break; Lib l; m.replaceUses(i, q); break; }
        case 3: { bool used = false; for (auto* u : v) for (auto& o : *u) used |= o.isInstruction() && o.getInstruction() == i; if (used || i->getOperation() == spv::Op::OpFunction || i->isTerminator()) break; u32 k = op(i); bool d; { Lib l; d = m.remove(i); } e.text("removed %u %d", k, d); e.count("removed"); break; }
        case 4: { if (fs.size() < 2) break; Function* f = r.pick(fs); if (f->empty()) break; Function* rep = nullptr; for (auto* x : fs) if (x != f && !x->empty()) rep = x; if (!rep) break; { Lib l; List<Instruction*> us = m.remove(f, rep, e.al[b]); Out o; for (auto* u : us) e.text("function use %u", op(u)); } e.count("functions_removed"); break; }
        case 5: { if (fs.empty()) break; Function* f = r.pick(fs); if (f->size() < 2) break; std::vector<BasicBlock*> bs; for (auto& x : *f) bs.push_back(&x); { Lib l; List<Instruction*> us = f->remove(bs[1 + r.below((u32)bs.size() - 1)], bs[0], e.al[b]); Out o; for (auto* u : us) e.text("block use %u", op(u)); } e.count("blocks_removed"); break; }
        case 6: { std::string n2 = fmt("name%u", r.below(6)); Lib l; if (r.coin()) m.addName(i, n2.c_str()); else m.addMemberName(i, n2.c_str(), r.below(3)); break; }
        default: { Lib l; Instruction* c = m.constant(r.below(20)); Out o; e.text("constant %u", id(c)); } } }
    m.iterateInstructions([&](Instruction& i) { Out o; for (auto& x : i) if ((x.isInstruction() && !x.getInstruction()) || (x.isBranchTarget() && !x.getBranchTarget())) cleared = true; }); if (cleared) { e.count("uses_cleared"); return; }
    dump(e, m, r, b); { Lib l; m.finalize(r.coin() ? g : nullptr); } dump(e, m, r, b); } e.settled(a, "the edited module was destroyed"); }
void k_link(Env& e, Rng& r) { lm::Opt o; o.missing = r.chance(1, 8); o.mismatch = r.chance(1, 10); lm::Case c; std::string err; if (!lm::make(r, o, c, &err)) { e.count("link_rejected"); return; } u32 pa[4]; for (u32 i = 0; i < Allocators && i < 4; ++i) pa[i] = i; u32 L = 0, C = 1, T = 2, P = 3; TLog log(&e); auto lib = std::make_unique<Module>(e.al[pa[L]], &log); auto con = std::make_unique<Module>(e.al[pa[C]], &log); { Rng q(1); if (!parse(e, *lib, c.libs[0], q) || !parse(e, *con, c.consumer, q)) return; }
  LinkerHelper::LinkerOptions lo; u32 all = (u32)LinkerHelper::LinkerOptionBits::All; u32 f = r.coin() ? all : r.coin() ? all & ~(1u << r.below(15)) : (r.u() & all) | 0xff; lo.flags = Flag<LinkerHelper::LinkerOptionBits>(f); if (r.coin()) lo.grammar = g; if (r.coin()) lo.allocator = e.al[pa[T]]; std::string t; String st(e.al[pa[P]]); auto fp = ModulePrinter::ModuleSimpleFuncPrinter([&t](const char* s) { Out q; if (s) t += s; }); ModulePrinter::ModuleStringPrinter sp(st); if (r.coin()) { if (r.coin()) lo.printer = &fp; else lo.printer = &sp; }
  bool ok; { Lib l; ok = LinkerHelper::import(*lib, *con, lo); } e.text("import %d", ok); e.count(ok ? "linked" : "link_failed"); e.bytes("printed", t.data(), t.size()); if (st.c_str()) e.bytes("printed", st.c_str(), st.size()); e.settled(pa[T], "the import ended"); bool early = r.coin(); if (early) { dump(e, *lib, r, 4); lib.reset(); e.settled(pa[L], "the library was destroyed"); } if (ok) { { Lib l; con->finalize(r.coin() ? g : nullptr); } dump(e, *con, r, 5); if (r.chance(1, 3)) { for (auto& fn : con->getFunctions()) if (!fn.empty() && r.coin()) { Lib l; LinkerHelper::removeFunctionBody(fn); } dump(e, *con, r, 5); } } if (r.coin()) { { Lib l; con->reset(); } } con.reset(); e.settled(pa[C], "the consumer was destroyed"); if (lib && r.coin()) { dump(e, *lib, r, 4); } lib.reset(); e.settled(pa[L], "the library was destroyed"); }
void k_moves(Env& e, Rng& r) { TLog l1(&e), l2(&e); u32 a = 0, b = 1; { Module m(e.al[a], &l1), n(e.al[b], &l2); bool x = r.coin() ? make(e, m, l1, r, r.coin()) : parse(e, m, words(r), r, true); bool y = r.coin() ? make(e, n, l2, r, r.coin()) : parse(e, n, words(r), r, true); if (!x || !y) return; for (u32 k = r.range(1, 6); k; --k) { Lib l; switch (r.below(7)) { case 0: { Module t(std::move(m)); m = std::move(n); n = std::move(t); break; } case 1: { Module t(std::move(m)); m = std::move(t); break; } case 2: { Module t; t = std::move(n); n = std::move(t); break; } case 3: { Module t(e.al[3], &l1); t.addCapability(spv::Capability::Kernel); t.constant(3.f); t = std::move(m); m = std::move(t); break; } case 4: { Module& s = m; m = std::move(s); break; } case 5: { Type t = m.newType(); t.Struct().FloatM().IntM(); Type q(t); q = t; m.addType(q); n.addType(q); Constant c = m.newConstant(); c.make(2.5f); n.addConstant(c); m.addConstant(c); break; } default: { m.assignIDs(); n.finalize(g); } } e.count("moves"); } { Lib l; m.finalize(g); n.finalize(); } dump(e, m, r, 2); dump(e, n, r, 2); if (r.chance(1, 3)) { IAllocator* was = m.getAllocator(); bool same = was == n.getAllocator(); { Lib l; m = std::move(n); m.finalize(g); } dump(e, m, r, 3); if (!same) e.settled(was == e.al[a] ? a : was == e.al[b] ? b : 3, "the module was replaced"); } else if (r.chance(1, 3)) { { Lib l; m.reset(); } } } e.settled(a, "all modules were destroyed"); e.settled(b, "all modules were destroyed"); }
std::string word(Rng& r) { std::string s; for (u32 n = r.chance(1, 5) ? r.below(60) : r.below(7); n; --n) s += (char)('a' + r.below(4)); return s; }
void k_strings(Env& e, Rng& r) { std::unique_ptr<String> s[4]; std::unique_ptr<Vector<u32>> v[4]; std::unique_ptr<Vector<String>> vs[2]; for (auto& x : s) x.reset(new String(e.al[r.below(Allocators)])); for (auto& x : v) x.reset(new Vector<u32>(e.al[r.below(Allocators)])); for (auto& x : vs) x.reset(new Vector<String>(e.al[r.below(Allocators)]));
  for (u32 n = r.range(5, 60); n; --n) { u32 i = r.below(4), j = r.below(4); std::string w = word(r); const u32 val = r.u(); u32 kind = r.below(36), p = r.below(100); IAllocator* al = e.al[r.below(Allocators)]; Lib l; switch (kind) { case 0: *s[i] = *s[j]; break; case 1: if (i != j) { *s[i] = std::move(*s[j]); *s[j] = String(al); } break; case 2: *s[i] = w.c_str(); break; case 3: s[i]->append(w.c_str()); break; case 4: *s[i] += *s[j]; break; case 5: { String t(*s[i]); *s[j] = t + w.c_str(); break; } case 6: { if (s[i]->size()) { String t = s[i]->substr(p % s[i]->size(), 3); *s[j] = std::move(t); } break; } case 7: s[i]->insert(s[i]->size() ? p % s[i]->size() : 0, w.c_str()); break; case 8: s[i]->clear(); break; case 9: s[i]->reserve(p); break;
      case 10: { Out o; String* q = new String(al, w.c_str()); s[i].reset(q); break; } case 11: *v[i] = *v[j]; break; case 12: if (i != j) { *v[i] = std::move(*v[j]); *v[j] = Vector<u32>(al); } break; case 13: v[i]->emplace_back(val); break; case 14: v[i]->insert(v[i]->size() ? p % v[i]->size() : 0, &val, 1); break; case 15: v[i]->resize(p % 40, &val); break; case 16: { Vector<u32> t(*v[i]); t.emplace_back(val); *v[j] = std::move(t); break; } case 17: v[i]->clear(); break;
      case 18: vs[i & 1]->emplace_back(*s[j]); break; case 19: *vs[i & 1] = *vs[j & 1]; break; case 20: if ((i ^ j) & 1) { *vs[i & 1] = std::move(*vs[j & 1]); *vs[j & 1] = Vector<String>(al); } break; case 22: case 23: { u32 buf[12] = {val, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}; v[i]->insert(p % (v[i]->size() + 1), buf, 1 + p % 12); break; } case 24: v[i]->reserve(p % 48); break; case 25: v[i]->resize(p % 40); break; case 26: { if (vs[j & 1]->size()) { String t[3] = {String(al, w.c_str()), String(*s[j]), String(al)}; vs[i & 1]->insert(p % (vs[i & 1]->size() + 1), t, 1 + p % 3); } break; } case 27: vs[i & 1]->reserve(p % 12); break; case 28: { String t(al, w.c_str()); vs[i & 1]->resize(p % 9, &t); break; } case 29: { u32 d[5] = {val, p, 1, 2, 3}; Vector<u32> t(al, d, 1 + p % 5); *v[j] = t; *v[i] = d; break; } case 30: { Vector<u32> t(al, val, p, 7u); t.assign(9u, p % 3, p & 1 ? 1 : sgt_size_max); t.emplace_back_args(1u, 2u, p); *v[j] = std::move(t); break; } case 31: { Vector<u32> t(al, p % 20); t.emplace_back(val); *v[i] = t; break; } case 32: s[i]->insert(p % (s[i]->size() + 1), *s[j]); break; case 33: { String t = *s[i] + *s[j]; *s[j] = t; break; } case 34: { s[i]->append(w.c_str(), p % (w.size() + 1)); break; } case 35: { String t(al, w.c_str(), p % (w.size() + 1)); vs[i & 1]->emplace_back(std::move(t)); vs[i & 1]->clear(); break; } default: vs[i & 1]->emplace_back(al, w.c_str()); } e.count("string operations"); { Out o; if (s[i]->c_str()) e.text("s %zu %s", (size_t)s[i]->size(), s[i]->c_str()); e.text("v %zu", (size_t)v[i]->size()); for (u32 x : *v[i]) e.text("%x", x); for (auto& x : *vs[i & 1]) e.text("vs %s", x.c_str() ? x.c_str() : ""); } } for (auto& x : s) x.reset(); for (auto& x : v) x.reset(); for (auto& x : vs) x.reset(); for (u32 k = 0; k < Allocators; ++k) e.settled(k, "all vectors and strings were destroyed"); }
void k_lists(Env& e, Rng& r) { using M = HashMap<u32, String>; std::unique_ptr<List<String>> l[3]; std::unique_ptr<List<List<u32>>> ll[2]; std::unique_ptr<M> m[3]; for (auto& x : l) x.reset(new List<String>(e.al[r.below(Allocators)])); for (auto& x : ll) x.reset(new List<List<u32>>(e.al[r.below(Allocators)])); for (auto& x : m) x.reset(new M(e.al[r.below(Allocators)], r.range(1, 9)));
  for (u32 n = r.range(5, 60); n; --n) { u32 i = r.below(3), j = r.below(3), key = r.below(12), p = r.below(8); std::string w = word(r); IAllocator* al = e.al[r.below(Allocators)]; u32 kind = r.below(22); u32 bk = r.range(1, 9); Lib lib; auto at = [&](auto& x) { auto it = x.begin(); for (u32 k = 0; k < p && it != x.end() && it.next() != nullptr; ++k) ++it; return it; };
    switch (kind) { case 0: l[i]->emplace_back(al, w.c_str()); break; case 1: l[i]->emplace_front(al, w.c_str()); break; case 2: if (!l[i]->empty()) l[i]->insert_before(at(*l[i]), al, w.c_str()); break; case 3: if (!l[i]->empty()) l[i]->insert_after(at(*l[i]), al, w.c_str()); break; case 4: if (!l[i]->empty()) l[i]->erase(at(*l[i])); break; case 5: if (!l[i]->empty()) { String t = l[i]->pop_back(); Out o; e.text("pop %s", t.c_str() ? t.c_str() : ""); } break; case 6: if (!l[i]->empty()) { String t = l[i]->pop_front(); Out o; e.text("pop %s", t.c_str() ? t.c_str() : ""); } break; case 7: *l[i] = *l[j]; break; case 8: if (i != j) { *l[i] = std::move(*l[j]); *l[j] = List<String>(al); } break; case 9: { List<String> t(*l[i]); t.emplace_back(al, w.c_str()); *l[j] = std::move(t); break; } case 10: l[i]->clear(); break; case 11: { if (l[i]->getAllocator() == l[j]->getAllocator() && i != j && !l[i]->empty()) { auto it = at(*l[i]); Entry<String>* en = it.entry(); l[i]->erase(it, false); l[j]->append_entry(en); } break; }
      case 12: { List<u32> t(al); t.emplace_back(key); t.emplace_back(p); ll[i & 1]->emplace_back(t); ll[i & 1]->emplace_back(std::move(t)); break; } case 13: *ll[i & 1] = *ll[j & 1]; break; case 14: m[i]->emplace(key, al, w.c_str()); break; case 15: m[i]->emplaceUnique(key, al, w.c_str()); break; case 16: m[i]->eraseRange(key); break; case 17: if (auto it = m[i]->find(key); it != m[i]->end()) m[i]->erase(it); break; case 18: if (i != j) { *m[i] = std::move(*m[j]); *m[j] = M(al, bk); } break; case 19: { M t(std::move(*m[i])); *m[i] = std::move(t); break; } case 20: m[i]->clear(); break; default: { Out o; m[i].reset(new M(al, bk)); } } e.count("list and map operations"); { Out o; e.text("l %zu", (size_t)l[i]->size()); for (auto& x : *l[i]) e.text("%s", x.c_str() ? x.c_str() : ""); for (auto& x : *ll[i & 1]) for (u32 q : x) e.text("%u", q); e.text("m %u", m[i]->elements()); for (auto& kv : *m[i]) e.text("%u %s", kv.key, kv.value.c_str() ? kv.value.c_str() : ""); } } for (auto& x : l) x.reset(); for (auto& x : ll) x.reset(); for (auto& x : m) x.reset(); for (u32 k = 0; k < Allocators; ++k) e.settled(k, "all lists and maps were destroyed"); }
void k_values(Env& e, Rng& r) { { std::vector<std::unique_ptr<Type>> t; std::vector<std::unique_ptr<Constant>> c; for (u32 i = 0; i < 4; ++i) { t.emplace_back(new Type(e.al[r.below(Allocators)])); c.emplace_back(new Constant(e.al[r.below(Allocators)])); } TLog log(&e); Module m(e.al[0], &log), n(e.al[1], &log);
    for (u32 k = r.range(5, 40); k; --k) { u32 i = r.below(4), j = r.below(4), kind = r.below(18); tym::T x = tym::any(r, 3); float f = (float)r.below(50); u32 p = r.u(); IAllocator* al = e.al[r.below(Allocators)]; Lib l; switch (kind) { case 0: case 1: { Out o; t[i]->reset(); tym::fill(*t[i], x, r); break; } case 2: *t[i] = *t[j]; break; case 3: if (i != j) { *t[i] = std::move(*t[j]); *t[j] = Type(al); } break; case 4: { Type q(*t[i]); *t[j] = std::move(q); break; } case 5: { Type q = t[i]->wrapStruct(); *t[j] = q; break; } case 6: t[i]->reset(); break; case 7: { Out o; t[i].reset(new Type(al)); break; } case 8: { if (t[i]->getType() == spv::Op::OpTypeStruct) t[i]->Member() = *t[j]; break; }
        case 9: c[i]->reset(); c[i]->make(f); break; case 10: c[i]->reset(); c[i]->make(make_vector(f + 0.f, 2.f, f + 1.f)); break; case 11: c[i]->reset(); c[i]->make(make_matrix(make_vector(f + 0.f, 2.f), make_vector(1.f, f + 2.f))); break; case 12: *c[i] = *c[j]; break; case 13: if (i != j) { *c[i] = std::move(*c[j]); *c[j] = Constant(al); } break; case 14: { Constant q(*c[i]); *c[j] = std::move(q); break; } case 15: { Out o; c[i].reset(new Constant(al)); break; } case 16: { if (t[i]->getType() != spv::Op::OpTypeVoid && i % 2) { m.addType(*t[i]); n.addType(*t[i], "t"); } else if (c[i]->getData().size() || c[i]->getComponents().size()) { m.addConstant(*c[i]); n.addConstant(*c[i], "c"); } break; } default: { Out o; const Type* q = t[i].get(); for (u32 d = 0; d < 3 && !q->getSubTypes().empty(); ++d) q = &q->getSubTypes().front(); Type z(*q); *t[j] = z; e.text("%u", p & 1); } }
      { Out o; e.text("type %u %zu constant %u %zu %zu", (u32)t[i]->getType(), (size_t)t[i]->getSubTypes().size(), (u32)c[i]->getOperation(), (size_t)c[i]->getData().size(), (size_t)c[i]->getComponents().size()); e.count("type and constant operations"); } } { Lib l; m.assignIDs(g); n.assignIDs(g); } dump(e, m, r, 2); dump(e, n, r, 3); } for (u32 k = 0; k < Allocators; ++k) e.settled(k, "all types and constants were destroyed"); }
struct Fn { u32 id = 0; Env* e = nullptr; u64 v = 0; void operator()(const List<Fn*>& in, const List<Fn*>& out) { Out o; v = id; for (auto* f : in) v = v * 31 + f->v; e->text("eval %u %llu %zu", id, (unsigned long long)v, (size_t)out.size()); } };
void k_graphs(Env& e, Rng& r) { using G = Graph<String, u32>; { std::unique_ptr<G> gr[2]; for (auto& x : gr) x.reset(new G(e.al[r.below(Allocators)])); std::vector<G::NodeType*> nd[2]; for (u32 n = r.range(5, 60); n; --n) { u32 i = r.below(2), kind = r.below(8), x = r.u(), y = r.u(); std::string w = word(r); IAllocator* al = e.al[r.below(Allocators)]; auto& v = nd[i]; Lib l; switch (kind) { case 0: case 1: { auto* p = gr[i]->emplace(al, w.c_str()); Out o; v.push_back(p); break; } case 2: case 3: case 4: if (!v.empty()) v[x % v.size()]->connect(v[y % v.size()], x & 7); break; case 5: if (!v.empty()) v[x % v.size()]->disconnect(v[y % v.size()]); break; case 6: if (!v.empty()) { size_t k = x % v.size(); auto it = gr[i]->begin(); while (&*it != v[k]) ++it; gr[i]->erase(it); Out o; v.erase(v.begin() + (long)k); } break; default: { G t(std::move(*gr[0])); *gr[0] = std::move(*gr[1]); *gr[1] = std::move(t); Out o; std::swap(nd[0], nd[1]); } }
      e.count("graph operations"); { Out o; for (auto& q : *gr[i]) { e.text("n %s", q.data().c_str() ? q.data().c_str() : ""); for (auto& d : q.outputs()) e.text(" > %s %u", d.pTarget->data().c_str() ? d.pTarget->data().c_str() : "", d.data); } } }
    { u32 cnt = r.range(1, 12); IAllocator* al = e.al[r.below(Allocators)]; ExprGraph<Fn> x(al); std::vector<ExprGraph<Fn>::NodeType*> p; for (u32 k = 0; k < cnt; ++k) { Fn f; f.id = k; f.e = &e; ExprGraph<Fn>::NodeType* q; { Lib l; q = x.emplace(f); } p.push_back(q); for (u32 d = r.below(3); d && k; --d) { auto* from = p[r.below(k)]; Lib l; from->connect(q); } } { Lib l; ExprGraph<Fn>::evaluateRecursive<ExprArgs::FunctionPtrLists>(p.back()); } }
    { using C = Callable<u32(u32)>; std::unique_ptr<C> c[3]; for (auto& q : c) q.reset(new C(e.al[r.below(Allocators)])); for (u32 n = r.range(3, 20); n; --n) { u32 i = r.below(3), j = r.below(3), kind = r.below(6), k = r.u(); IAllocator* al = e.al[r.below(Allocators)]; struct Big { u32 k; char pad[100]; u32 operator()(u32 x) { return x + k + (u32)pad[5]; } } big{k, {}}; Lib l; switch (kind) { case 0: *c[i] = [k](u32 x) { return x ^ k; }; break; case 1: *c[i] = big; break; case 2: *c[i] = *c[j]; break; case 3: if (i != j) { *c[i] = std::move(*c[j]); *c[j] = C(al); } break; case 4: c[i]->reset(); break; default: { Out o; C* q; { Lib l2; Out o2; q = new C(al, big); } c[i].reset(q); } } u32 res = *c[i] ? (*c[i])(7) : 0; Out o; e.text("call %u", res); e.count("callable operations"); } } } for (u32 k = 0; k < Allocators; ++k) e.settled(k, "all graphs and callables were destroyed"); }
struct KindT { const char* name; void (*f)(Env&, Rng&); };
const KindT kindtab[Kinds] = {{"build", k_build}, {"parse", k_parse}, {"hostile", k_hostile}, {"edit", k_edit}, {"link", k_link}, {"moves", k_moves}, {"strings", k_strings}, {"lists", k_lists}, {"values", k_values}, {"graphs", k_graphs}};
}
void init() { g_heap = new HeapAllocator; g = new Grammar(g_heap); corpus::all(); }
const char* kind_name(u32 k) { return kindtab[k % Kinds].name; }
void run(Env& e, u32 kind, u64 seed) { Rng r(seed); g_depth = 0; if (!e.settled) e.settled = [](u32, const char*) {}; kindtab[kind % Kinds].f(e, r); g_depth = 0; e.seen[std::string("history: ") + kind_name(kind)]++; }
}
