// P12: a module that is moved, assigned, swapped or reset behaves like one that was not.
#include "spv.h"
#include "gen.h"
#include "extra.h"
#include "tmodel.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/TypeInferenceAndValiation.h"
#include "common/HeapAllocator.h"
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P12", "a case is one module that is built by a random program or parsed from a generated binary while it is moved out and back, swapped with other partially built modules (same and different allocators) or reset at random points between builder calls; the reference is the same sequence of calls without moves (bytes of the written module), plus parent pointers, lookups, logger and allocator bookkeeping after every move", 9000, 150000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
namespace {
// everything in the module says that it belongs to it
void owned(Module& m, const char* when) { u64 n = 0; auto bad = [&](const Instruction& i, const char* w) { if (i.getModule() != &m) violation(std::string("parent:") + w, std::string(when) + " " + sv::opname((u32)i.getOperation())); ++n; };
  for (auto& kv : m.getCapabilities()) bad(kv.value, "capability"); for (auto& kv : m.getExtensions()) bad(kv.value, "extension"); for (auto& kv : m.getExtInstrImports()) bad(kv.value, "import"); bad(m.getMemoryModel(), "memory-model"); bad(*m.getErrorInstr(), "error"); if (!m.getErrorInstr()->isErrorInstr()) violation("error-instr", when);
  for (auto& i : m.getExecutionModes()) bad(i, "mode"); for (auto& i : m.getSourceStrings()) bad(i, "string"); for (auto& i : m.getNames()) bad(i, "name"); for (auto& i : m.getModulesProcessed()) bad(i, "processed"); for (auto& i : m.getDecorations()) bad(i, "decoration"); for (auto& i : m.getTypesAndConstants()) bad(i, "type"); for (auto& i : m.getGlobalVariables()) bad(i, "variable"); for (auto& i : m.getUndefs()) bad(i, "undef"); for (auto& i : m.getLines()) bad(i, "line");
  auto fn = [&](const Function& f) { if (f.getModule() != &m) violation("parent:function", when); bad(*f.getFunction(), "OpFunction"); if (f.getFunction()->getFunction() != &f) violation("function-of-OpFunction", when); bad(*f.getFunctionEnd(), "OpFunctionEnd"); for (auto& p : f.getParameters()) { bad(p, "parameter"); if (p.getFunction() != &f) violation("function-of-parameter", when); } for (auto& b : f) { if (b.getModule() != &m || b.getFunction() != &f) violation("parent:block", when); bad(*b.getLabel(), "label"); for (auto& i : b) { bad(i, "instruction"); if (i.getBasicBlock() != &b) violation("block-of-instruction", when); } } };
  for (auto& f : m.getFunctions()) fn(f); for (auto& e : m.getEntryPoints()) { fn(e); bad(*e.getEntryPoint(), "OpEntryPoint"); if (e.getEntryPoint()->getFunction() != &e) violation("function-of-OpEntryPoint", when); } count("parents_checked", n); }
// the lookups find what is there
void lookups(Module& m, const char* when) { std::vector<Instruction*> v; for (auto& i : m.getTypesAndConstants()) v.push_back(const_cast<Instruction*>(&i)); for (auto* i : v) if (i->isType()) { const Type* t = m.getTypeInfo(i); if (!t) { count("type_without_info"); continue; } if (m.getTypeInstr(*t) == nullptr) violation("type-lookup", when); if (t->getType() != i->getOperation()) violation("type-info", std::string(when) + ": " + sv::opname((u32)i->getOperation()) + " has the info of another type"); count("lookups"); } else { const Constant* c = m.getConstantInfo(i); if (!c) { count("constant_without_info"); continue; } count("lookups"); if (c->getOperation() != i->getOperation()) violation("constant-info", std::string(when) + ": " + sv::opname((u32)i->getOperation()) + " has the info of another constant"); else if (*i == spv::Op::OpConstant || *i == spv::Op::OpSpecConstant) { size_t k = 0; bool same = true; for (auto it = i->getFirstActualOperand(); it != i->end(); ++it, ++k) same &= k < c->getData().size() && it->isLiteral() && c->getData()[k] == it->getLiteral().value; if (!same || k != c->getData().size()) violation("constant-info", std::string(when) + ": a constant has the data of another one"); } } for (auto& kv : m.getNameLookupMap()) { (void)kv; count("names"); } }
struct Side { TrackAlloc al; Log log; ITypeInferenceAndVailation ti; }; // with its own inference object 
bool empty(const Module& m) { return m.getFunctions().empty() && m.getEntryPoints().empty() && m.getCapabilities().elements() == 0 && m.getExtensions().elements() == 0 && m.getExtInstrImports().elements() == 0 && m.getExecutionModes().empty() && m.getSourceStrings().empty() && m.getNames().empty() && m.getModulesProcessed().empty() && m.getDecorations().empty() && m.getTypesAndConstants().empty() && m.getGlobalVariables().empty() && m.getUndefs().empty() && m.getLines().empty() && m.getNameLookupMap().elements() == 0; }
using Step = std::function<void(Module&, Rng&, std::function<void()>)>;
build::Opt popt(Rng& r) { build::Opt o; o.size = r.range(1, 3); o.depth = r.range(1, 2); o.entries = r.range(1, 2); o.kernel_ops = false; return o; }
// a build recipe: the same steps, with a hook between them
struct Recipe { u32 schema = 0; u64 seed; build::Prog p; bool extra; bool fin; std::vector<u32> words; bool parsed = false; bool names; Recipe(Rng& r) : seed(r.next()) { parsed = r.chance(1, 3); extra = r.coin(); fin = r.chance(1, 4); names = r.coin(); if (parsed) { gen::Opt o; o.size = r.range(2, 16); o.any_op = false; words = gen::module(r, o); if (r.chance(1, 3)) words[4] = u32(r.next()); } else p = build::random(r, popt(r)); schema = !parsed && r.chance(1, 3) ? u32(r.next()) : 0; }
  // false: rejected (equally with and without moves)
  bool run(Module& m, Log& log, const std::function<void()>& tick, std::string& why) const { Rng r(seed); if (parsed) { VecReader rd(words); bool ok = m.read(rd, *g); if (tick) tick(); if (ok) ok = m.resolveIDs(); if (tick) tick(); if (ok) ok = m.reconstructTypeAndConstantInfo(); if (tick) tick(); if (ok) ok = m.reconstructNames(); if (tick) tick(); if (!ok) { why = log.last; return false; } if (extra) for (u32 i = 0; i < 4; ++i) { T_(m, r); if (tick) tick(); } }
    else { if (schema) m.setSpvSchema(schema); build::Built b = build::lower(p, m, r, tick); if (!b.rejected.empty() || log.errors) { why = b.rejected + " " + log.last; return false; } if (fin) { VecWriter w; m.finalizeAndWrite(w, g); } if (tick) tick(); if (extra) { build::extras(m, r); if (tick) tick(); } if (log.errors) { why = log.last; return false; } }
    if (names) { Type t = m.newType(); tym::fill(t, tym::any(r, 2), r); Instruction* i = m.addType(t); if (tick) tick(); bool was = !m.getNames(i).empty(); m.addName(i, "moved type"); if (tick) tick(); m.addSourceStringInstr()->opString("a string"); m.addExtension("SPV_KHR_moved"); m.getExtensionInstructionImport("OpenCL.std"); if (tick) tick(); Instruction* i2 = m.addType(t); if (i2 != i) violation("type-again", "a type requested after a move is added again"); if (const char* n = m.getName(i); !n || strcmp(n, "moved type")) { if (!n && !was) violation("name-lost", "the name of a type is lost after a move"); } }
    return true; }
  static void T_(Module& m, Rng& r) { Type t = m.newType(); tym::fill(t, tym::any(r, 2), r); m.addType(t); m.constant(r.below(100)); } };
std::vector<u32> bytes(Module& m, bool raw, std::string& why, Log& log) { VecWriter w; bool ok = raw ? m.write(w) : m.finalizeAndWrite(w, g); if (!ok) why = log.last; return w.w; }
void moves(Rng& r) { Recipe A(r), B(r); std::vector<u32> wa, wb; std::string ra, rb; bool raw = A.parsed && !A.names && !A.extra && r.coin(); u32 ea, eb; bool oka, okb;
  { Side s; { Module m(&s.al, &s.log); oka = A.run(m, s.log, {}, ra); if (oka) wa = bytes(m, raw, ra, s.log); ea = s.log.errors; } if (std::string e = s.al.imbalance(); !e.empty()) violation("allocation-reference", e); }
  { Side s; { Module m(&s.al, &s.log); okb = B.run(m, s.log, {}, rb); if (okb) wb = bytes(m, false, rb, s.log); eb = s.log.errors; } }
  if (!oka || !okb) { count("rejected"); return; } distinct(fnv(wa)); count(A.parsed ? "mode_parsed" : "mode_built");
  Side s1, s2; { Module m(&s1.al, &s1.log, &s1.ti), n(&s2.al, &s2.log, &s2.ti); Log& la = s1.log; std::string why; if (!B.run(n, s2.log, {}, why)) { violation("second-build", why); return; } u32 den = r.pick(std::vector<u32>{1, 3, 10}); bool swapped = false; Rng q(r.next()); std::vector<std::unique_ptr<Module>> husks; u64 done = 0;
    auto tick = [&] { if (!q.chance(1, den) || done > 200) return; ++done; const char* what = ""; switch (q.below(7)) { case 0: { Module t(std::move(m)); if (q.coin()) owned(t, "after move construction"); m = std::move(t); what = "move out and back"; break; } case 1: { Module t(std::move(m)); Module u(std::move(t)); m = std::move(u); what = "move through two"; break; } case 2: { Module t; t = std::move(m); m = std::move(t); what = "assign to a default constructed module and back"; break; }
        case 3: { Module t(std::move(m)); m = std::move(n); n = std::move(t); t = std::move(m); m = std::move(n); n = std::move(t); what = "swap twice"; swapped = true; break; } case 4: { Module t(&s2.al, &s2.log); { Rng x(q.next()); Recipe::T_(t, x); t.addCapability(spv::Capability::Kernel); } t = std::move(m); if (q.coin()) owned(t, "after move assignment"); m = std::move(t); what = "assign over a used module"; break; } case 5: { Module& self = m; m = std::move(self); what = "self assignment"; break; }
        default: { auto h = std::make_unique<Module>(std::move(m)); m = std::move(*h); if (q.coin()) husks.push_back(std::move(h)); what = "moved-from module kept"; } } count(std::string("move: ") + what); if (q.chance(1, 4)) { owned(m, what); if (m.getLogger() != &s1.log || m.getAllocator() != &s1.al || m.getTypeInferenceAndVailation() != &s1.ti) violation("settings", std::string("allocator or logger differ after: ") + what); } if (q.chance(1, 8)) { lookups(m, what); owned(n, "the other module"); }
      if (q.chance(1, 6)) { u32 e0 = la.errors; std::string l0 = la.last; Instruction* bad = m.addType(m.newType().Float()); Function tmpf(&m); BasicBlock& bb = tmpf.addBasicBlock(); Instruction* k = m.constant(1.5f); Instruction* c = bb->opIAdd(k, k); (void)bad; if (!c->isErrorInstr()) { if (la.errors == e0) count("iadd_accepted"); } else if (c != m.getErrorInstr()) violation("error-instr", "the error instruction of another module was returned"); if (la.errors == e0) count("no_error_logged"); la.errors = e0; la.last = l0; } };
    // the disturbance above adds a type and a constant: keep it out of half of the runs, and compare modulo it otherwise
    bool disturb = r.chance(1, 4); auto quiet = [&] { if (disturb) { tick(); return; } u64 s = q.next(); Rng save(s); (void)save; if (!q.chance(1, den) || done > 200) return; ++done; switch (q.below(6)) { case 0: { Module t(std::move(m)); if (q.coin()) owned(t, "after move construction"); m = std::move(t); count("move: out and back"); break; } case 1: { Module t; t = std::move(m); m = std::move(t); count("move: through default"); break; } case 2: { Module t(std::move(m)); m = std::move(n); n = std::move(t); if (q.coin()) { owned(m, "the other module, swapped"); owned(n, "swapped"); } t = std::move(m); m = std::move(n); n = std::move(t); swapped = true; count("move: swap twice"); break; } case 3: { Module t(&s2.al, &s2.log); { Rng x(q.next()); Recipe::T_(t, x); t.addCapability(spv::Capability::Kernel); } t = std::move(m); m = std::move(t); count("move: over a used module"); break; } case 4: { Module& self = m; m = std::move(self); count("move: self"); break; } default: { auto h = std::make_unique<Module>(std::move(m)); m = std::move(*h); if (q.coin()) husks.push_back(std::move(h)); count("move: husk kept"); } } if (q.chance(1, 4)) { owned(m, "after a move"); if (m.getLogger() != &s1.log || m.getAllocator() != &s1.al || m.getTypeInferenceAndVailation() != &s1.ti) violation("settings", "allocator or logger differ after a move"); } };
    if (!A.run(m, s1.log, quiet, why)) { violation("rejected-after-move", why); return; } owned(m, "at the end"); lookups(m, "at the end"); count("moves", done);
    // final hand over to another object
    u32 how = r.below(3); u32 hv = m.getSpvVersion(), hg = m.getSpvGenerator(), hb = m.getSpvBound(), hs = m.getSpvSchema(); Module end(&s2.al, &s2.log, &s2.ti); if (how == 1) end = std::move(m); else if (how == 2) { Module t(std::move(m)); end = std::move(t); } Module& res = how ? end : m; if (res.getAllocator() != &s1.al || res.getLogger() != &s1.log || res.getTypeInferenceAndVailation() != &s1.ti) violation("settings", "allocator, logger or type inference differ after handing the module over"); if (res.getSpvVersion() != hv || res.getSpvGenerator() != hg || res.getSpvBound() != hb || res.getSpvSchema() != hs) violation("header", fmt("version %x generator %x bound %u schema %u became %x %x %u %u", hv, hg, hb, hs, res.getSpvVersion(), res.getSpvGenerator(), res.getSpvBound(), res.getSpvSchema())); std::vector<u32> w = bytes(res, raw, why, s1.log); if (!why.empty() && !(raw && disturb)) violation("write-failed", why);
    if (!disturb && w != wa) { sv::Mod x, y; std::string d = "undecodable"; if (sv::decode(wa, x, &d) && sv::decode(w, y, &d)) d = sv::compare(x, y, {}); violation(A.parsed ? "bytes:parsed" : "bytes:built", fmt("%zu words instead of %zu: ", w.size(), wa.size()) + d); } if (s1.log.errors != ea && !disturb) violation("errors", s1.log.last);
    if (swapped || r.coin()) { std::vector<u32> v = bytes(n, false, why, s2.log); if (v != wb) violation("bytes:other", "the other module differs"); }
    // moved-from modules can be assigned again
    if (how) { Side s3; std::string x; Module f(&s3.al, &s3.log); if (B.run(f, s3.log, {}, x)) { m = std::move(f); owned(m, "re-used"); if (bytes(m, false, x, s3.log) != wb) violation("bytes:reused", "a moved-from module that was assigned again differs"); std::vector<u32> again = bytes(res, raw, why, s1.log); if (!disturb && again != wa && !raw) { sv::Mod a_, b_; std::string d_ = "undecodable"; sv::CmpOpt co; co.same_ids = true; co.bound = true; co.exact_order = true; if (sv::decode(wa, a_, &d_) && sv::decode(again, b_, &d_)) d_ = sv::compare(a_, b_, co); violation("bytes:dependent", "writing again after the moved-from module was used gives another binary: " + d_); } Module gone(std::move(m)); } if (r.coin()) { m = std::move(n); owned(m, "re-used"); } else { Module z(std::move(m)); } } husks.clear(); }
  if (std::string e = s1.al.imbalance(); !e.empty()) violation("allocation", e); if (std::string e = s2.al.imbalance(); !e.empty()) violation("allocation-other", e); }
void resets(Rng& r) { Recipe A(r), B(r); std::vector<u32> wb; std::string why, x; u32 eb; { Side s; Module m(&s.al, &s.log); if (!B.run(m, s.log, {}, why)) { count("rejected"); return; } wb = bytes(m, false, x, s.log); eb = s.log.errors; }
  Side s; { s.al.recycle = r.coin(); Module m(&s.al, &s.log, &s.ti); u32 n = r.range(1, 3); for (u32 i = 0; i < n; ++i) { std::vector<u32> junk; Recipe C(r); const Recipe& R = i ? C : A; u32 stop = r.coin() ? 0 : r.range(1, 40); struct Stop {}; u32 k = 0; bool built = true; try { built = R.run(m, s.log, [&] { if (stop && ++k >= stop) throw Stop{}; }, why); } catch (Stop&) { count("reset_midway"); } (void)built; if (r.coin()) { VecWriter w; if (!stop) m.finalizeAndWrite(w, g); } if (r.chance(1, 4)) { VecReader rd(R.words); m.read(rd, *g); } m.reset(); if (!empty(m)) violation("reset-not-empty", "lists of a reset module have entries"); if (m.getSpvBound() != 0 || m.getSpvVersion() != makeVersion(1, 0)) violation("reset-header", fmt("bound %u version %x", m.getSpvBound(), m.getSpvVersion())); owned(m, "reset"); if (m.getLogger() != &s.log || m.getAllocator() != &s.al || m.getTypeInferenceAndVailation() != &s.ti) violation("reset-settings", ""); count("resets"); }
    if (r.chance(1, 8)) { VecWriter w; Module f(&s.al); VecWriter v; m.write(w); f.write(v); if (w.w != v.w) violation("reset-bytes", "an empty module writes other words after reset"); }
    s.log.errors = 0; if (!B.run(m, s.log, {}, why)) { violation("rejected-after-reset", why); return; } std::vector<u32> w = bytes(m, false, why, s.log); distinct(fnv(w)); count("mode_reset"); if (w != wb) { sv::Mod a, b; std::string d = "undecodable"; if (sv::decode(wb, a, &d) && sv::decode(w, b, &d)) d = sv::compare(a, b, {}); violation(B.parsed ? "reset:parsed" : "reset:built", fmt("%zu words instead of %zu: ", w.size(), wb.size()) + d); } if (s.log.errors != eb) violation("reset-errors", s.log.last); owned(m, "rebuilt"); lookups(m, "rebuilt"); }
  if (std::string e = s.al.imbalance(); !e.empty()) violation("allocation", e); }
}
void hx::run_case(u64, Rng& r) { if (r.chance(1, 4)) resets(r); else moves(r); }
