// P11: editing a module (replace, gather, remove, insert) against a model of its operand graph.
#include "spv.h"
#include "spec.h"
#include "gen.h"
#include "corpus.h"
#include "build.h"
#include "extra.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "common/HeapAllocator.h"
#include "hx.h"
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P11", "a case is a module (built through the API or parsed) and a sequence of up to 14 edits: replaceUses, gatherUses with and without replacement, removal of instructions of every section together with their users, of blocks with and without replacement and of functions and entry points, insertion of instructions, types, constants and names; after every edit the operand graph, the returned uses, the names and the type and constant lookups are compared with the model, and at the end the module is written", 9000, 150000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
namespace {
std::string OPN(u32 o) { return sv::opname(o); }
using OT = Operand::Type;
struct O { OT t; u64 v; bool operator==(const O& o) const { return t == o.t && v == o.v; } };
struct Rec { Instruction* p; u32 op; std::vector<O> o; const BasicBlock* bb; const Function* fn; bool operator==(const Rec& r) const { return p == r.p && op == r.op && o == r.o; } };
u64 val(const Operand& o) { switch (o.type) { case OT::Instruction: return (u64)o.instruction; case OT::BranchTarget: return (u64)o.branchTarget; case OT::Literal: return o.literal.value; default: return (u64)(u32)o.id; } }
struct Snap { std::vector<Rec> r; std::map<u64, size_t> at; std::map<u64, Instruction*> label; /* block -> label */ };
template <class F> void walk(Module& m, F f) { for (auto& [k, i] : m.getCapabilities()) f(i); for (auto& [k, i] : m.getExtensions()) f(i); for (auto& [k, i] : m.getExtInstrImports()) f(i); f(m.getMemoryModel()); for (auto& e : m.getEntryPoints()) f(*e.getEntryPoint()); for (auto* l : {&m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines()}) for (auto& i : *l) f(i);
  auto fun = [&](Function& x) { f(*x.getFunction()); for (auto& i : x.getParameters()) f(i); for (auto& b : x) { f(*b.getLabel()); for (auto& i : b) f(i); } f(*x.getFunctionEnd()); }; for (auto& x : m.getFunctions()) if (x.empty()) fun(x); for (auto& x : m.getFunctions()) if (!x.empty()) fun(x); for (auto& x : m.getEntryPoints()) if (!x.empty()) fun(x); }
Snap snap(Module& m) { std::vector<Instruction*> all, it; walk(m, [&](Instruction& i) { all.push_back(&i); }); m.iterateInstructions([&](Instruction& i) { it.push_back(&i); }); if (all != it) violation("iteration", fmt("%zu of %zu instructions visited", it.size(), all.size())); Snap s; walk(m, [&](Instruction& i) { Rec r{&i, (u32)i.getOperation(), {}, nullptr, nullptr}; if (i.getParentType() == Instruction::ParentType::BasicBlock) { r.bb = i.getBasicBlock(); r.fn = r.bb ? r.bb->getFunction() : nullptr; } else if (i.getParentType() == Instruction::ParentType::Function) r.fn = i.getFunction(); for (auto& o : i) r.o.push_back({o.type, val(o)}); s.at[(u64)&i] = s.r.size(); if (r.op == SpvOpLabel && r.bb) s.label[(u64)r.bb] = &i; s.r.push_back(std::move(r)); }); return s; }
bool refers(const Snap& s, const O& o, u64 p) { if (o.t == OT::Instruction) return o.v == p; if (o.t == OT::BranchTarget) { auto it = s.label.find(o.v); return it != s.label.end() && (u64)it->second == p; } return false; }
std::set<u64> users(const Snap& s, u64 p) { std::set<u64> u; for (auto& r : s.r) for (auto& o : r.o) if (refers(s, o, p)) u.insert((u64)r.p); return u; }
bool is_decl(u32 op) { return sv::is_type(op) || sv::is_const(op); }
std::string text(const Rec& r) { return OPN(r.op) + fmt("(%zu operands)", r.o.size()); }
bool ceq(const Constant& a, const Constant& b) { if (a.getOperation() != b.getOperation() || a.getType() != b.getType() || a.getData().size() != b.getData().size() || a.getComponents().size() != b.getComponents().size()) return false; for (size_t i = 0; i < a.getData().size(); ++i) if (a.getData()[i] != b.getData()[i]) return false; auto x = a.getComponents().begin(); for (auto& c : b.getComponents()) { if (!ceq(*x, c)) return false; ++x; } return true; }
struct Case { Module& m; Rng& r; Log& log; TrackAlloc& al; std::string hist; bool decl_edited = false, bad = false; std::set<const Instruction*> tsame, csame; 
  Case(Module& mm, Rng& rr, Log& l, TrackAlloc& a) : m(mm), r(rr), log(l), al(a) {}
  void fail(const std::string& k, const std::string& d) { violation(k, d + "\nafter: " + hist); bad = true; }
  // structure
  void expect(const Snap& want, const char* key) { Snap got = snap(m); count("compared"); std::map<u64, size_t> gi = got.at; size_t n = 0; for (auto& r : want.r) { auto it = gi.find((u64)r.p); if (it == gi.end()) { fail(std::string("lost:") + key, text(r)); return; } auto& q = got.r[it->second]; if (!(q == r)) { std::string d = OPN(r.op); for (size_t k = 0; k < std::max(q.o.size(), r.o.size()); ++k) if (k >= q.o.size() || k >= r.o.size() || !(q.o[k] == r.o[k])) { d += fmt(", operand %zu", k); break; } fail(std::string(q.o.size() == r.o.size() && q.op == r.op ? "operand:" : "changed:") + key, d); return; } ++n; } if (got.r.size() != n) { for (auto& q : got.r) if (!want.at.count((u64)q.p)) { fail(std::string("not-removed:") + key, text(q)); return; } } for (size_t i = 0; i < n; ++i) if (got.r[i].p != want.r[i].p) { fail(std::string("order:") + key, text(want.r[i])); return; } consistent(got, key); }
  void consistent(const Snap& s, const char* key) { std::set<const BasicBlock*> bbs; for (auto& f : m.getFunctions()) for (auto& b : f) bbs.insert(&b); for (auto& f : m.getEntryPoints()) for (auto& b : f) bbs.insert(&b); for (auto& r : s.r) for (auto& o : r.o) { if (o.t == OT::Instruction && o.v && !s.at.count(o.v) && o.v != (u64)m.getErrorInstr()) { fail(std::string("dangling-operand:") + key, text(r)); return; } if (o.t == OT::BranchTarget && o.v && !bbs.count((const BasicBlock*)o.v)) { fail(std::string("dangling-block:") + key, text(r)); return; } } names(s, key); lookups(s, key); }
  // names
  void names(const Snap& s, const char* key) { std::map<u64, std::multiset<std::pair<u32, std::string>>> want; size_t n = 0; for (auto& r : s.r) if (r.op == SpvOpName || r.op == SpvOpMemberName) { if (r.o.empty() || r.o[0].t != OT::Instruction || !r.o[0].v) continue; std::string t; size_t k = r.op == SpvOpName ? 1 : 2; bool end = false; for (; k < r.o.size() && !end; ++k) for (u32 b = 0; b < 4 && !end; ++b) { char c = (char)(r.o[k].v >> (8 * b)); if (c) t += c; else end = true; } want[r.o[0].v].insert({r.op == SpvOpName ? ~0u : (u32)r.o[1].v, t}); ++n; }
    size_t have = 0; for (auto& e : m.getNameLookupMap()) { ++have; if (!s.at.count((u64)e.key)) { fail(std::string("name-of-removed:") + key, e.value.name.c_str() ? e.value.name.c_str() : ""); return; } } if (have != n) { fail(std::string("name-count:") + key, fmt("%zu names known, the module has %zu", have, n)); return; }
    for (auto& w : want) { auto l = m.getNames((const Instruction*)w.first, &al); std::multiset<std::pair<u32, std::string>> got; for (auto& x : l) got.insert({x.memberIndex, x.name ? x.name : ""}); if (got != w.second) { fail(std::string("names:") + key, ""); return; } bool any = false, hit = false; const char* q = m.getName((const Instruction*)w.first); for (auto& x : w.second) if (x.first == ~0u) { any = true; hit |= x.second == (q ? q : ""); } if (any ? !hit : q != nullptr) { fail(std::string("name:") + key, q ? q : "(null)"); return; } } count("names_checked", n); }
  void lookups(const Snap& s, const char* key) { if (decl_edited) return; u32 k = 0; for (auto& r : s.r) { if (sv::is_type(r.op) && tsame.count(r.p)) { if (k > 400 || !this->r.chance(1, 3)) continue; ++k; const Type* t = r.p->getType(); if (!t) { fail(std::string("type-lost:") + key, text(r)); return; } size_t before = m.getTypesAndConstants().size(); Type copy(*t); Instruction* q = m.addType(copy); if (!s.at.count((u64)q)) { fail(std::string("type-dangling:") + key, text(r)); return; } if (m.getTypesAndConstants().size() != before) { fail(std::string("type-duplicated:") + key, text(r)); return; } if (!q->getType() || *q->getType() != copy) { fail(std::string("type-other:") + key, text(r)); return; } count("types_requested"); } else if (sv::is_const(r.op) && csame.count(r.p)) { if (!this->r.chance(1, 3)) continue; const Constant* c = r.p->getConstant(); if (!c) { fail(std::string("constant-lost:") + key, text(r)); return; } size_t before = m.getTypesAndConstants().size(); Instruction* q = m.addConstant(*c); if (!s.at.count((u64)q)) { fail(std::string("constant-dangling:") + key, text(r)); return; } if (m.getTypesAndConstants().size() != before) { fail(std::string("constant-duplicated:") + key, text(r)); return; } if (!q->getConstant() || !ceq(*q->getConstant(), *r.p->getConstant())) { fail(std::string("constant-other:") + key, text(r)); return; } count("constants_requested"); } } }
  void start() { for (u32 k = 0; k < 2; ++k) { tsame.clear(); csame.clear(); std::vector<Instruction*> t; for (auto& i : m.getTypesAndConstants()) t.push_back(&i); for (Instruction* i : t) { size_t before = m.getTypesAndConstants().size(); if (sv::is_type((u32)i->getOperation())) { if (!i->getType()) continue; Type c(*i->getType()); Instruction* q = m.addType(c); if (m.getTypesAndConstants().size() == before && q && q->getType() && *q->getType() == c) tsame.insert(i); } else { if (!i->getConstant() || i->isSpecConstant()) continue; Instruction* q = m.addConstant(*i->getConstant()); if (m.getTypesAndConstants().size() == before && q && q->getConstant() && ceq(*q->getConstant(), *i->getConstant())) csame.insert(i); } } } log.errors = 0; }
  // edits
  static void erase(Snap& s, const std::set<u64>& dead) { Snap n; for (auto& r : s.r) if (!dead.count((u64)r.p)) { n.at[(u64)r.p] = n.r.size(); n.r.push_back(r); } for (auto& l : s.label) if (!dead.count((u64)l.second)) n.label.insert(l); s = n; }
  Rec* pick(Snap& s, std::function<bool(const Rec&)> f) { std::vector<Rec*> c; for (auto& r : s.r) if (f(r)) c.push_back(&r); return c.empty() ? nullptr : c[r.below((u32)c.size())]; }
  bool value(const Rec& x) { return x.p->hasResult() && x.op != SpvOpLabel; }
  void replace(bool gather) { Snap s = snap(m); bool label = r.chance(1, 6); u32 cls = r.below(4); Rec* a = pick(s, [&](const Rec& x) { if (label) return x.op == SpvOpLabel; return value(x) && (cls == 0 ? is_decl(x.op) : cls == 1 ? x.bb != nullptr : true); }); if (!a) return; bool same = r.chance(3, 4); Rec* b = pick(s, [&](const Rec& x) { if (label) return x.op == SpvOpLabel && x.fn == a->fn && x.p != a->p; return value(x) && x.p != a->p && (!same || x.op == a->op || (!sv::is_type(a->op) && !sv::is_type(x.op))); }); bool sub = b && (!gather || r.coin()); if (!gather && !b) return; Instruction *pa = a->p, *pb = sub ? b->p : nullptr; hist += fmt("%s(%s", gather ? "gatherUses" : "replaceUses", OPN(a->op).c_str()) + (pb ? ", " + OPN(b->op) : "") + ") "; std::set<u64> want = users(s, (u64)pa);
    if (pb) { const BasicBlock* target = b->bb; for (auto& x : s.r) for (auto& o : x.o) if (refers(s, o, (u64)pa)) { if (is_decl(x.op)) decl_edited = true; if (o.t == OT::BranchTarget) { o.v = (u64)target; } else o.v = (u64)pb; } }
    const char* key = gather ? label ? "gatherUses-label" : sv::is_type(a->op) ? "gatherUses-type" : "gatherUses" : label ? "replaceUses-label" : sv::is_type(a->op) ? "replaceUses-type" : "replaceUses"; if (gather) { List<Instruction*> out(&al); m.gatherUses(pa, out, pb); std::set<u64> got; for (auto* i : out) got.insert((u64)i); if (got != want) { u32 miss = 0, extra = 0; std::string d; for (u64 w : want) if (!got.count(w)) { ++miss; d = text(s.r[s.at[w]]); } for (u64 w : got) extra += !want.count(w); fail(std::string(miss ? "use-missing:" : "use-extra:") + key, fmt("%u of %zu uses missing, %u too many ", miss, want.size(), extra) + d); } } else m.replaceUses(pa, pb); count(gather ? "gather" : "replace"); count("uses", want.size()); expect(s, key); }
  static bool removable(const Rec& x) { switch (x.op) { case SpvOpLabel: case SpvOpFunction: case SpvOpFunctionEnd: case SpvOpMemoryModel: case SpvOpEntryPoint: return false; default: return !(x.bb && spvgentwo::isTerminatorOp((spv::Op)x.op)); } }
  void remove_instr() { Snap s = snap(m); u32 cls = r.below(10); u32 rare = ~0u; if (cls >= 8) { std::set<u32> ops; for (auto& x : s.r) if (removable(x)) ops.insert(x.op); if (!ops.empty()) { auto it = ops.begin(); std::advance(it, r.below((u32)ops.size())); rare = *it; } } std::set<u64> used; for (auto& x : s.r) for (auto& o : x.o) if (o.t == OT::Instruction) used.insert(o.v); Rec* a = pick(s, [&](const Rec& x) { if (!removable(x)) return false; switch (cls) { case 0: return x.op == SpvOpName || x.op == SpvOpMemberName; case 1: return sv::is_type(x.op); case 2: return sv::is_const(x.op); case 3: return x.bb != nullptr; case 4: return !x.fn && !is_decl(x.op); case 5: return x.op == SpvOpCapability || x.op == SpvOpExtension || x.op == SpvOpExtInstImport; case 6: return !used.count((u64)x.p); case 8: case 9: return x.op == rare; default: return true; } }); if (!a) return;
    std::vector<u64> order{(u64)a->p}; std::set<u64> set{(u64)a->p}; bool ok = true; for (size_t i = 0; i < order.size() && ok; ++i) for (u64 u : users(s, order[i])) if (!set.count(u)) { if (!removable(s.r[s.at[u]]) || s.r[s.at[u]].op == SpvOpFunctionParameter || set.size() > 14) { ok = false; break; } set.insert(u); order.push_back(u); }
    if (!ok) { Rec* b = pick(s, [&](const Rec& x) { return x.op == a->op && x.p != a->p && value(x); }); if (!b || !value(*a)) return; Instruction *pa = a->p, *pb = b->p; hist += "replaceUses+"; for (auto& x : s.r) for (auto& o : x.o) if (refers(s, o, (u64)pa)) { if (is_decl(x.op)) decl_edited = true; o.v = (u64)pb; } m.replaceUses(pa, pb); order = {(u64)pa}; count("replaced_then_removed"); }
    std::unique_ptr<Type> rt; if (order.size() == 1 && !decl_edited && tsame.count((Instruction*)order[0])) rt.reset(new Type(*((Instruction*)order[0])->getType())); std::reverse(order.begin(), order.end()); u32 op = s.r[s.at[order.back()]].op; // users that use each other (phis): take the words as they are
    for (u64 p : order) { Rec x = s.r[s.at[p]]; hist += "remove(" + OPN(x.op) + ") "; bool got = r.chance(1, 4) && x.bb ? const_cast<BasicBlock*>(x.bb)->remove(x.p) : m.remove(x.p); if (!got) { fail("remove-failed", text(x)); return; } tsame.erase(x.p); csame.erase(x.p); erase(s, {p}); count("removed"); count(sv::is_type(x.op) ? "removed_types" : sv::is_const(x.op) ? "removed_constants" : x.bb ? "removed_from_blocks" : "removed_other"); }
    expect(s, is_decl(op) ? "remove-declaration" : op == SpvOpName || op == SpvOpMemberName ? "remove-name" : "remove"); if (bad) return;
    if (rt) { Instruction* q = m.addType(*rt); Snap t = snap(m); if (!t.at.count((u64)q) || !q->getType() || *q->getType() != *rt) { fail("type-after-removal", OPN(op)); return; } count("types_recreated"); consistent(t, "recreate"); } }
  void remove_refused() { Snap s = snap(m); Rec* a = pick(s, [&](const Rec& x) { return x.op == SpvOpLabel || x.op == SpvOpFunction || x.op == SpvOpFunctionEnd || x.op == SpvOpMemoryModel; }); if (!a) return; hist += "remove(" + OPN(a->op) + ") "; u32 e = log.errors; if (m.remove(a->p)) fail("remove-accepts", text(*a)); log.errors = e; if (m.remove((const Instruction*)nullptr)) fail("remove-accepts", "null"); count("refused"); expect(s, "refused"); }
  std::vector<Function*> funcs() { std::vector<Function*> v; for (auto& f : m.getFunctions()) v.push_back(const_cast<Function*>((const Function*)&f)); for (auto& f : m.getEntryPoints()) v.push_back(const_cast<EntryPoint*>((const EntryPoint*)&f)); return v; }
  // operands that were cleared because their object is gone: remove their user or let it use something else
  void repair(const std::vector<u64>& us) { Snap s = snap(m); for (u64 u : us) { auto it = s.at.find(u); if (it == s.at.end()) continue; Rec& x = s.r[it->second]; if (removable(x) && x.op != SpvOpFunctionParameter && users(s, u).empty()) { hist += "drop(" + OPN(x.op) + ") "; if (!m.remove(x.p)) { fail("remove-failed", text(x)); return; } tsame.erase(x.p); csame.erase(x.p); s = snap(m); continue; } Instruction* in = nullptr; for (auto& y : s.r) if (y.p != x.p && value(y) && (x.op == SpvOpFunctionCall || x.op == SpvOpEntryPoint ? y.op == SpvOpFunction : sv::is_type(y.op) == false)) { in = y.p; break; } for (auto& o : *x.p) { if (o.isInstruction() && !o.instruction && in) o = in; if (o.isBranchTarget() && !o.branchTarget && x.fn) { BasicBlock* b = nullptr; for (auto& y : *const_cast<Function*>(x.fn)) if (&y != x.bb) b = &y; if (!b) b = const_cast<BasicBlock*>(x.bb); o = b; } } } }
  void check_list(const char* key, const List<Instruction*>& l, const std::set<u64>& want, const Snap& s) { std::set<u64> got; for (auto* i : l) got.insert((u64)i); if (got != want) { std::string d; u32 miss = 0, extra = 0; for (u64 w : want) if (!got.count(w)) { ++miss; auto it = s.at.find(w); if (it != s.at.end()) d = text(s.r[it->second]); } for (u64 w : got) extra += !want.count(w); fail(std::string(miss ? "use-missing:" : "use-extra:") + key, fmt("%u of %zu uses missing, %u too many ", miss, want.size(), extra) + d); } }
  std::set<u64> vanish(Snap& s, const std::set<u64>& dead, u64 head, u64 headbb, u64 rep, u64 repbb) { erase(s, dead); std::set<u64> want; for (auto& x : s.r) for (auto& o : x.o) { bool hit = false; if (o.t == OT::Instruction && dead.count(o.v)) { o.v = o.v == head ? rep : 0; hit = true; } else if (o.t == OT::BranchTarget && headbb && o.v == headbb) { o.v = repbb; hit = true; } if (hit) { want.insert((u64)x.p); if (is_decl(x.op)) decl_edited = true; } } return want; }
  // the content of a block moves into a new one behind it, which then takes its place
  void move_block() { std::vector<Function*> c; for (Function* f : funcs()) if (!f->empty()) c.push_back(f); if (c.empty()) return; Function* f = r.pick(c); BasicBlock* x = &f->back(); if (x->empty()) return; BasicBlock* y = &f->addBasicBlock(r.coin() ? "moved" : nullptr); Snap s = snap(m); hist += fmt("move-block(%zu) ", (size_t)x->size()); *y = std::move(*x); Snap t = snap(m); if (t.r.size() != s.r.size()) { fail("move-block", fmt("%zu records, had %zu", t.r.size(), s.r.size())); return; }
    for (auto a : s.r) { if (a.bb == x && (u64)a.p != (u64)x->getLabel()) { a.bb = y; if (a.p->getBasicBlock() != y || a.p->getFunction() != f || a.p->getModule() != &m) { fail("move-block", "an instruction of the block refers to another block, function or module: " + text(a)); return; } } if (!t.at.count((u64)a.p) || !(t.r[t.at[(u64)a.p]] == a)) { fail("changed:move-block", text(a)); return; } } if (!x->empty() || x->getTerminator()) { fail("move-block", "the moved-from block is not empty"); return; } count("blocks_moved"); remove_block(f, x, y); }
  void remove_block(Function* f = nullptr, BasicBlock* b = nullptr, BasicBlock* rep = nullptr) { if (!f) { std::vector<Function*> c; for (Function* x : funcs()) if (x->size() > 1) c.push_back(x); if (c.empty()) return; f = r.pick(c); std::vector<BasicBlock*> bs; for (auto& x : *f) bs.push_back(&x); b = r.chance(1, 8) ? bs[0] : bs[1 + r.below((u32)bs.size() - 1)]; if (r.coin()) { do rep = r.pick(bs); while (rep == b); } } Snap s = snap(m); std::set<u64> dead{(u64)b->getLabel()}; for (auto& x : s.r) if (x.bb == b) dead.insert((u64)x.p); hist += fmt("Function::remove(block of %zu%s) ", dead.size(), rep ? ", replacement" : ""); std::set<u64> want = vanish(s, dead, (u64)b->getLabel(), (u64)b, rep ? (u64)rep->getLabel() : 0, (u64)rep); List<Instruction*> out = f->remove(b, rep, &al); count(rep ? "blocks_replaced" : "blocks_removed"); const char* key = rep ? "remove-block-replace" : "remove-block"; check_list(key, out, want, s); expect(s, key); if (bad) return; std::vector<u64> v; for (u64 w : want) v.push_back(w); repair(v); if (!bad) consistent(snap(m), "repair"); }
  void remove_func() { auto fs = funcs(); if (fs.size() < 2) return; Function* f = r.pick(fs); if (f->empty() && f->isEntryPoint()) return; Function* rep = nullptr; if (r.coin()) { std::vector<Function*> c; for (Function* x : fs) if (x != f && !(x->empty() && x->isEntryPoint())) c.push_back(x); if (c.empty()) return; rep = r.pick(c); } Snap s = snap(m); std::set<u64> dead; for (auto& x : s.r) if (x.fn == f || (f->isEntryPoint() && x.p == f->asEntryPoint()->getEntryPoint())) dead.insert((u64)x.p); u64 head = (u64)f->getFunction(); hist += fmt("Module::remove(%s of %zu%s) ", f->isEntryPoint() ? "entry point" : "function", dead.size(), rep ? ", replacement" : ""); std::set<u64> want = vanish(s, dead, head, 0, rep ? (u64)rep->getFunction() : 0, 0); bool usable = false; for (Function* x : fs) usable |= x != f && !x->empty(); if (!usable && !want.empty()) return; List<Instruction*> out = m.remove(f, rep, &al); count(f ? rep ? "functions_replaced" : "functions_removed" : ""); const char* key = rep ? "remove-function-replace" : "remove-function"; check_list(key, out, want, s); expect(s, key); if (bad) return; std::vector<u64> v(want.begin(), want.end()); repair(v); if (!bad) consistent(snap(m), "repair"); }
  void insert() { Snap s = snap(m); switch (r.below(7)) { case 6: { u32 w = r.below(5); Instruction* i = nullptr; Instruction* ty = nullptr; for (auto& x : s.r) if (x.op == SpvOpTypeInt || x.op == SpvOpTypeFloat) ty = x.p; if (w == 4 && !ty) w = 0; switch (w) { case 0: i = m.addLineInstr(); i->opNoLine(); break; case 1: i = m.addSourceStringInstr(); i->opString("file.txt"); break; case 2: i = m.addModuleProccessedInstr(); i->makeOp(spv::Op::OpModuleProcessed, "tool"); break; case 3: i = m.addSourceStringInstr(); i->opSourceExtension("ext"); break; default: i = m.addUndefInstr(); i->opUndef(ty); } hist += "add(" + OPN((u32)i->getOperation()) + ") "; Snap t = snap(m); if (t.r.size() != s.r.size() + 1 || !t.at.count((u64)i)) { fail("insert-module", OPN((u32)i->getOperation())); return; } erase(t, {(u64)i}); for (size_t k = 0; k < s.r.size(); ++k) if (!(t.r[k] == s.r[k])) { fail("changed:insert-module", text(s.r[k])); return; } consistent(snap(m), "insert-module"); count("module_instructions_inserted"); break; } case 5: { std::vector<Function*> c; for (Function* f : funcs()) if (!f->empty()) c.push_back(f); Rec* a = pick(s, [&](const Rec& x) { return value(x) && x.op != SpvOpFunction; }); if (c.empty() || !a) return; Function* f = r.pick(c); hist += "open-block "; BasicBlock& b = f->addBasicBlock(r.coin() ? "open" : nullptr); Instruction* ty = nullptr; for (auto& x : s.r) if (x.op == SpvOpTypeInt || x.op == SpvOpTypeFloat) ty = x.p; if (!ty) { b.addInstruction(); return; } Instruction* i = b->opUndef(ty); Snap t = snap(m); if (!t.at.count((u64)i) || t.r[t.at[(u64)i]].bb != &b) fail("insert-open", ""); for (auto& x : s.r) if (!(t.r[t.at[(u64)x.p]] == x)) { fail("changed:insert-open", text(x)); return; } consistent(t, "insert-open"); count("open_blocks"); break; } case 0: { Rec* a = pick(s, [&](const Rec& x) { return value(x); }); if (!a) return; std::string n = fmt("n%u", r.below(50)) + (r.coin() ? "_longer_name" : ""); hist += "addName "; m.addName(a->p, n.c_str()); Snap t = snap(m); if (t.r.size() != s.r.size() + 1) fail("insert-name", ""); const char* q = m.getName(a->p); if (!q) fail("insert-name", "no name"); for (auto& x : s.r) if (!(t.r[t.at[(u64)x.p]] == x)) { fail("changed:insert-name", text(x)); return; } consistent(t, "insert-name"); break; }
    case 1: { hist += "type "; Instruction* i = r.coin() ? m.type<vector_t<float, 3>>() : r.coin() ? m.type<array_t<int, 7>>() : m.type<unsigned int*>(spv::StorageClass::Private); Snap t = snap(m); if (!t.at.count((u64)i)) fail("insert-type", ""); for (auto& x : s.r) if (!(t.r[t.at[(u64)x.p]] == x)) { fail("changed:insert-type", text(x)); return; } consistent(t, "insert-type"); break; }
    case 2: { hist += "constant "; u32 v = r.below(9); Instruction* i = r.coin() ? m.constant(v) : m.constant(make_vector(1.f, 2.f)); Snap t = snap(m); if (!t.at.count((u64)i)) fail("insert-constant", ""); for (auto& x : s.r) if (!(t.r[t.at[(u64)x.p]] == x)) { fail("changed:insert-constant", text(x)); return; } consistent(t, "insert-constant"); break; }
    default: { std::vector<BasicBlock*> bs; for (Function* f : funcs()) for (auto& b : *f) bs.push_back(&b); if (bs.empty()) return; BasicBlock* b = r.pick(bs); Instruction* ty = nullptr; for (auto& x : s.r) if (x.op == SpvOpTypeInt || x.op == SpvOpTypeFloat) ty = x.p; if (!ty) return; u32 n = (u32)b->size(), at = n ? r.below(n) : 0; Instruction* i; if (at == 0) i = &b->emplace_front(b, spv::Op::OpNop); else { auto it = b->begin(); for (u32 k = 1; k < at; ++k) ++it; i = &b->insert_after(it, b, spv::Op::OpNop)->inner(); } i->opUndef(ty); hist += "insert "; Snap t = snap(m); auto it = t.at.find((u64)i); if (it == t.at.end() || t.r.size() != s.r.size() + 1 || t.r[it->second].bb != b) { fail("insert-block", "not part of the block"); return; } if (i->getName()) fail("insert-name-inherited", i->getName()); Snap u = t; erase(u, {(u64)i}); if (u.r.size() != s.r.size()) fail("insert-block", ""); for (size_t k = 0; k < s.r.size(); ++k) if (!(u.r[k] == s.r[k])) { fail("changed:insert-block", text(s.r[k])); return; } if (t.at[(u64)i] != t.at[(u64)b->getLabel()] + at + 1) fail("insert-position", fmt("position %u", at)); consistent(t, "insert-block"); count("inserted"); } } }
};
}
// operands compare equal if and only if they are the same kind and value
static void operands(Rng& r, Module& m) { std::vector<Instruction*> is; for (auto& i : m.getTypesAndConstants()) { is.push_back(&i); if (is.size() > 3) break; } std::vector<BasicBlock*> bs; for (auto& f : m.getFunctions()) for (auto& b : f) if (bs.size() < 3) bs.push_back(&b); struct K { int k; u64 v; }; std::vector<std::pair<K, Operand>> o;
  for (u32 k = 0; k < 8; ++k) { u32 v = r.chance(1, 2) ? r.below(3) : r.u(); switch (r.below(4)) { case 0: o.push_back({{0, v}, Operand(literal_t{v})}); break; case 1: o.push_back({{1, v}, Operand(spv::Id{v})}); break; case 2: if (!is.empty()) { Instruction* i = r.pick(is); o.push_back({{2, (u64)i}, Operand(i)}); } break; default: if (!bs.empty()) { BasicBlock* b = r.pick(bs); o.push_back({{3, (u64)b}, Operand(b)}); } } }
  for (auto& a : o) for (auto& b : o) { bool e = a.first.k == b.first.k && a.first.v == b.first.v, ne = false, eq = a.second == b.second, q = false; Operand& x = a.second; switch (b.first.k) { case 0: q = x == literal_t{(u32)b.first.v}; ne = x != literal_t{(u32)b.first.v}; break; case 1: q = x == spv::Id{(u32)b.first.v}; ne = x != spv::Id{(u32)b.first.v}; break; case 2: q = x == (const Instruction*)b.first.v; ne = x != (const Instruction*)b.first.v; break; default: q = x == (const BasicBlock*)b.first.v; ne = x != (const BasicBlock*)b.first.v; } count("operands_compared"); if (eq != e || q != e || ne == e) violation("operand-equality", fmt("kinds %d %d, values %llx %llx: == %d, == value %d, != value %d", a.first.k, b.first.k, (unsigned long long)a.first.v, (unsigned long long)b.first.v, eq, q, ne)); } }
void hx::run_case(u64, Rng& r) {
  TrackAlloc al; al.recycle = r.coin(); { Log log; Module m(&al, &log); u32 kind = r.below(4); bool parsed = kind != 0; if (kind == 0) { build::Opt o; o.size = r.range(1, 4); o.depth = 2; o.entries = r.range(1, 2); build::Prog p = build::random(r, o); build::Built b = build::lower(p, m, r); if (!b.rejected.empty()) { count("not_built"); return; } m.finalize(r.coin() ? g : nullptr); } else { std::vector<u32> w; if (kind == 1) w = r.pick(corpus::all()).words; else { gen::Opt o; o.size = r.range(1, 9); o.any_op = r.coin(); w = gen::module(r, o); } VecReader rd(w); if (!m.readAndInit(rd, *g)) { count("not_read"); return; } }
    log.errors = 0; operands(r, m); Case c(m, r, log, al); c.start(); c.consistent(snap(m), "start"); u32 n = r.range(1, 14); for (u32 k = 0; k < n && !c.bad; ++k) { switch (r.below(13)) { case 12: c.move_block(); break; case 0: case 1: c.replace(true); break; case 2: c.replace(false); break; case 3: case 4: case 5: case 6: c.remove_instr(); break; case 7: c.remove_refused(); break; case 8: c.remove_block(); break; case 9: if (r.coin()) c.remove_func(); break; default: c.insert(); } count("edits"); }
    distinct(fnv(c.hist.data(), c.hist.size()) + r.u()); count(parsed ? "mode_parsed" : "mode_built"); if (c.bad) return; bool open = false; for (Function* f : c.funcs()) for (auto& b : *f) open |= b.getTerminator() == nullptr; if (open) { VecWriter w; if (m.finalizeAndWrite(w)) violation("unterminated-written", c.hist); for (Function* f : c.funcs()) for (auto& b : *f) if (!b.getTerminator()) b->opUnreachable(); } VecWriter w; if (!m.finalizeAndWrite(w)) { violation("write-failed", log.last + "\nafter: " + c.hist); return; } Snap s = snap(m); size_t ni = 0, p = 5; while (p < w.w.size()) { u32 l = w.w[p] >> 16; if (!l || p + l > w.w.size()) { violation("undecodable", c.hist); return; } p += l; ++ni; } if (ni != s.r.size()) { violation("written-count", fmt("%zu instructions written, the module has %zu\nafter: ", ni, s.r.size()) + c.hist); } count("written"); if (r.chance(1, 64)) sample(c.hist); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e);
}
