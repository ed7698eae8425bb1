// P14: entry point interfaces, call graphs and control flow graphs against a model of the code.
#include "spv.h"
#include "spec.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "common/FunctionCallGraph.h"
#include "common/ControlFlowGraph.h"
#include "common/HeapAllocator.h"
#include "hx.h"
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P14", "a case is one module with 1..7 functions of 1..8 blocks (branches, conditionals, switches, unreachable and cyclic blocks), random calls (diamonds, recursion, unused functions), uses of global variables of all storage classes in many operand positions, 1..4 entry points (also sharing a function, also with stale interfaces), for versions 1.0 to 1.6; built through the API or parsed from words assembled by the check, finalized, extended, finalized again", 20000, 700000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
namespace {
enum OpK { oLoad, oStore, oChain, oCopyMem, oCall, oCopyObj, oPtrEq, oLocal, oOpKinds };
struct Op { OpK k; u32 a, b; }; struct Term { u32 k; std::vector<u32> t; bool merge = false, weights = false; }; // 0 branch 1 conditional 2 switch 3 return 4 kill 5 unreachable
struct Blk { std::vector<Op> ops; Term t; }; struct Fun { std::vector<Blk> b; bool local = false; };
struct EP { u32 fn; u32 model; std::vector<u32> stale; std::string name; };
struct Pr { std::vector<u32> vars; std::vector<Fun> f; std::vector<EP> eps; u32 version; bool late = false; };
const std::vector<u32>& scs() { static const std::vector<u32> v{SpvStorageClassInput, SpvStorageClassOutput, SpvStorageClassPrivate, SpvStorageClassWorkgroup, SpvStorageClassUniform, SpvStorageClassUniformConstant, SpvStorageClassPushConstant, SpvStorageClassStorageBuffer, SpvStorageClassCrossWorkgroup}; return v; }
Op op(const Pr& p, u32 self, Rng& r, bool lib) { (void)self; Op o{(OpK)r.below(lib ? oCopyMem + 2 : oOpKinds), r.below((u32)p.vars.size()), r.below((u32)p.vars.size())}; if (o.k == oPtrEq && !p.late) o.k = oLoad; if (o.k == oCall) { std::vector<u32> c; for (u32 i = 0; i < p.f.size(); ++i) { bool ep = false; for (auto& e : p.eps) ep |= e.fn == i; if (!ep) c.push_back(i); } if (c.empty()) o.k = oLoad; else o.a = r.pick(c); } return o; }
Pr random(Rng& r, bool lib) { Pr p; for (u32 i = 0, n = r.range(1, 9); i < n; ++i) p.vars.push_back(r.chance(1, 2) ? r.below(2) ? (u32)SpvStorageClassOutput : (u32)SpvStorageClassInput : r.pick(scs())); p.f.resize(r.range(1, 7)); u32 ne = r.range(1, std::min<u32>(4, (u32)p.f.size())); for (u32 i = 0; i < ne; ++i) { EP e; e.fn = !lib && i && r.chance(1, 3) ? p.eps[0].fn : i; e.model = r.pick(std::vector<u32>{0, 4, 5}); e.name = fmt("entry%u", i) + (r.chance(1, 3) ? "_with_a_longer_name" : ""); for (u32 k = 0, m = r.below(4); k < m; ++k) e.stale.push_back(r.below((u32)p.vars.size())); p.eps.push_back(e); }
  p.version = makeVersion(1, (unsigned char)r.below(7)); p.late = !lib && r.chance(1, 6);
  for (u32 fi = 0; fi < p.f.size(); ++fi) { Fun& f = p.f[fi]; f.b.resize(r.chance(1, 3) ? 1 : r.range(1, 8)); f.local = r.coin(); for (u32 bi = 0; bi < f.b.size(); ++bi) { Blk& b = f.b[bi]; for (u32 i = 0, n = r.chance(1, 3) ? 0 : r.below(4); i < n; ++i) { Op o = op(p, fi, r, lib); if (o.k == oLocal && !f.local) continue; b.ops.push_back(o); } u32 n = (u32)f.b.size(); auto tgt = [&] { if (n == 1) return 0u; u32 t; do t = 1 + r.below(n - 1); while (lib && t == bi && n > 2); return t; }; if (n == 1) b.t.k = 3; else { b.t.k = r.below(lib ? 4 : 6); if (lib && n == 2 && bi == 1) b.t.k = 3; if (lib && b.t.k == 2) b.t.k = 1; } switch (b.t.k) { case 0: b.t.t = {tgt()}; break; case 1: b.t.t = {tgt(), tgt()}; b.t.merge = r.coin(); b.t.weights = r.chance(1, 3); break; case 2: { u32 c = 1 + r.below(5); for (u32 i = 0; i < c; ++i) b.t.t.push_back(tgt()); b.t.merge = r.coin(); break; } default: break; } } } return p; }
std::set<u32> reach(const Pr& p, u32 f) { std::set<u32> s; std::vector<u32> q{f}; while (!q.empty()) { u32 x = q.back(); q.pop_back(); if (!s.insert(x).second) continue; for (auto& b : p.f[x].b) for (auto& o : b.ops) if (o.k == oCall) q.push_back(o.a); } return s; }
std::set<u32> used(const Pr& p, u32 f) { std::set<u32> s; for (u32 x : reach(p, f)) for (auto& b : p.f[x].b) for (auto& o : b.ops) { if (o.k == oCall || o.k == oLocal) continue; s.insert(o.a); if (o.k == oCopyMem || o.k == oPtrEq) s.insert(o.b); } return s; }
// operands in order of the model; ids of vars, functions, blocks are recorded
struct Words { std::vector<u32> vars, fns; std::vector<std::vector<u32>> labels; std::vector<u32> w; };
Words assemble(const Pr& p, Rng& r) { Words o; u32 id = 1; std::vector<u32> w; auto put = [&](u32 opc, std::vector<u32> a) { w.push_back(((u32)(a.size() + 1) << 16) | opc); w.insert(w.end(), a.begin(), a.end()); }; for (size_t i = 0; i < p.vars.size(); ++i) o.vars.push_back(id++); for (auto& f : p.f) { o.fns.push_back(id++); o.labels.emplace_back(); for (size_t b = 0; b < f.b.size(); ++b) o.labels.back().push_back(id++); }
  u32 tv = id++, tb = id++, tu = id++, tf = id++, tv4 = id++, fn = id++, zero = id++, cond = id++; std::map<u32, u32> ptr, pf; for (u32 s : scs()) { ptr[s] = id++; pf[s] = id++; } ptr[7] = id++;
  put(SpvOpCapability, {1}); put(SpvOpMemoryModel, {0, 1}); std::vector<size_t> order; for (size_t i = 0; i < p.eps.size(); ++i) order.push_back(i); for (size_t i : order) { auto& e = p.eps[i]; std::vector<u32> a{e.model, o.fns[e.fn]}; std::vector<u32> s((e.name.size() + 4) / 4, 0); memcpy(s.data(), e.name.data(), e.name.size()); a.insert(a.end(), s.begin(), s.end()); for (u32 v : e.stale) a.push_back(o.vars[v]); put(SpvOpEntryPoint, a); }
  for (auto& f : o.fns) if (r.chance(1, 5)) put(SpvOpName, {f, 0x6e75u}); put(SpvOpTypeVoid, {tv}); put(SpvOpTypeBool, {tb}); put(SpvOpTypeInt, {tu, 32, 0}); put(SpvOpTypeFloat, {tf, 32}); put(SpvOpTypeVector, {tv4, tf, 4}); put(SpvOpTypeFunction, {fn, tv}); put(SpvOpConstant, {tu, zero, 0}); put(SpvOpConstantTrue, {tb, cond}); for (auto& q : ptr) { put(SpvOpTypePointer, {q.second, q.first, tv4}); if (q.first != 7) put(SpvOpTypePointer, {pf[q.first], q.first, tf}); } for (size_t i = 0; i < p.vars.size(); ++i) put(SpvOpVariable, {ptr[p.vars[i]], o.vars[i], p.vars[i]});
  std::vector<u32> fo; for (u32 i = 0; i < p.f.size(); ++i) fo.push_back(i); for (size_t i = fo.size(); i > 1; --i) std::swap(fo[i - 1], fo[r.below((u32)i)]);
  for (u32 fi : fo) { const Fun& f = p.f[fi]; put(SpvOpFunction, {tv, o.fns[fi], 0, fn}); u32 local = 0; for (size_t bi = 0; bi < f.b.size(); ++bi) { const Blk& b = f.b[bi]; put(SpvOpLabel, {o.labels[fi][bi]}); if (!bi && f.local) { local = id++; put(SpvOpVariable, {ptr[7], local, 7}); } for (auto& x : b.ops) { u32 a = o.vars[x.a < o.vars.size() ? x.a : 0], c = o.vars[x.b < o.vars.size() ? x.b : 0], sa = p.vars[x.a < p.vars.size() ? x.a : 0]; switch (x.k) { case oLoad: put(SpvOpLoad, {tv4, id++, a}); break; case oStore: { u32 u = id++; put(SpvOpUndef, {tv4, u}); put(SpvOpStore, {a, u}); break; } case oChain: put(SpvOpAccessChain, {pf[sa], id++, a, zero}); break; case oCopyMem: put(SpvOpCopyMemory, {a, c}); break; case oCall: put(SpvOpFunctionCall, {tv, id++, o.fns[x.a]}); break; case oCopyObj: put(SpvOpCopyObject, {ptr[sa], id++, a}); break; case oPtrEq: put(SpvOpPtrEqual, {tb, id++, a, c}); break; default: put(SpvOpLoad, {tv4, id++, local}); } }
      auto& L = o.labels[fi]; if (b.t.merge) put(SpvOpSelectionMerge, {L[b.t.t[0]], 0}); switch (b.t.k) { case 0: put(SpvOpBranch, {L[b.t.t[0]]}); break; case 1: if (b.t.weights) put(SpvOpBranchConditional, {cond, L[b.t.t[0]], L[b.t.t[1]], 1, 2}); else put(SpvOpBranchConditional, {cond, L[b.t.t[0]], L[b.t.t[1]]}); break; case 2: { std::vector<u32> a{zero, L[b.t.t[0]]}; for (size_t i = 1; i < b.t.t.size(); ++i) { a.push_back((u32)i); a.push_back(L[b.t.t[i]]); } put(SpvOpSwitch, a); break; } case 3: put(SpvOpReturn, {}); break; case 4: put(SpvOpKill, {}); break; default: put(SpvOpUnreachable, {}); } } put(SpvOpFunctionEnd, {}); }
  o.w = {SpvMagicNumber, p.version, 0, id, 0}; o.w.insert(o.w.end(), w.begin(), w.end()); return o; }
struct Objs { std::vector<Instruction*> vars; std::vector<Function*> fns; std::vector<std::vector<BasicBlock*>> bbs; std::vector<EntryPoint*> eps; };
void graphs(const Pr& p, const Objs& o, const char* how) { std::map<const Function*, u32> fi; for (u32 i = 0; i < o.fns.size(); ++i) fi[o.fns[i]] = i;
  for (u32 i = 0; i < o.fns.size(); ++i) { TrackAlloc al; { FunctionCallGraph c(*o.fns[i], i % 2 ? nullptr : &al); count("call_graphs"); std::set<u32> want = reach(p, i), got; std::multiset<std::string> edges, wedges; std::set<const Instruction*> calls; u64 in = 0; for (auto& n : c) { auto it = fi.find(n.data()); if (it == fi.end()) { violation(std::string("callgraph-foreign:") + how, "a node that is not a function of the module"); continue; } if (!got.insert(it->second).second) violation(std::string("callgraph-node-twice:") + how, fmt("function %u", it->second)); for (auto& e : n.outputs()) { auto t = fi.find(e.pTarget->data()); if (!calls.insert(e.data).second) violation(std::string("callgraph-call-twice:") + how, ""); if (!e.data || e.data->getOperation() != spv::Op::OpFunctionCall || e.data->getFunction() != n.data()) violation(std::string("callgraph-call:") + how, "edge data is not a call of the source function"); edges.insert(fmt("%u>%u", it->second, t == fi.end() ? 999 : t->second)); } in += n.inputs().size(); }
      if (got != want) violation(std::string("callgraph-nodes:") + how, fmt("function %u reaches %zu functions, the graph has %zu", i, want.size(), got.size())); for (u32 x : want) for (auto& b : p.f[x].b) for (auto& k : b.ops) if (k.k == oCall) wedges.insert(fmt("%u>%u", x, k.a)); if (edges != wedges) violation(std::string("callgraph-edges:") + how, fmt("%zu calls, %zu edges", wedges.size(), edges.size())); if (in != edges.size()) violation(std::string("callgraph-inputs:") + how, fmt("%zu outputs, %llu inputs", edges.size(), (unsigned long long)in)); count("call_edges", edges.size()); if (want.count(i) && wedges.count(fmt("%u>%u", i, i))) count("recursive"); }
    if (!(i % 2) && !al.allocs) violation("allocator-callgraph", "the graph does not use the allocator it was given"); if (std::string e = al.imbalance(); !e.empty()) violation("allocation-callgraph", e);
    TrackAlloc al2; { ControlFlowGraph<> c(*o.fns[i], i % 2 ? nullptr : &al2); count("flow_graphs"); std::map<const BasicBlock*, u32> bi; for (u32 b = 0; b < o.bbs[i].size(); ++b) bi[o.bbs[i][b]] = b; std::multiset<std::string> edges, want, rev; std::set<u32> nodes; for (auto& n : c) { auto it = bi.find(n.data()); if (it == bi.end()) { violation(std::string("flowgraph-foreign:") + how, ""); continue; } if (!nodes.insert(it->second).second) violation(std::string("flowgraph-node-twice:") + how, ""); for (auto& e : n.outputs()) edges.insert(fmt("%u>%u", it->second, bi.count(e.pTarget->data()) ? bi[e.pTarget->data()] : 999)); for (auto& e : n.inputs()) rev.insert(fmt("%u>%u", bi.count(e.pTarget->data()) ? bi[e.pTarget->data()] : 999, it->second)); }
      if (nodes.size() != o.bbs[i].size()) violation(std::string("flowgraph-nodes:") + how, fmt("%zu blocks, %zu nodes", o.bbs[i].size(), nodes.size())); for (u32 b = 0; b < p.f[i].b.size(); ++b) for (u32 t : p.f[i].b[b].t.t) want.insert(fmt("%u>%u", b, t)); if (edges != want) { std::string s; for (auto& e : edges) s += e + " "; s += "instead of "; for (auto& e : want) s += e + " "; violation(std::string("flowgraph-edges:") + how, s); } if (rev != edges) violation(std::string("flowgraph-inputs:") + how, ""); count("flow_edges", edges.size());
      for (u32 b = 0; b < p.f[i].b.size(); ++b) { List<BasicBlock*> t(&al2); o.bbs[i][b]->getBranchTargets(t); std::vector<u32> gt; for (BasicBlock* x : t) gt.push_back(bi.count(x) ? bi[x] : 999); if (gt != p.f[i].b[b].t.t) violation(std::string("branch-targets:") + how, fmt("block with %zu targets reports %zu", p.f[i].b[b].t.t.size(), gt.size())); if (!o.bbs[i][b]->getTerminator()) violation(std::string("terminator:") + how, ""); } }
    if (!(i % 2) && !al2.allocs) violation("allocator-flowgraph", "the graph does not use the allocator it was given"); if (std::string e = al2.imbalance(); !e.empty()) violation("allocation-flowgraph", e); } }
void interfaces(const Pr& p, const Objs& o, Module& m, const char* how) { bool all = m.getSpvVersion() >= makeVersion(1, 4); for (u32 i = 0; i < p.eps.size(); ++i) { std::set<const Instruction*> want, got; for (u32 v : used(p, p.eps[i].fn)) if (all || p.vars[v] == SpvStorageClassInput || p.vars[v] == SpvStorageClassOutput) want.insert(o.vars[v]); auto rg = o.eps[i]->getInterfaceVariables(); for (auto it = rg.begin(); it != rg.end(); ++it) { const Instruction* v = it->getInstruction(); if (!v || v->getOperation() != spv::Op::OpVariable) { violation(std::string("interface-operand:") + how, "not a variable"); continue; } if (!got.insert(v).second) violation(std::string("interface-twice:") + how, ""); } count("interfaces"); count("interface_variables", got.size()); if (got != want) { u32 miss = 0, extra = 0; for (auto* v : want) miss += !got.count(v); for (auto* v : got) extra += !want.count(v); violation(std::string(miss ? "interface-missing:" : "interface-extra:") + how, fmt("entry point %u: %u variables missing, %u too many (version %x)", i, miss, extra, m.getSpvVersion())); } } }
void binary(const Pr& p, const std::vector<u32>& w, const char* how) { sv::Mod m; std::string err; if (!sv::decode(w, m, &err)) { violation(std::string("undecodable:") + how, err); return; } bool all = m.version >= 0x10400; std::map<u32, u32> sc; for (auto& i : m.ins) if (i.op == SpvOpVariable && i.w[3] != 7) sc[i.result] = i.w[3]; // recompute from the binary
  std::map<u32, std::set<u32>> use, call; u32 cur = 0; for (auto& i : m.ins) { if (i.op == SpvOpFunction) cur = i.result; else if (i.op == SpvOpFunctionEnd) cur = 0; else if (cur) for (auto& q : i.o) if (q.id() && !q.result()) { if (sc.count(i.w[q.off])) use[cur].insert(i.w[q.off]); if (i.op == SpvOpFunctionCall) call[cur].insert(i.w[3]); } } u32 n = 0; for (auto& i : m.ins) if (i.op == SpvOpEntryPoint) { ++n; std::set<u32> seen, want, got; std::vector<u32> st{i.w[2]}; while (!st.empty()) { u32 f = st.back(); st.pop_back(); if (!seen.insert(f).second) continue; for (u32 v : use[f]) if (all || sc[v] == 1 || sc[v] == 3) want.insert(v); for (u32 c : call[f]) st.push_back(c); } for (auto& q : i.o) if (q.id() && q.off > 2) if (!got.insert(i.w[q.off]).second) violation(std::string("binary-interface-twice:") + how, sv::str(i)); if (got != want) violation(std::string("binary-interface:") + how, sv::str(i) + fmt(" should list %zu variables", want.size())); } if (n != p.eps.size()) violation(std::string("entry-points:") + how, fmt("%u instead of %zu", n, p.eps.size())); }
void finalized(const Pr& p, const Objs& o, Module& m, Rng& r, const char* how) { bool gr = p.late || r.coin(); if (r.chance(1, 3)) m.finalizeEntryPoints(); VecWriter w; if (!(gr ? m.finalizeAndWrite(w, g) : m.finalizeAndWrite(w))) { violation(std::string("write:") + how, ""); return; } interfaces(p, o, m, how); binary(p, w.w, how); if (r.chance(1, 4)) { VecWriter v; gr ? m.finalizeAndWrite(v, g) : m.finalizeAndWrite(v); if (v.w != w.w) violation(std::string("second-write:") + how, "finalizing again gives another binary"); } if (m.getSpvVersion() != p.version) count("version_raised"); }
void parsed(Rng& r) { Pr p = random(r, false); Words a = assemble(p, r); distinct(fnv(a.w)); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(a.w); if (!m.readAndInit(rd, *g)) { violation("parse", log.last); return; } Objs o; std::map<u32, Function*> fb; auto addf = [&](Function& f) { if (!f.empty()) fb[(u32)f.getFunction()->getResultId()] = &f; }; for (auto& f : m.getFunctions()) addf(const_cast<Function&>(f)); for (auto& e : m.getEntryPoints()) addf(const_cast<EntryPoint&>(e)); std::map<u32, Instruction*> vb; for (auto& v : m.getGlobalVariables()) vb[(u32)v.getResultId()] = &v; for (u32 v : a.vars) o.vars.push_back(vb[v]); for (auto& e : m.getEntryPoints()) { o.eps.push_back(const_cast<EntryPoint*>(&e)); } 
    for (u32 i = 0; i < a.fns.size(); ++i) { Function* f = fb[a.fns[i]]; if (!f) { violation("function-lost", ""); return; } o.fns.push_back(f); o.bbs.emplace_back(); std::map<u32, BasicBlock*> bb; for (auto& b : *f) bb[(u32)b.getLabel()->getResultId()] = &b; for (u32 l : a.labels[i]) { if (!bb[l]) { violation("block-lost", ""); return; } o.bbs.back().push_back(bb[l]); } } if (o.eps.size() != p.eps.size()) { violation("entry-point-lost", ""); return; } for (u32 i = 0; i < o.eps.size(); ++i) { const char* n = o.eps[i]->getName(); if (!n || p.eps[i].name != n) { violation("entry-point-name", ""); return; } }
    graphs(p, o, "parsed"); finalized(p, o, m, r, "parsed"); graphs(p, o, "parsed-finalized"); count("mode_parsed"); if (log.errors) violation("error:parsed", log.last); } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
void emit(const Pr& p, Objs& o, Module& m, u32 fi, u32 bi, size_t from, Rng& r) { BasicBlock& bb = *o.bbs[fi][bi]; const Blk& b = p.f[fi].b[bi]; for (size_t k = from; k < b.ops.size(); ++k) { const Op& x = b.ops[k]; Instruction* va = o.vars[x.a < o.vars.size() ? x.a : 0]; Instruction* vb = o.vars[x.b < o.vars.size() ? x.b : 0]; switch (x.k) { case oLoad: bb->opLoad(va); break; case oStore: { Instruction* v = m.constant(make_vector(1.f, 2.f, 3.f, 4.f)); bb->opStore(va, v); break; } case oChain: if (r.coin()) bb->opAccessChain(va, 1u); else { Instruction* c = m.constant(2u); Instruction* rt = m.addType(va->getType()->getSubType(0u)->getSubType(0u)->wrapPointer(va->getType()->getStorageClass())); bb->opAccessChain(rt, va, c); } break; case oCopyMem: bb->opCopyMemory(va, vb); break; default: bb->call(o.fns[x.a]); } } }
void term(const Pr& p, Objs& o, Module& m, u32 fi, u32 bi) { BasicBlock& bb = *o.bbs[fi][bi]; const Term& t = p.f[fi].b[bi].t; auto& L = o.bbs[fi]; if (t.merge) bb->opSelectionMerge(L[t.t[0]], spv::SelectionControlMask::MaskNone); switch (t.k) { case 0: bb->opBranch(L[t.t[0]]); break; case 1: { Instruction* c = m.constant(true); if (t.weights) bb->opBranchConditional(c, L[t.t[0]], L[t.t[1]], 3, 4); else bb->opBranchConditional(c, L[t.t[0]], L[t.t[1]]); break; } default: bb.returnValue(); } }
void built(Rng& r) { Pr p = random(r, true); TrackAlloc al; { Log log; Module m(&al, &log); m.setSpvVersion(p.version); m.addCapability(spv::Capability::Shader); Objs o; for (u32 s : p.vars) o.vars.push_back(m.variable<vector_t<float, 4>>((spv::StorageClass)s)); for (u32 i = 0; i < p.f.size(); ++i) { EP* ep = nullptr; for (auto& e : p.eps) if (e.fn == i) ep = &e; if (ep) { EntryPoint& e = m.addEntryPoint((spv::ExecutionModel)ep->model, ep->name.c_str(), spv::FunctionControlMask::MaskNone, false); o.fns.push_back(&e); o.eps.push_back(&e); } else o.fns.push_back(&m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false)); o.bbs.emplace_back(); for (size_t b = 0; b < p.f[i].b.size(); ++b) o.bbs.back().push_back(&o.fns.back()->addBasicBlock()); if (p.f[i].local) o.fns.back()->variable<float>("l"); }
    for (u32 i = 0; i < p.f.size(); ++i) for (u32 b = 0; b < p.f[i].b.size(); ++b) { emit(p, o, m, i, b, 0, r); term(p, o, m, i, b); } if (log.errors) { count("rejected: " + log.last.substr(0, 60)); return; } graphs(p, o, "built"); finalized(p, o, m, r, "built"); u32 rounds = r.below(3); for (u32 k = 0; k < rounds; ++k) { u32 fi = r.below((u32)p.f.size()); Blk nb; for (u32 i = 0, n = r.range(1, 3); i < n; ++i) nb.ops.push_back(op(p, fi, r, true)); nb.t.k = 3; p.f[fi].b.push_back(nb); o.bbs[fi].push_back(&o.fns[fi]->addBasicBlock()); emit(p, o, m, fi, (u32)p.f[fi].b.size() - 1, 0, r); term(p, o, m, fi, (u32)p.f[fi].b.size() - 1); if (r.chance(1, 3)) { p.version = makeVersion(1, (unsigned char)r.below(7)); m.setSpvVersion(p.version); } graphs(p, o, "extended"); finalized(p, o, m, r, "extended"); } VecWriter w; m.write(w); distinct(fnv(w.w)); count("mode_built"); if (log.errors) violation("error:built", log.last); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
}
void hx::run_case(u64, Rng& r) { if (r.coin()) parsed(r); else built(r); }
