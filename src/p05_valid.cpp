// P05: what the builder emits without reporting an error is valid SPIR-V.
#include "hx.h"
#include "spv.h"
#include "extra.h"
#include "spvgentwo/Templates.h"
#include "common/HeapAllocator.h"
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P05", "a case is one module built by a random sequence of builder calls (typed programs with functions, control flow, constants, variables; buffers, images, debug information, imports, several entry points) without a reported error; the binary is validated by SPIRV-Tools and its ids, bound, definitions and section order are checked separately; distinct = distinct binaries", 6000, 120000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
static std::string digits(std::string s) { std::string o; for (char c : s) if (!isdigit((unsigned char)c) && c != 10) o += c; return o; }
static std::string layout(const std::vector<u32>& w, const sv::Mod& m) {
  std::set<u32> ids; u32 mx = 0; for (auto& i : m.ins) if (i.result) { if (!ids.insert(i.result).second) return fmt("id %u is defined twice", i.result); mx = std::max(mx, i.result); }
  if (m.bound != mx + 1) return fmt("bound %u, largest id %u", m.bound, mx); if (w[0] != SpvMagicNumber || w[4] != 0) return "header";
  int sec = -1; bool inf = false; u32 blocks = 0; bool term = true, started = false; for (auto& i : m.ins) { for (auto& o : i.o) if (o.id() && !o.result()) { u32 id = i.w[o.off]; if (!id || !ids.count(id)) return fmt("id %u used by %s is not defined", id, sv::opname(i.op)); }
    if (i.op == SpvOpFunction) { if (inf) return "nested function"; inf = true; blocks = 0; started = false; term = true; } int s = (int)sv::section(i, inf); if (s == sv::SUndef || s == sv::SLine) s = sv::SType; if (s == sv::SGlobal) s = sv::SType; if (s < sec) return fmt("%s after section %d", sv::opname(i.op), sec); sec = s;
    if (inf) { if (i.op == SpvOpLabel) { if (!term) return "block without terminator"; term = false; ++blocks; started = true; } else if (i.op == SpvOpFunctionEnd) { if (!term) return "last block without terminator"; inf = false; } else if (i.op == SpvOpVariable) { if (blocks != 1) return "variable outside of the first block"; } else if (started && term && i.op != SpvOpLine && i.op != SpvOpNoLine) return fmt("%s after the terminator", sv::opname(i.op)); if (sv::is_term(i.op)) term = true; } }
  if (inf) return "function not closed"; return ""; }
// a lambda loop which is given its merge block: the block exists before the loop's own blocks
static void loop_own_merge() {
  TrackAlloc al; Log log; std::vector<u32> w; { Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450);
    EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::Vertex, "main"); BasicBlock& b = *e; Instruction* v = e.variable<int>("i"); Instruction* z = m.constant<int>(0); Instruction* lim = m.constant<int>(4); b->opStore(v, z); BasicBlock& mg = e.addBasicBlock("after");
    BasicBlock& after = b.Loop([&](BasicBlock& x) { Instruction* l = x->opLoad(v); return x->Less(l, lim); }, [&](BasicBlock& x) { Instruction* l = x->opLoad(v); Instruction* n = x->Add(l, m.constant<int>(1)); x->opStore(v, n); }, [](BasicBlock&) {}, &mg); after.returnValue();
    VecWriter vw; if (log.errors || !m.finalizeAndWrite(vw, g)) { count("rejected"); return; } w = vw.w; }
  std::string err; count("loop_own_merge"); if (!sv::validate(w, &err)) violation("loop-own-merge:" + digits(err).substr(0, 60), err + "\n" + sv::disasm(w)); }
void hx::run_case(u64 idx, Rng& r) {
  if (idx == 0) { loop_own_merge(); return; }
  build::Opt o; o.size = r.pick(std::vector<u32>{1, 2, 5}); o.depth = r.range(1, 3); o.entries = r.range(1, 2); o.kernel_ops = false;
  TrackAlloc al; Log log; std::vector<u32> words, words2; std::string forms; u32 mode = r.below(4);
  { Module m(&al, &log); build::Prog p; if (mode != 3) { p = build::random(r, o); build::Built b = build::lower(p, m, r); if (!b.rejected.empty() || log.errors) { count("rejected"); return; } for (auto& f : b.forms) count("form_" + f.first, f.second);
      if (r.chance(1, 3)) for (Function* f : b.fns) if (f && !f->empty() && r.coin()) { Instruction* v = nullptr; switch (r.below(3)) { case 0: v = f->variable<float>("late"); break; case 1: v = f->variable(m.type<int*>(spv::StorageClass::Function), "late", m.constant<int>(7)); break; default: v = r.coin() ? f->variable(make_vector(1.f, 2.f, 3.f, 4.f)) : f->variable(3u, "late3"); } (void)v; count("late_variables"); } } else { m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); }
    if (mode) { m.addCapability(spv::Capability::ImageQuery); if (mode == 1 && r.coin()) { VecWriter w; m.finalizeAndWrite(w, g); } build::Extra e = build::extras(m, r); for (auto& f : e.forms) { count("extra_" + f.first, f.second); forms += f.first + " "; } if (log.errors) { violation("extra-rejected:" + digits(log.last).substr(0, 60), log.last + " " + forms); return; } }
    VecWriter w; if (!m.finalizeAndWrite(w, g)) { violation("write-failed:" + digits(log.last).substr(0, 60), log.last); return; } words = w.w; VecWriter w2; if (!m.finalizeAndWrite(w2, g) || w2.w != words) violation("second-write", "finalizing and writing again gives another binary"); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e);
  sv::Mod mod; std::string err; if (!sv::decode(words, mod, &err)) { violation("undecodable", err); return; } count("modules"); count("instructions", mod.ins.size()); distinct(fnv(words)); for (auto& i : mod.ins) count(fmt("op_%s", sv::opname(i.op)));
  if (std::string e = layout(words, mod); !e.empty()) { violation("layout:" + digits(e).substr(0, 60), e + "\n" + sv::disasm(words)); return; }
  if (!sv::validate(words, &err)) violation("invalid:" + digits(err).substr(0, 60), err + " [" + forms + "]\n" + sv::disasm(words)); }
