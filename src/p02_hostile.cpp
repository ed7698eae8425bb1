// P02: hostile binaries through the parser and through everything a tool does with an accepted module.
// Oracle: AddressSanitizer/UBSan, a CPU limit per case, and the allocation balance of a tracking allocator.
#include "hx.h"
#include "spv.h"
#include "gen.h"
#include "corpus.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Type.h"
#include "spvgentwo/String.h"
#include "common/HeapAllocator.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/TypeHelper.h"
#include "common/VulkanInterop.h"
#include "common/GrammarHelper.h"
#include "common/FunctionCallGraph.h"
#include "common/ControlFlowGraph.h"
using namespace hx; using namespace spvgentwo;
const Info hx::g_info = {"P02", "hostile binary: distinct = opcode sequence + mutation kinds + outcome", 45000, 700000};
static HeapAllocator g_heap; static Grammar* g_gram;
static std::vector<std::vector<u32>> g_corpus;
void hx::init() { g_gram = new Grammar(&g_heap); for (auto& c : corpus::all()) g_corpus.push_back(c.words); }
void hx::finish() {}

static const u32 kInteresting[] = {0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64, 127, 128, 255, 256, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x00010000u, 0x07230203u, 0x20000000u, 1000, 0x41414141u};
// instruction boundaries as the words claim them
static std::vector<size_t> bounds(const std::vector<u32>& w) { std::vector<size_t> b; size_t i = 5; while (i < w.size()) { b.push_back(i); u32 n = w[i] >> 16; if (n == 0 || i + n > w.size()) break; i += n; } return b; }

static std::vector<u32> mutate(Rng& r, std::vector<u32> w, std::string& how) {
  u32 n = r.chance(1, 20) ? 0 : r.chance(1, 2) ? 1 : r.chance(2, 3) ? r.range(2, 3) : r.range(3, 12);
  std::vector<u32> ids; { sv::Mod m; if (sv::decode(w, m)) for (auto& i : m.ins) if (i.result) ids.push_back(i.result); }
  bool gentle = r.chance(2, 3);  // prefer changes a reader is likely to accept
  for (u32 k = 0; k < n; ++k) {
    auto b = bounds(w); if (b.empty()) { w.resize(r.below(8), 7); break; }
    auto len = [&](size_t i) { return (size_t)std::min<size_t>(std::max<u32>(1, w[b[i]] >> 16), w.size() - b[i]); };
    size_t i = r.below((u32)b.size()); u32 kind = gentle && r.chance(4, 5) ? (r.coin() ? 9 : std::vector<u32>{3, 6, 7, 13, 14, 15, 16, 5}[r.below(8)]) : r.below(17); how += (char)('a' + kind);
    switch (kind) {
    case 0: w.resize(r.below((u32)w.size() + 1)); break;                       // truncate anywhere
    case 1: w.resize(b[i] + r.below((u32)len(i) + 1)); break;                  // truncate within / at an instruction
    case 2: { size_t p = r.below((u32)w.size()); w[p] ^= 1u << r.below(32); break; }
    case 3: { size_t p = b[i] + r.below((u32)len(i)); w[p] = kInteresting[r.below(sizeof kInteresting / 4)]; break; }
    case 4: w[b[i]] = (w[b[i]] & 0xFFFF) | (r.below(12) << 16); break;         // wrong word count
    case 5: w.erase(w.begin() + b[i], w.begin() + b[i] + len(i)); break;       // delete
    case 6: { std::vector<u32> c(w.begin() + b[i], w.begin() + b[i] + len(i)); size_t j = r.below((u32)b.size()); w.insert(w.begin() + b[j], c.begin(), c.end()); break; } // duplicate elsewhere
    case 7: { size_t j = r.below((u32)b.size()); if (i == j) break; if (j < i) std::swap(i, j); std::vector<u32> c(w.begin() + b[j], w.begin() + b[j] + len(j)); w.erase(w.begin() + b[j], w.begin() + b[j] + len(j)); w.insert(w.begin() + b[i], c.begin(), c.end()); break; } // move
    case 8: { // splice from another module
      const auto& o = g_corpus[r.below((u32)g_corpus.size())]; auto ob = bounds(o); if (ob.empty()) break; size_t a = r.below((u32)ob.size()), e = std::min(ob.size() - 1, a + r.below(6));
      w.insert(w.begin() + b[i], o.begin() + ob[a], o.begin() + (e + 1 < ob.size() ? ob[e + 1] : o.size())); break; }
    case 9: { u32 bound = w.size() > 3 ? w[3] : 10; size_t l = len(i); if (l > 1) w[b[i] + 1 + r.below((u32)l - 1)] = !ids.empty() && r.chance(3, 4) ? ids[r.below((u32)ids.size())] : r.chance(1, 8) ? bound + r.below(3) : r.below(std::max(1u, std::min(bound, 4000u))); break; } // id confusion
    case 10: w[b[i]] = (w[b[i]] & 0xFFFF0000u) | (r.coin() ? r.below(400) : r.range(4400, 5900)); break; // other opcode, same count
    case 11: { u32 l = r.range(1, 7); std::vector<u32> c; c.push_back((l << 16) | (r.coin() ? r.below(402) : r.range(4416, 6000))); for (u32 x = 1; x < l; ++x) c.push_back(r.coin() ? r.below(40) : kInteresting[r.below(sizeof kInteresting / 4)]); w.insert(w.begin() + b[i], c.begin(), c.end()); break; }
    case 12: { size_t p = r.below(std::min<u32>(5, (u32)w.size())); w[p] = r.coin() ? kInteresting[r.below(sizeof kInteresting / 4)] : r.u(); break; } // header
    case 13: { size_t l = len(i); if (l > 1) { w.erase(w.begin() + b[i] + l - 1); w[b[i]] -= 0x10000; } break; } // drop the last operand, count adjusted
    case 14: { size_t l = len(i); w.insert(w.begin() + b[i] + l, r.below(64)); w[b[i]] += 0x10000; break; }      // extra operand, count adjusted
    case 15: { size_t l = len(i); w[b[i]] = (w[b[i]] & 0xFFFF) | 0x10000; if (l > 1) w.erase(w.begin() + b[i] + 1, w.begin() + b[i] + l); break; } // no operands at all
    case 16: { size_t l = len(i); u32 keep = r.below((u32)l) + 1; if (keep < l) { w.erase(w.begin() + b[i] + keep, w.begin() + b[i] + l); w[b[i]] = (w[b[i]] & 0xFFFF) | (keep << 16); } break; } // keep a prefix of the operands
    }
    if (w.empty()) break;
  }
  return w;
}

static void exercise(Module& m, Rng& r, TrackAlloc& alloc, Log& log) {
  auto random_instr = [&](std::vector<Instruction*>& all) -> Instruction* { return all.empty() ? nullptr : all[r.below((u32)all.size())]; };
  std::vector<Instruction*> all; m.iterateInstructions([&](Instruction& i) { all.push_back(&i); return false; });
  u32 steps = r.range(2, 9);
  for (u32 s = 0; s < steps; ++s) switch (r.below(13)) {
    case 0: case 1: { ModulePrinter::PrintOptions o{}; o = (ModulePrinter::PrintOptionsBits)(r.coin() ? 127u : r.below(128)); String text(&alloc); ModulePrinter::ModuleStringPrinter p(text, r.coin()); count("print_calls"); ModulePrinter::printModule(m, *g_gram, p, o, r.coin() ? "\t" : nullptr); break; }
    case 2: { for (Instruction* i : all) { String text(&alloc); ModulePrinter::ModuleStringPrinter p(text, false); ModulePrinter::printInstruction(*i, *g_gram, p, ModulePrinter::PrintOptionsBits::All, "\t"); } count("print_calls"); break; }
    case 3: { unsigned x, y, z; ReflectionHelper::getLocalSize(m, x, y, z); List<const Instruction*> l(&alloc); for (u32 c = 0; c < 13; ++c) ReflectionHelper::getGlobalVariablesByStorageClass(m, (spv::StorageClass)c, l);
      for (u32 d = 0; d < 48; ++d) { unsigned v = r.below(4); ReflectionHelper::getVariablesWithDecoration(m, (spv::Decoration)d, l, r.coin() ? &v : nullptr); } count("reflection_calls"); break; }
    case 4: { for (Instruction* i : all) { List<Instruction*> d(&alloc); ReflectionHelper::getDecorations(i, d); ReflectionHelper::getDecorationsFunc(i, [](Instruction*) {}); ReflectionHelper::getNamesFunc(i, [](Instruction*) {}); const Instruction* od = nullptr; ReflectionHelper::getDecorationLiteralFromTarget((spv::Decoration)r.below(45), i, &od); if (r.chance(1, 4)) break; } count("reflection_calls"); break; }
    case 5: for (const Instruction& d : m.getDecorations()) { ReflectionHelper::getSpvDecorationKindFromDecoration(&d); spv::Decoration od; unsigned v; ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(&d, od, v); ReflectionHelper::getLiteralFromDecoration((spv::Decoration)r.below(45), &d); } count("reflection_calls"); break;
    case 6: for (Instruction* i : all) { vk::getDescriptorTypeFromVariable(*i); i->getStorageClass(); if (const Type* t = i->getType()) { String n(&alloc); TypeHelper::getTypeName(*t, n, r.coin() ? i : nullptr); } i->getConstant(); i->getName(); i->getResultTypeInstr(); i->getResultId(); i->isTerminator(); i->getBasicBlock(); i->getFunction(); i->getModule(); } count("reflection_calls"); break;
    case 7: for (Instruction* i : all) { GrammarHelper::getFirstOperandOfKind(i, *g_gram, (Grammar::OperandKind)r.below(63)); GrammarHelper::getOperandByName(i, *g_gram, r.coin() ? "'Storage Class'" : "'Type'"); } break;
    case 8: { m.getInstructionById(spv::Id{r.coin() ? r.below(40) : r.u()}); m.getInstructionByName(r.coin() ? "main" : r.coin() ? "" : "a"); for (Instruction* i : all) { auto l = m.getNames(i); m.getName(i, r.below(4)); } break; }
    case 9: for (u32 k = 0; k < 4; ++k) { List<Instruction*> uses(&alloc); if (Instruction* i = random_instr(all)) m.gatherUses(i, uses); } count("gatherUses_calls"); break;
    case 10: { auto graphs = [&](const Function& f) { FunctionCallGraph g(f, &alloc); ControlFlowGraph<> c(f, &alloc); (void)f.getFunctionTypeInstr(); f.getName(); f.getReturnType(); };
      for (const Function& f : m.getFunctions()) graphs(f); for (const EntryPoint& e : m.getEntryPoints()) { graphs(e); e.getExecutionModel(); e.getName(); auto v = e.getInterfaceVariables(); for (const Operand& o : v) o.getInstruction(); } count("graphs"); break; }
    case 11: { VecWriter w; if (r.chance(1, 4)) w.fail_at = r.below(40); if (r.coin()) m.assignIDs(r.coin() ? g_gram : nullptr); m.write(w); count("writes"); break; }
    case 12: { VecWriter w; if (r.coin()) m.finalizeEntryPoints(); m.finalizeAndWrite(w, r.coin() ? g_gram : nullptr); count("writes"); break; }
  }
  (void)log;
}

void hx::run_case(u64 index, Rng& r) {
  std::string how; std::vector<u32> base;
  if (r.chance(1, 3)) base = g_corpus[r.below((u32)g_corpus.size())];
  else { gen::Opt o; o.size = r.range(1, r.chance(1, 6) ? 14 : 6); o.weird_types = r.coin(); base = gen::module(r, o); }
  std::vector<u32> w = mutate(r, base, how);
  u64 opsig = 0; for (size_t p : bounds(w)) opsig = opsig * 1099511628211ull + (w[p] & 0xFFFF);
  TrackAlloc alloc; alloc.limit = size_t(1) << 28; Log log; bool ok = false, ok2 = false, return_after_move = false;
  {
    Module m(&alloc, &log); VecReader rd(w);
    u32 mode = r.below(10);
    if (mode < 7) { ok = m.readAndInit(rd, *g_gram); }
    else if (mode == 7) { ok = m.read(rd, *g_gram); }
    else if (mode == 8) { ok = m.read(rd, *g_gram) && m.resolveIDs(); if (ok) { ok2 = r.coin() ? m.reconstructNames() : m.reconstructTypeAndConstantInfo(); } }
    else { VecReader rd0(base); m.readAndInit(rd0, *g_gram); ok = m.readAndInit(rd, *g_gram); } // into a used module
    count(ok ? "accepted" : "rejected"); if (mode == 7 || mode == 8) count("partial_init");
    if (how.empty()) count("unmutated");
    if (ok) {
      exercise(m, r, alloc, log);
      if (r.chance(1, 8)) { Module n(static_cast<Module&&>(m)); exercise(n, r, alloc, log); count("moved"); if (r.coin()) m = static_cast<Module&&>(n); else return_after_move = true; }
      if (!return_after_move && r.chance(1, 8)) m.reset();
    } else if (r.chance(1, 6)) { m.reset(); VecReader rd0(base); Module n(&alloc, &log); n.readAndInit(rd0, *g_gram); }
  }
  (void)ok2; (void)index;
  if (std::string e = alloc.imbalance(); !e.empty()) violation("leak", e + "\nwords: " + hexwords(w, 400));
  if (log.errors) count("cases_with_error_log");
  distinct(opsig ^ fnv(how) ^ (ok ? 1 : 2));
  if (index < 40) sample(fmt("mutations '%s', %zu words, %s", how.c_str(), w.size(), ok ? "accepted" : "rejected"));
}
