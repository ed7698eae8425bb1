// P13: finalizing declares what the instructions in use need, nothing else, and capabilities, extensions and imports behave as sets.
#include "hx.h"
#include "spec.h"
#include "gen.h"
#include "build.h"
#include "extra.h"
#include "corpus.h"
#include "spv.h"
#include <memory>
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "common/HeapAllocator.h"
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P13", "a case is (a) a random module over all opcodes of the Khronos grammar (or one built with the API), with its capabilities and extensions left in, removed or replaced, that is read and completed by finalize, finalizeAndWrite, assignIDs or the addRequired functions with the grammar: what the written module declares is compared with what the independent grammar lists for each of its instructions, integer and float width and memory model; (b) a history of capability, extension and import calls against sets; (c) every capability with its implied ones", 40000, 700000}; }
static Grammar* g; static HeapAllocator g_heap; static std::set<u32> g_skip; static std::vector<u32> g_ops, g_caps;
using Words = std::vector<u32>;
namespace {
u32 cap_value(const char* n) { static std::map<std::string, u32> m; if (m.empty()) for (auto& e : spec::K(spec::kind("Capability")).enums) m.emplace(e.name, e.value); auto it = m.find(n); return it == m.end() ? ~0u : it->second; }
void implied(u32 c, std::set<u32>& s) { if (!s.insert(c).second) return; if (auto* e = spec::K(spec::kind("Capability")).find(c)) for (auto* n : e->caps) implied(cap_value(n), s); }
struct Decl { std::vector<u32> caps; std::vector<std::string> exts, imports; std::map<u32, u32> ops; std::set<std::pair<u32, u32>> widths; bool has_model = false; u32 addressing = 0, memory = 0, version = 0; };
std::string str(const Words& w, size_t p, size_t e) { std::string s; for (; p < e; ++p) for (int k = 0; k < 4; ++k) { char c = (char)(w[p] >> (8 * k)); if (!c) return s; s += c; } return s; }
Decl look(const Words& w) { Decl d; d.version = w.size() > 1 ? w[1] : 0; for (size_t p = 5; p < w.size() && (w[p] >> 16) && p + (w[p] >> 16) <= w.size(); p += w[p] >> 16) { u32 op = w[p] & 0xffff, n = w[p] >> 16; ++d.ops[op]; if (op == 17) d.caps.push_back(w[p + 1]); else if (op == 10) d.exts.push_back(str(w, p + 1, p + n)); else if (op == 11) d.imports.push_back(str(w, p + 2, p + n)); else if (op == 14) { d.has_model = true; d.addressing = w[p + 1]; d.memory = w[p + 2]; } else if (op == 21 || op == 22) d.widths.insert({op, w[p + 2]}); } return d; }
Words without(const Words& w, const std::set<u32>& ops, Rng& r, u32 num, u32 den) { Words o(w.begin(), w.begin() + 5); for (size_t p = 5; p < w.size(); p += w[p] >> 16) { if (ops.count(w[p] & 0xffff) && r.chance(num, den)) continue; o.insert(o.end(), w.begin() + (long)p, w.begin() + (long)(p + (w[p] >> 16))); } return o; }
template <class T> std::set<T> set_of(const std::vector<T>& v) { return std::set<T>(v.begin(), v.end()); }
// enabling capabilities of an instruction, one of which has to be declared; every name of an opcode
std::vector<const spec::Inst*> names_of(u32 op) { static std::map<u32, std::vector<const spec::Inst*>> m; if (m.empty()) for (auto& i : spec::core) m[i.opcode].push_back(&i); auto it = m.find(op); return it == m.end() ? std::vector<const spec::Inst*>{} : it->second; }
u32 width_cap(u32 op, u32 w) { return op == 21 ? (w == 8 ? 39u : w == 16 ? 22u : w == 64 ? 11u : ~0u) : (w == 16 ? 9u : w == 64 ? 10u : ~0u); }
const std::set<u32> StorageOnly8{4448, 4449, 4450}, StorageOnly16{4433, 4434, 4435, 4436, 8};
const spec::Enum* en(const char* kind, u32 v) { return spec::K(spec::kind(kind)).find(v); }
enum class Mode { All, Caps, CapsEvery, Exts, Version };
std::string needs(const Decl& in, const Decl& out, bool all_alternatives, bool caps, bool exts, bool version, bool model, bool exact) {
  std::set<u32> have, declared = set_of(out.caps), may = set_of(in.caps); for (u32 c : out.caps) implied(c, have); std::set<std::string> xs = set_of(out.exts), mayx = set_of(in.exts); u32 want = 0x10000, op_of_version = 0;
  if (declared.size() != out.caps.size()) return "a capability is declared twice"; if (xs.size() != out.exts.size()) return "an extension is declared twice";
  for (u32 c : in.caps) if (!declared.count(c)) return fmt("declared capability %u was lost", c); for (auto& x : in.exts) if (!xs.count(x)) return "declared extension " + x + " was lost"; if (set_of(in.imports) != set_of(out.imports)) return "extended instruction set imports changed";
  for (auto& o : out.ops) { auto al = names_of(o.first); if (al.empty()) continue; auto* s = al[0]; for (auto* a : al) for (auto* n : a->caps) may.insert(cap_value(n)); for (auto* a : al) for (auto* x : a->exts) mayx.insert(x);
    if (g_skip.count(o.first)) continue; count("instructions_checked");
    if (caps) { bool any = s->caps.empty(), every = true; for (auto* n : s->caps) { any |= have.count(cap_value(n)) > 0; every &= declared.count(cap_value(n)) > 0; } if (!any) return std::string(s->name) + " needs one of its capabilities"; if (all_alternatives && !every) return std::string(s->name) + ": a listed capability was not added"; if (!s->caps.empty()) count("capability_needs"); }
    if (exts) for (auto* x : s->exts) { count("extension_needs"); if (!xs.count(x)) return std::string(s->name) + " needs extension " + x; }
    if (!s->version_none && s->version > want) { want = s->version; op_of_version = o.first; } }
  for (auto& w : out.widths) { u32 c = width_cap(w.first, w.second); if (c == ~0u) continue; may.insert(c); if (!caps) continue; bool any = have.count(c) > 0; for (u32 x : w.second == 8 ? StorageOnly8 : w.second == 16 ? StorageOnly16 : std::set<u32>()) any |= have.count(x) > 0; if (!any) return fmt("%s %u needs a capability", w.first == 21 ? "OpTypeInt" : "OpTypeFloat", w.second); count("width_needs"); }
  if (out.has_model) for (auto* e : {en("AddressingModel", out.addressing), en("MemoryModel", out.memory)}) if (e) { bool any = e->caps.empty(); for (auto* n : e->caps) { may.insert(cap_value(n)); any |= have.count(cap_value(n)) > 0; } if (model && !any) return std::string("memory model ") + e->name + " needs one of its capabilities"; if (model) count("memory_model_needs"); }
  if (exact) { for (u32 c : declared) if (!may.count(c)) return fmt("capability %u was added although nothing needs it", c); for (auto& x : xs) if (!mayx.count(x)) return "extension " + x + " was added although nothing needs it"; }
  if (version) { if (out.version < want) return fmt("version %x, %s needs %x", out.version, spec::op(op_of_version)->name, want); if (out.version < in.version) return fmt("version %x of the module lowered to %x", in.version, out.version); if (out.version > std::max(want, in.version)) { bool skipped = false; for (auto& o : out.ops) skipped |= g_skip.count(o.first) > 0; if (!skipped) return fmt("version %x although %x is enough", out.version, std::max(want, in.version)); } count(want > in.version ? "version_raised" : "version_kept"); }
  return "";
}
std::string key_of(const std::string& e) { std::string k; for (char c : e) if (!isdigit((unsigned char)c)) k += c; return k.substr(0, 60); }
void module_case(u64 index, Rng& r) {
  TrackAlloc al; Log lg; Words in; auto m = std::make_unique<Module>(&al, &lg); Decl d; bool built = r.chance(1, 5);
  if (built) { build::Opt o; o.size = r.range(1, 4); o.depth = r.range(1, 3); build::Prog p = build::random(r, o); build::Built b = build::lower(p, *m, r); if (!b.rejected.empty()) { count("generator_rejected"); return; } if (r.coin()) build::extras(*m, r); if (r.coin()) m->addCapability((spv::Capability)r.pick(g_caps)); if (r.coin()) m->addExtension("SPV_KHR_mine"); m->finalize(nullptr); VecWriter w; if (!m->write(w)) { violation("write", lg.last); return; } in = w.w; d = look(in); if (r.coin()) m->setSpvVersion(0x10000u | (r.below(7) << 8)); d.version = m->getSpvVersion(); count("built"); }
  else { if (r.chance(1, 6)) { const corpus::Item* it; do it = &r.pick(corpus::all()); while (it->name.rfind("text6", 0) == 0); in = it->words; } else { gen::Opt o; o.size = r.range(1, 10); o.any_op = true; o.weird_types = r.coin(); if (index % 3 == 0) { o.only_op = (int)g_ops[(index / 3) % g_ops.size()]; o.size = 2; } in = gen::module(r, o); }
    switch (r.below(4)) { case 0: break; case 1: in = without(in, {17, 10}, r, 1, 1); break; case 2: in = without(in, {17, 10}, r, 1, 2); break; default: { in = without(in, {17, 10}, r, 1, 1); Words c; for (u32 n = r.below(4); n; --n) { c.push_back((2u << 16) | 17); c.push_back(r.pick(g_caps)); } if (r.coin()) { c.push_back((4u << 16) | 10); gen::str_words(c, "SPV_mine_x"); } in.insert(in.begin() + 5, c.begin(), c.end()); } }
    if (r.coin()) in[1] = 0x10000u | (r.below(7) << 8); VecReader rd(in); if (!m->readAndInit(rd, *g)) { violation("read", lg.last + sv::disasm(in)); return; } d = look(in); count("parsed"); }
  u32 how = r.below(8); Words out; const char* what = ""; std::string e; auto write = [&] { VecWriter w; if (!m->write(w)) return false; out = w.w; return true; };
  bool ok = true; switch (how) { case 0: case 1: what = "finalize"; m->finalize(g); ok = write(); break; case 2: { what = "finalizeAndWrite"; VecWriter w; ok = m->finalizeAndWrite(w, g); out = w.w; break; } case 3: case 4: what = "assignIDs"; m->assignIDs(g); ok = write(); break; case 5: what = "addRequiredCapabilities"; m->addRequiredCapabilities(*g); ok = write(); break; case 6: what = "addRequiredExtensions"; m->addRequiredExtensions(*g); ok = write(); break; default: { what = "setRequiredVersion"; u32 q = m->getRequiredVersion(*g), s = m->setRequiredVersion(*g); if (q != s || m->getSpvVersion() != s) e = "setRequiredVersion and getRequiredVersion differ"; m->assignIDs(); ok = write(); } }
  if (!ok) { violation(std::string("write:") + what, lg.last + " for " + sv::disasm(in)); return; } Decl o = look(out); count(what); { u64 h = how; for (auto& x : o.ops) h = h * 31 + x.first; for (u32 c : d.caps) h = h * 37 + c; distinct(h); }
  if (e.empty()) { if (how <= 4) e = needs(d, o, false, true, true, true, true, true); else if (how == 5) { e = needs(d, o, true, true, false, false, false, true); if (e.empty() && (set_of(d.exts) != set_of(o.exts) || o.version != d.version)) e = "more than capabilities changed"; } else if (how == 6) { e = needs(d, o, false, false, true, false, false, true); if (e.empty() && (set_of(d.caps) != set_of(o.caps) || o.version != d.version)) e = "more than extensions changed"; } else { Decl d2 = d; d2.version = 0x10000; e = needs(d2, o, false, false, false, true, false, true); if (e.empty() && (set_of(d.caps) != set_of(o.caps) || set_of(d.exts) != set_of(o.exts))) e = "more than the version changed"; } }
  if (e.empty() && how <= 4) { Words first = out; if (how < 2) m->finalize(g); else m->assignIDs(g); if (!write() || (how < 2 && out != first)) { Decl o2 = look(out); if (set_of(o2.caps) != set_of(o.caps) || o2.caps.size() != o.caps.size() || o2.exts.size() != o.exts.size() || o2.version != o.version) e = "completing the module again changes it"; } }
  if (!e.empty()) violation(std::string(what) + ":" + key_of(e), std::string(what) + ": " + e + fmt("; declared %zu capabilities, version %x\n", d.caps.size(), d.version) + sv::disasm(out)); if (index < 20) sample(fmt("%s: %zu opcodes, %zu capabilities declared, %zu afterwards", what, o.ops.size(), d.caps.size(), o.caps.size()));
  m.reset(); if (!al.imbalance().empty()) violation("balance", al.imbalance());
}
void history(Rng& r) {
  TrackAlloc al; Log lg; auto m = std::make_unique<Module>(&al, &lg); std::set<u32> caps; std::set<std::string> exts; std::map<std::string, Instruction*> imps; std::string why, trace; auto name = [&](const char* p) { static const char* t[] = {"", "a", "abc", "abcd", "GLSL.std.450", "OpenCL.std", "SPV_KHR_16bit_storage", "a long name of an extension, with blanks"}; std::string s = std::string(p) + t[r.below(8)]; if (r.chance(1, 4)) s += fmt("%u", r.below(5)); return s; };
  for (u32 n = r.range(10, thorough() ? 120 : 50); n && why.empty(); --n) { u32 c = r.pick(g_caps); if (r.coin()) c = r.coin() ? (u32)r.below(12) : (u32)(caps.empty() ? 1 : *caps.begin()); spv::Capability sc = (spv::Capability)c; switch (r.below(14)) {
    case 0: case 1: trace += fmt("add %u; ", c); m->addCapability(sc); caps.insert(c); break;
    case 2: { trace += fmt("add %u with implied; ", c); m->addCapability(sc, true); std::set<u32> add; implied(c, add); caps.insert(add.begin(), add.end()); break; }
    case 3: case 4: { trace += fmt("remove %u; ", c); bool was = caps.erase(c) > 0; if (m->removeCapability(sc) != was) why = fmt("removeCapability(%u) did not return %d", c, was); break; }
    case 5: { std::string s = name("SPV_"); trace += "ext " + s + "; "; m->addExtension(s.c_str()); exts.insert(s); break; }
    case 6: { u32 x = r.below((u32)(sizeof(spv::ExtensionNames) / sizeof(*spv::ExtensionNames))); m->addExtension((spv::Extension)x); exts.insert(spv::ExtensionNames[x]); trace += std::string("ext ") + spv::ExtensionNames[x] + "; "; break; }
    case 7: case 8: { std::string s = name("x"); trace += "import " + s + "; "; Instruction* i = m->addExtensionInstructionImport(s.c_str()); auto it = imps.find(s); if (!i || i->getOperation() != spv::Op::OpExtInstImport) why = "no import instruction"; else if (it != imps.end() && it->second != i) why = "a second import of " + s; else imps[s] = i; break; }
    case 9: { std::string s = name("x"); auto it = imps.find(s); if (m->getExtensionInstructionImport(s.c_str()) != (it == imps.end() ? nullptr : it->second)) why = "getExtensionInstructionImport(" + s + ")"; break; }
    case 10: { trace += "move; "; auto t = std::make_unique<Module>(std::move(*m)); m = std::move(t); imps.clear(); for (auto& kv : m->getExtInstrImports()) imps[kv.key.c_str() ? kv.key.c_str() : ""] = &kv.value; break; }
    case 11: if (r.chance(1, 4)) { trace += "reset; "; m->reset(); caps.clear(); exts.clear(); imps.clear(); } break;
    case 12: { m->assignIDs(); VecWriter w; trace += "write and read; "; if (!m->write(w)) { why = "write: " + lg.last; break; } auto t = std::make_unique<Module>(&al, &lg); VecReader rd(w.w); if (!t->readAndInit(rd, *g)) { why = "read: " + lg.last; break; } m = std::move(t); size_t old = imps.size(); imps.clear(); for (auto& kv : m->getExtInstrImports()) imps[kv.key.c_str() ? kv.key.c_str() : ""] = &kv.value; if (imps.size() != old) why = "imports lost by reading"; break; }
    default: { m->setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); } }
    count("set_operations"); if (!why.empty()) break; std::set<u32> all; for (u32 x : caps) implied(x, all); for (u32 x : {c, (u32)r.pick(g_caps), (u32)r.below(60)}) if (m->checkCapability((spv::Capability)x) != (caps.count(x) > 0)) why = fmt("checkCapability(%u) is not %d", x, caps.count(x) > 0);
    std::set<u32> got; for (auto& kv : m->getCapabilities()) { if (!got.insert((u32)kv.key).second) why = "a capability is in the map twice"; if (kv.value.getOperation() != spv::Op::OpCapability) why = "not OpCapability"; } if (got != caps) { why = "getCapabilities() differs:"; for (u32 x : got) why += fmt(" %u", x); } std::set<std::string> gx; for (auto& kv : m->getExtensions()) if (!gx.insert(kv.key.c_str() ? kv.key.c_str() : "").second) why = "an extension is in the map twice"; if (gx != exts) why = "getExtensions() differs"; }
  if (why.empty()) { m->setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); m->assignIDs(); VecWriter w; if (!m->write(w)) why = "write: " + lg.last; else { Decl d = look(w.w); if (set_of(d.caps) != caps || d.caps.size() != caps.size()) why = "written capabilities differ"; if (set_of(d.exts) != exts || d.exts.size() != exts.size()) why = "written extensions differ"; std::set<std::string> im; for (auto& kv : imps) im.insert(kv.first); if (set_of(d.imports) != im || d.imports.size() != im.size()) why = "written imports differ"; } count("histories"); distinct(fnv(w.w)); }
  m.reset(); if (why.empty()) why = al.imbalance(); if (why.empty() && lg.errors) why = "error: " + lg.last; if (!why.empty()) violation("set:" + key_of(why), why + " after " + trace);
}
void capability(u64 k) { u32 c = g_caps[k % g_caps.size()]; TrackAlloc al; Log lg; { Module m(&al, &lg); m.addCapability((spv::Capability)c, true); std::set<u32> want, got; implied(c, want); for (auto& kv : m.getCapabilities()) got.insert((u32)kv.key); std::string d; for (u32 x : want) if (!got.count(x)) d += fmt(" misses %u", x); for (u32 x : got) if (!want.count(x)) d += fmt(" has %u", x); count("capabilities_with_implied"); if (!d.empty()) violation(fmt("implied:%u", c), std::string(en("Capability", c)->name) + d); } }
}
void hx::init() { g = new Grammar(&g_heap); FILE* f = fopen((std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/spec/drift.txt").c_str(), "r"); if (!f) harness_error("no drift.txt"); char b[1000]; while (fgets(b, sizeof b, f)) { if (!strncmp(b, "core ", 5)) g_skip.insert((u32)atoi(b + 5)); } fclose(f);
  for (auto* i : gen::body_ops()) if (!g_skip.count(i->opcode)) g_ops.push_back(i->opcode); auto& k = spec::K(spec::kind("Capability")); for (auto& e : k.enums) if (gen::known_enum(k, e)) g_caps.push_back(e.value); std::sort(g_caps.begin(), g_caps.end()); g_caps.erase(std::unique(g_caps.begin(), g_caps.end()), g_caps.end()); }
void hx::finish() {}
void hx::run_case(u64 index, Rng& r) { if (index < g_caps.size() * 5 && index % 5 == 4) { capability(index / 5); return; } if (r.chance(1, 5)) history(r); else module_case(index, r); }
