// opt: O0
// P04: the grammar tables against the Khronos machine readable grammar (spec/*.json), every entry.
#include "hx.h"
#include "spec.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Glsl.h"
#include "spvgentwo/OpenCl.h"
#include "spvgentwo/SpvDefines.h"
#include "common/HeapAllocator.h"
#include <fstream>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P04", "every opcode, operand kind, enumerant, parameter list and numeric enumerator of the three grammars, compared entry by entry with the Khronos JSON grammar", 64, 64}; }
struct EV { const char* en; const char* name; u32 got, want; };
static const EV g_ev[] = {
#define E(en, n, v) {#en, #n, (u32)spv::en::n, v},
#define G(n, v) {"Glsl", #n, (u32)glslstd450::Op::n, v},
#define O(n, v) {"OpenCl", #n, (u32)opencl100::Op::n, v},
#define X(n)
#define KD(n)
#include "spvh_names.inc"
#undef X
#undef KD
};
struct XV { const char* name; u32 v; };
#undef E
#undef G
#undef O
static const XV g_ext[] = {
#define E(en, n, v)
#define G(n, v)
#define O(n, v)
#define X(n) {#n, (u32)spv::Extension::n},
#define KD(n)
#include "spvh_names.inc"
#undef X
#undef KD
};
static const XV g_kind[] = {
#define X(n)
#define KD(n) {#n, (u32)Grammar::OperandKind::n},
#include "spvh_names.inc"
};
static Grammar* g; static std::set<std::string> g_drift; static std::map<u32, std::string> g_kname, g_capname, g_extname;
static std::map<std::string, u32> g_kval;
static void diff(const std::string& where, const std::string& repo, const std::string& want) {
  std::string k = where + ": " + repo + " | spec: " + want;
  if (g_drift.count(k)) { count("drift_skipped"); return; }
  if (getenv("P04_DRIFT")) { fprintf(stderr, "%s\n", k.c_str()); return; }
  violation("grammar:" + where, k);
}
static HeapAllocator g_heap;
void hx::init() {
  std::ifstream f(std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/spec/drift.txt"); std::string l;
  while (std::getline(f, l)) if (!l.empty() && l[0] != '#') g_drift.insert(l);
  g = new Grammar(&g_heap);
  for (auto& k : g_kind) { g_kname[k.v] = k.name; g_kval[k.name] = k.v; }
  for (auto& e : g_ev) if (!strcmp(e.en, "Capability")) if (!g_capname.count(e.got)) g_capname[e.got] = e.name;
  for (auto& e : g_ext) g_extname[e.v] = e.name;
}
void hx::finish() {}
static std::string kname(u32 k) { auto i = g_kname.find(k); return i == g_kname.end() ? fmt("kind%u", k) : i->second; }
static const char* catname(Grammar::OperandCategory c) { switch (c) { case Grammar::OperandCategory::BitEnum: return "BitEnum"; case Grammar::OperandCategory::ValueEnum: return "ValueEnum"; case Grammar::OperandCategory::Id: return "Id"; case Grammar::OperandCategory::Literal: return "Literal"; case Grammar::OperandCategory::Composite: return "Composite"; } return "?"; }
static char qn(Grammar::Quantifier q) { return q == Grammar::Quantifier::One ? '1' : q == Grammar::Quantifier::ZeroOrOne ? '?' : q == Grammar::Quantifier::ZeroOrAny ? '*' : '!'; }
static std::string strip(const char* s) { std::string r; for (const char* p = s ? s : ""; *p; ++p) if (*p != '\'' && *p != '\n' && *p != '~' && *p != ' ' && *p != ',' && *p != '.' && *p != '+') r += *p; return r; }
static std::string capval(const char* n) { for (auto& e : g_ev) if (!strcmp(e.en, "Capability") && !strcmp(e.name, n)) return fmt("%u", e.want); return n; }
static std::string opnds(const Vector<Grammar::Operand>& v) {
  std::string s; for (auto& o : v) s += fmt("%s/%s%c ", kname((u32)o.kind).c_str(), catname(o.category), qn(o.quantifier)); return s; }
static std::string opnds(const std::vector<spec::Opnd>& v) { std::string s; for (auto& o : v) s += fmt("%s/%s%c ", spec::K(o.kind).name, spec::K(o.kind).cat, o.q); return s; }
static void inst(const std::vector<spec::Inst>& tab, size_t i, Grammar::Extension ext, const char* set) {
  for (size_t j = 0; j < i; ++j) if (tab[j].opcode == tab[i].opcode) return; // alias of an earlier opcode
  const Grammar::Instruction* r0 = g->getInfo(tab[i].opcode, ext); size_t at = i; // aliases: the entry whose name the table has
  for (size_t j = i; r0 && r0->name && j < tab.size(); ++j) if (tab[j].opcode == tab[i].opcode && !strcmp(tab[j].name, r0->name)) { at = j; break; }
  const spec::Inst& s = tab[at];
  std::string w = fmt("%s %u %s", set, s.opcode, s.name);
  const Grammar::Instruction* r = r0;
  evaluated(0); distinct(fnv(w)); count(set);
  if (!r) { diff(w + " getInfo", "missing", "listed"); return; }
  bool name = false; for (auto& o : tab) if (o.opcode == s.opcode && r->name && !strcmp(r->name, o.name)) name = true;
  if (!name) diff(w + " name", r->name ? r->name : "null", s.name);
  std::string a = opnds(r->operands), b = opnds(s.ops);
  if (a != b) diff(w + " operands", a, b);
  else for (size_t k = 0; k < s.ops.size(); ++k) { std::string x = strip(r->operands[k].name), y = strip(s.ops[k].name);
    if (y.empty()) continue; // unnamed in the specification (result, result type, masks)
    if (x != y) diff(w + fmt(" operand %zu name", k), x, y); }
  std::set<std::string> ca, cb; for (auto c : r->capabilities) ca.insert(fmt("%u", (u32)c)); for (auto c : s.caps) cb.insert(capval(c));
  auto j = [](const std::set<std::string>& x) { std::string r; for (auto& y : x) r += y + " "; return r; };
  if (ca != cb) diff(w + " capabilities", j(ca), j(cb));
  if (r->capabilities.size() != ca.size()) diff(w + " capabilities", "listed twice", j(cb));
  std::set<std::string> ea, eb; for (auto c : r->extensions) ea.insert(spv::ExtensionNames[(u32)c]); for (auto c : s.exts) eb.insert(c);
  if (ea != eb) diff(w + " extensions", j(ea), j(eb));
  if (r->version != s.version) diff(w + " version", fmt("%x", r->version), fmt("%x", s.version));
  if (ext == Grammar::Extension::Core) {
    bool hr = false, ht = false; for (auto& o : s.ops) { if (!strcmp(spec::K(o.kind).name, "IdResult")) hr = true; if (!strcmp(spec::K(o.kind).name, "IdResultType")) ht = true; }
    bool inenum = false; for (auto& e : g_ev) if (!strcmp(e.en, "Op") && e.want == s.opcode) inenum = true;
    if (!inenum) return;
    auto o = (spv::Op)s.opcode; bool a1 = !hr, a2 = !ht; spv::HasResultAndType(o, &a1, &a2);
    if (a1 != hr || a2 != ht) diff(w + " HasResultAndType", fmt("%d %d", a1, a2), fmt("%d %d", hr, ht));
    if (spv::HasResult(o) != (hr && !ht) && spv::HasResult(o) != hr) diff(w + " HasResult", fmt("%d", spv::HasResult(o)), fmt("%d", hr));
    if (spv::HasResultType(o) != ht) diff(w + " HasResultType", fmt("%d", spv::HasResultType(o)), fmt("%d", ht));
    if (hasResultAndTypeId(o) != (hr && ht)) diff(w + " hasResultAndTypeId", fmt("%d", hasResultAndTypeId(o)), fmt("%d", hr && ht));
    bool ty = !strncmp(s.name, "OpType", 6); // OpTypeForwardPointer declares no type
    if (spv::IsTypeOp(o) != ty) diff(w + " IsTypeOp", fmt("%d", spv::IsTypeOp(o)), fmt("%d", ty));
    bool c = !strncmp(s.name, "OpConstant", 10), sc = !strncmp(s.name, "OpSpecConstant", 14);
    if (spv::IsConstantOp(o) != c) diff(w + " IsConstantOp", fmt("%d", spv::IsConstantOp(o)), fmt("%d", c));
    if (spv::IsSpecConstantOp(o) != sc) diff(w + " IsSpecConstantOp", fmt("%d", spv::IsSpecConstantOp(o)), fmt("%d", sc));
    static const std::set<std::string> term = {"OpBranch", "OpBranchConditional", "OpSwitch", "OpKill", "OpReturn", "OpReturnValue", "OpUnreachable", "OpTerminateInvocation", "OpIgnoreIntersectionKHR", "OpTerminateRayKHR", "OpEmitMeshTasksEXT"};
    if (isTerminatorOp(o) != !!term.count(s.name)) diff(w + " isTerminatorOp", fmt("%d", isTerminatorOp(o)), fmt("%d", !!term.count(s.name)));
    // instruction word codec
    for (u32 n : {1u, 3u, 255u, 65535u}) { u32 word = makeOpCode(o, n);
      if (word != (s.opcode | n << 16)) diff(w + " makeOpCode", fmt("%x", word), fmt("%x", s.opcode | n << 16));
      if (getOperation(word) != o || getOperandCount(word) != n) diff(w + " opcode decode", fmt("%u %u", (u32)getOperation(word), getOperandCount(word)), fmt("%u %u", s.opcode, n)); }
  }
}
static void kind(size_t ki) {
  const spec::Kind& k = spec::kinds[ki]; auto it = g_kval.find(k.name); if (it == g_kval.end()) { count("kinds_newer_than_repository"); return; }
  auto rk = (Grammar::OperandKind)it->second; bool anyp = false;
  std::set<u32> listed;
  for (size_t ei = 0; ei < k.enums.size(); ++ei) {
    const spec::Enum& e = k.enums[ei]; std::string w = fmt("%s %u %s", k.name, e.value, e.name); listed.insert(e.value);
    distinct(fnv(w)); count("enumerants"); evaluated(0);
    const char* n = g->getOperandName(rk, e.value); bool ok = false, first = true;
    for (auto& o : k.enums) if (o.value == e.value) { if (n && !strcmp(n, o.name)) ok = true; }
    for (size_t j = 0; j < ei; ++j) if (k.enums[j].value == e.value) first = false;
    if (!ok && first) diff(w + " name", n ? n : "missing", e.name);
    if (!n) continue;
    const Vector<Grammar::Operand>* p = g->getOperandParameters(rk, e.value);
    std::string a, b; if (p) for (auto& o : *p) a += fmt("%s/%s%c ", kname((u32)o.kind).c_str(), catname(o.category), qn(o.quantifier));
    for (int x : e.params) b += fmt("%s/%s1 ", spec::K(x).name, spec::K(x).cat);
    if (a != b) diff(w + " parameters", a, b);
    if (!e.params.empty()) anyp = true;
  }
  if (k.bit() || k.value()) {
    for (u32 v = 0; v < 8192; ++v) if (!listed.count(v)) { if (const char* n = g->getOperandName(rk, v)) diff(fmt("%s %u", k.name, v), n, "not an enumerant");
      if (g->getOperandParameters(rk, v)) diff(fmt("%s %u parameters", k.name, v), "present", "not an enumerant"); }
    if (Grammar::hasOperandParameters(rk) != anyp) diff(std::string(k.name) + " hasOperandParameters", fmt("%d", Grammar::hasOperandParameters(rk)), fmt("%d", anyp));
  } else if (Grammar::hasOperandParameters(rk)) diff(std::string(k.name) + " hasOperandParameters", "1", "0");
  const Vector<Grammar::Operand>* bs = g->getOperandBases(rk); std::string a, b; if (bs) a = opnds(*bs); for (int x : k.bases) b += fmt("%s/%s1 ", spec::K(x).name, spec::K(x).cat);
  if (a != b) diff(std::string(k.name) + " bases", a, b);
  distinct(fnv(std::string("kind") + k.name)); count("operand_kinds");
}
void hx::run_case(u64 idx, Rng&) {
  for (size_t i = idx; i < spec::core.size(); i += 64) inst(spec::core, i, Grammar::Extension::Core, "core");
  for (size_t i = idx; i < spec::glsl.size(); i += 64) inst(spec::glsl, i, Grammar::Extension::Glsl, "glsl");
  for (size_t i = idx; i < spec::opencl.size(); i += 64) inst(spec::opencl, i, Grammar::Extension::OpenCl, "opencl");
  for (size_t i = idx; i < spec::kinds.size(); i += 64) kind(i);
  size_t n = sizeof(g_ev) / sizeof(g_ev[0]);
  for (size_t i = idx; i < n; i += 64) { count("enumerator_values"); if (g_ev[i].got != g_ev[i].want) diff(fmt("%s::%s", g_ev[i].en, g_ev[i].name), fmt("%u", g_ev[i].got), fmt("%u", g_ev[i].want)); }
  for (size_t i = idx; i < sizeof(g_ext) / sizeof(g_ext[0]); i += 64) { count("extension_names"); if (strcmp(spv::ExtensionNames[g_ext[i].v], g_ext[i].name)) diff(std::string("ExtensionNames ") + g_ext[i].name, spv::ExtensionNames[g_ext[i].v], g_ext[i].name); }
  // opcodes the specification does not list have no entry
  for (u32 o = (u32)idx; o < 70000; o += 64) {
    auto has = [&](const std::vector<spec::Inst>& t) { for (auto& x : t) if (x.opcode == o) return true; return false; };
    count("opcodes_probed");
    if (!g->getInfo(o)) ; else if (!has(spec::core)) diff(fmt("core %u", o), g->getInfo(o)->name, "not an opcode");
    if (o < 400) { if (g->getInfo(o, Grammar::Extension::Glsl) && !has(spec::glsl)) diff(fmt("glsl %u", o), "present", "not an opcode");
      if (g->getInfo(o, Grammar::Extension::OpenCl) && !has(spec::opencl)) diff(fmt("opencl %u", o), "present", "not an opcode"); }
  }
  if (idx == 0) {
    if (spv::MagicNumber != 0x07230203) diff("MagicNumber", fmt("%x", spv::MagicNumber), "7230203");
    for (u32 a = 0; a < 4; ++a) for (u32 b = 0; b < 8; ++b) { u32 v = makeVersion((unsigned char)a, (unsigned char)b); if (v != (a << 16 | b << 8) || getMajorVersion(v) != a || getMinorVersion(v) != b) diff("makeVersion", fmt("%x", v), fmt("%u.%u", a, b)); }
    sample(fmt("OpImageSampleImplicitLod: %s", opnds(g->getInfo(87)->operands).c_str()));
  }
}
