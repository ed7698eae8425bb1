#include "spv.h"
#include "spec.h"
#include <spirv/unified1/spirv.h>
#if __has_feature(memory_sanitizer) // SPIRV-Tools is not instrumented
#include <sanitizer/msan_interface.h>
namespace { struct Foreign { Foreign() { __msan_scoped_disable_interceptor_checks(); } ~Foreign() { __msan_scoped_enable_interceptor_checks(); } }; }
#define FOREIGN Foreign foreign;
#define UNPOISON(x) __msan_unpoison(&(x), sizeof(x))
#define UNPOISON_N(p, n) __msan_unpoison(p, n)

#else
#define FOREIGN
#define UNPOISON(x) (void)0
#define UNPOISON_N(p, n) (void)0

#endif
namespace spec {
int kind(const char* n) { for (size_t i = 0; i < kinds.size(); ++i) if (!strcmp(kinds[i].name, n)) return (int)i; return -1; }
const Inst* op(uint32_t c) { static std::map<uint32_t, const Inst*> m; if (m.empty()) for (auto& i : core) m.emplace(i.opcode, &i); auto it = m.find(c); return it == m.end() ? nullptr : it->second; }
const Inst* op(const char* n) { static std::map<std::string, const Inst*> m; if (m.empty()) for (auto& i : core) m.emplace(i.name, &i); auto it = m.find(n); return it == m.end() ? nullptr : it->second; }
}
namespace sv {
static spv_context ctx(spv_target_env e = SPV_ENV_UNIVERSAL_1_6) { static std::map<int, spv_context> m; auto& c = m[(int)e]; if (!c) c = spvContextCreate(e); return c; }
bool Opd::id() const { switch (type) { case SPV_OPERAND_TYPE_ID: case SPV_OPERAND_TYPE_TYPE_ID: case SPV_OPERAND_TYPE_RESULT_ID: case SPV_OPERAND_TYPE_MEMORY_SEMANTICS_ID: case SPV_OPERAND_TYPE_SCOPE_ID: case SPV_OPERAND_TYPE_OPTIONAL_ID: return true; default: return false; } }
bool decode(const std::vector<u32>& w, Mod& m, std::string* err) { FOREIGN
  m = Mod(); spv_diagnostic d = nullptr;
  auto hdr = [](void* u, spv_endianness_t, uint32_t magic, uint32_t v, uint32_t g, uint32_t b, uint32_t r) -> spv_result_t { UNPOISON(u); UNPOISON(magic); UNPOISON(v); UNPOISON(g); UNPOISON(b); UNPOISON(r); Mod* m = (Mod*)u; m->magic = magic; m->version = v; m->generator = g; m->bound = b; m->schema = r; return SPV_SUCCESS; };
  auto ins = [](void* u, const spv_parsed_instruction_t* p) -> spv_result_t { UNPOISON(u); UNPOISON(p); UNPOISON(*p); UNPOISON_N(p->words, p->num_words * 4); UNPOISON_N(p->operands, p->num_operands * sizeof(spv_parsed_operand_t)); Mod* m = (Mod*)u; Ins i; i.op = p->opcode; i.type = p->type_id; i.result = p->result_id; i.w.assign(p->words, p->words + p->num_words);
    for (unsigned k = 0; k < p->num_operands; ++k) { auto& o = p->operands[k]; i.o.push_back({o.offset, o.num_words, o.type, o.number_kind, o.number_bit_width}); } m->ins.push_back(std::move(i)); return SPV_SUCCESS; };
  spv_result_t r = spvBinaryParse(ctx(), &m, w.data(), w.size(), hdr, ins, &d); UNPOISON(r); UNPOISON(d);
  if (r != SPV_SUCCESS && err) *err = d && d->error ? d->error : "parse error";
  if (d) spvDiagnosticDestroy(d);
  return r == SPV_SUCCESS;
}
bool validate(const std::vector<u32>& w, std::string* err, spv_target_env env) { FOREIGN
  spv_diagnostic d = nullptr; spv_const_binary_t b{w.data(), w.size()};
  spv_validator_options o = spvValidatorOptionsCreate();
  spv_result_t r = spvValidateWithOptions(ctx(env), o, &b, &d); UNPOISON(r); UNPOISON(d);
  if (r != SPV_SUCCESS && err) *err = d && d->error ? d->error : "invalid";
  if (d) spvDiagnosticDestroy(d); spvValidatorOptionsDestroy(o);
  return r == SPV_SUCCESS;
}
std::vector<u32> assemble(const std::string& t, std::string* err, bool keep, spv_target_env env) { FOREIGN
  spv_binary b = nullptr; spv_diagnostic d = nullptr; std::vector<u32> out;
  spv_result_t r = spvTextToBinaryWithOptions(ctx(env), t.data(), t.size(), keep ? SPV_TEXT_TO_BINARY_OPTION_PRESERVE_NUMERIC_IDS : 0, &b, &d); UNPOISON(r); UNPOISON(b); UNPOISON(d); if (b) { UNPOISON(*b); UNPOISON_N(b->code, b->wordCount * 4); }
  if (r == SPV_SUCCESS && b) out.assign(b->code, b->code + b->wordCount); else if (err) *err = d ? hx::fmt("line %zu: %s", d->position.line + 1, d->error ? d->error : "?") : "assemble";
  if (b) spvBinaryDestroy(b); if (d) spvDiagnosticDestroy(d); return out;
}
std::string disasm(const std::vector<u32>& w) { FOREIGN spv_text t = nullptr; std::string s; if (spvBinaryToText(ctx(), w.data(), w.size(), SPV_BINARY_TO_TEXT_OPTION_NO_HEADER | SPV_BINARY_TO_TEXT_OPTION_INDENT, &t, nullptr) == SPV_SUCCESS && t) s.assign(t->str, t->length); if (t) spvTextDestroy(t); return s; }
const char* opname(u32 op) { const spec::Inst* i = spec::op(op); return i ? i->name : "Op?"; }
std::string literal(const Ins& i, const Opd& o) { const char* p = (const char*)&i.w[o.off]; return std::string(p, strnlen(p, o.n * 4)); }
std::string str(const Ins& i) {
  std::string s; if (i.result) s += hx::fmt("%%%u = ", i.result); s += opname(i.op); 
  for (auto& o : i.o) { if (o.type == SPV_OPERAND_TYPE_RESULT_ID) continue; if (o.id()) s += hx::fmt(" %%%u", i.w[o.off]); else if (o.type == SPV_OPERAND_TYPE_LITERAL_STRING || o.type == SPV_OPERAND_TYPE_OPTIONAL_LITERAL_STRING) s += " \"" + literal(i, o) + "\""; else for (unsigned k = 0; k < o.n; ++k) s += hx::fmt(" %u", i.w[o.off + k]); }
  return s;
}
bool is_type(u32 op) { return strncmp(opname(op), "OpType", 6) == 0 && op != SpvOpTypeForwardPointer + 100000; }
bool is_const(u32 op) { const char* n = opname(op); return !strncmp(n, "OpConstant", 10) || !strncmp(n, "OpSpecConstant", 14); }
bool is_term(u32 op) { switch (op) { case SpvOpBranch: case SpvOpBranchConditional: case SpvOpSwitch: case SpvOpKill: case SpvOpReturn: case SpvOpReturnValue: case SpvOpUnreachable: case SpvOpTerminateInvocation: case SpvOpIgnoreIntersectionKHR: case SpvOpTerminateRayKHR: case SpvOpEmitMeshTasksEXT: return true; default: return false; } }
Section section(const Ins& i, bool inf) {
  if (inf) return SFunc;
  switch (i.op) {
    case SpvOpCapability: return SCap; case SpvOpExtension: return SExt; case SpvOpExtInstImport: return SImport; case SpvOpMemoryModel: return SMem;
    case SpvOpEntryPoint: return SEntry; case SpvOpExecutionMode: case SpvOpExecutionModeId: return SMode;
    case SpvOpString: case SpvOpSource: case SpvOpSourceExtension: case SpvOpSourceContinued: return SString;
    case SpvOpName: case SpvOpMemberName: return SName; case SpvOpModuleProcessed: return SProcessed;
    case SpvOpDecorate: case SpvOpMemberDecorate: case SpvOpDecorationGroup: case SpvOpGroupDecorate: case SpvOpGroupMemberDecorate: case SpvOpDecorateId: case SpvOpDecorateString: case SpvOpMemberDecorateString: return SDeco;
    case SpvOpVariable: return SGlobal; case SpvOpUndef: return SUndef; case SpvOpLine: case SpvOpNoLine: return SLine;
    case SpvOpFunction: return SFunc; default: return SType; }
}
namespace {
struct Cmp {
  bool same; std::map<u32, u32> f, r; std::string why;
  bool id(u32 a, u32 b) { if (same) return a == b; auto i = f.find(a); auto j = r.find(b); if (i == f.end() && j == r.end()) { f[a] = b; r[b] = a; return true; } return i != f.end() && j != r.end() && i->second == b && j->second == a; }
  bool ins(const Ins& x, const Ins& y) {
    if (x.op != y.op || x.w.size() != y.w.size() || x.o.size() != y.o.size()) { why = "differs: '" + str(x) + "' vs '" + str(y) + "'"; return false; }
    for (size_t k = 0; k < x.o.size(); ++k) { auto& p = x.o[k]; auto& q = y.o[k]; bool ok = p.off == q.off && p.n == q.n && p.id() == q.id();
      if (ok) { if (p.id()) ok = id(x.w[p.off], y.w[q.off]); else for (unsigned t = 0; t < p.n; ++t) ok = ok && x.w[p.off + t] == y.w[q.off + t]; }
      if (!ok) { why = hx::fmt("operand %zu differs: '", k) + str(x) + "' vs '" + str(y) + "'"; return false; } }
    return true;
  }
  // position of x, y in their sections, ids included (used to pair set-like sections)
};
struct Split { std::map<int, std::vector<const Ins*>> sec; std::vector<std::vector<const Ins*>> fns; };
// canonical order of functions: declarations, other functions, entry points in the order of OpEntryPoint
Split split(const Mod& m) { Split s; bool inf = false; std::vector<u32> ep; for (auto& i : m.ins) if (i.op == SpvOpEntryPoint && i.w.size() > 2 && std::find(ep.begin(), ep.end(), i.w[2]) == ep.end()) ep.push_back(i.w[2]);
  std::map<u32, std::vector<const Ins*>> epf; std::vector<std::vector<const Ins*>> oth, decl, extra; std::vector<const Ins*> cur;
  auto done = [&]() { u32 id = cur[0]->result; bool body = false; for (auto* i : cur) body |= i->op == SpvOpLabel; if (std::find(ep.begin(), ep.end(), id) != ep.end() && !epf.count(id)) epf[id] = cur; else (body ? oth : decl).push_back(cur); };
  for (auto& i : m.ins) { if (i.op == SpvOpFunction) { if (inf) done(); inf = true; cur.clear(); }
    if (inf) { cur.push_back(&i); if (i.op == SpvOpFunctionEnd) { inf = false; done(); } }
    else s.sec[section(i, false)].push_back(&i); }
  if (inf) done();
  s.fns = decl; s.fns.insert(s.fns.end(), oth.begin(), oth.end()); for (u32 e : ep) if (epf.count(e)) s.fns.push_back(epf[e]); return s; }
const char* secname[] = {"capability", "extension", "import", "memory-model", "entry-point", "execution-mode", "string/source", "name", "module-processed", "decoration", "type/constant", "global-variable", "undef", "line", "function"};
}
std::string compare(const Mod& a, const Mod& b, const CmpOpt& opt, std::map<u32, u32>* ren) {
  if (opt.header) { if (a.version != b.version) return hx::fmt("version: header 0x%x vs 0x%x", a.version, b.version); if (a.schema != b.schema) return hx::fmt("schema: header %u vs %u", a.schema, b.schema); }
  if (opt.generator && a.generator != b.generator) return hx::fmt("generator: header 0x%x vs 0x%x", a.generator, b.generator);
  if (opt.bound && a.bound != b.bound) return hx::fmt("bound: header %u vs %u", a.bound, b.bound);
  Cmp c; c.same = opt.same_ids;
  if (opt.exact_order) { if (a.ins.size() != b.ins.size()) return hx::fmt("count: %zu vs %zu instructions", a.ins.size(), b.ins.size()); for (size_t k = 0; k < a.ins.size(); ++k) if (!c.ins(a.ins[k], b.ins[k])) return hx::fmt("order: instruction %zu %s", k, c.why.c_str()); if (ren) *ren = c.f; return ""; }
  Split x = split(a), y = split(b);
  // set-like sections: capabilities, extensions, imports
  for (int s : {SCap, SExt, SImport}) { auto key = [&](const Ins* i) { std::vector<u32> w = i->w; if (s == SImport && w.size() > 1) w[1] = 0; return w; };
    std::multimap<std::vector<u32>, const Ins*> ma, mb; for (auto* i : x.sec[s]) ma.emplace(key(i), i); for (auto* i : y.sec[s]) mb.emplace(key(i), i);
    if (ma.size() != mb.size()) return hx::fmt("%s: %zu vs %zu entries", secname[s], ma.size(), mb.size());
    auto i = ma.begin(); auto j = mb.begin(); for (; i != ma.end(); ++i, ++j) { if (i->first != j->first) return std::string(secname[s]) + ": '" + str(*i->second) + "' vs '" + str(*j->second) + "'"; if (s == SImport && !c.id(i->second->result, j->second->result)) return std::string(secname[s]) + ": ids"; } }
  // everything else in order; result ids of types etc. are paired first so that forward references resolve
  for (int s = SMem; s <= SLine; ++s) { auto& p = x.sec[s]; auto& q = y.sec[s]; if (p.size() != q.size()) { std::string d = hx::fmt("%s: %zu vs %zu instructions", secname[s], p.size(), q.size()); for (size_t k = 0; k < std::max(p.size(), q.size()); ++k) { if (k >= p.size()) { d += "; extra '" + str(*q[k]) + "'"; break; } if (k >= q.size()) { d += "; missing '" + str(*p[k]) + "'"; break; } if (p[k]->op != q[k]->op || p[k]->w.size() != q[k]->w.size()) { d += "; first '" + str(*p[k]) + "' vs '" + str(*q[k]) + "'"; break; } } return d; }
    for (size_t k = 0; k < p.size(); ++k) if (!c.ins(*p[k], *q[k])) return std::string(secname[s]) + hx::fmt("[%zu] ", k) + c.why; }
  if (x.fns.size() != y.fns.size()) return hx::fmt("function: %zu vs %zu functions", x.fns.size(), y.fns.size());
  for (size_t n = 0; n < x.fns.size(); ++n) { auto& p = x.fns[n]; auto& q = y.fns[n];
    for (size_t k = 0; k < std::min(p.size(), q.size()); ++k) if (!c.ins(*p[k], *q[k])) return hx::fmt("function[%zu] instruction %zu ", n, k) + c.why;
    if (p.size() != q.size()) return hx::fmt("function[%zu]: %zu vs %zu instructions", n, p.size(), q.size()); }
  if (ren) *ren = c.f;
  return "";
}
std::vector<u32> load(const std::string& p) { std::vector<u32> w; FILE* f = fopen(p.c_str(), "rb"); if (!f) return w; u32 x; while (fread(&x, 4, 1, f) == 1) w.push_back(x); fclose(f); return w; }
}
