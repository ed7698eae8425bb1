// P03: the printed text is matched against the binary, instruction by instruction, by a walker that only uses the Khronos grammar.
// needs: tools
#include "hx.h"
#include "spv.h"
#include "gen.h"
#include "spec.h"
#include "corpus.h"
#include "build.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/BasicBlockTemplate.inl"
#include "spvgentwo/FunctionTemplate.inl"
#include "spvgentwo/String.h"
#include "common/HeapAllocator.h"
#include "common/ModulePrinter.h"
#include <spirv/unified1/spirv.h>
#include <cmath>
#include <unistd.h>
using namespace hx; using namespace spvgentwo;
const Info hx::g_info = {"P03", "a case is one module (generated from the grammar or hand written) printed with a random option set; every token of the text is matched against the independently decoded words; distinct = module and options", 5000, 100000};
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); corpus::all(); }
void hx::finish() {}
enum { Preamble = 1, InstrName = 2, OperandName = 4, ResultId = 8, OpName = 16, TypeName = 32, ConstData = 64 };
namespace {
using Alts = std::vector<std::string>;
struct Walker {
  const sv::Mod& m; u32 opt; const char* ind; std::map<u32, const sv::Ins*> def; std::map<u32, std::set<std::string>> names; std::map<u32, std::string> imports; std::set<u32> unnamed; // has an empty OpName, too
  std::vector<Alts> toks; // text is the concatenation of one alternative of each
  std::string cur;
  Walker(const sv::Mod& m, u32 o, const char* i) : m(m), opt(o), ind(i) {
    for (auto& x : m.ins) { if (x.result && !def.count(x.result)) def[x.result] = &x; if (x.op == SpvOpName) { std::string n = lit(x, 2); if (!n.empty()) names[x.w[1]].insert(n); else unnamed.insert(x.w[1]); } if (x.op == SpvOpExtInstImport) imports[x.result] = lit(x, 2); } }
  static std::string lit(const sv::Ins& x, size_t p) { std::string s; for (; p < x.w.size(); ++p) for (int b = 0; b < 4; ++b) { char c = (char)(x.w[p] >> (8 * b)); if (!c) return s; s += c; } return s; }
  void t(const std::string& s) { toks.push_back({s}); }
  void t(const Alts& a) { toks.push_back(a); }
  const sv::Ins* d(u32 id) { auto i = def.find(id); return i == def.end() ? nullptr : i->second; }
  bool scalar(u32 ty, std::string& n) { auto* x = d(ty); if (!x) return false; if (x->op == SpvOpTypeVoid) n = "void"; else if (x->op == SpvOpTypeBool) n = "bool"; else if (x->op == SpvOpTypeInt) n = fmt("%sint%u", x->w[3] ? "" : "u", x->w[2]); else if (x->op == SpvOpTypeFloat) { if (x->w[2] == 16) n = "half"; else if (x->w[2] == 32) n = "float"; else if (x->w[2] == 64) n = "double"; else return false; } else return false; return true; }
  bool typeName(u32 ty, std::string& n) { if (scalar(ty, n)) return true; auto* x = d(ty); if (!x) return false; if (x->op == SpvOpTypeVector) { if (!scalar(x->w[2], n)) return false; n += fmt("_%u", x->w[3]); return true; } if (x->op == SpvOpTypeMatrix) { auto* v = d(x->w[2]); if (!v || v->op != SpvOpTypeVector || !scalar(v->w[2], n)) return false; n += fmt("_%ux%u", x->w[3], v->w[3]); return true; } return false; }
  Alts value(const sv::Ins& c) { // text of a scalar constant
    Alts a; switch (c.op) { case SpvOpConstantTrue: case SpvOpSpecConstantTrue: return {"true"}; case SpvOpConstantFalse: case SpvOpSpecConstantFalse: return {"false"}; case SpvOpConstantNull: return {"null"}; case SpvOpConstant: case SpvOpSpecConstant: break; default: return a; }
    auto* ty = d(c.type); if (!ty || c.w.size() < 4) return a; u64 v = c.w[3]; if (c.w.size() > 4) v |= (u64)c.w[4] << 32;
    if (ty->op == SpvOpTypeInt) { u32 w = ty->w[2]; if (ty->w[3]) { i64 s = w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); a.push_back(fmt("%lld", (long long)s)); } else a.push_back(fmt("%llu", (unsigned long long)(w >= 64 ? v : v & ((1ull << w) - 1)))); }
    else if (ty->op == SpvOpTypeFloat && ty->w[2] == 32) { float f; u32 b = (u32)v; memcpy(&f, &b, 4); a.push_back(fmt("%.9g", f)); if (std::isnan(f)) { a.push_back("nan"); a.push_back("-nan"); } a.push_back(fmt("%.10g", f)); a.push_back(fmt("%.17g", f)); }
    else if (ty->op == SpvOpTypeFloat && ty->w[2] == 64) { double f; memcpy(&f, &v, 8); a.push_back(fmt("%.17g", f)); if (std::isnan(f)) { a.push_back("nan"); a.push_back("-nan"); } }
    return a; }
  void id(u32 i) { Alts a; if ((opt & InstrName) && names.count(i)) { for (auto& n : names[i]) a.push_back("%" + n); if (!unnamed.count(i)) { t(a); return; } }
    std::string n; size_t had = a.size(); if (auto* x = d(i)) { if ((opt & TypeName) && typeName(i, n)) a.push_back(n); if ((opt & ConstData) && sv::is_const(x->op)) for (auto& s : value(*x)) a.push_back(s); }
    bool wide = false; if (auto* x = d(i)) { auto wv = [&](u32 t) { auto* v = d(t); return v && v->op == SpvOpTypeVector && v->w[3] > 4; }; std::string q; wide = wv(i) || (x->op == SpvOpTypeMatrix && wv(x->w[2])) || (x->op == SpvOpConstantNull && !typeName(x->type, q)); /* no names for those */ } if (a.size() == had || wide) a.push_back(fmt("%%%u", i)); else count("replaced_ids"); t(a); }
  std::string enums(const spec::Kind& k, u32 v) { for (auto& e : k.enums) if (e.value == v) return e.name; return ""; }
  void enumerant(const spec::Kind& k, u32 v) {
    Alts a; if (!(opt & OperandName)) { t(fmt("%u", v)); return; }
    for (auto& e : k.enums) if (e.value == v) a.push_back(e.name);
    if (v == 6089 && !strcmp(k.name, "Capability")) a.push_back("LongConstantCompositeINTEL"); // renamed since the grammar the repository is based on
    if (k.bit()) { if (!v) a.push_back("0"); else { Alts acc{""}; for (u32 b = 0; b < 32; ++b) if (v >> b & 1) { Alts n; for (auto& e : k.enums) if (e.value == 1u << b) n.push_back(e.name); if (n.empty()) n.push_back(fmt("%u", 1u << b)); Alts nx; for (auto& p : acc) for (auto& q : n) nx.push_back(p.empty() ? q : p + "|" + q); if (nx.size() > 4096) nx.resize(4096); acc = nx; } for (auto& s : acc) a.push_back(s); } }
    if (a.empty()) a.push_back(fmt("%u", v)); t(a); }
  // one operand at p; returns the next word
  size_t operand(const sv::Ins& x, size_t p, int kind) {
    const spec::Kind& k = spec::K(kind); std::string n = k.name; if (n == "IdResult") return p + 1; if (p >= x.w.size()) return p;
    if (k.comp()) { for (int b : k.bases) if (p < x.w.size()) { if (!strcmp(spec::K(b).name, "LiteralInteger") && k.bases.size() == 2 && b == k.bases[0]) { unsigned nw = 1; for (auto& o : x.o) if (o.off == p) nw = o.n; t(" "); u64 v = x.w[p]; if (nw > 1 && p + 1 < x.w.size()) v |= (u64)x.w[p + 1] << 32; t(fmt("%llu", (unsigned long long)v)); p += nw; } else p = operand(x, p, b); } return p; }
    if (n == "LiteralString") { std::string s; size_t e = p; for (; e < x.w.size();) { u32 w = x.w[e++]; bool z = false; for (int b = 0; b < 4 && !z; ++b) { char c = (char)(w >> (8 * b)); if (!c) z = true; else s += c; } if (z) break; } t(" \"" + s + "\""); return e; }
    if (n == "LiteralContextDependentNumber") { std::string words; for (size_t q = p; q < x.w.size(); ++q) words += fmt(" %u", x.w[q]); Alts a; if (opt & ConstData) for (auto& s : value(x)) a.push_back(" " + s); if (a.empty()) a.push_back(words); else count("constant_values"); t(a); return x.w.size(); }
    t(" ");
    if (n == "LiteralExtInstInteger") { t(fmt("%u", x.w[p])); return p + 1; } // replaced by the caller for known sets
    if (k.id()) { id(x.w[p]); return p + 1; }
    if (k.bit() || k.value()) { u32 v = x.w[p++]; enumerant(k, v); if (k.bit()) { for (u32 b = 0; b < 32; ++b) if (v >> b & 1) if (auto* e = k.find(1u << b)) for (int q : e->params) p = operand(x, p, q); } else if (auto* e = k.find(v)) for (int q : e->params) p = operand(x, p, q); return p; }
    t(fmt("%u", x.w[p])); return p + 1; }
  size_t operands(const sv::Ins& x, size_t p, const spec::Inst& in, bool skipResult) {
    for (auto& o : in.ops) { std::string n = spec::K(o.kind).name; if (skipResult && (n == "IdResultType" || n == "IdResult")) continue;
      if (n == "LiteralExtInstInteger" && p < x.w.size()) { std::string set = imports.count(x.w[p - 1]) ? imports[x.w[p - 1]] : ""; const auto* tab = set == "GLSL.std.450" ? &spec::glsl : set == "OpenCL.std" ? &spec::opencl : nullptr; const spec::Inst* e = nullptr; if (tab) for (auto& q : *tab) if (q.opcode == x.w[p]) { e = &q; break; }
        if (e) { t(" "); Alts a; for (auto& q : *tab) if (q.opcode == x.w[p]) a.push_back(q.name); t(a); p = operands(x, p + 1, *e, false); return p; } }
      if (n == "LiteralSpecConstantOpInteger" && p < x.w.size()) { const spec::Inst* e = spec::op(x.w[p]); t(fmt(" %u", x.w[p])); ++p; if (e) { t(" ["); if (opt & OpName) t(opname(x.w[p - 1])); p = operands(x, p, *e, true); t("]"); } return p; }
      if (o.q == '*') { while (p < x.w.size()) { size_t q = operand(x, p, o.kind); if (q <= p) break; p = q; } }
      else if (p < x.w.size() || o.q == '1') p = operand(x, p, o.kind); }
    while (p < x.w.size() && !skipResult) { t(fmt(" %u", x.w[p])); ++p; }
    return p; }
  static Alts opname(u32 op) { Alts a; for (auto& i : spec::core) if (i.opcode == op) a.push_back(i.name); return a; }
  void instruction(const sv::Ins& x) {
    if (x.result) { if ((opt & InstrName) && names.count(x.result)) { Alts a; for (auto& n : names[x.result]) a.push_back("%" + n); if (unnamed.count(x.result)) a.push_back(opt & ResultId ? fmt("%%%u", x.result) : ""); t(a); } else if (opt & ResultId) t(fmt("%%%u", x.result)); }
    if (ind) t(ind);
    if (opt & OpName) t(opname(x.op)); const spec::Inst* in = spec::op(x.op); if (in) operands(x, 1, *in, false); t("\n"); }
  // matches the whole text; "" or the mismatch
  std::string match(const std::string& s) {
    if (opt & Preamble) t(fmt("# SPIR-V Version %u.%u\n# Generator %u | %u\n# Bound %u\n# Schema %u\n\n", (m.version >> 16) & 0xff, (m.version >> 8) & 0xff, m.generator >> 16, m.generator & 0xffff, m.bound, m.schema));
    if (std::string e = advance(s, "the header"); !e.empty()) return e;
    for (auto& x : m.ins) { instruction(x); if (std::string e = advance(s, sv::str(x)); !e.empty()) return e; count("instructions_matched"); }
    for (size_t p : pos) if (p == s.size()) return "";
    return "text continues after the last instruction: '" + s.substr(*pos.begin(), 80) + "'"; }
  std::set<size_t> pos{0};
  std::string advance(const std::string& s, const std::string& what) {
    std::string want; for (auto& a : toks) { std::set<size_t> nx; for (size_t p : pos) for (auto& o : a) if (s.compare(p, o.size(), o) == 0) nx.insert(p + o.size());
      if (nx.empty()) { size_t p = *pos.begin(); std::string e; for (auto& o : a) e += " '" + o + "'"; size_t ls = s.rfind('\n', p ? p - 1 : 0); ls = ls == std::string::npos ? 0 : ls + 1; return "for " + what + ": expected" + e.substr(0, 200) + " at '" + s.substr(p, 40) + "' in line '" + s.substr(ls, s.find('\n', p) - ls).substr(0, 300) + "'"; }
      pos = nx; count("tokens"); }
    toks.clear(); return ""; }
};
std::string strip(const std::string& s) { std::string o; for (size_t i = 0; i < s.size();) { if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') { size_t e = i + 2; while (e < s.size() && (isdigit(s[e]) || s[e] == ';')) ++e; if (e < s.size() && s[e] == 'm') { i = e + 1; continue; } } o += s[i++]; } return o; }
}
// every color is switched on before a token and off after it
static std::string paired(const std::string& s) { std::vector<std::string> c; std::vector<size_t> at; for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '\x1b' && s[i + 1] == '[') { size_t e = s.find('m', i); if (e == std::string::npos) break; c.push_back(s.substr(i, e + 1 - i)); at.push_back(e + 1); } for (size_t k = 0; k < c.size(); ++k) if ((c[k] == "\x1b[0m") != (k % 2 == 1)) return fmt("color code %zu of %zu is %s, before '", k, c.size(), c[k].substr(1).c_str()) + s.substr(at[k], 30) + "'"; if (c.size() % 2) return "the last color is not switched off"; count("color_codes", c.size()); return ""; }
static void compare(Rng& r, TrackAlloc& al, Module& m, const sv::Mod& b, const std::vector<u32>& w, const std::string& what) {
    for (int k = 0; k < 2; ++k) {
      u32 opt = k == 0 ? (r.chance(1, 4) ? 127u : r.below(128)) : r.coin() ? (31u & ~2u) : r.below(128); const char* ind = r.chance(1, 3) ? nullptr : r.coin() ? "\t\t" : " ";
      ModulePrinter::PrintOptions po = (ModulePrinter::PrintOptionsBits)opt; std::string text;
      { String s(&al); ModulePrinter::ModuleStringPrinter p(s, false); if (!ModulePrinter::printModule(m, *g, p, po, ind)) { violation("print-failed", "printModule returned false for " + what + "\n" + sv::disasm(w) + "\n" + (s.c_str() ? s.c_str() : "")); return; } text = s.c_str() ? s.c_str() : ""; }
      Walker wk(b, opt, ind); std::string e = wk.match(text); count("texts"); distinct(fnv(w) + opt); count(fmt("options_%02x", opt & 0x76));
      if (!e.empty()) { std::string key = e.substr(0, e.find(':')); size_t p = e.find("Op"); size_t q = p; while (q < e.size() && isalnum(e[q])) ++q; violation("text:" + (p == std::string::npos ? key : e.substr(p, q - p)), fmt("options 0x%x, ", opt) + e + "\n" + what); return; }
      if (r.chance(1, 3)) { String s(&al); ModulePrinter::ModuleStringPrinter p(s, true); ModulePrinter::printModule(m, *g, p, po, ind); std::string c = s.c_str() ? s.c_str() : ""; if (strip(c) != strip(text)) violation("colors", "text without the color codes differs from the plain text"); if (std::string e = paired(c); !e.empty()) violation("color-pairs", e); count("colored"); }
      if (r.chance(1, 3)) { std::string c; auto fp = ModulePrinter::ModuleSimpleFuncPrinter([&](const char* t) { c += t; }, false); ModulePrinter::printModule(m, *g, fp, po, ind); if (c != text) violation("printer-kind", "ModuleSimpleFuncPrinter and ModuleStringPrinter differ"); }
    } }
// a module made with the API has operands that parsed modules do not have: branch targets, results without an id, missing objects
static void built(Rng& r) {
  TrackAlloc al; Log log;
  { Module m(&al, &log); build::Opt o; o.size = r.range(1, 5); o.depth = 2; o.entries = r.range(1, 2); build::Prog p = build::random(r, o); build::Built bl = build::lower(p, m, r); if (!bl.rejected.empty()) { count("not_built"); return; }
    std::vector<Instruction*> all; m.iterateInstructions([&](Instruction& i) { if (i.hasResult() && i.getOperation() != spv::Op::OpNop) all.push_back(&i); }); u32 n = 0; for (Instruction* i : all) if ((i->getOperation() == spv::Op::OpLabel ? r.coin() : r.chance(1, 6)) && !i->getName()) { m.addName(i, (i->getOperation() == spv::Op::OpLabel ? fmt("label%u", n) : fmt("value%u", n)).c_str()); ++n; }
    m.finalize(r.coin() ? g : nullptr); VecWriter w; if (!m.write(w)) { count("not_written"); return; } sv::Mod b; std::string err; if (!sv::decode(w.w, b, &err)) { count("not_decoded"); return; } count("mode_built"); compare(r, al, m, b, w.w, "built");
    if (r.coin()) { // an instruction that cannot be shown is reported and ends the text
      std::vector<BasicBlock*> bs; for (auto& f : m.getFunctions()) for (auto& x : f) bs.push_back(&x); for (auto& f : m.getEntryPoints()) for (auto& x : f) bs.push_back(&x); if (bs.empty()) return; BasicBlock* bb = r.pick(bs); Instruction* i = &bb->emplace_front(bb, spv::Op::OpNop); Instruction* ty = m.type<int>(); std::string w2; u32 kind = 1 + r.below(3);
      switch (kind) { case 1: i->makeOp(spv::Op::OpStore, ty, ty); i->back() = Operand((Instruction*)nullptr); break; case 2: i->makeOp(spv::Op::OpStore, ty, ty); i->back() = Operand(InvalidId); break; default: i->makeOp(spv::Op::OpStore, ty, ty); i->back() = Operand((BasicBlock*)nullptr); }
      String s(&al); ModulePrinter::ModuleStringPrinter pr(s, false); u32 opt = r.below(128); bool ok = ModulePrinter::printModule(m, *g, pr, (ModulePrinter::PrintOptionsBits)opt, r.coin() ? nullptr : " "); count("unprintable"); if (ok) violation("unprintable", fmt("printModule returned true for an OpStore whose second operand is missing (%u)", kind)); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("leak", e);
}
static void check(Rng& r, const std::vector<u32>& in, const std::string& what) {
  sv::Mod a; std::string err; if (!sv::decode(in, a, &err)) { count("generator_rejected"); return; }
  TrackAlloc al; Log log;
  { Module m(&al, &log); VecReader rd(in); if (!m.readAndInit(rd, *g)) { count("not_accepted"); return; } // see P01
    if (r.chance(1, 3)) m.finalize();
    VecWriter w; if (!m.write(w)) { count("not_written"); return; }
    sv::Mod b; if (!sv::decode(w.w, b, &err)) { count("not_decoded"); return; } b.generator = in[2];
    compare(r, al, m, b, in, what); }
  if (std::string e = al.imbalance(); !e.empty()) violation("leak", e);
}
static void tool(Rng& r, const std::vector<u32>& in) { // the command line disassembler prints the same text
  const char* bd = getenv("VERIF_BUILD_DIR"); if (!bd) return; static int n = 0; std::string f = fmt("/tmp/p03_%d_%d.spv", (int)getpid(), n++); FILE* o = fopen(f.c_str(), "wb"); if (!o) return; fwrite(in.data(), 4, in.size(), o); fclose(o);
  u32 opt = 127; std::string args; bool assign = r.coin(); if (r.coin()) { args += " -noinstrnames"; opt &= ~InstrName; } if (r.coin()) { args += " -noopnames"; opt &= ~OperandName; } if (r.coin()) { args += " -nopreamble"; opt &= ~Preamble; } if (r.coin()) args += " -tabs ' '"; if (assign) args += r.coin() ? " -assignIDs" : " -assignids"; bool col = r.coin(); if (col) args += " -colors";
  const char* ind = args.find("-tabs") != std::string::npos ? " " : "\t\t";
  std::string out; FILE* p = popen((std::string(bd) + "/tool_dis_bin " + f + args).c_str(), "r"); if (!p) { unlink(f.c_str()); return; } char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, k); int rc = pclose(p); unlink(f.c_str());
  TrackAlloc al; Log log; Module m(&al, &log); VecReader rd(in); if (!m.readAndInit(rd, *g)) { if (rc == 0) violation("tool-rc", "the disassembler accepts a module that readAndInit rejects"); return; } if (assign) m.assignIDs();
  VecWriter w; m.write(w); sv::Mod b; if (!sv::decode(w.w, b)) return; b.generator = in[2];
  String s(&al); ModulePrinter::ModuleStringPrinter sp(s, false); ModulePrinter::printModule(m, *g, sp, (ModulePrinter::PrintOptionsBits)opt, ind); std::string text = s.c_str();
  count("tool_runs"); if (rc != 0) violation("tool-rc", fmt("the disassembler returned %d for a module the library prints", rc)); std::string so = col ? strip(out) : out; std::string t2 = col ? strip(text) : text;
  if (so.size() < t2.size() || so.compare(so.size() - t2.size(), t2.size(), t2) != 0) violation("tool-text", "output of the disassembler" + args + " is not the text of the module printer:\n" + so.substr(0, 2000) + "\n--- expected\n" + t2.substr(0, 2000));
}
void hx::run_case(u64 idx, Rng& rng) {
  auto& cp = corpus::all(); if (idx < 8 * cp.size()) { auto& c = cp[idx % cp.size()]; check(rng, c.words, c.name); if (idx < cp.size()) tool(rng, c.words); return; }
  if (rng.chance(1, 9)) { built(rng); return; }
  gen::Opt o; o.size = rng.pick(std::vector<u32>{2, 4, 8, 14}); o.contiguous_ids = rng.chance(1, 4); o.any_op = !rng.chance(1, 5);
  auto w = gen::module(rng, o); if (idx % 97 == 5) { sample(sv::disasm(w).substr(0, 200)); tool(rng, w); }
  check(rng, w, "generated");
}
