// P16: every linker option has its own documented effect and no other; linkage helpers and the patch tool add exactly what was asked for.
// needs: tools
#include "linkmodel.h"
#include "spec.h"
#include <memory>
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "common/HeapAllocator.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P16", "a case is (a) one consumer and one library written as SPIR-V assembly linked with a random combination of the fifteen option flags, with and without grammar, printer and allocator: the kinds of things a full import needs decide whether it has to fail, otherwise the result is compared with the full import restricted to the documented effects of the flags, (b) one of the linkage helpers (removing a body, adding and reading linkage decorations, exporting used variables) on a random module compared with a model that edits the decoded instructions, or (c) the link tool with flags or patching symbols, compared with the library and with the model", 5000, 70000}; }
static Grammar* g; static HeapAllocator g_heap; static std::string g_dir, g_bin;
void hx::init() { g = new Grammar(&g_heap); g_dir = fmt("/tmp/p16_%d", (int)getpid()); mkdir(g_dir.c_str(), 0700); const char* b = getenv("VERIF_BUILD_DIR"); if (b) g_bin = b; }
void hx::finish() { for (const char* f : {"l.spv", "c.spv", "o.spv"}) unlink((g_dir + "/" + f).c_str()); rmdir(g_dir.c_str()); }
using namespace LinkerHelper; using B = LinkerOptionBits; using Words = std::vector<u32>;
namespace {
std::string path(const char* n) { return g_dir + "/" + n; }
void put_file(const std::string& f, const Words& w) { FILE* o = fopen(f.c_str(), "wb"); if (!o || fwrite(w.data(), 4, w.size(), o) != w.size()) harness_error("cannot write " + f); fclose(o); }
bool get_file(const std::string& f, Words& w) { w.clear(); FILE* o = fopen(f.c_str(), "rb"); if (!o) return false; u32 x; while (fread(&x, 4, 1, o) == 1) w.push_back(x); fclose(o); return true; }
int run(const std::string& cmd, std::string& out) { if (verbose()) fprintf(stderr, "RUN %s\n", cmd.c_str()); out.clear(); FILE* p = popen((g_bin + "/" + cmd + " 2>&1").c_str(), "r"); if (!p) harness_error("popen"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); int s = pclose(p); if (WIFSIGNALED(s)) return 1000 + WTERMSIG(s); if (out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos) return 999; return WEXITSTATUS(s); }
const u32 Imports = (u32)B::ImportMissingTypes | (u32)B::ImportMissingConstants | (u32)B::ImportMissingExtensionSets | (u32)B::ImportReferencedFunctions | (u32)B::ImportReferencedVariables | (u32)B::ImportReferencedStrings;
struct FlagName { B bit; const char *lng, *sht; };
const FlagName names[] = {{B::ImportMissingTypes, "ImportMissingTypes", "types"}, {B::ImportMissingConstants, "ImportMissingConstants", "constants"}, {B::ImportMissingExtensionSets, "ImportMissingExtensionSets", "extsets"}, {B::ImportReferencedDecorations, "ImportReferencedDecorations", "refdecos"}, {B::ImportReferencedNames, "ImportReferencedNames", "refnames"}, {B::ImportReferencedFunctions, "ImportReferencedFunctions", "reffuncs"}, {B::ImportReferencedVariables, "ImportReferencedVariables", "refvars"}, {B::ImportReferencedStrings, "ImportReferencedStrings", "refstrings"}, {B::RemoveLinkageCapability, "RemoveLinkageCapability", "rmcap"}, {B::AutoAddRequiredCapabilitiesAndExtensions, "AutoAddRequiredCapabilitiesAndExtensions", "addcaps"}, {B::UpdateEntryPointGlobalVarInterface, "UpdateEntryPointGlobalVarInterface", "variface"}, {B::CopyOpSourceStringInstructions, "CopyOpSourceStringInstructions", "srcstrings"}, {B::CopyOpLineInstructions, "CopyOpLineInstructions", "lines"}, {B::CopyOpModuleProcessedInstructions, "CopyOpModuleProcessedInstructions", "processed"}, {B::AssignResultIDs, "AssignResultIDs", "asid"}};
std::string text(u32 f) { std::string s; for (auto& n : names) if (f & (u32)n.bit) s += std::string(s.empty() ? "" : "+") + n.sht; return s.empty() ? "none" : s; }
struct How { bool grammar = false, printer = false, alloc = false, finalize = false; };
struct Run { bool ok = false; std::string ids; Words out; u32 printed = 0; };
u32* g_printed;
std::string link(const Words& lw, const Words& cw, u32 flags, const How& how, Run& res) { TrackAlloc ca, ta; std::string e = [&]() -> std::string { Log ll, cl; TrackAlloc la; Module con(&ca, &cl); VecReader cr(cw); if (!con.readAndInit(cr, *g)) return "read: " + cl.last; Module lib(&la, &ll); VecReader lr(lw); if (!lib.readAndInit(lr, *g)) return "read: " + ll.last;
  std::map<const Instruction*, u32> ids; con.iterateInstructions([&](Instruction& i) { if (i.hasResult()) ids[&i] = (u32)i.getResultId(); });
  LinkerOptions o; o.flags = Flag<B>(flags); if (how.grammar) o.grammar = g; u32 printed = 0; g_printed = &printed; auto printer = ModulePrinter::ModuleSimpleFuncPrinter([](const char* s) { if (s) *g_printed += (u32)strlen(s); }); if (how.printer) o.printer = &printer; if (how.alloc) o.allocator = &ta;
  u32 errors = cl.errors; res.ok = import(lib, con, o); res.printed = printed; if (res.ok && cl.errors != errors) return "error-logged: " + cl.last; if (!res.ok && cl.errors == errors) return "no-error-logged"; if (ll.errors) return "library-error: " + ll.last; if (std::string t = ta.imbalance(); !t.empty()) return "allocation: " + t; if (!res.ok) return "";
  std::set<u32> used; u32 fresh = 0, unassigned = 0; con.iterateInstructions([&](Instruction& i) { if (!i.hasResult()) return; u32 id = (u32)i.getResultId(); auto it = ids.find(&i); if (it != ids.end() ? it->second != id : false) res.ids = fmt("%u became %u", it->second, id); if (it == ids.end()) { ++fresh; if (id == (u32)InvalidId) ++unassigned; } if (id != (u32)InvalidId && !used.insert(id).second) res.ids = fmt("two instructions have the id %u", id); });
  bool assign = flags & (u32)B::AssignResultIDs; if (assign && unassigned) res.ids = fmt("%u of %u new instructions have no id", unassigned, fresh); if (!assign && unassigned != fresh) res.ids = fmt("%u of %u new instructions have ids", fresh - unassigned, fresh);
  if (how.finalize) con.finalizeEntryPoints(); if (!assign) con.assignIDs(nullptr); VecWriter w; if (!con.write(w)) return "write: " + cl.last; res.out = w.w; return ""; }(); if (!e.empty()) return e; e = ca.imbalance(); return e.empty() ? e : "allocation: " + e; }
u32 cap_value(const char* n) { auto& k = spec::K(spec::kind("Capability")); for (auto& e : k.enums) if (!strcmp(e.name, n)) return e.value; return ~0u; }
void implied(u32 c, std::set<u32>& s) { if (!s.insert(c).second) return; if (auto* e = spec::K(spec::kind("Capability")).find(c)) for (auto* n : e->caps) implied(cap_value(n), s); }
// capabilities and extensions that only what is used asks for
std::string auto_caps(const lm::View& C, const lm::View& O) { std::set<u32> may = C.caps; may.insert(5); std::set<u32> have; for (u32 c : O.caps) implied(c, have); std::set<std::string> exts = C.exts; for (auto& i : O.m.ins) { auto* s = spec::op(i.op); if (!s) continue; bool any = s->caps.empty(); for (auto* n : s->caps) { u32 c = cap_value(n); may.insert(c); any |= have.count(c) > 0; } if (!any) return std::string("missing capability for ") + s->name; for (auto* x : s->exts) exts.insert(x); if (i.op == 21 || i.op == 22) { u32 w = i.w[2], c = i.op == 21 ? (w == 8 ? 39 : w == 16 ? 22 : w == 64 ? 11 : 0) : (w == 16 ? 9 : w == 64 ? 10 : 0); if (c || w == 8) { may.insert(c); if (!have.count(c)) return fmt("missing capability %u", c); } } } for (u32 c : O.caps) if (!may.count(c)) return fmt("capability %u is neither the consumer's nor required", c); for (auto& x : O.exts) if (!exts.count(x)) return "extension " + x + " is neither the consumer's nor required"; return ""; }
void flags_case(u64 index, Rng& r) {
  lm::Opt o; o.missing = r.chance(1, 6); lm::Case c; std::string err; if (!lm::make(r, o, c, &err)) { count("generator_rejected"); return; } auto &lw = c.libs[0], &cw = c.consumer; distinct(fnv(lw, fnv(cw)));
  u32 all = (u32)B::All, f; switch (r.below(6)) { case 0: f = all & ~(1u << r.below(15)); break; case 1: f = Imports | (1u << r.below(15)); break; case 2: f = Imports | (r.u() & all); break; case 3: f = r.u() & all; break; case 4: f = (r.u() & all) | (r.u() & all) | Imports; break; default: f = (all & ~(1u << r.below(15))) & ~(1u << r.below(15)); }
  How h; h.grammar = r.coin(); h.printer = r.chance(1, 3); h.alloc = r.coin(); std::string tf = text(f); if (verbose()) fprintf(stderr, "FLAGS %s grammar %d\nLIB\n%s\nCONSUMER\n%s\n", tf.c_str(), h.grammar, sv::disasm(lw).c_str(), sv::disasm(cw).c_str());
  Run a; How h0; h0.grammar = h.grammar; std::string e = link(lw, cw, f | Imports | (u32)B::AssignResultIDs, h0, a); if (!e.empty() || !a.ok) { violation("full-import:" + e.substr(0, e.find(':')), tf + " " + e); return; }
  lm::View L(lw), C(cw), O(a.out); lm::Expect x; auto on = [&](B b) { return (f & (u32)b) != 0; }; x.names = on(B::ImportReferencedNames); x.decos = on(B::ImportReferencedDecorations); x.remove_linkage = on(B::RemoveLinkageCapability); x.strings = on(B::CopyOpSourceStringInstructions); x.lines = on(B::CopyOpLineInstructions); x.processed = on(B::CopyOpModuleProcessedInstructions); x.interface = on(B::UpdateEntryPointGlobalVarInterface); x.all_caps = !(h.grammar && on(B::AutoAddRequiredCapabilitiesAndExtensions)); lm::Need n; std::map<std::string, u64> seen; std::string d = lm::check(L, C, O, x, &n, &seen); if (!d.empty()) { violation("effect:" + d.substr(0, d.find(':')), tf + ": " + d); return; } if (!x.all_caps) { d = auto_caps(C, O); if (!d.empty()) violation("required:" + d.substr(0, 18), d); count("required_capabilities"); } for (auto& [k, v] : seen) count(k, v);
  if (!a.ids.empty()) violation("ids", tf + ": " + a.ids); if (x.interface && x.decos && !(c.entry_points == 0 && x.remove_linkage)) { std::string ve; if (!sv::validate(a.out, &ve)) violation("invalid:" + ve.substr(0, 50), tf + ": " + ve); count("validated"); }
  // what is missing without the import flags that are off
  std::string need; auto miss = [&](B b, u32 k, const char* what) { if (!on(b) && k) need += std::string(" ") + what; }; miss(B::ImportMissingTypes, n.types, "types"); miss(B::ImportMissingConstants, n.consts, "constants"); miss(B::ImportMissingExtensionSets, n.extsets, "extension-sets"); miss(B::ImportReferencedFunctions, n.functions, "functions"); miss(B::ImportReferencedVariables, n.variables, "variables"); if (!x.strings) miss(B::ImportReferencedStrings, n.strings, "strings");
  Run b; e = link(lw, cw, f, h, b); if (!e.empty()) { violation("link:" + e.substr(0, e.find(':')), tf + ": " + e); return; }
  if (!need.empty()) { count("must_fail"); for (size_t p = 0; (p = need.find(' ', p)) != std::string::npos; ++p) count("needs_" + need.substr(p + 1, need.find(' ', p + 1) - p - 1)); if (b.ok) violation("not-refused:" + need.substr(1), "flags " + tf + " import" + need); return; } if (!b.ok) { violation("refused", "nothing is missing with " + tf); return; }
  if (!b.ids.empty()) violation("ids", tf + ": " + b.ids); if (h.printer && h.grammar ? !b.printed && seen["imports_resolved"] : b.printed) violation("printer", fmt("%u characters with", b.printed) + (h.grammar ? " grammar" : "out grammar")); count("linked"); if (on(B::AssignResultIDs)) { count("ids_assigned"); if (b.out != a.out) violation("flag-side-effect", tf + ": differs from the import with all import flags, although nothing is missing"); } else { count("ids_later"); sv::Mod ma, mb; sv::decode(a.out, ma); sv::decode(b.out, mb); sv::CmpOpt co; std::string cm = sv::compare(ma, mb, co); if (!cm.empty()) violation("later-ids-differ", tf + ": " + cm); }
  if (index % 40 == 0) { put_file(path("l.spv"), lw); put_file(path("c.spv"), cw); std::string opt, tx; u32 tf2 = f | (u32)B::AssignResultIDs; for (auto& nm : names) if ((f & (u32)nm.bit) && nm.bit != B::AssignResultIDs) { std::string s = r.coin() ? nm.lng : nm.sht; if (r.chance(1, 4)) for (auto& ch : s) ch = (char)(r.coin() ? toupper(ch) : tolower(ch)); opt += " -" + s; } if (r.chance(1, 6)) { opt = r.coin() ? " -auto" : " -AllOptions"; tf2 = all; } if (r.chance(1, 4)) opt += " -verbose"; bool inplace = r.chance(1, 4); bool first = r.coin(); std::string io = " -l " + path("l.spv") + " -c " + path("c.spv") + (inplace ? "" : " -o " + path("o.spv")); unlink(path("o.spv").c_str()); int rc = run("tool_link_bin" + (first ? opt + io : io + opt), tx); count("tool_runs"); Run t; How th; th.grammar = true; th.finalize = true; e = link(lw, cw, tf2, th, t); if (!e.empty()) { violation("link:" + e, tf); return; } if (rc == 999 || rc >= 1000) { violation("tool-crash", tx.substr(0, 2000)); return; } if ((rc == 0) != t.ok) violation("tool-status", fmt("exit %d with", rc) + opt + ", the library " + (t.ok ? "links" : "refuses") + "\n" + tx.substr(0, 400)); Words w; bool have = get_file(path(inplace ? "c.spv" : "o.spv"), w); if (rc == 0 && (!have || w != t.out)) violation("tool-output", opt + fmt(": %zu words instead of %zu", w.size(), t.out.size())); if (rc && inplace && w != cw) violation("tool-overwrites", "the consumer was changed although linking failed"); }
}
// ---- helpers: a model that edits decoded instructions
struct Edit { Words head; std::vector<Words> ins; explicit Edit(const Words& w) : head(w.begin(), w.begin() + 5) { for (size_t p = 5; p < w.size(); p += w[p] >> 16) ins.push_back(Words(w.begin() + p, w.begin() + p + (w[p] >> 16))); } Words words() const { Words o = head; for (auto& i : ins) o.insert(o.end(), i.begin(), i.end()); return o; }
  void remove_body(u32 f, std::set<u32>* gone) { std::vector<Words> out; bool in = false, cut = false; lm::View v(words()); std::set<u32> dead; auto fn = v.fn.at(f); for (size_t k = fn.first; k <= fn.second; ++k) if (v.m.ins[k].result && v.m.ins[k].op != 54 && v.m.ins[k].op != 55) dead.insert(v.m.ins[k].result); if (gone) *gone = dead;
    for (auto& i : ins) { u32 op = i[0] & 0xffff; if (op == 54 && i[2] == f) in = true; if (in && op == 248) cut = true; if (op == 56) { cut = false; in = false; } if (cut) continue; if ((op == 5 || op == 6 || op == 71 || op == 72 || op == 332 || op == 5632 || op == 5633) && dead.count(i[1])) continue; if (op == 74) { Words q(i.begin(), i.begin() + 2); for (size_t k = 2; k < i.size(); ++k) if (!dead.count(i[k])) q.push_back(i[k]); if (q.size() == 2 && i.size() > 2) continue; q[0] = ((u32)q.size() << 16) | 74; out.push_back(q); continue; } out.push_back(i); } ins = out; }
  void decorate(u32 id, const std::string& nm, bool exp) { Words d{0, id, 41}; std::string s = nm; s.push_back(0); while (s.size() % 4) s.push_back(0); for (size_t k = 0; k < s.size(); k += 4) { u32 x; memcpy(&x, s.data() + k, 4); d.push_back(x); } d.push_back(exp ? 0 : 1); d[0] = ((u32)d.size() << 16) | 71; size_t at = 0; for (size_t k = 0; k < ins.size(); ++k) { u32 op = ins[k][0] & 0xffff; if (op == 71 || op == 72 || op == 73 || op == 74 || op == 75 || op == 332 || op == 5632 || op == 5633 || op == 330 || op == 5 || op == 6 || op == 7 || op == 3 || op == 2 || op == 4 || op == 15 || op == 16 || op == 14 || op == 331 || op == 17 || op == 10 || op == 11) at = k + 1; } ins.insert(ins.begin() + (long)at, d); }
  void capability(u32 c) { for (auto& i : ins) if ((i[0] & 0xffff) == 17 && i[1] == c) return; ins.insert(ins.begin(), Words{(2u << 16) | 17, c}); }
  void sort_linkage() { std::vector<Words> l, o; size_t at = 0; for (auto& i : ins) if ((i[0] & 0xffff) == 71 && i[2] == 41) { if (l.empty()) at = o.size(); l.push_back(i); } else o.push_back(i); std::stable_sort(l.begin(), l.end(), [](const Words& a, const Words& b) { return Words(a.begin() + 2, a.end()) < Words(b.begin() + 2, b.end()); }); o.insert(o.begin() + (long)at, l.begin(), l.end()); ins = o; }
  void no_interface() { std::vector<Words> out; for (auto& i : ins) { if ((i[0] & 0xffff) == 15) { size_t k = 3; while (k < i.size() && i[k] >> 24) ++k; i.resize(std::min(i.size(), k + 1)); i[0] = ((u32)i.size() << 16) | 15; } } } };
std::string differ(const Words& want, const Words& got, bool same_ids) { sv::Mod a, b; std::string e; if (!sv::decode(want, a, &e)) harness_error("model: " + e); if (!sv::decode(got, b, &e)) return "cannot be read: " + e; sv::CmpOpt o; o.same_ids = same_ids; return sv::compare(a, b, o); }
struct Pick { std::vector<u32> fns, defs, vars, other, entry, locals; };
Pick pick(const lm::View& v) { Pick p; std::set<u32> ep; for (auto* i : v.ops({15})) ep.insert(i->w[2]); std::vector<char> in(v.m.ins.size(), 0); for (auto& [id, f] : v.fn) for (size_t k = f.first; k <= f.second; ++k) in[k] = 1; for (auto& [id, k] : v.def) { auto& i = v.m.ins[k]; if (i.op == 54) { (ep.count(id) ? p.entry : p.fns).push_back(id); if (!ep.count(id)) { bool body = false; for (size_t q = v.fn.at(id).first; q <= v.fn.at(id).second; ++q) body |= v.m.ins[q].op == 248; if (body) p.defs.push_back(id); } } else if (i.op == 59) (in[k] ? p.locals : p.vars).push_back(id); else p.other.push_back(id); } return p; }
std::set<u32> used_variables(const lm::View& v, u32 f, bool calls) { std::set<u32> vis, out; std::vector<u32> st{f}; while (!st.empty()) { u32 x = st.back(); st.pop_back(); if (!vis.insert(x).second) continue; auto fr = v.fn.at(x); for (size_t k = fr.first; k <= fr.second; ++k) for (auto& o : v.m.ins[k].o) if (o.id() && !o.result()) { u32 id = v.m.ins[k].w[o.off]; auto d = v.def.find(id); if (d == v.def.end()) continue; auto& di = v.m.ins[d->second]; if (di.op == 59 && di.w[3] != 7) out.insert(id); if (di.op == 54 && calls) st.push_back(id); } } return out; }
std::string symbol(Rng& r) { static const std::vector<std::string> w{"sym", "", "a", "abcd", "longer_symbol_name", "x y", "\xc3\xa4"}; return r.pick(w) + fmt("%u", r.below(99)); }
void helper_case(Rng& r) {
  lm::Opt o; lm::Case c; std::string err; if (!lm::make(r, o, c, &err)) { count("generator_rejected"); return; } const Words& w0 = r.coin() ? c.libs[0] : c.consumer; lm::View V(w0); Pick p = pick(V); distinct(fnv(w0)); if (verbose()) fprintf(stderr, "MODULE\n%s\n", sv::disasm(w0).c_str()); TrackAlloc al, ta;
  { Log lg; Module m(&al, &lg); VecReader rd(w0); if (!m.readAndInit(rd, *g)) { violation("read", lg.last); return; } Edit ed(w0); auto at = [&](u32 id) { return m.getInstructionById(spv::Id{id}); };
    { u32 k = 0; for (auto& dec : m.getDecorations()) { Instruction* s = nullptr; String nm(&ta); bool both = r.coin(); auto t = both ? getLinkageTypeFromDecoration(&dec, &s, &nm) : r.coin() ? getLinkageTypeFromDecoration(&dec, &s) : getLinkageTypeFromDecoration(&dec); auto ops = V.ops({71, 72, 73, 74, 75, 332, 5632, 5633}); if (k >= ops.size()) { violation("decoration-count", ""); break; } auto& i = *ops[k++]; bool is = i.op == 71 && i.w[2] == 41; auto want = is ? (spv::LinkageType)i.w.back() : spv::LinkageType::Max; if (t != want) violation("linkage-type", sv::str(i)); if (is && both && (!s || (u32)s->getResultId() != i.w[1] || std::string(nm.c_str() ? nm.c_str() : "") != sv::literal(i, i.o[2]))) violation("linkage-symbol", sv::str(i)); count("linkage_read"); } if (getLinkageTypeFromDecoration(nullptr) != spv::LinkageType::Max) violation("linkage-null", ""); }
    for (u32 k = r.range(1, 3); k; --k) { lm::View cur(ed.words()); u32 errors = lg.errors; switch (r.below(3)) {
      case 0: { if (p.defs.empty()) break; u32 f = r.pick(p.defs); std::set<std::string> lost; std::set<u32> gone; ed.remove_body(f, &gone); for (u32 id : gone) { auto it = V.names.find(id); if (it != V.names.end()) for (auto& n : it->second) lost.insert(n); } Instruction* fi = at(f); if (!fi || !fi->getFunction()) { violation("lookup", ""); break; } if (!removeFunctionBody(*fi->getFunction())) violation("remove-body-refused", ""); count("bodies_removed"); p.defs.erase(std::find(p.defs.begin(), p.defs.end(), f)); for (auto& n : lost) if (n[0] == '~') { Instruction* i = m.getInstructionByName(n.substr(1).c_str()); bool ok = i == nullptr; if (!ok) m.iterateInstructions([&](const Instruction& x) { ok |= &x == i; }); if (!ok) { violation("remove-body-name", "getInstructionByName still finds a removed instruction"); break; } count("names_forgotten"); } break; }
      case 1: { int kind = (int)r.below(8); Instruction* t = nullptr; u32 id = 0; bool ok = false; auto from = [&](const std::vector<u32>& l) { if (!l.empty()) { id = r.pick(l); t = at(id); } }; if (kind == 0) from(p.other); else if (kind == 1) t = nullptr; else if (kind < 5) from(p.vars); else from(p.fns); if (t) ok = kind > 1; auto lt = r.chance(1, 8) ? spv::LinkageType::Max : r.coin() ? spv::LinkageType::Export : spv::LinkageType::Import; if (lt == spv::LinkageType::Max) ok = false; std::string nm = symbol(r); Instruction* d = addLinkageDecoration(t, lt, nm.c_str()); if ((d != nullptr) != ok) { violation(ok ? "decoration-refused" : "decoration-accepted", fmt("target %d", kind)); break; } count(ok ? "decorations_added" : "decorations_refused"); if (ok) { ed.decorate(id, nm, lt == spv::LinkageType::Export); Instruction* s = nullptr; String on(&ta); if (getLinkageTypeFromDecoration(d, &s, &on) != lt || s != t || std::string(on.c_str()) != nm) violation("decoration-read-back", nm); } break; }
      default: { std::vector<u32> cand = p.fns; cand.insert(cand.end(), p.entry.begin(), p.entry.end()); if (cand.empty()) break; u32 f = r.pick(cand); auto direct = used_variables(cur, f, false), all = used_variables(cur, f, true); bool exp = r.coin(); Instruction* fi = at(f); u32 before = (u32)m.getDecorations().size(); bool ok = addLinkageDecorateForUsedGlobalVariables(*fi->getFunction(), exp ? spv::LinkageType::Export : spv::LinkageType::Import, r.coin() ? &ta : nullptr); (void)before; count("exports_of_used_variables"); bool unnamed = false, unsure = false; for (u32 v : direct) { auto it = cur.names.find(v); if (it == cur.names.end()) unnamed = true; } for (u32 v : all) if (!cur.names.count(v)) unsure = true; if (ok && unnamed) violation("used-variables-true", "a variable without name was not reported"); if (!ok && !unsure) { bool empty = false; for (u32 v : all) for (auto& n : cur.names.at(v)) empty |= n == "~"; if (!empty) violation("used-variables-false", "all variables have names"); }
          std::map<u32, u32> got; VecWriter w; if (!m.write(w)) { violation("write", lg.last); break; } lm::View now(w.w); std::multiset<std::string> was; auto dec = [](const lm::View& v) { std::vector<std::pair<u32, Words>> o; for (auto* i : v.ops({71})) if (i->w[2] == 41) o.push_back({i->w[1], i->w}); return o; }; auto a = dec(cur), b = dec(now); for (auto& x : a) { auto it = std::find(b.begin(), b.end(), x); if (it == b.end()) violation("used-variables-lost", ""); else b.erase(it); } for (auto& [id, d] : b) { if (!all.count(id)) { violation("used-variables-extra", fmt("%u is not used by the function", id)); continue; } if (got[id]++) { violation("used-variables-twice", fmt("%u", id)); } lm::View one(w.w); sv::Ins q; for (auto* i : now.ops({71})) if (i->w == d) q = *i; std::string nm = sv::literal(q, q.o[2]); auto& nn = cur.names[id]; if (std::find(nn.begin(), nn.end(), "~" + nm) == nn.end()) violation("used-variables-name", nm); if ((d.back() == 0) != exp) violation("used-variables-type", ""); ed.decorate(id, nm, exp); count("variables_exported"); } for (u32 id : direct) if (cur.names.count(id) && !got.count(id)) { bool only_empty = true; for (auto& n : cur.names[id]) only_empty &= n == "~"; if (!only_empty) violation("used-variables-missing", fmt("%u", id)); } errors = lg.errors; break; } }
      if (lg.errors != errors) violation("error-logged", lg.last); }
    VecWriter w; if (!m.write(w)) violation("write", lg.last); else { std::string d = differ(ed.words(), w.w, true); if (!d.empty()) violation("model", d); } count("compared"); if (std::string t = ta.imbalance(); !t.empty()) violation("allocation", t); }
  if (std::string t = al.imbalance(); !t.empty()) violation("allocation", t);
}
void patch_case(Rng& r) {
  lm::Opt o; lm::Case c; std::string err; if (!lm::make(r, o, c, &err)) { count("generator_rejected"); return; } Words w0 = r.chance(3, 4) ? c.libs[0] : c.consumer; if (r.coin()) { sv::Mod m; if (sv::decode(w0, m)) { Words n(w0.begin(), w0.begin() + 5); for (auto& i : m.ins) if (i.op != 17 || i.w[1] != 5) n.insert(n.end(), i.w.begin(), i.w.end()); w0 = n; count("patches_without_capability"); } } lm::View V(w0); Pick p = pick(V); distinct(fnv(w0)); Edit ed(w0); ed.capability(5); std::string cmd; bool ok = true; std::map<std::string, u32> uniq; std::set<std::string> dup; for (auto& [id, ns] : V.names) for (auto& n : ns) { std::string s = n[0] == '~' ? n.substr(1) : n.substr(n.find(':') + 1); if (uniq.count(s) || n[0] != '~') dup.insert(s); uniq[s] = id; }
  for (u32 k = r.range(1, 3); k; --k) { std::vector<u32> l; int kind = (int)r.below(12); if (kind == 0) l = p.other; else if (kind == 1) l = p.entry; else if (kind == 2) l = p.locals; else if (kind < 7) l = p.vars; else l = p.fns; if (l.empty()) continue; u32 id = r.pick(l); std::string t = fmt("%u", id); auto it = V.names.find(id); if (it != V.names.end() && r.coin()) for (auto& n : it->second) if (n.size() > 1 && isalpha((unsigned char)n[1]) && !dup.count(n.substr(1))) t = n.substr(1); bool exp = r.coin(); std::string nm = symbol(r); for (auto& ch : nm) if (ch == ' ') ch = '_'; cmd += std::string(r.coin() ? (exp ? " -e " : " -i ") : (exp ? " -export " : " -import ")) + t + " " + nm; lm::View cur(ed.words()); if (kind < 3) { ok = false; break; } bool fn = kind >= 7; bool body = std::find(p.defs.begin(), p.defs.end(), id) != p.defs.end(); if (!exp && fn && body) { ed.remove_body(id, nullptr); p.defs.erase(std::find(p.defs.begin(), p.defs.end(), id)); } if (exp && r.chance(1, 3)) { cmd += " -vars"; if (fn) { auto d = used_variables(cur, id, false), a = used_variables(cur, id, true); if (d != a) return; bool nameless = false; for (u32 v : a) { auto q = cur.names.find(v); if (q == cur.names.end() || q->second.size() != 1 || q->second[0] == "~") nameless = true; else ed.decorate(v, q->second[0].substr(1), true); } if (nameless) { bool many = false; for (u32 v : a) { auto q = cur.names.find(v); many |= q != cur.names.end() && q->second.size() > 1; } if (many) return; ok = false; break; } } } ed.decorate(id, nm, exp); }
  if (cmd.empty()) return; put_file(path("c.spv"), w0); if (verbose()) fprintf(stderr, "MODULE\n%s\nMODEL\n%s\n", sv::disasm(w0).c_str(), sv::disasm(ed.words()).c_str()); bool inplace = r.chance(1, 4); unlink(path("o.spv").c_str()); std::string tx; int rc = run("tool_link_bin -p " + path("c.spv") + cmd + (inplace ? "" : " -o " + path("o.spv")), tx); count("tool_patches"); if (rc >= 999) { violation("patch-crash", cmd + "\n" + tx.substr(0, 2000)); return; } if ((rc == 0) != ok) { violation(ok ? "patch-refused" : "patch-accepted", cmd + fmt(" exit %d\n", rc) + tx.substr(0, 600) + "\n" + sv::disasm(w0)); return; } Words w; bool have = get_file(path(inplace ? "c.spv" : "o.spv"), w); if (!ok) { count("patches_refused"); if (inplace ? w != w0 : have) violation("patch-output-on-failure", cmd); return; } if (!have) { violation("patch-no-output", cmd); return; } Edit got(w); got.no_interface(); ed.no_interface(); got.sort_linkage(); ed.sort_linkage(); std::string d = differ(ed.words(), got.words(), false); if (verbose()) fprintf(stderr, "GOT\n%s\n", sv::disasm(w).c_str()); if (!d.empty()) violation("patch-model", cmd + ": " + d);
}
}
void hx::run_case(u64 index, Rng& r) { if (index % 25 == 7) patch_case(r); else if (index % 4 == 3) helper_case(r); else flags_case(index, r); }
