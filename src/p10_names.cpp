// P10: names, decorations and reflection queries against a model of what the module's instructions state.
// needs: tools
#include "spv.h"
#include "gen.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/HeapAllocator.h"
#include "hx.h"
#include <spirv/unified1/spirv.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P10", "a case is one module (parsed from words the check assembles, or built through the API) with 0..25 names, member names and decorations (all instruction forms; repeated, empty, prefix-sharing, long and non-ASCII names; member indices that look like strings or decoration numbers) over types, variables, constants, functions, parameters, labels and results, and 0..3 execution modes; every query of Module and ReflectionHelper is asked for every target, decoration and name, before and after writing and reading; plus string packing and the reflection tool", 20000, 150000}; }
static Grammar* g; static HeapAllocator g_heap; static std::string g_dir, g_bin;
void hx::init() { g = new Grammar(&g_heap); char t[] = "/tmp/p10_XXXXXX"; if (!mkdtemp(t)) harness_error("mkdtemp"); g_dir = t; if (const char* b = getenv("VERIF_BUILD_DIR")) g_bin = b; if (g_bin.empty() || access((g_bin + "/tool_refl_bin").c_str(), X_OK)) g_bin.clear(); else if (g_bin[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) g_bin = std::string(c) + "/" + g_bin; } }
void hx::finish() { unlink((g_dir + "/m.spv").c_str()); rmdir(g_dir.c_str()); }
namespace {
constexpr u32 None = ~0u;
struct Nm { u32 t, member; std::string s; };
enum Form { fDeco, fMember, fId, fString, fMemberString };
struct Dc { Form f; u32 t, member, deco; std::vector<u32> lits; std::string str; u32 idt = None; };
struct Md { u32 ep, mode; bool id; u32 v[3]; std::vector<u32> words; u32 cnst[3] = {None, None, None}; };
struct Model { std::vector<Nm> names; std::vector<Dc> decos; std::vector<Md> modes; std::vector<u32> sc; }; // sc: storage class of each target, None for other targets
const std::vector<u32>& deco_nums() { static const std::vector<u32> v{0, 1, 2, 4, 6, 7, 11, 14, 19, 24, 26, 27, 29, 30, 31, 32, 33, 34, 35, 36, 38, 40, 41, 43, 44, 46, 47, 5635, 3, 5, 100}; return v; }
u32 lit(Rng& r) { static const std::vector<u32> v{0, 1, 2, 3, 6, 11, 24, 30, 33, 34, 35, 41, 0x7fffffff, 0x80000000u, 0xfffffffeu}; return r.chance(1, 5) ? r.u() : r.pick(v); }
std::string name(Rng& r, const std::vector<Nm>& have) { static const std::vector<std::string> v{"", "a", "ab", "abc", "abcd", "abcde", "abcdefg", "abcdefgh", "abcdefghi", "main", "color", "colour", "b", "bc", "x", "\xc3\xa4", "\xff\xfe\xfd\x80", " ", "%s%n", "a b", "!"}; std::string s; switch (r.below(6)) { case 0: if (!have.empty()) { s = have[r.below((u32)have.size())].s; if (r.coin()) { if (r.coin() && !s.empty()) s.pop_back(); else s += (char)(1 + r.below(255)); } break; } [[fallthrough]]; case 1: for (u32 i = 0, n = r.below(20); i < n; ++i) s += (char)(1 + r.below(255)); break; case 2: s = std::string(r.chance(1, 10) ? 300 + r.below(2000) : r.below(40), (char)('a' + r.below(3))); break; default: s = r.pick(v); } return s; }
std::vector<u32> pack(const std::string& s) { std::vector<u32> w; gen::str_words(w, s); return w; }
// operands of a decoration, as the SPIR-V grammar wants them
std::vector<u32> operands(u32 d, Rng& r, std::string* str = nullptr) { switch (d) { case 1: case 6: case 7: case 29: case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 43: case 44: return {lit(r)}; case 11: return {r.pick(std::vector<u32>{0, 1, 15, 24, 28, 42})}; case 38: return {r.below(8)}; case 40: return {r.below(16)}; case 41: { std::string s = name(r, {}); if (str) *str = s; auto w = pack(s); w.push_back(r.below(2)); return w; } default: return {}; } }
bool plain(u32 d) { static const std::set<u32> v{0, 1, 2, 4, 6, 7, 11, 14, 19, 24, 29, 30, 31, 32, 33, 34, 35, 36, 38, 40, 41, 43, 44, 26}; return v.count(d); }
u32 member(Rng& r) { return r.chance(1, 4) ? r.pick(std::vector<u32>{0x61, 0x6261, 0x626100, 0x64636261, 33, 35, 11, None - 1}) : r.below(5); }
// targets: structs come first; ids of constants for DecorateId
void fill(Model& m, u32 targets, u32 structs, const std::vector<u32>& consts, Rng& r, bool api) { u32 nn = r.below(r.coin() ? 4 : 25), nd = r.below(r.coin() ? 4 : 25); u32 hot = r.below(targets), hots = structs ? r.below(structs) : 0, hotd = r.pick(deco_nums()); while (!plain(hotd)) hotd = r.pick(deco_nums());
  for (u32 i = 0; i < nn; ++i) { Nm n; n.member = None; n.t = r.coin() ? hot : r.below(targets); if (structs && r.chance(2, 5)) { n.t = r.coin() ? hots : r.below(structs); n.member = member(r); } n.s = name(r, m.names); m.names.push_back(n); }
  for (u32 i = 0; i < nd; ++i) { Dc d; d.f = (Form)r.pick(std::vector<u32>{0, 0, 0, 0, 1, 1, 1, 2, 3, 4}); if ((d.f == fMember || d.f == fMemberString) && !structs) d.f = fDeco; if (api && (d.f == fString || d.f == fMemberString)) d.f = fDeco; if (d.f == fId && consts.empty()) d.f = fDeco; d.t = r.coin() ? hot : r.below(targets); d.member = None; if (d.f == fMember || d.f == fMemberString) { d.t = r.coin() ? hots : r.below(structs); d.member = member(r); } switch (d.f) { case fId: d.deco = r.pick(std::vector<u32>{27, 46, 47}); d.idt = r.pick(consts); break; case fString: case fMemberString: d.deco = 5635; d.str = name(r, m.names); d.lits = pack(d.str); break; default: do d.deco = r.coin() ? hotd : r.pick(deco_nums()); while (!plain(d.deco)); d.lits = operands(d.deco, r, &d.str); } m.decos.push_back(d); } }
std::string show(const std::string& s) { std::string o; for (unsigned char c : s) o += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\%02x", c); return o.size() > 60 ? o.substr(0, 60) + fmt("...(%zu)", s.size()) : o; }
void strings(const Instruction& i, Instruction::Iterator at, const std::string& s, TrackAlloc& al, Rng& r, const char* how) { { String o(&al); auto e = getLiteralString(o, at, i.end()); if (std::string(o.c_str() ? o.c_str() : "") != s) violation(std::string("string-decoded:") + how, show(o.c_str() ? o.c_str() : "") + " instead of " + show(s)); auto e2 = skipLiteralString(at); if (e != e2) violation(std::string("string-end:") + how, show(s)); u32 n = 0; for (auto k = at; k != e && n < 100000; ++k) ++n; if (n != s.size() / 4 + 1) violation(std::string("string-words:") + how, fmt("%u words for %zu bytes", n, s.size())); u32 k = 0; auto w = pack(s); for (auto q = at; k < w.size() && q != i.end(); ++q, ++k) if (!q->isLiteral() || (u32)q->literal != w[k]) { violation(std::string("string-packing:") + how, show(s)); break; } count("strings"); }
  for (u32 k = 0; k < 4; ++k) { std::string t = s; switch (k) { case 1: t += (char)(1 + r.below(255)); break; case 2: if (!t.empty()) t.pop_back(); break; case 3: if (!t.empty()) t[r.below((u32)t.size())] ^= (char)(1 << r.below(7)); break; } t = t.c_str(); if (compareLiteralString(t.c_str(), at, i.end()) != (t == s)) violation(std::string("string-compare:") + how, show(t) + " with " + show(s)); u32 n = r.below((u32)s.size() + 4); if (compareLiteralString(t.c_str(), at, i.end(), n) != (strncmp(t.c_str(), s.c_str(), n) == 0)) violation(std::string("string-compare-n:") + how, show(t) + " with " + show(s) + fmt(" up to %u", n)); count("compares", 2); } }
void query(const Module& cm, const std::vector<Instruction*>& T, const Model& M, TrackAlloc& al, Rng& r, bool ids, const char* how) { Module& m = const_cast<Module&>(cm); std::map<const Instruction*, u32> idx; for (u32 i = 0; i < T.size(); ++i) idx[T[i]] = i; auto H = [&](const char* k) { return std::string(k) + ":" + how; };
  std::vector<const Instruction*> ni, di; for (auto& i : m.getNames()) ni.push_back(&i); for (auto& i : m.getDecorations()) di.push_back(&i); if (ni.size() != M.names.size()) { violation(H("name-instructions"), fmt("%zu instead of %zu", ni.size(), M.names.size())); return; } if (di.size() != M.decos.size()) { violation(H("decoration-instructions"), fmt("%zu instead of %zu", di.size(), M.decos.size())); return; }
  for (u32 i = 0; i < ni.size(); ++i) { auto& n = M.names[i]; strings(*ni[i], ni[i]->getFirstActualOperand() + (n.member == None ? 1u : 2u), n.s, al, r, how); }
  // names
  for (u32 t = 0; t < T.size(); ++t) { std::multiset<std::pair<u32, std::string>> want, got; std::set<u32> mem{None, 0, 1, 2, r.u()}; for (auto& n : M.names) if (n.t == t) { want.insert({n.member, n.s}); mem.insert(n.member); mem.insert(n.member + 1); } { auto l = m.getNames(T[t], r.coin() ? &al : nullptr); for (auto& x : l) { if (!x.name) { violation(H("names-null"), "getNames reports a null name"); continue; } got.insert({x.memberIndex, x.name}); } } if (got != want) violation(H("names"), fmt("target %u has %zu names, %zu reported or different", t, want.size(), got.size())); for (u32 k : mem) { const char* s = m.getName(T[t], k); bool any = false, ok = false; for (auto& w : want) if (w.first == k) { any = true; ok |= s && w.second == s; } if (any && !s) violation(H("name-missing"), fmt("target %u member %d", t, (int)k)); else if (any ? !ok : s != nullptr) violation(H(any ? "name-wrong" : "name-invented"), fmt("target %u member %d: ", t, (int)k) + show(s ? s : "")); const char* s2 = T[t]->getName(k); if ((s == nullptr) != (s2 == nullptr) || (s && strcmp(s, s2))) violation(H("instruction-getName"), ""); count("name_queries", 2); }
    std::vector<const Instruction*> nl, wl; ReflectionHelper::getNamesFunc(T[t], [&](const Instruction* i) { nl.push_back(i); }); for (u32 i = 0; i < ni.size(); ++i) if (M.names[i].t == t) wl.push_back(ni[i]); if (nl != wl) violation(H("getNamesFunc"), fmt("target %u", t)); }
  std::set<std::string> ask{"", "a", "abc", "zzz"}; for (auto& n : M.names) { ask.insert(n.s); ask.insert(n.s.substr(0, n.s.size() / 2)); ask.insert(n.s + "a"); } if (ask.size() > 40) { std::set<std::string> q; for (auto& s : ask) if (r.chance(40, (u32)ask.size())) q.insert(s); ask = q; } for (auto& s : ask) { Instruction* i = m.getInstructionByName(s.c_str()); std::set<const Instruction*> want; for (auto& n : M.names) if (n.member == None && n.s == s) want.insert(T[n.t]); count("by_name"); if (want.empty() ? i != nullptr : !want.count(i)) violation(H(want.empty() ? "by-name-invented" : i ? "by-name-wrong" : "by-name-missing"), show(s) + (i && idx.count(i) ? fmt(" gives target %u", idx[i]) : "")); else if (i) count("by_name_found"); }
  if (ids) { std::set<u32> used; for (u32 t = 0; t < T.size(); ++t) { u32 id = (u32)T[t]->getResultId(); if (!used.insert(id).second) violation(H("id-twice"), fmt("%u", id)); if (m.getInstructionById(spv::Id{id}) != T[t]) violation(H("by-id"), fmt("id %u", id)); count("by_id"); } if (m.getInstructionById(spv::Id{0u})) violation(H("by-id-zero"), "id 0 gives an instruction"); if (Instruction* i = m.getInstructionById(spv::Id{0x3fff00u + r.below(1000)})) violation(H("by-id-unknown"), sv::opname((u32)i->getOperation())); }
  // decorations
  for (u32 t = 0; t < T.size(); ++t) { List<Instruction*> l(&al); ReflectionHelper::getDecorations(T[t], l); std::vector<const Instruction*> got, got2, want; for (auto* i : l) got.push_back(i); ReflectionHelper::getDecorationsFunc(T[t], [&](const Instruction* i) { got2.push_back(i); }); for (u32 i = 0; i < di.size(); ++i) if (M.decos[i].t == t) want.push_back(di[i]); if (got != want) violation(H("getDecorations"), fmt("target %u: %zu instead of %zu", t, got.size(), want.size())); if (got2 != want) violation(H("getDecorationsFunc"), fmt("target %u", t)); count("decorations_of"); }
  for (u32 i = 0; i < di.size(); ++i) { auto& d = M.decos[i]; bool k = d.f == fDeco || d.f == fMember; auto kind = ReflectionHelper::getSpvDecorationKindFromDecoration(di[i]); if ((u32)kind != (k ? d.deco : (u32)spv::Decoration::Max)) violation(H("decoration-kind"), fmt("form %d: %u instead of %u", d.f, (u32)kind, d.deco)); spv::Decoration od = spv::Decoration::Max; u32 v = 0xabcdef01; bool ok = ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(di[i], od, v); if (ok != k || (k && ((u32)od != d.deco || (!d.lits.empty() && v != d.lits[0])))) violation(H("decoration-and-literal"), fmt("form %d decoration %u: %d %u %u", d.f, d.deco, ok, (u32)od, v)); u32 q = r.coin() ? d.deco : r.pick(deco_nums()); u32 gl = ReflectionHelper::getLiteralFromDecoration((spv::Decoration)q, di[i]), wl = q == d.deco && k && !d.lits.empty() ? d.lits[0] : None; if (d.f == fMember ? gl != wl && gl != None : gl != wl) violation(H("literal-from-decoration"), fmt("form %d: %u instead of %u", d.f, gl, wl)); count("decoration_queries", 3); }
  { spv::Decoration od{}; u32 v = 0; const Instruction* other = r.coin() || ni.empty() ? T[r.below((u32)T.size())] : ni[0]; for (const Instruction* i : {(const Instruction*)nullptr, other}) { if (ReflectionHelper::getSpvDecorationKindFromDecoration(i) != spv::Decoration::Max) violation(H("kind-of-other"), ""); if (ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(i, od, v)) violation(H("literal-of-other"), ""); } List<Instruction*> l(&al); ReflectionHelper::getDecorations(nullptr, l); if (!l.empty()) violation(H("decorations-of-null"), ""); if (ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Location, nullptr) != None) violation(H("literal-of-null"), ""); }
  std::set<u32> dn(deco_nums().begin(), deco_nums().end()); for (u32 q : dn) { bool used = false; for (auto& d : M.decos) used |= d.deco == q; if (!used && !r.chance(1, 5)) continue;
    for (u32 t = 0; t < T.size(); ++t) { const Instruction* out = nullptr; bool asked; u32 v = ReflectionHelper::getDecorationLiteralFromTarget((spv::Decoration)q, T[t], (asked = !r.chance(1, 8)) ? &out : nullptr); std::set<u32> vals; std::map<const Instruction*, u32> from; bool any = false, str = false; for (u32 i = 0; i < di.size(); ++i) { auto& d = M.decos[i]; if (d.t != t || d.deco != q) continue; if (d.f == fString || d.f == fMemberString) { str = true; continue; } if (d.f == fId) { from[di[i]] = None; continue; } any = true; u32 l = d.lits.empty() ? None : d.lits[0]; vals.insert(l); from[di[i]] = l; } count("literal_from_target"); if (str) continue; if (!any) { if (v != None) violation(H("target-literal-invented"), fmt("decoration %u: %u", q, v)); continue; } if (!vals.count(v)) violation(H("target-literal"), fmt("decoration %u: %u instead of %u", q, v, *vals.begin())); else if (asked && (!from.count(out) || from[out] != v)) violation(H("target-literal-source"), fmt("decoration %u", q)); count("literal_found"); }
    std::map<u32, u32> must, may; std::set<u32> values{0, lit(r)}; for (auto& d : M.decos) if (d.deco == q) { ++may[d.t]; if (d.f == fDeco || d.f == fMember) ++must[d.t]; if (!d.lits.empty()) values.insert(d.lits[0]); } for (int k = 0; k < 2; ++k) { std::map<u32, u32> got; if (k) { List<const Instruction*> l(&al); ReflectionHelper::getVariablesWithDecoration(m, (spv::Decoration)q, l); for (auto* i : l) ++got[idx.count(i) ? idx[i] : None]; } else ReflectionHelper::getVariablesWithDecorationFunc(m, (spv::Decoration)q, [&](const Instruction* i) { ++got[idx.count(i) ? idx[i] : None]; }); for (auto& x : must) if (!got.count(x.first)) violation(H("decorated-missing"), fmt("decoration %u target %u", q, x.first)); for (auto& x : got) if (!may.count(x.first) || x.second > may[x.first]) violation(H("decorated-extra"), fmt("decoration %u target %d", q, (int)x.first)); count("decorated_queries"); }
    for (u32 v : values) { std::map<u32, u32> want, loose, got; for (auto& d : M.decos) if (d.deco == q) { if (d.f == fString || d.f == fMemberString) { ++loose[d.t]; continue; } if (d.f != fId && !d.lits.empty() && d.lits[0] == v) { ++want[d.t]; ++loose[d.t]; } } List<const Instruction*> l(&al); ReflectionHelper::getVariablesWithDecoration(m, (spv::Decoration)q, l, &v); for (auto* i : l) ++got[idx.count(i) ? idx[i] : None]; for (auto& x : want) if (!got.count(x.first)) violation(H("decorated-value-missing"), fmt("decoration %u value %u target %u", q, v, x.first)); for (auto& x : got) if (!loose.count(x.first) || x.second > loose[x.first]) violation(H("decorated-value-extra"), fmt("decoration %u value %u", q, v)); count("decorated_value_queries"); } }
  for (u32 c = 0; c < 14; ++c) { std::vector<u32> want, got; for (u32 t = 0; t < T.size(); ++t) if (M.sc[t] == c) want.push_back(t); List<const Instruction*> l(&al); ReflectionHelper::getGlobalVariablesByStorageClass(m, (spv::StorageClass)c, l); for (auto* i : l) got.push_back(idx.count(i) ? idx[i] : None); std::sort(got.begin(), got.end()); if (got != want) violation(H("by-storage-class"), fmt("class %u: %zu instead of %zu", c, got.size(), want.size())); count("storage_queries"); }
  u32 x = 7777, y = 7777, z = 7777; bool ok = ReflectionHelper::getLocalSize(m, x, y, z), any = false, match = false; std::string all; for (auto& d : M.modes) if (d.mode == 17 || d.mode == 18 || d.mode == 38 || d.mode == 39) { any = true; match |= d.v[0] == x && d.v[1] == y && d.v[2] == z; all += fmt(" %u,%u,%u", d.v[0], d.v[1], d.v[2]); } if (ok != any) violation(H("local-size-found"), fmt("%d instead of %d", ok, any)); else if (any && !match) violation(H("local-size"), fmt("%u,%u,%u instead of", x, y, z) + all); count(any ? "local_size_found" : "local_size_none"); }
struct Asm { std::vector<u32> w, ids; }; // ids of the targets
Asm assemble(Model& M, Rng& r) { Asm o; std::vector<u32> body; u32 id = 1; std::vector<u32> perm; for (u32 i = 1; i < 200; ++i) perm.push_back(i); for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below((u32)i)]); auto nid = [&] { return perm[id++ - 1]; }; std::vector<u32>* cur = &body; auto put = [&](u32 opc, std::vector<u32> a) { cur->push_back(((u32)(a.size() + 1) << 16) | opc); cur->insert(cur->end(), a.begin(), a.end()); }; auto tgt = [&](u32 i, u32 sc = None) { o.ids.push_back(i); M.sc.push_back(sc); return i; };
  std::vector<u32> consts; u32 ns = r.below(4), tf = nid(), ti = nid(), tu = nid(), tv = nid(), tvd = nid(); std::vector<u32> late; for (u32 i = 0; i < ns; ++i) late.push_back(tgt(nid())); put(SpvOpTypeVoid, {tgt(tvd)}); put(SpvOpTypeFloat, {tgt(tf), 32}); put(SpvOpTypeInt, {tgt(ti), 32, 1}); put(SpvOpTypeInt, {tgt(tu), 32, 0}); put(SpvOpTypeVector, {tgt(tv), tf, 4}); for (u32 i = 0; i < ns; ++i) { std::vector<u32> a{late[i]}; for (u32 k = 0; k <= i; ++k) a.push_back(k % 2 ? ti : tv); put(SpvOpTypeStruct, a); }
  std::vector<u32> cv, sid; u32 spec = None; for (u32 i = 0, n = r.range(3, 6); i < n; ++i) { u32 c = nid(), v = lit(r), k = r.below(4); cv.push_back(v); consts.push_back((u32)o.ids.size()); if (k == 0) { put(SpvOpConstantNull, {tu, tgt(c)}); cv.back() = 0; } else put(k == 1 ? SpvOpSpecConstant : SpvOpConstant, {tu, tgt(c), v}); sid.push_back(c); } if (r.chance(1, 4)) { spec = nid(); consts.push_back((u32)o.ids.size()); put(SpvOpSpecConstantOp, {tu, tgt(spec), SpvOpIAdd, sid[0], sid[1]}); cv.push_back(0); sid.push_back(spec); }
  for (u32 i = 0, n = r.below(8); i < n; ++i) { u32 c = r.pick(std::vector<u32>{0, 1, 2, 3, 4, 6, 9, 12}), p = nid(), v = nid(); put(SpvOpTypePointer, {p, c, r.coin() && ns ? late[0] : tv}); o.ids.push_back(p); M.sc.push_back(None); put(SpvOpVariable, {p, tgt(v, c), c}); }
  u32 fn = nid(), fp = nid(); put(SpvOpTypeFunction, {tgt(fn), tvd}); put(SpvOpTypeFunction, {tgt(fp), tvd, tf, tv}); u32 pf = nid(); put(SpvOpTypePointer, {tgt(pf), 7, tf}); std::vector<u32> fns; bool ep = r.coin(); for (u32 i = 0, n = r.range(1, 3); i < n; ++i) { u32 f = nid(); fns.push_back(f); bool par = !(i == 0 && ep) && r.coin(); put(SpvOpFunction, {tvd, tgt(f), 0, par ? fp : fn}); if (par) { put(SpvOpFunctionParameter, {tf, tgt(nid())}); put(SpvOpFunctionParameter, {tv, tgt(nid())}); } u32 lab = nid(), lab2 = nid(); put(SpvOpLabel, {tgt(lab)}); u32 lv = nid(); put(SpvOpVariable, {pf, tgt(lv), 7}); put(SpvOpLoad, {tf, tgt(nid()), lv}); put(SpvOpBranch, {lab2}); put(SpvOpLabel, {tgt(lab2)}); put(SpvOpReturn, {}); put(SpvOpFunctionEnd, {}); } M.sc.resize(o.ids.size(), None); // function variables are not global
  for (u32 i = 0, n = r.below(4); i < n; ++i) { Md d; d.ep = r.pick(fns); d.id = false; d.mode = r.pick(std::vector<u32>{17, 17, 18, 38, 39, 7, 22, 26, 5893, 5893}); if (d.mode == 38 || d.mode == 39) { d.id = true; for (u32 k = 0; k < 3; ++k) { u32 c = r.below((u32)sid.size()); d.words.push_back(sid[c]); d.v[k] = cv[c]; } } else { u32 n2 = (d.mode < 19 && d.mode > 16) || d.mode == 5893 ? 3 : d.mode == 26 ? 1 : 0; for (u32 k = 0; k < n2; ++k) { u32 v = lit(r); d.words.push_back(v); d.v[k] = v; } } M.modes.push_back(d); }
  fill(M, (u32)o.ids.size(), ns, consts, r, false); o.w = {SpvMagicNumber, 0x10000 | (r.range(2, 6) << 8), 0, 200, 0}; cur = &o.w; put(SpvOpCapability, {1}); put(SpvOpMemoryModel, {0, 1}); if (ep) { static const std::vector<u32> models{0, 1, 2, 3, 4, 5, 5, 5, 6, 5267, 5268, 5313, 5314, 5315, 5316, 5317, 5318}; std::vector<u32> a{r.pick(models), fns[0]}; auto s = pack("main"); a.insert(a.end(), s.begin(), s.end()); put(SpvOpEntryPoint, a); } for (auto& d : M.modes) { std::vector<u32> a{d.ep, d.mode}; a.insert(a.end(), d.words.begin(), d.words.end()); put(d.id ? SpvOpExecutionModeId : SpvOpExecutionMode, a); }
  for (auto& n : M.names) { std::vector<u32> a{o.ids[n.t]}; if (n.member != None) a.push_back(n.member); auto s = pack(n.s); a.insert(a.end(), s.begin(), s.end()); put(n.member != None ? SpvOpMemberName : SpvOpName, a); } for (auto& d : M.decos) { std::vector<u32> a{o.ids[d.t]}; if (d.member != None) a.push_back(d.member); a.push_back(d.deco); if (d.idt != None) a.push_back(o.ids[d.idt]); a.insert(a.end(), d.lits.begin(), d.lits.end()); put(d.f == fDeco ? SpvOpDecorate : d.f == fMember ? SpvOpMemberDecorate : d.f == fId ? SpvOpDecorateId : d.f == fString ? SpvOpDecorateString : SpvOpMemberDecorateString, a); } o.w.insert(o.w.end(), body.begin(), body.end()); return o; }
bool locate(Module& m, const std::vector<u32>& ids, std::vector<Instruction*>& T) { std::map<u32, Instruction*> by; m.iterateInstructions([&](Instruction& i) { if (i.hasResult() && (u32)i.getResultId()) by[(u32)i.getResultId()] = &i; }); for (u32 i : ids) { if (!by.count(i)) { violation("target-lost", fmt("%u", i)); return false; } T.push_back(by[i]); } return true; }
void parsed(Rng& r) { Model M; Asm a = assemble(M, r); distinct(fnv(a.w)); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(a.w); if (!m.readAndInit(rd, *g)) { violation("parse", log.last); return; } std::vector<Instruction*> T; if (!locate(m, a.ids, T)) return; query(m, T, M, al, r, true, "parsed"); if (r.chance(1, 3)) { m.reconstructNames(); query(m, T, M, al, r, true, "reconstructed"); } if (r.chance(1, 3)) { Nm n{r.below((u32)T.size()), None, name(r, M.names)}; m.addName(T[n.t], n.s.c_str()); M.names.push_back(n); query(m, T, M, al, r, true, "extended"); } if (r.chance(1, 2)) { VecWriter w; m.finalizeAndWrite(w); query(m, T, M, al, r, true, "finalized"); std::vector<u32> ids; for (auto* t : T) ids.push_back((u32)t->getResultId()); Module m2(&al, &log); VecReader rd2(w.w); if (!m2.readAndInit(rd2, *g)) { violation("reparse", log.last); return; } std::vector<Instruction*> T2; if (locate(m2, ids, T2)) query(m2, T2, M, al, r, true, "reparsed"); } count("mode_parsed"); if (log.errors) violation("error:parsed", log.last); } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
void built(Rng& r) { Model M; TrackAlloc al; { Log log; Module m(&al, &log); m.setSpvVersion(makeVersion(1, (unsigned char)r.range(2, 6))); m.addCapability(spv::Capability::Shader); std::vector<Instruction*> T; std::vector<u32> consts; auto tgt = [&](Instruction* i, u32 sc = None) { T.push_back(i); M.sc.push_back(sc); return i; }; u32 direct = 0; // names given while the object is created
    auto nm = [&](std::string& keep) -> const char* { if (r.chance(1, 3)) { keep = name(r, M.names); M.names.push_back({(u32)T.size(), None, keep}); return keep.c_str(); } return nullptr; };
    u32 ns = r.below(4); for (u32 i = 0; i < ns; ++i) { Type t = m.newType(); std::vector<Type> sub; t.Struct(); for (u32 k = 0; k <= i; ++k) { Type& mt = t.Member(); if (k % 2) mt.Int(); else mt.Float(); } std::string s; const char* n = nm(s); tgt(m.addType(t, n)); } tgt(m.type<void>()); tgt(m.type<float>()); tgt(m.type<vector_t<float, 4>>());
    std::vector<u32> cv; std::set<Instruction*> cs; for (u32 i = 0, n = r.range(3, 6); i < n; ++i) { u32 v = 5 + i * 13 + r.below(10); Constant c = m.newConstant(); c.make(v, r.chance(1, 3)); std::string s; Instruction* k; const char* nn = r.chance(1, 4) ? nm(s) : nullptr; k = m.addConstant(c, nn); if (!cs.insert(k).second) { violation("constant-shared", ""); return; } consts.push_back((u32)T.size()); cv.push_back(v); tgt(k); }
    for (u32 i = 0, n = r.below(8); i < n; ++i) { u32 c = r.pick(std::vector<u32>{0, 1, 2, 3, 4, 6, 9, 12}); std::string s; const char* k = nm(s); tgt(m.variable<vector_t<float, 4>>((spv::StorageClass)c, k), c); }
    std::vector<EntryPoint*> eps; for (u32 i = 0, n = r.range(1, 3); i < n; ++i) { bool ep = r.chance(1, 2); Function* f; if (ep) { std::string en = "entry"; while (r.chance(1, 2)) en += (char)('a' + r.below(26)); auto model = r.coin() ? spv::ExecutionModel::GLCompute : spv::ExecutionModel::Fragment; EntryPoint* pe; M.names.push_back({(u32)T.size(), None, en}); if (r.coin()) pe = &m.addEntryPoint(model, en.c_str(), spv::FunctionControlMask::MaskNone, false); else { pe = &m.addEntryPoint(); pe->setReturnType(m.type<void>()); if (r.coin()) pe->finalize(model, spv::FunctionControlMask::MaskNone, en.c_str()); else { pe->finalize(model, spv::FunctionControlMask::MaskNone, std::string(en).c_str()); } } EntryPoint& e = *pe; eps.push_back(&e); f = &e; tgt(f->getFunction()); if (e.getExecutionModel() != model) violation("entry-point-model", fmt("%u instead of %u", (u32)e.getExecutionModel(), (u32)model)); if (const char* fnm = e.getName(); !fnm || fnm != en) violation("entry-point-name", show(fnm ? fnm : "(null)")); } else { std::string s; const char* k = nm(s); f = &m.addFunction<void, float, int>(k ? k : nullptr, spv::FunctionControlMask::MaskNone, false); tgt(f->getFunction()); tgt(f->getParameter(0)); tgt(f->getParameter(1)); if (const char* fnm = f->getName(); (fnm != nullptr) != (k != nullptr) || (k && strcmp(fnm, k))) violation("function-name", show(k ? k : "(none)")); } std::string s; const char* k = nm(s); BasicBlock& bb = f->addBasicBlock(k); tgt(bb.getLabel()); if (const char* bn = bb.getName(); (bn != nullptr) != (k != nullptr) || (k && strcmp(bn, k))) violation("block-name", show(k ? k : "(none)")); std::string s2; const char* k2 = nm(s2); Instruction* lv = f->variable<float>(k2); tgt(lv); tgt(bb->opLoad(lv)); bb.returnValue(); }
    for (auto* e : eps) for (u32 i = 0, n = r.below(3); i < n; ++i) { Md d; d.id = false; d.mode = r.pick(std::vector<u32>{17, 18, 38, 7, 26, 5893}); switch (d.mode) { case 17: case 18: case 5893: for (auto& v : d.v) v = lit(r); e->addExecutionMode((spv::ExecutionMode)d.mode, d.v[0], d.v[1], d.v[2]); break; case 38: { Instruction* c[3]; for (u32 k = 0; k < 3; ++k) { u32 x = r.below((u32)consts.size()); c[k] = T[consts[x]]; d.v[k] = cv[x]; } d.id = true; e->addExecutionMode(spv::ExecutionMode::LocalSizeId, c[0], c[1], c[2]); break; } case 26: e->addExecutionMode(spv::ExecutionMode::OutputVertices, lit(r)); break; default: e->addExecutionMode(spv::ExecutionMode::OriginUpperLeft); } M.modes.push_back(d); }
    (void)direct; Model add; fill(add, (u32)T.size(), ns, consts, r, true); bool recon = r.chance(1, 3); for (auto& n : add.names) { M.names.push_back(n); if (recon) { Instruction* i = m.addNameInstr(); if (n.member == None) i->opName(T[n.t], n.s.c_str()); else i->opMemberName(T[n.t], n.member, n.s.c_str()); } else if (n.member == None) m.addName(T[n.t], n.s.c_str()); else m.addMemberName(T[n.t], n.s.c_str(), n.member); } if (recon && !m.reconstructNames(r.coin() ? nullptr : &al)) violation("reconstruct", log.last);
    for (auto& d : add.decos) { M.decos.push_back(d); Instruction* i = m.addDecorationInstr(); auto D = (spv::Decoration)d.deco; if (d.f == fId) { i->opDecorateId(T[d.t], D, T[d.idt]); continue; } if (d.deco == 41) { auto lt = (spv::LinkageType)d.lits.back(); if (d.f == fDeco) i->opDecorate(T[d.t], D, d.str.c_str(), lt); else i->opMemberDecorate(T[d.t], d.member, D, d.str.c_str(), lt); } else if (d.lits.empty()) { if (d.f == fDeco) i->opDecorate(T[d.t], D); else i->opMemberDecorate(T[d.t], d.member, D); } else if (d.deco == 11 && r.coin()) { auto b = (spv::BuiltIn)d.lits[0]; if (d.f == fDeco) i->opDecorate(T[d.t], D, b); else i->opMemberDecorate(T[d.t], d.member, D, b); } else { u32 v = d.lits[0]; if (d.f == fDeco) i->opDecorate(T[d.t], D, v); else i->opMemberDecorate(T[d.t], d.member, D, v); } }
    if (log.errors) { violation("error:built", log.last); return; } query(m, T, M, al, r, false, "built"); VecWriter w; bool gr = r.coin(); if (!(gr ? m.finalizeAndWrite(w, g) : m.finalizeAndWrite(w))) { violation("write", log.last); return; } distinct(fnv(w.w)); query(m, T, M, al, r, true, "built-finalized"); std::vector<u32> ids; for (auto* t : T) ids.push_back((u32)t->getResultId()); { Module m2(&al, &log); VecReader rd2(w.w); if (!m2.readAndInit(rd2, *g)) { violation("reparse:built", log.last); return; } std::vector<Instruction*> T2; if (locate(m2, ids, T2)) query(m2, T2, M, al, r, true, "built-reparsed"); } count("mode_built");
    if (r.chance(1, 3)) { u32 before = log.errors; Instruction* bad = m.addDecorationInstr(); bad->opDecorate(T[0], spv::Decoration::Block); Instruction* nr = m.getDecorations().front().getOperation() == spv::Op::OpNop ? bad : &m.getDecorations().front(); if (r.coin()) { m.addName(nr, "rejected name"); } else m.addMemberName(nr, "rejected name", 0); if (log.errors == before) violation("name-accepted", "a decoration can not be named"); if (m.getInstructionByName("rejected name")) violation("rejected-name-found", ""); if (m.getName(nr) || m.getName(nr, 0)) violation("rejected-name-reported", "the module has no such OpName"); count("rejected_names"); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
// the tool's answers
int run(const std::string& cmd, std::string& out) { out.clear(); FILE* p = popen(("timeout 60 " + g_bin + "/" + cmd + " 2>&1").c_str(), "r"); if (!p) harness_error("popen"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k); int rc = pclose(p); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + rc; if ((rc >= 128 && rc != 255) || out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos) violation("tool-crash", fmt("exit %d ", rc) + cmd + "\n" + out.substr(0, 2000)); return rc; }
u32 lines(const std::string& s, const std::string& k) { u32 n = 0; for (size_t p = s.find(k); p != std::string::npos; p = s.find(k, p + 1)) ++n; return n; }
// the lists of the tool: every global variable, type and constant once, under its name and followed by its decorations; every entry point with its execution model
void lists(const Asm& a, const Model& M, const std::string& out, bool odd) {
  sv::Mod m; std::string err; if (!sv::decode(a.w, m, &err)) harness_error("assembled module"); std::map<u32, u32> tgt; for (u32 t = 0; t < a.ids.size(); ++t) tgt[a.ids[t]] = t;
  static const std::map<u32, const char*> models{{0, "Vertex"}, {1, "TessellationControl"}, {2, "TessellationEvaluation"}, {3, "Geometry"}, {4, "Fragment"}, {5, "GLCompute"}, {6, "Kernel"}, {5267, "TaskNV"}, {5268, "MeshNV"}, {5313, "RayGenerationKHR"}, {5314, "IntersectionKHR"}, {5315, "AnyHitKHR"}, {5316, "ClosestHitKHR"}, {5317, "MissKHR"}, {5318, "CallableKHR"}};
  for (auto& i : m.ins) if (i.op == SpvOpEntryPoint) { if (lines(out, std::string("[EP ") + models.at(i.w[1]) + "]\n") != 1) violation("tool-model", fmt("execution model %u: ", i.w[1]) + out.substr(0, 600)); count("tool_entry_points"); }
  size_t v = out.find("Global Variables:\n"), t = out.find("Types and Constants:\n"), d = out.rfind("\nDecorations:\n"); if (v == std::string::npos || t == std::string::npos || d == std::string::npos || v > t || t > d) { violation("tool-sections", out.substr(0, 500)); return; } if (odd) return;
  std::string sec[2] = {out.substr(v, t - v), out.substr(t, d - t)}; bool in = false; u32 n[2] = {0, 0};
  for (auto& i : m.ins) { in |= i.op == SpvOpFunction; if (i.op == SpvOpFunctionEnd) in = false; if (in || !i.result) continue; int k = i.op == SpvOpVariable ? 0 : sv::is_type(i.op) || sv::is_const(i.op) ? 1 : -1; if (k < 0) continue; ++n[k];
    const std::string key = fmt(":\t%%%u\t", i.result) + sv::opname(i.op); size_t at = sec[k].find(key + " "); if (at == std::string::npos) at = sec[k].find(key + "\n"); if (at == std::string::npos || lines(sec[k], fmt(":\t%%%u\t", i.result)) != 1) { violation("tool-list", sv::str(i) + " is not listed once\n" + sec[k].substr(0, 1500)); continue; }
    size_t b = sec[k].rfind('\n', at); std::string name = sec[k].substr(b + 1, at - b - 1); std::set<std::string> want; auto q = tgt.find(i.result); u32 decos = 0; if (q != tgt.end()) { for (auto& x : M.names) if (x.member == None && x.t == q->second) want.insert(x.s.empty() ? "[EMPTY]" : x.s); for (auto& x : M.decos) decos += x.t == q->second; } if (want.empty()) want.insert("[UNNAMED]"); if (!want.count(name)) violation("tool-list-name", sv::str(i) + " is listed as " + name + ", not as " + *want.begin());
    u32 got = 0; for (size_t e = sec[k].find('\n', at); e != std::string::npos && sec[k].compare(e + 1, 3, "\t\t\t") == 0; e = sec[k].find('\n', e + 1)) ++got; if (got != decos) violation("tool-list-decorations", sv::str(i) + fmt(": %u decorations listed, %u exist", got, decos)); count("tool_listed"); }
  for (int k = 0; k < 2; ++k) if (lines(sec[k], ":\t%") != n[k]) violation("tool-list-count", fmt("%u instead of %u lines\n", lines(sec[k], ":\t%"), n[k]) + sec[k].substr(0, 1000)); }
void tool(Rng& r) { if (g_bin.empty()) { count("tools_missing"); return; } Model M; Asm a = assemble(M, r); distinct(fnv(a.w)); std::string f = g_dir + "/m.spv", out; FILE* o = fopen(f.c_str(), "wb"); if (!o || fwrite(a.w.data(), 4, a.w.size(), o) != a.w.size()) harness_error("write"); fclose(o); bool oddnames = false; for (auto& n : M.names) for (unsigned char c : n.s) oddnames |= c < 33 || c > 126; bool latin = false; for (auto& d : M.decos) for (unsigned char c : d.str) latin |= c < 32 || c > 126;
  static const std::map<u32, const char*> dn{{0, "RelaxedPrecision"}, {1, "SpecId"}, {2, "Block"}, {4, "RowMajor"}, {6, "ArrayStride"}, {7, "MatrixStride"}, {11, "BuiltIn"}, {14, "Flat"}, {19, "Restrict"}, {24, "NonWritable"}, {26, "Uniform"}, {29, "Stream"}, {30, "Location"}, {31, "Component"}, {32, "Index"}, {33, "Binding"}, {34, "DescriptorSet"}, {35, "Offset"}, {36, "XfbBuffer"}, {38, "FuncParamAttr"}, {40, "FPFastMathMode"}, {41, "LinkageAttributes"}, {43, "InputAttachmentIndex"}, {44, "Alignment"}};
  switch (r.below(5)) {
    case 0: { auto it = dn.begin(); std::advance(it, r.below((u32)dn.size())); if (!M.decos.empty() && dn.count(M.decos[0].deco)) it = dn.find(M.decos[0].deco); u32 want = 0; for (auto& d : M.decos) want += d.deco == it->first && (d.f == fDeco || d.f == fMember); if (run("tool_refl_bin " + f + " -deco " + it->second, out)) violation("tool-failed:deco", out.substr(0, 500)); u32 got = lines(out, "Decorate"); if (got != want && !latin) violation("tool-deco", fmt("%s: %u lines instead of %u", it->second, got, want)); count("tool_deco"); break; }
    case 1: { if (run("tool_refl_bin " + f + " -localsize", out)) violation("tool-failed:localsize", ""); bool any = false, ok = false; for (auto& d : M.modes) if (d.mode == 17 || d.mode == 18 || d.mode == 38 || d.mode == 39) { any = true; ok |= out.find(fmt("LocalSize: x %u y %u z %u\n", d.v[0], d.v[1], d.v[2])) != std::string::npos; } if (any ? !ok : out.find("LocalSize: x") != std::string::npos) violation("tool-localsize", out.substr(0, 500)); count("tool_localsize"); break; }
    case 2: { if (run("tool_refl_bin " + f + " -funcs -vars -types -deco", out)) violation("tool-failed:lists", out.substr(0, 500)); count("tool_lists"); lists(a, M, out, latin || oddnames); break; }
    case 3: { u32 t = r.below((u32)a.ids.size()), want = 0; for (auto& d : M.decos) want += d.t == t; int rc = run(fmt("tool_refl_bin %s -id %u", f.c_str(), a.ids[t]), out); if (rc) violation("tool-failed:id", out.substr(0, 500)); if (!latin && !oddnames && lines(out, "Decorate") != want) violation("tool-id", fmt("%u decorations instead of %u", lines(out, "Decorate"), want)); count("tool_id"); break; }
    default: { std::string n = "nosuchname"; std::set<u32> ts; if (!M.names.empty()) n = r.pick(M.names).s; bool odd = n.empty(); for (unsigned char c : n) odd |= !isalnum(c); if (odd) n = "abc"; for (auto& x : M.names) if (x.member == None && x.s == n) ts.insert(x.t); int rc = run("tool_refl_bin " + f + " -var " + n, out); if ((rc == 0) != !ts.empty()) violation("tool-var-found", fmt("exit %d, %zu instructions have the name ", rc, ts.size()) + n); count("tool_var"); } } }
// literal strings in front of other operands
void packing(Rng& r) { TrackAlloc al; { Log log; Module m(&al, &log); std::vector<Nm> seen; for (int k = 0; k < 10; ++k) { std::string s = name(r, seen); seen.push_back({0, 0, s}); u32 pre = r.below(3), post = r.below(3); Instruction* i = m.addSourceStringInstr(); for (u32 j = 0; j < pre; ++j) i->appendLiterals(r.u()); i->appendLiterals(s.c_str()); for (u32 j = 0; j < post; ++j) i->appendLiterals(r.coin() ? 0u : r.u()); strings(*i, i->begin() + pre, s, al, r, "appended"); if (i->size() != pre + s.size() / 4 + 1 + post) violation("appended-size", fmt("%zu", (size_t)i->size())); distinct(fnv(s)); } count("mode_packing"); } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
}
void hx::run_case(u64 index, Rng& r) { if (index % 20 == 19) tool(r); else if (index % 20 == 9) packing(r); else if (index % 2) built(r); else parsed(r); }
