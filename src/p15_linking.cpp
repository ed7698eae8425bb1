// P15: the linker makes imports carry the library's definitions.
#include "linkmodel.h"
#include <memory>
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "common/HeapAllocator.h"
#include "common/LinkerHelper.h"
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P15", "a case is one consumer and one library written as SPIR-V assembly (0..4 exported functions and variables, private and exported callees, globals of seven storage classes, nested structs with layout, spec constants, phi and loop and switch control flow, debug information, names, decorations); the consumer is linked with result ids assigned on the fly and again with ids assigned at the end, both results are validated and compared with the library's definitions and with the consumer by a walk over the decoded binaries; a third of the cases has symbols the library lacks or that do not match", 4000, 60000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
using namespace LinkerHelper; using B = LinkerOptionBits;
struct Run { std::vector<std::vector<u32>> out; bool ok = false; };
static std::string linked(const std::vector<std::vector<u32>>& libs, const std::vector<u32>& cw, u32 flags, bool assign, bool grammar, u32 vary, Run& res) { TrackAlloc ca, ta; std::string e = [&]() -> std::string {
  Log cl; Module con(&ca, &cl); VecReader cr(cw); if (!con.readAndInit(cr, *g)) return "read: " + cl.last; TrackAlloc la; Log ll; std::vector<std::unique_ptr<Module>> mods; for (auto& lw : libs) { mods.push_back(std::make_unique<Module>(&la, &ll)); VecReader lr(lw); if (!mods.back()->readAndInit(lr, *g)) return "read: " + ll.last; }
  LinkerOptions o; if (!assign) flags &= ~(u32)B::AssignResultIDs; o.flags = Flag<B>(flags); if (grammar) o.grammar = g; if (vary % 2) o.allocator = &ta; res.ok = true;
  for (auto& lib : mods) { VecWriter before, after; if (!lib->write(before)) return "write library"; u32 errors = cl.errors; bool ok = import(*lib, con, o); if (ok && cl.errors != errors) return "error-logged: " + cl.last; if (!ok && cl.errors == errors) return "no-error-logged"; res.ok &= ok; if (ll.errors) return "library-error: " + ll.last; if (!lib->write(after) || before.w != after.w) return "library-modified"; if (std::string t = ta.imbalance(); !t.empty()) return "allocation: " + t; if (!ok) return ""; if (vary % 5 == 0) lib.reset(); if (assign) { VecWriter w; if (!con.write(w)) return "write: " + cl.last; res.out.push_back(w.w); } }
  if (vary % 3 == 0) mods.clear(); if (!assign) { VecWriter w; if (!con.finalizeAndWrite(w, nullptr)) return "write: " + cl.last; res.out.push_back(w.w); } return ""; }(); if (!e.empty()) return e; e = ca.imbalance(); return e.empty() ? e : "allocation: " + e; }
void hx::run_case(u64 index, Rng& r) {
  lm::Opt o; o.mismatch = index % 8 == 5; o.missing = index % 8 == 4; o.chain = index % 4 == 2; lm::Case c; std::string err; if (!lm::make(r, o, c, &err)) { count("generator_rejected"); if (verbose()) fprintf(stderr, "REJECTED %s\n%s\n----\n%s\n", err.c_str(), c.lib_text.c_str(), c.consumer_text.c_str()); return; }
  if (verbose()) { for (auto& l : c.libs) fprintf(stderr, "LIB\n%s\n", sv::disasm(l).c_str()); fprintf(stderr, "CONSUMER\n%s\n", sv::disasm(c.consumer).c_str()); }
  distinct(fnv(c.libs[0], fnv(c.consumer))); u32 all = (u32)B::All; bool copy_caps = r.coin(); if (c.entry_points == 0) all &= ~(u32)B::RemoveLinkageCapability; if (copy_caps) all &= ~(u32)B::AutoAddRequiredCapabilitiesAndExtensions; bool grammar = r.coin(); bool broken = false; for (auto& s : c.syms) broken |= s.broken;
  Run a, b; u32 vary = r.u(); std::string ea = linked(c.libs, c.consumer, all, true, grammar, vary, a);
  if (!ea.empty()) { violation("link:" + ea.substr(0, ea.find(':')), ea); return; } if (broken) { count("mismatching"); if (a.ok) violation("mismatch-accepted", "a symbol of another type was linked"); return; } if (!a.ok) { violation("refused", "matching symbols are not linked"); return; }
  std::string ve; std::vector<u32> before = c.consumer; for (size_t k = 0; k < a.out.size(); ++k) { auto& out = a.out[k]; if (verbose()) fprintf(stderr, "LINKED\n%s\n", sv::disasm(out).c_str()); if (!sv::validate(out, &ve)) { violation("invalid:" + ve.substr(0, 50), ve); return; }
    lm::View L(c.libs[k]), C(before), O(out); lm::Expect e; e.all_caps = copy_caps || !grammar; e.remove_linkage = c.entry_points != 0; std::map<std::string, u64> seen; std::string d = lm::check(L, C, O, e, nullptr, &seen); if (!d.empty()) { violation("wrong:" + d.substr(0, d.find(':')), d); return; } for (auto& [k2, n] : seen) count(k2, n); count("linked"); before = out; }
  if (o.missing) count("with_missing_symbols"); if (o.chain) count("with_two_libraries");
  std::string eb = linked(c.libs, c.consumer, all, false, grammar, vary, b); if (!eb.empty() || !b.ok) { violation("link-later-ids", eb); return; } sv::Mod ma, mb; sv::decode(a.out.back(), ma); sv::decode(b.out.back(), mb); sv::CmpOpt co; std::string cm = sv::compare(ma, mb, co); if (!cm.empty()) violation("later-ids-differ", cm); if (!sv::validate(b.out.back(), &ve)) violation("invalid-later-ids", ve);
}
