// P06: programs written with the builder compute what they denote. The same random program is evaluated directly and,
// after lowering through the API, by executing the emitted binary in an independent interpreter.
#include "hx.h"
#include "spv.h"
#include "build.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "common/HeapAllocator.h"
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P06", "a case is one random typed program (functions, locals, globals, If, Loop, Phi, calls, several hundred operators and GLSL.std.450 helpers in all builder spellings) lowered through the API and executed on three random inputs by an independent interpreter; every global variable is compared with a direct evaluation; distinct = distinct emitted binaries", 6000, 150000}; }
static Grammar* g; static HeapAllocator g_heap; static std::set<u32> g_ops, g_glsl;
static std::string digits(std::string s) { std::string o; for (char c : s) if (!isdigit((unsigned char)c) && c != 10) o += c; return o; }
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() { for (u32 o : g_ops) distinct(fnv(fmt("op%u", o))); for (u32 o : g_glsl) distinct(fnv(fmt("glsl%u", o))); }
void hx::run_case(u64 idx, Rng& r) {
  build::Opt o; o.size = r.pick(std::vector<u32>{1, 3, 6}); o.depth = r.range(1, 4); o.entries = r.chance(1, 5) ? 2 : 1; o.kernel_ops = r.chance(1, 3);
  build::Prog p = build::random(r, o); TrackAlloc al; Log log; std::vector<u32> words; std::vector<u32> ids, fids; std::vector<int> entries;
  { Module m(&al, &log); build::Built b = build::lower(p, m, r);
    for (auto& f : b.forms) count("form_" + f.first, f.second);
    if (!b.rejected.empty() || log.errors) { std::string k = b.rejected.substr(0, b.rejected[0] == 'g' ? 8 : b.rejected.find(' ')) + (b.rejected.find("has result") != std::string::npos ? ":type" : "") + ":" + log.last.substr(0, 70); for (char& c : k) if (c == ' ') c = '_'; violation("rejected:" + k, "the builder rejected a well-typed program: " + b.rejected + " / " + log.last); return; }
    VecWriter w; if (!m.finalizeAndWrite(w, g)) { violation("write-failed", log.last); return; } words = w.w;
    for (auto* v : b.globals) ids.push_back((u32)v->getResultId()); for (size_t i = 0; i < p.fns.size(); ++i) { if (p.fns[i].entry) entries.push_back((int)i); fids.push_back((u32)b.fns[i]->getFunction()->getResultId()); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e);
  distinct(fnv(words)); count("programs"); sv::Mod mod; std::string err; if (!sv::decode(words, mod, &err)) { violation("undecodable", err + "\n" + p.text()); return; }
  count("instructions", mod.ins.size());
  if (idx % 10 == 0 && !o.kernel_ops) { if (!sv::validate(words, &err)) { violation("invalid:" + digits(err).substr(0, 60), err + "\n" + sv::disasm(words)); return; } count("validated"); }
  for (int e : entries) for (int k = 0; k < 3; ++k) {
    std::vector<sem::Val> in; std::map<u32, sem::Val> iin; for (size_t i = 0; i < p.globals.size(); ++i) { in.push_back(build::random_value(r, p.globals[i].ty)); if (p.globals[i].where == 'i') iin[ids[i]] = in.back(); }
    build::Eval ev = build::eval(p, e, in); if (!ev.error.empty()) { count("eval_" + ev.error); continue; }
    interp::Stats st; interp::Result res = interp::run(mod, fids[(size_t)e], iin, &st); count("runs"); count("steps", st.steps); count("branches", st.branches); count("calls", st.calls); count("phis", st.phis); g_ops.insert(st.ops.begin(), st.ops.end()); g_glsl.insert(st.glsl.begin(), st.glsl.end());
    if (!res.error.empty()) { violation("execution:" + digits(res.error).substr(0, 60), res.error + "\n" + sv::disasm(words)); return; }
    if (res.killed != ev.killed) { violation("kill", "kill state differs\n" + sv::disasm(words)); return; } if (ev.killed) count("kills");
    for (size_t i = 0; i < p.globals.size(); ++i) { auto it = res.globals.find(ids[i]); if (it == res.globals.end()) { violation("variable-lost", fmt("variable %u is not in the module", ids[i])); return; } if (!sem::same(p.globals[i].ty, ev.globals[i], it->second)) { violation("value", fmt("global %%%u of type %s: expected ", ids[i], p.globals[i].ty.str().c_str()) + sem::str(p.globals[i].ty, ev.globals[i]) + ", got " + sem::str(p.globals[i].ty, it->second) + "\n" + sv::disasm(words)); return; } count("values"); } }
  if (idx % 500 == 7) sample(p.text().substr(0, 300));
}
