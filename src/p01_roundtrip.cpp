// P01: read / write round trip over grammar-generated binaries; the oracle is SPIRV-Tools' own binary parser.
#include "hx.h"
#include "spv.h"
#include "gen.h"
#include "corpus.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "common/HeapAllocator.h"
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P01", "a case is one random well-formed module (sections, types, constants, decorations, functions with arbitrary opcodes, masks, literals and strings): read+init, write, finalize+write and re-read are compared with the input by an independent parser; distinct = distinct inputs", 30000, 600000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); corpus::all(); }
void hx::finish() {}
static std::vector<u32> strip_interface(const std::vector<u32>& w) { // OpEntryPoint interfaces are recomputed by finalize (see P14)
  std::vector<u32> o(w.begin(), w.begin() + 5); for (size_t p = 5; p < w.size();) { u32 n = w[p] >> 16; if ((w[p] & 0xffff) == SpvOpEntryPoint) { size_t e = p + 3; while (e < p + n) { u32 x = w[e++]; if (!(x & 0xff) || !(x & 0xff00) || !(x & 0xff0000) || !(x & 0xff000000)) break; } o.push_back((u32)(e - p) << 16 | SpvOpEntryPoint); o.insert(o.end(), w.begin() + p + 1, w.begin() + e); } else o.insert(o.end(), w.begin() + p, w.begin() + p + n); p += n; }
  return o; }
static std::string key_of(const std::string& why) { // the kind of difference: first word plus the opcode involved
  std::string k; size_t p = why.find("Op"); std::string first = why.substr(0, why.find_first_of(" [:")); if (p != std::string::npos) { size_t e = p; while (e < why.size() && isalnum(why[e])) ++e; k = why.substr(p, e - p); } return first + ":" + k; }
// section order of the SPIR-V module layout (types, constants, globals, undefs and lines are one section)
static std::string layout(const sv::Mod& m) { int last = 0; bool fn = false; const sv::Ins* prev = nullptr; for (auto& i : m.ins) { if (i.op == SpvOpFunction) fn = true; int s = std::min<int>(sv::section(i, fn), fn ? sv::SFunc : sv::SType); if (s < last) return "'" + sv::str(i) + "' follows '" + sv::str(*prev) + "'"; last = s; prev = &i; } return ""; }
static void roundtrip(const std::vector<u32>& in, const std::string& what, bool valid) {
  sv::Mod a; std::string err; if (!sv::decode(in, a, &err)) { count("generator_rejected"); if (verbose()) fprintf(stderr, "rejected %s\n", err.c_str()); count("reject:" + err.substr(0, 60)); return; }
  count("modules"); distinct(fnv(in)); count("instructions", a.ins.size());
  TrackAlloc al; Log log;
  std::vector<u32> out1, out2;
  { Module m(&al, &log); VecReader r(in); bool ok = m.readAndInit(r, *g);
    if (!ok) { std::string l = log.last; for (char& c : l) if (isdigit(c)) c = '#'; std::string k = l.substr(0, 60); for (char& c : k) if (c == ' ') c = '_'; violation("rejected:" + k + (what == "generated" ? "" : ":" + what), "readAndInit failed on a well-formed module: " + log.last + "\n" + what + "\n" + sv::disasm(in)); return; }
    if (r.pos != in.size()) violation("unread", fmt("%zu of %zu words consumed", r.pos, in.size()));
    VecWriter w; if (!m.write(w)) { violation("write-failed", log.last + "\n" + sv::disasm(in)); return; }
    sv::Mod b; if (!sv::decode(w.w, b, &err)) { violation("output-undecodable", err + "\n" + sv::disasm(in)); return; }
    sv::CmpOpt o; o.same_ids = true; o.bound = true; std::string d = sv::compare(a, b, o);
    if (!d.empty()) { violation("write:" + key_of(d), d + "\n--- input\n" + sv::disasm(in) + "\n--- output\n" + sv::disasm(w.w)); return; }
    out1 = w.w; if (std::string l = layout(b); !l.empty()) violation("layout", l);
    if (valid) { std::string e1, e2; if (sv::validate(in, &e1)) { count("valid_inputs"); if (!sv::validate(w.w, &e2)) violation("validity-lost:" + e2.substr(0, 50), e2 + "\n--- input\n" + sv::disasm(in) + "\n--- output\n" + sv::disasm(w.w)); } }
    m.finalize(); VecWriter w2; if (!m.write(w2)) { violation("finalize-write-failed", log.last); return; }
    sv::Mod c; if (!sv::decode(w2.w, c, &err)) { violation("finalized-undecodable", err + "\n" + sv::disasm(in)); return; }
    sv::CmpOpt o2; sv::Mod as, cs; sv::decode(strip_interface(in), as); sv::decode(strip_interface(w2.w), cs); std::map<u32, u32> ren; d = sv::compare(as, cs, o2, &ren);
    if (!d.empty()) { violation("finalize:" + key_of(d), d + "\n--- input\n" + sv::disasm(in) + "\n--- output\n" + sv::disasm(w2.w)); return; }
    u32 mx = 0; for (auto& i : c.ins) mx = std::max(mx, i.result); if (c.bound != mx + 1) violation("bound", fmt("bound %u, largest id %u", c.bound, mx));
    if (valid && sv::validate(in)) { std::string e2; if (!sv::validate(w2.w, &e2)) violation("finalize-validity-lost:" + e2.substr(0, 50), e2 + "\n--- input\n" + sv::disasm(in) + "\n--- output\n" + sv::disasm(w2.w)); }
    count("ids_renamed", ren.size());
  }
  { Module m(&al, &log); VecReader r(out1); if (!m.readAndInit(r, *g)) { violation("reread-failed", log.last + "\n" + sv::disasm(in)); return; } VecWriter w; if (!m.write(w) || w.w != out1) { violation("second-pass", "writing the re-read output does not reproduce it\n" + sv::disasm(out1) + "\n---\n" + sv::disasm(w.w)); } }
}
static std::vector<const spec::Inst*> bodyops() { std::vector<const spec::Inst*> v; for (auto& i : spec::core) if (gen::known_op(i) && spec::op(i.opcode) == &i) v.push_back(&i); return v; }
void hx::run_case(u64 idx, Rng& rng) {
  auto& cp = corpus::all(); if (idx < cp.size()) { roundtrip(cp[idx].words, "corpus_" + cp[idx].name, true); if (idx == 0) sample(sv::disasm(cp[0].words).substr(0, 300)); return; }
  gen::Opt o; o.size = rng.pick(std::vector<u32>{2, 4, 8, 14}); o.contiguous_ids = rng.chance(1, 4); o.any_op = !rng.chance(1, 5);
  gen::Info inf; auto w = gen::module(rng, o, &inf); if (rng.chance(1, 8)) w[4] = u32(rng.next());
  for (auto& e : inf.ops) distinct(fnv(fmt("op%u", e.first)));
  if (idx % 1000 == 100) sample(sv::disasm(w).substr(0, 400));
  roundtrip(w, "generated", false);
}
