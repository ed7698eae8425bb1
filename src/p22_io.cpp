// P22: readers, writers, Module::read/write and the tools transport modules without loss and report failure.
// needs: tools
#include "spv.h"
#include "spec.h"
#include "gen.h"
#include "corpus.h"
#include "build.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/Vector.h"
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include "common/BinaryVectorWriter.h"
#include "common/HeapAllocator.h"
#include "common/LinkerHelper.h"
#include "hx.h"
#include <spirv/unified1/spirv.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P22", "a case is (a) a file of random size and content read back with a random offset and length, also missing, unreadable, odd-sized and with an allocator that runs out, (b) a sequence of open/put/close on a file writer, also onto full devices and missing directories, (c) a module written to memory, vectors and files, with the writer refusing every word position and the reader ending at every word position, or (d) a run of one of the three command line tools on a good, missing, truncated, corrupted or foreign file or with an output that cannot be written", 6000, 90000}; }
static Grammar* g; static HeapAllocator g_heap; static std::string g_dir, g_bin;
void hx::init() { g = new Grammar(&g_heap); g_dir = fmt("/tmp/p22_%d", (int)getpid()); mkdir(g_dir.c_str(), 0700); mkdir((g_dir + "/sub").c_str(), 0700); const char* b = getenv("VERIF_BUILD_DIR"); if (b) g_bin = b; }
void hx::finish() { for (const char* f : {"a.spv", "b.spv", "c.spv", "o.spv", "sub/serialized.spv"}) unlink((g_dir + "/" + f).c_str()); rmdir((g_dir + "/sub").c_str()); rmdir(g_dir.c_str()); }
namespace {
using Words = std::vector<u32>;
std::string path(const char* n) { return g_dir + "/" + n; }
void put_file(const std::string& f, const void* p, size_t n) { FILE* o = fopen(f.c_str(), "wb"); if (!o) harness_error("cannot write " + f); if (n && fwrite(p, 1, n, o) != n) harness_error("cannot write " + f); fclose(o); }
bool get_file(const std::string& f, std::string& s) { s.clear(); FILE* o = fopen(f.c_str(), "rb"); if (!o) return false; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, o)) > 0) s.append(b, k); fclose(o); return true; }
std::string bytes(const Words& w) { return std::string((const char*)w.data(), w.size() * 4); }
std::string slurp(IReader& rd, size_t cap) { std::string s; u32 w; while (s.size() <= cap && rd.get(w)) s.append((const char*)&w, 4); return s; }
void reader(Rng& r) {
  std::string data; u32 n = r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.below(12) : r.chance(1, 20) ? 20000 + r.below(50000) : r.below(3000); if (r.chance(1, 8)) n = n * 4 + 1 + r.below(3); else n *= 4; data.resize(n); for (auto& c : data) c = (char)r.u();
  std::string f = path("a.spv"); put_file(f, data.data(), data.size()); distinct(fnv(data.data(), data.size()));
  TrackAlloc al; { BinaryFileReader rd(al); u32 w = 7; if ((bool)rd || rd.get(w)) violation("reader-unopened", "a reader without a file yields words");
    for (u32 round = 0, rounds = r.range(1, 3); round < rounds; ++round) { size_t off = r.chance(1, 3) ? 0 : r.chance(1, 6) ? n + r.below(9) : r.chance(1, 5) ? r.below(n + 1) : 4 * r.below(n / 4 + 1), rest = off <= n ? n - off : 0; size_t len = r.chance(1, 2) ? 0 : r.chance(1, 6) ? rest + 1 + r.below(9) : r.chance(1, 4) ? r.below((u32)rest + 1) : 4 * r.below((u32)rest / 4 + 1);
      bool ok = off <= n && len <= rest && (len ? len : rest) % 4 == 0; std::string want = ok ? data.substr(off, len ? len : rest) : ""; int mode = r.chance(1, 10) ? 1 : r.chance(1, 16) ? 2 : r.chance(1, 16) ? 3 : 0; std::string file = mode == 1 ? path("missing.spv") : mode == 2 ? g_dir : f; if (mode) { if (mode == 3) { if (want.empty()) continue; al.fail_at = al.allocs + 1; al.fail_all = true; } ok = false; want.clear(); }
      bool got = false; std::string s; const char* how; if (mode == 3 || r.coin()) { how = mode ? mode == 1 ? "missing" : mode == 2 ? "directory" : "out-of-memory" : "read"; if (mode == 3) { BinaryFileReader fresh(al); got = fresh.read(file.c_str(), off, len); s = slurp(fresh, n + 8); if ((bool)fresh) violation("reader-true-after-failure:out-of-memory", ""); } else { got = rd.read(file.c_str(), off, len); s = slurp(rd, n + 8); if (!want.empty() != (bool)rd) violation(std::string("reader-bool:") + how, fmt("read() %d, operator bool %d for %zu bytes", got, (bool)rd, want.size())); } } else { how = mode ? mode == 1 ? "missing" : "directory" : "constructor"; BinaryFileReader c(al, file.c_str(), off, len); got = (bool)c; if (ok && want.empty()) got = true; s = slurp(c, n + 8); }
      al.fail_at = 0; al.fail_all = false; count(std::string("reader_") + how); if (ok && !want.empty()) count("words_read", want.size() / 4); if (!(ok && want.empty()) && got != ok) violation(std::string(ok ? "reader-failed:" : "reader-accepts:") + how, fmt("file of %u bytes, offset %zu, length %zu: %s", n, off, len, got ? "success" : "failure")); if (s != want) violation(std::string("reader-words:") + how, fmt("file of %u bytes, offset %zu, length %zu, round %u: %zu bytes instead of %zu%s", n, off, len, round, s.size(), want.size(), s.size() == want.size() ? ", other content" : "")); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation-reader", e);
}
void short_read() { // a file that announces more bytes than it delivers
  const char* f = "/sys/devices/system/cpu/online"; FILE* o = fopen(f, "rb"); if (!o) return; fseek(o, 0, SEEK_END); long n = ftell(o); fclose(o); std::string s; if (!get_file(f, s) || n <= (long)s.size() || n % 4) return; TrackAlloc al; BinaryFileReader rd(al, f); u32 w; if ((bool)rd || rd.get(w) || rd.read(f)) violation("reader-accepts:short-read", fmt("%zu of %ld bytes could be read", s.size(), n)); count("reader_short"); }
void writer(Rng& r) {
  TrackAlloc al; std::string f = path("a.spv"), h; unlink(f.c_str()); { BinaryFileWriter w(al, nullptr, r.chance(1, 3) ? 1 + r.below(8) : 2048); Words cur; bool open = false; bool lost = false; std::string target;
    for (u32 k = 0, n = r.range(2, 12); k < n; ++k) switch (r.below(4)) {
      case 0: { std::string t = r.chance(1, 6) ? path("nodir/x.spv") : r.chance(1, 8) ? g_dir : r.chance(1, 8) ? std::string("/dev/full") : r.coin() ? f : path("b.spv"); bool can = !open && t != g_dir && t.find("nodir") == std::string::npos; if (!open && !cur.empty()) { if (w.close()) {} cur.clear(); } bool got = w.open(t.c_str()); h += "open "; if (got != can) violation(can ? "open-failed" : "open-accepts", t); if (w.isOpen() != (open || can) || (bool)w != w.isOpen()) violation("isopen", ""); if (can) { open = true; target = t; lost = false; } break; }
      case 1: case 2: { if (!open) break; u32 c = r.chance(1, 4) ? 3000 + r.below(9000) : r.below(60); for (u32 i = 0; i < c; ++i) { u32 v = r.u(); bool fail = r.chance(1, 400); if (fail) { al.fail_at = al.allocs + 1; al.fail_all = true; } bool ok = w.put(v); al.fail_at = 0; al.fail_all = false; if (ok) cur.push_back(v); else { if (!fail) violation("put-failed", "without a reason"); lost = true; count("puts_refused"); } } h += fmt("put%u ", c); count("words_written", c); break; }
      default: { if (!open) break; bool ok = w.close(); h += "close "; open = false; if (w.isOpen()) violation("isopen", "after close"); std::string s; if (target == "/dev/full") { if (ok && !cur.empty()) violation("close-hides-error", fmt("%zu words written to a full device, close reports success", cur.size())); count("full_device"); } else { if (!ok) violation("close-failed", target); get_file(target, s); if (s != bytes(cur)) violation("file-words", fmt("%s: the file has %zu bytes instead of %zu%s", h.c_str(), s.size(), cur.size() * 4, lost ? " (some words were refused)" : "")); count("files_compared"); } cur.clear(); break; } }
    if (open && target != "/dev/full" && r.coin()) { Words keep = cur; std::string t = target; w.~BinaryFileWriter(); std::string s; get_file(t, s); if (s != bytes(keep)) violation("destructor-words", fmt("the file has %zu bytes instead of %zu", s.size(), keep.size() * 4)); count("destructor_flush"); new (&w) BinaryFileWriter(al); } }
  distinct(fnv(h.data(), h.size())); if (std::string e = al.imbalance(); !e.empty()) violation("allocation-writer", e);
}
Words any_module(Rng& r) { auto& cp = corpus::all(); u32 k = r.below(3); if (k == 0) { auto& c = r.pick(cp); return c.words; } gen::Opt o; o.size = 1 + r.below(k == 1 ? 4 : 12); return gen::module(r, o); }
struct Short : IReader { const Words& w; size_t pos = 0, end; bool broke = false; Short(const Words& v, size_t e) : w(v), end(e) {} bool get(unsigned int& o) override { if (pos >= end) { broke = true; return false; } o = w[pos++]; return true; } };
void module(Rng& r) {
  Words in = any_module(r); distinct(fnv(in)); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(in); if (!m.readAndInit(rd, *g)) { count("not_read"); return; } bool fin = r.coin(); VecWriter w0; bool ok0 = fin ? m.finalizeAndWrite(w0) : m.write(w0); if (!ok0) { count("not_written"); return; } const Words& w = w0.w;
    std::vector<u32> sv; { BinaryVectorWriter<std::vector<u32>> bw(sv); if (!m.write(bw) || sv != w) violation("std-vector", fmt("%zu words instead of %zu", sv.size(), w.size())); } { Vector<unsigned int> v(&al); BinaryVectorWriter<Vector<unsigned int>> bw(v); if (!m.write(bw) || Words(v.begin(), v.end()) != w) violation("sgt-vector", ""); }
    std::string f = path("c.spv"), s; { BinaryFileWriter bw(al, f.c_str(), r.chance(1, 2) ? 2048 : 1); if (!m.write(bw)) violation("file-write", ""); if (!bw.close()) violation("file-close", ""); } get_file(f, s); if (s != bytes(w)) violation("file-bytes", fmt("%zu bytes instead of %zu", s.size(), w.size() * 4)); { BinaryFileReader br(al, f.c_str()); Module m2(&al, &log); VecWriter w2; if (!m2.readAndInit(br, *g)) violation("file-read", log.last); else if (!m2.write(w2) || w2.w.size() != w.size()) violation("file-roundtrip", fmt("%zu words instead of %zu", w2.w.size(), w.size())); } count("transports");
    size_t n = w.size(), tries = n <= 400 ? n : 120; for (size_t k = 0; k < tries; ++k) { size_t at = n <= 400 ? k : k == 0 ? n - 1 : r.below((u32)n); VecWriter bad; bad.fail_at = at; bool ok = fin && r.chance(1, 4) ? m.finalizeAndWrite(bad) : m.write(bad); count("refused_words"); if (ok) { violation("write-hides-error", fmt("writer refused word %zu of %zu, write succeeded", at, n)); break; } if (bad.w != Words(w.begin(), w.begin() + at)) { violation("write-after-error", fmt("refused word %zu", at)); break; } } { VecWriter again; m.write(again); if (again.w != w) violation("write-not-repeatable", ""); }
    { Vector<unsigned int> v(&al); BinaryVectorWriter<Vector<unsigned int>> bw(v); al.fail_at = al.allocs + 1 + r.below(8); bool ok = m.write(bw); al.fail_at = 0; if (ok != (v.size() == n)) violation("vector-hides-error", fmt("write %d with %zu of %zu words stored", ok, (size_t)v.size(), n)); if (!ok) count("vector_refused"); }
    std::vector<char> bound(in.size() + 1, 0), infn(in.size() + 1, 0); size_t p = 5; bool fn = false; while (p < in.size()) { bound[p] = 1; infn[p] = fn; u32 op = in[p] & 0xffff; if (op == SpvOpFunction) fn = true; if (op == SpvOpFunctionEnd) fn = false; p += std::max(1u, in[p] >> 16); } n = in.size(); tries = n <= 200 ? n : 60; for (size_t k = 0; k < tries; ++k) { size_t at = n <= 200 ? k : r.below((u32)n); if (at >= 5 && bound[at] && !infn[at]) continue; Short sr(in, at); Log l2; Module m3(&al, &l2); bool ok = r.coin() ? m3.read(sr, *g) : m3.readAndInit(sr, *g); count("truncations"); if (ok) { violation(at < 5 ? "read-accepts:header" : bound[at] ? "read-accepts:function-unfinished" : "read-accepts:instruction-unfinished", fmt("%zu of %zu words", at, n)); break; } }
    for (int k = 0; k < 3; ++k) { Words b = in; b[0] = k == 0 ? 0x03022307 : k == 1 ? b[0] ^ (1u << r.below(32)) : r.u(); if (b[0] == SpvMagicNumber) continue; VecReader br(b); Module m3(&al, &log); if (m3.read(br, *g)) violation("read-accepts:magic", fmt("%x", b[0])); count("bad_magic"); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation-module", e);
}
int run(const std::string& cmd, std::string& out) { out.clear(); FILE* p = popen(("cd " + g_dir + "/sub && timeout 60 " + g_bin + "/" + cmd + " 2>&1").c_str(), "r"); if (!p) harness_error("popen"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k); int rc = pclose(p); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + rc; if (rc == 0 && (out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos)) violation("tool-sanitizer", out.substr(0, 2000)); return rc; }
bool crash(int rc, const std::string& t) { return rc >= 1000 || rc == 124 || (rc >= 128 && rc < 255) || t.find("Sanitizer") != std::string::npos || t.find("runtime error") != std::string::npos; }
enum Bad { Missing, Empty, Odd, CutWord, Magic, Text, Dir, Header, Bads }; const char* badname[] = {"missing", "empty", "odd-size", "cut-in-instruction", "magic", "text", "directory", "header-only-part"};
std::string bad(Bad b, const Words& in, Rng& r) { std::string f = path("b.spv"), s = bytes(in); unlink(f.c_str()); switch (b) { case Missing: return path("missing.spv"); case Empty: s.clear(); break; case Odd: s += std::string(1 + r.below(3), 'x'); break; case CutWord: { std::vector<size_t> at; size_t p = 5; while (p < in.size()) { u32 l = std::max(1u, in[p] >> 16); for (u32 i = 1; i < l; ++i) at.push_back(p + i); p += l; } s.resize(4 * r.pick(at)); break; } case Magic: s[r.below(4)] ^= 1 << r.below(8); break; case Text: s = "; SPIR-V\nOpCapability Shader\n   \n"; s.resize(s.size() / 4 * 4); break; case Dir: return g_dir; default: s.resize(4 * (1 + r.below(4))); } put_file(f, s.data(), s.size()); return f; }
Words inproc_link(const Words& lib, const Words& con, bool& ok) { Log log; HeapAllocator a; Module l(&a, &log), c(&a, &log); VecReader rl(lib), rc(con); ok = l.readAndInit(rl, *g) && c.readAndInit(rc, *g); if (!ok) return {}; LinkerHelper::LinkerOptions o{}; o.flags = LinkerHelper::LinkerOptionBits::AssignResultIDs; ok = LinkerHelper::import(l, c, o); if (!ok) return {}; c.finalizeEntryPoints(); VecWriter w; ok = c.write(w); return w.w; }
void tools(Rng& r) {
  if (g_bin.empty()) return; Words in = any_module(r); Log log; HeapAllocator a; bool readable; Words plain, assigned; { Module m(&a, &log); VecReader rd(in); readable = m.readAndInit(rd, *g); if (readable) { VecWriter w; readable = m.finalizeAndWrite(w); plain = w.w; } } if (!readable) { count("not_read"); return; } std::string good = path("a.spv"), out = path("o.spv"), ser = path("sub/serialized.spv"), text; put_file(good, in.data(), in.size() * 4); unlink(out.c_str()); unlink(ser.c_str()); int rc; distinct(fnv(in) + r.below(64));
  switch (r.below(8)) {
    case 0: { rc = run("tool_dis_bin " + good + " -serialize" + (r.coin() ? " -assignIDs" : "") + (r.coin() ? " -nopreamble" : ""), text); std::string s; count("tool_dis"); if (rc) { violation("dis-failed", fmt("exit %d for a module the library reads\n", rc) + text.substr(text.size() > 500 ? text.size() - 500 : 0)); break; } if (!get_file(ser, s)) violation("dis-no-output", ""); else if (s != bytes(plain)) { violation("dis-serialized", fmt("%zu bytes, the library writes %zu", s.size(), plain.size() * 4)); } break; }
    case 1: { if (symlink("/dev/full", ser.c_str())) break; rc = run("tool_dis_bin " + good + " -serialize", text); unlink(ser.c_str()); count("tool_dis_full"); if (!rc) violation("dis-hides-error:full-device", "exit 0, nothing was stored"); break; }
    case 2: { Bad b = (Bad)r.below(Bads); std::string f = bad(b, in, r); bool refl = r.coin(); rc = run(std::string(refl ? "tool_refl_bin " : "tool_dis_bin ") + f + (refl ? " -vars -types -funcs -deco" : r.coin() ? " -serialize" : ""), text); unlink(ser.c_str()); count(refl ? "tool_refl_bad" : "tool_dis_bad"); if (!rc) violation(std::string(refl ? "refl" : "dis") + "-hides-error:" + badname[b], "exit 0\n" + text.substr(0, 400)); else if (crash(rc, text)) violation(std::string(refl ? "refl" : "dis") + "-crash:" + badname[b], fmt("exit %d\n", rc) + text.substr(0, 2000)); break; }
    case 3: { Words lib = any_module(r); bool ok; Words want = inproc_link(lib, in, ok); if (!ok) { count("link_not_possible"); } put_file(path("c.spv"), lib.data(), lib.size() * 4); rc = run("tool_link_bin -l " + path("c.spv") + " -c " + good + " -o " + out, text); count("tool_link"); std::string s; bool have = get_file(out, s); if (!ok) { if (!rc) violation("link-hides-error:import", "the library's import fails, the tool returns 0"); break; } if (rc) { violation("link-failed", fmt("exit %d\n", rc) + text.substr(0, 800)); break; } if (!have || s != bytes(want)) violation("link-output", fmt("%zu bytes, the library writes %zu", s.size(), want.size() * 4)); break; }
    case 4: { Bad b = (Bad)r.below(Bads); std::string f = bad(b, in, r); bool l = r.coin(); rc = run("tool_link_bin -l " + (l ? f : good) + " -c " + (l ? good : f) + " -o " + out, text); count("tool_link_bad"); if (!rc) violation(std::string(l ? "link-hides-error:lib-" : "link-hides-error:consumer-") + badname[b], "exit 0\n" + text.substr(0, 400)); else if (crash(rc, text)) violation(std::string("link-crash:") + badname[b], fmt("exit %d\n", rc) + text.substr(0, 2000)); break; }
    case 5: { std::string o = r.coin() ? "/dev/full" : r.coin() ? path("nodir/x") : g_dir; bool patch = r.coin(); sv::Mod m; sv::decode(in, m); u32 id = 0; for (auto& i : m.ins) if (i.op == SpvOpVariable && i.w[3] != 7) id = i.result; if (patch && !id) break; bool ok = true; if (!patch) { Words want = inproc_link(in, in, ok); } rc = run("tool_link_bin " + (patch ? "-p " + good + fmt(" -e %u sym", id) : "-l " + good + " -c " + good) + " -o " + o, text); count(patch ? "tool_patch_full" : "tool_link_full"); if (!rc) violation(std::string(patch ? "patch" : "link") + "-hides-error:" + (o == "/dev/full" ? "full-device" : o == g_dir ? "directory" : "no-directory"), "exit 0"); break; }
    case 6: { // several libraries, one of them exports the symbol of the consumer with another type
      auto make = [&](int kind) { Log lg; Module m(&a, spv::AddressingModel::Logical, spv::MemoryModel::Simple, &lg); m.addCapability(spv::Capability::Linkage); auto lt = kind == 2 ? spv::LinkageType::Import : spv::LinkageType::Export; const char* sym = kind == 3 ? "other" : "s"; if (kind == 1) { Function& f = m.addFunction<float>("s", spv::FunctionControlMask::MaskNone); BasicBlock& b = *f; Instruction* k = m.constant(1.f); b.returnValue(k); LinkerHelper::addLinkageDecoration(f.getFunction(), lt, sym); } else { Function& f = m.addFunction<int>("s", spv::FunctionControlMask::MaskNone, kind != 2); if (kind != 2) { BasicBlock& b = *f; Instruction* k = m.constant(1); b.returnValue(k); } LinkerHelper::addLinkageDecoration(f.getFunction(), lt, sym); } VecWriter w; if (!m.finalizeAndWrite(w, g)) harness_error("small module"); return w.w; };
      u32 n = r.range(2, 3), badpos = r.below(n + 1); std::string cmd = "tool_link_bin"; for (u32 i = 0; i < n; ++i) { Words w = make(i == badpos ? 1 : badpos < n ? 3 : i == n - 1 ? 0 : 3); put_file(path(("l" + std::to_string(i) + ".spv").c_str()), w.data(), w.size() * 4); cmd += " -l " + path(("l" + std::to_string(i) + ".spv").c_str()); } Words c = make(2); put_file(path("c.spv"), c.data(), c.size() * 4); rc = run(cmd + " -c " + path("c.spv") + " -types -constants -o " + out, text); for (u32 i = 0; i < n; ++i) unlink(path(("l" + std::to_string(i) + ".spv").c_str()).c_str()); std::string s; bool have = get_file(out, s); count(badpos < n ? "tool_link_mismatch" : "tool_link_several"); if (badpos < n) { if (!rc) violation("link-hides-error:mismatch", fmt("library %u of %u does not fit, exit 0\n", badpos + 1, n) + text.substr(0, 600)); } else if (rc || !have) violation("link-failed:several", fmt("exit %d\n", rc) + text.substr(0, 800)); break; }
    default: { Bad b = (Bad)r.below(Bads); std::string f = bad(b, in, r); rc = run("tool_link_bin -p " + f + " -e 1 sym -o " + out, text); count("tool_patch_bad"); if (!rc) violation(std::string("patch-hides-error:") + badname[b], "exit 0\n" + text.substr(0, 400)); else if (crash(rc, text)) violation(std::string("patch-crash:") + badname[b], fmt("exit %d\n", rc) + text.substr(0, 2000)); rc = run("tool_link_bin -p " + good + " -e no_such_symbol_at_all sym -o " + out, text); if (!rc) violation("patch-hides-error:unknown-symbol", "exit 0"); break; } }
}
}
void hx::run_case(u64, Rng& r) { u32 k = r.below(20); if (k < 7) { if (r.chance(1, 20)) short_read(); reader(r); } else if (k < 12) writer(r); else if (k < 17) module(r); else tools(r); }
