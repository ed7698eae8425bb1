// Library / consumer pairs for the linker checks, written as SPIR-V assembly (no repository code involved).
#pragma once
#include "hx.h"
#include "spv.h"
namespace lm {
using hx::u32; using hx::u64; using hx::Rng;
struct Opt { bool mismatch = false; bool missing = false; bool f64 = true; u32 max_symbols = 4; bool chain = false; };
struct Sym { std::string name; bool var = false; bool has_lib = true; bool broken = false; };
struct Case { std::vector<std::vector<u32>> libs; std::vector<u32> consumer; std::vector<Sym> syms; std::string lib_text, consumer_text; bool consumer_exports = false; u32 entry_points = 0; };
bool make(Rng& r, const Opt& o, Case& c, std::string* err); // false: not valid SPIR-V by spirv-val (err says why)
}
#include <optional>
namespace lm {
struct View { sv::Mod m; std::map<u32, size_t> def; std::map<u32, std::pair<size_t, size_t>> fn; std::map<u32, std::vector<std::string>> names, decos; std::map<u32, std::pair<std::string, bool>> linkage; std::map<u32, std::vector<u32>> grouped; std::map<u32, std::vector<std::pair<u32, u32>>> member_grouped; std::set<u32> caps; std::set<std::string> exts; bool ok = false; std::string err;
  explicit View(const std::vector<u32>& w); std::vector<const sv::Ins*> ops(std::initializer_list<u32> l) const; };
// what linking the symbols of lib into con must give: out is compared with both
struct Expect { bool names = true, decos = true, cap_rule = true, remove_linkage = true, strings = true, lines = true, processed = true, interface = true, all_caps = true, debug_lines = true; };
struct Need { u32 types = 0, consts = 0, extsets = 0, functions = 0, variables = 0, strings = 0; };
std::string check(const View& lib, const View& con, const View& out, const Expect& e, Need* need = nullptr, std::map<std::string, u64>* seen = nullptr);
}
