// Independent view of SPIR-V binaries: decoded, validated and assembled with SPIRV-Tools.
#pragma once
#include "hx.h"
#include <spirv-tools/libspirv.h>
namespace sv {
using hx::u32; using hx::u64;
struct Opd { unsigned off, n; spv_operand_type_t type; spv_number_kind_t nk; u32 bits;
  bool id() const; bool result() const { return type == SPV_OPERAND_TYPE_RESULT_ID; } };
struct Ins { u32 op = 0, type = 0, result = 0; std::vector<u32> w; std::vector<Opd> o; };
struct Mod { u32 magic = 0, version = 0, generator = 0, bound = 0, schema = 0; std::vector<Ins> ins; };
bool decode(const std::vector<u32>& w, Mod& m, std::string* err = nullptr);
bool validate(const std::vector<u32>& w, std::string* err = nullptr, spv_target_env env = SPV_ENV_UNIVERSAL_1_6);
std::vector<u32> assemble(const std::string& text, std::string* err = nullptr, bool keep_ids = true, spv_target_env env = SPV_ENV_UNIVERSAL_1_6);
std::string disasm(const std::vector<u32>& w);
const char* opname(u32 op);
std::string str(const Ins& i);            // short text of one instruction
std::string literal(const Ins& i, const Opd& o); // decoded literal string operand
enum Section { SCap, SExt, SImport, SMem, SEntry, SMode, SString, SName, SProcessed, SDeco, SType, SGlobal, SUndef, SLine, SFunc };
Section section(const Ins& i, bool in_function);
// Compare modules section by section up to one bijective renaming of ids (identity when same_ids).
// Functions are compared as [declarations][other functions][entry points in OpEntryPoint order], each in module order.
struct CmpOpt { bool same_ids = false; bool header = true; bool generator = false; bool bound = false; bool exact_order = false; };
std::string compare(const Mod& a, const Mod& b, const CmpOpt& opt, std::map<u32, u32>* renaming = nullptr);
bool is_type(u32 op); bool is_const(u32 op); bool is_term(u32 op);
std::vector<u32> load(const std::string& path);
}
