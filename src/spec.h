// Tables of the Khronos grammar (generated by tools/gen_spec.py from spec/*.json)
#pragma once
#include <vector>
#include <cstdint>
#include <string>
#include <cstring>
namespace spec {
struct Enum { uint32_t value; const char* name; std::vector<int> params; std::vector<const char*> caps, exts; uint32_t version; bool version_none; };
struct Kind { const char* name; const char* cat; std::vector<int> bases; std::vector<Enum> enums;
  bool bit() const { return !strcmp(cat, "BitEnum"); } bool value() const { return !strcmp(cat, "ValueEnum"); }
  bool id() const { return !strcmp(cat, "Id"); } bool lit() const { return !strcmp(cat, "Literal"); } bool comp() const { return !strcmp(cat, "Composite"); }
  const Enum* find(uint32_t v) const { for (auto& e : enums) if (e.value == v) return &e; return nullptr; } };
struct Opnd { int kind; char q; const char* name; };
struct Inst { uint32_t opcode; const char* name; const char* cls; std::vector<Opnd> ops; std::vector<const char*> caps, exts; uint32_t version; bool version_none; };
extern const std::vector<Kind> kinds;
extern const std::vector<Inst> core, glsl, opencl;
int kind(const char* name);
const Inst* op(uint32_t opcode);       // core, first of the aliases
const Inst* op(const char* name);
inline const Kind& K(int k) { return kinds[(size_t)k]; }
}
