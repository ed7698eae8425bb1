// Executes SPIR-V binaries (logical addressing subset) on concrete inputs.
#pragma once
#include "sem.h"
#include "spv.h"
namespace interp {
using sem::Val; using sem::Ty; using hx::u32; using hx::u64;
struct Stats { u64 steps = 0, calls = 0, branches = 0, phis = 0, blocks = 0; std::set<u32> ops, glsl; };
struct Result { std::string error; std::map<u32, Val> globals; std::map<u32, Ty> types; bool killed = false; };
// inputs: id of a global variable -> its initial flattened value
Result run(const sv::Mod& m, u32 entry_function, const std::map<u32, Val>& inputs, Stats* st = nullptr);
}
