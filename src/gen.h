// Random SPIR-V binaries built directly from the Khronos grammar (no repository code involved).
#pragma once
#include "hx.h"
#include "spec.h"
namespace gen {
using hx::u32;
struct Opt {
  u32 size = 10;               // rough number of entries per section
  bool any_op = true;          // any opcode of the grammar in function bodies (otherwise a small common set)
  bool contiguous_ids = false;
  bool spec_op = true, undef_const = true, weird_types = true, sparse_types = false;
  bool switch64 = true; bool shared_ep = true; bool lines = true;
  int only_op = -1;            // when >= 0: every body instruction uses this opcode
  int version = -1;
};
struct Info { std::map<u32, u32> ops; std::set<std::string> enums; u32 functions = 0, entry_points = 0; std::set<u32> kinds; };
std::vector<u32> module(hx::Rng& rng, const Opt& opt, Info* info = nullptr);
const std::vector<const spec::Inst*>& body_ops();  // legal inside a block and no terminator
bool known_op(const spec::Inst& i);  // listed by the repository's (older) grammar, too
bool known_enum(const spec::Kind& k, const spec::Enum& e);
void str_words(std::vector<u32>& w, const std::string& s);
}
