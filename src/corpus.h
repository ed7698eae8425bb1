// Hand-written valid modules (spv_texts.inc), assembled by SPIRV-Tools; each also in its SPIR-V 1.3 form if that is valid.
#pragma once
#include "hx.h"
#include "spv.h"
namespace corpus {
struct Item { std::string name; std::vector<hx::u32> words; };
inline const std::vector<Item>& all() {
  static std::vector<Item> v; if (!v.empty()) return v;
  static const char* texts[] = {
#include "spv_texts.inc"
  };
  int n = 0;
  for (auto* t : texts) { std::string e; auto w = sv::assemble(t, &e); if (w.empty()) hx::harness_error("cannot assemble corpus text: " + e + "\n" + t); if (!sv::validate(w, &e)) hx::harness_error("corpus text is not valid: " + e + "\n" + t);
    v.push_back({hx::fmt("text%d", n), w}); auto w3 = sv::assemble(t, &e, true, SPV_ENV_UNIVERSAL_1_3); if (!w3.empty() && sv::validate(w3, &e)) v.push_back({hx::fmt("text%d@1.3", n), w3}); ++n; }
  return v;
}
}
