// Additional module content for built modules: resources, debug information, more functions and entry points.
#pragma once
#include "build.h"
namespace build { struct Extra { std::map<std::string, u32> forms; std::vector<spvgentwo::Instruction*> vars; std::vector<spvgentwo::Function*> fns; }; Extra extras(spvgentwo::Module& m, hx::Rng& r, bool images = true); }
