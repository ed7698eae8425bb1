// Random typed programs: generated as trees, evaluated directly, and lowered through the builder API.
#pragma once
#include <memory>
#include "hx.h"
#include "sem.h"
#include "interp.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Grammar.h"
namespace build {
using sem::Ty; using sem::Val; using hx::u32; using hx::u64;
struct Expr; using P = std::shared_ptr<Expr>;
enum class K { Const, Load, Let, Op, Glsl, DivVS };
struct Expr { K k; Ty ty; u32 op = 0; int var = -1; std::vector<P> chain; std::vector<P> a; std::vector<u32> imm; u32 form = 0; Val cv; bool spec = false; };
enum class SK { Let, Store, Copy, If, Loop, Call, Ret, Phi, Kill };
struct Stmt { SK k; P e, c; int var = -1, var2 = -1; std::vector<P> chain, chain2; int let = -1; std::vector<Stmt> a, b; u32 form = 0, n = 0; int fn = -1; std::vector<P> args; std::vector<int> ptrs; Ty ty; };
struct Var { Ty ty; char where; bool init; Val iv; std::string name; }; // where: i o p (global) f (local) a (pointer parameter)
struct Fn { Ty ret; std::vector<Ty> params; std::vector<Var> locals; std::vector<int> param_lets; u32 lets = 0; std::vector<Stmt> body; std::string name; bool entry = false; u32 model = 0; std::vector<Ty> lett; u32 writes = 0; };
struct Prog { std::vector<Var> globals; std::vector<Fn> fns; bool i64 = false, f64 = false, i16 = false, i8 = false, f16 = false; u32 model = 0; u32 spec = 0; std::string text() const; };
struct Opt { u32 size = 4, depth = 3; bool wide = true, funcs = true, control = true, glsl = true; u32 entries = 1; bool any_form = true; bool kernel_ops = true; };
Prog random(hx::Rng& r, const Opt& o);
// direct evaluation: values of the global variables after running entry point function f
struct Eval { std::vector<Val> globals; std::string error; bool killed = false; };
Eval eval(const Prog& p, int f, const std::vector<Val>& inputs);
struct Built { std::vector<spvgentwo::Instruction*> globals; std::vector<spvgentwo::Function*> fns; std::string rejected; std::map<std::string, u32> forms; };
Built lower(const Prog& p, spvgentwo::Module& m, hx::Rng& r, std::function<void()> between = {});
spvgentwo::Type api_type(spvgentwo::Module& m, const Ty& t);
spvgentwo::Instruction* api_type_instr(spvgentwo::Module& m, const Ty& t, hx::Rng& r);
spvgentwo::Instruction* api_const(spvgentwo::Module& m, const Ty& t, const Val& v, hx::Rng* r = nullptr, bool spec = false);
spvgentwo::Constant api_constant(spvgentwo::Module& m, const Ty& t, const Val& v, bool spec = false);
Val random_value(hx::Rng& r, const Ty& t);
Ty random_type(hx::Rng& r, u32 depth, bool wide);
}
