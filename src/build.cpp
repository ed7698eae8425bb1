#include "build.h"
#include "spec.h"
#include <cmath>
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/FunctionTemplate.inl"
#include "spvgentwo/EntryPointTemplate.inl"
#include "spvgentwo/BasicBlockTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/GLSL450Instruction.h"
#include "spvgentwo/Operators.h"
#include "spvgentwo/TypeAlias.h"
#include <spirv/unified1/spirv.h>
#include <spirv/unified1/GLSL.std.450.h>
namespace build {
using namespace hx; using namespace sem; using namespace spvgentwo; using Val = sem::Val; using In = Instruction*;
static P mk(K k, const Ty& t) { auto e = std::make_shared<Expr>(); e->k = k; e->ty = t; return e; }
static P mkop(u32 op, const Ty& t, std::vector<P> a, std::vector<u32> imm = {}) { auto e = mk(K::Op, t); e->op = op; e->a = std::move(a); e->imm = std::move(imm); return e; }
static P mkglsl(u32 op, const Ty& t, std::vector<P> a) { auto e = mk(K::Glsl, t); e->op = op; e->a = std::move(a); return e; }
static P mkconst(const Ty& t, Val v) { auto e = mk(K::Const, t); e->cv = std::move(v); return e; }
static const Ty B = tbool(), I32 = tint(32, true), U32 = tint(32, false), F32 = tfloat(32);
Val random_value(Rng& r, const Ty& t) { Val v; switch (t.k) {
  case Ty::Bool: return {r.coin()};
  case Ty::Int: switch (r.below(6)) { case 0: return {mask(r.next(), t.bits)}; case 1: return {mask(~0ull - r.below(4), t.bits)}; case 2: return {mask((1ull << (t.bits - 1)) - r.below(3), t.bits)}; default: return {mask((u64)r.below(20), t.bits)}; }
  case Ty::Float: switch (r.below(8)) { case 0: return {fromdouble(0, t.bits) | (r.coin() ? 1ull << (t.bits - 1) : 0)}; case 1: return {fromdouble(std::ldexp(1.0 + r.below(1000) / 1000.0, (int)r.below(40) - 20), t.bits)}; case 2: return {fromdouble((double)(int)r.below(2000) - 1000, t.bits)}; case 3: return {fromdouble(r.coin() ? 1.0 : -1.0, t.bits)}; default: return {fromdouble(((double)r.below(4001) - 2000) / 128, t.bits)}; }
  default: for (u32 i = 0; i < t.members(); ++i) { Val x = random_value(r, t.elem(i)); v.insert(v.end(), x.begin(), x.end()); } return v; } }
struct G { Rng& r; const Opt& o; Prog p; Fn* f = nullptr; std::vector<int> visible; bool frag = false; u32 nesting = 0; int fidx = 0; std::vector<int> hot; // lets visible
  std::vector<Ty> scal;
  Ty scalar() { return r.chance(1, 6) ? r.pick(scal) : r.pick(std::vector<Ty>{B, I32, U32, F32, F32}); }
  Ty floatty() { return p.f64 && r.chance(1, 5) ? tfloat(64) : F32; }
  Ty vecty() { return tvec(scalar(), r.range(2, 4)); }
  Ty matty() { return tmat(tvec(floatty(), r.range(2, 4)), r.range(2, 4)); }
  Ty type(u32 d) { switch (r.below(d ? 9 : 6)) { case 0: case 1: case 2: return scalar(); case 3: case 4: return vecty(); case 5: return matty(); case 6: case 7: return tarr(type(d - 1), r.range(1, 4)); default: { std::vector<Ty> m; for (u32 i = 0, n = r.range(1, 4); i < n; ++i) m.push_back(type(d - 1)); return tstruct(m); } } }
  const Var& var(int v) { return v < 1000 ? p.globals[(size_t)v] : f->locals[(size_t)v - 1000]; }
  std::vector<int> vars() { std::vector<int> v; for (int i = 0; i < (int)p.globals.size(); ++i) v.push_back(i); for (int i = 0; i < (int)f->locals.size(); ++i) if (f->locals[(size_t)i].where != 'l') v.push_back(1000 + i); return v; }
  void paths(const Ty& t, const Ty& want, std::vector<u32>& cur, std::vector<std::vector<u32>>& out) { if (t == want) out.push_back(cur); if (cur.size() >= 3 || t.scalar()) return; for (u32 i = 0; i < t.members() && i < 4; ++i) { cur.push_back(i); paths(t.elem(i), want, cur, out); cur.pop_back(); } }
  P idx(const Ty& agg, u32 i, u32 depth, bool& dyn) { if (agg.k != Ty::Struct && depth && r.chance(1, 3)) { dyn = true; return mkop(SpvOpUMod, U32, {gen(U32, depth - 1), mkconst(U32, {agg.members()})}); } P c = mkconst(U32, {i}); return c; }
  bool loadpath(const Ty& t, u32 depth, bool store, int& v, std::vector<P>& ch) { struct C { int v; std::vector<u32> path; }; std::vector<C> c; for (int i : vars()) { const Var& x = var(i); if (store && x.where == 'i') continue; if (!store && x.where == 'o' && !x.init) continue; std::vector<std::vector<u32>> ps; std::vector<u32> cur; paths(x.ty, t, cur, ps); for (auto& q : ps) c.push_back({i, q}); } if (c.empty()) return false; const C& k = r.pick(c); v = k.v; const Ty* x = &var(v).ty; std::vector<P> out; bool dyn = false; for (u32 i : k.path) { out.push_back(idx(*x, i, depth, dyn)); x = &x->elem(i); } ch = out; return true; }
  P leaf(const Ty& t) { for (int tries = 0; tries < 3; ++tries) switch (r.below(4)) {
      case 0: case 1: { auto e = mk(K::Load, t); if (loadpath(t, r.chance(1, 4) ? 1 : 0, false, e->var, e->chain)) { e->form = r.u(); return e; } break; }
      case 2: { std::vector<int> c; for (int l : visible) if (f->lett[(size_t)l] == t) c.push_back(l); if (!c.empty()) { auto e = mk(K::Let, t); e->var = r.pick(c); return e; } break; }
      default: { auto e = mkconst(t, random_value(r, t)); e->form = r.u(); e->spec = (t.scalar()) && r.chance(1, 12); return e; } }
    auto e = mkconst(t, random_value(r, t)); e->form = r.u(); return e; }
  Ty like(const Ty& c, const Ty& shape) { return shape.k == Ty::Vec ? tvec(c, shape.n) : c; }
  P small(const Ty& t) { Val v; for (u32 i = 0; i < flat(t); ++i) v.push_back(r.below(t.comp().bits)); return mkconst(t, v); }
  P gen(const Ty& t, u32 d) { P e = gen2(t, d); if (e->k == K::Op || e->k == K::Glsl || e->k == K::DivVS) e->form = r.u(); return e; }
  P gen2(const Ty& t, u32 d) {
    if (!d || r.chance(1, 5)) return leaf(t);
    auto g = [&](const Ty& x) { return gen(x, d - 1); };
    // structural ways to get any type
    if (r.chance(1, 5) || !(t.scalar() || t.k == Ty::Vec || t.k == Ty::Mat)) switch (r.below(5)) {
      case 0: { P c = g(B); if (t.k == Ty::Vec && r.coin()) c = g(tvec(B, t.n)); if (t.k == Ty::Vec || t.scalar()) return mkop(SpvOpSelect, t, {c, g(t), g(t)}); break; }
      case 1: { Ty s = tstruct({t, type(0)}); u32 i = 0; switch (r.below(3)) { case 0: s = tarr(t, r.range(1, 3)); i = r.below(s.n); break; case 1: if (t.scalar()) { s = tvec(t, r.range(2, 4)); i = r.below(s.n); } break; default: break; } return mkop(SpvOpCompositeExtract, t, {g(s)}, {i}); }
      case 2: return mkop(SpvOpCopyObject, t, {g(t)});
      case 3: if (t.k == Ty::Vec || t.k == Ty::Mat || t.k == Ty::Arr || t.k == Ty::Struct) { u32 i = r.below(t.members()); const Ty* e = &t.elem(i); std::vector<u32> im{i}; if (!e->scalar() && r.coin()) { u32 j = r.below(e->members()); im.push_back(j); e = &e->elem(j); } Ty et = *e; return mkop(SpvOpCompositeInsert, t, {g(et), g(t)}, im); } break;
      default: break; }
    if (t.k == Ty::Struct || t.k == Ty::Arr || (t.k == Ty::Mat && r.coin()) || (t.k == Ty::Vec && r.chance(1, 6))) { std::vector<P> a; for (u32 i = 0; i < t.members(); ++i) { if (t.k == Ty::Vec && i + 2 <= t.n && t.n > 2 && r.chance(1, 3)) { u32 n = std::min(t.n - i, 2u); a.push_back(g(tvec(t.sub[0], n))); i += n - 1; if (a.size() == 1 && i + 1 == t.n) break; continue; } a.push_back(g(t.elem(i))); } return mkop(SpvOpCompositeConstruct, t, a); }
    if (t.k == Ty::Mat) { const Ty& col = t.sub[0]; const Ty& c = col.sub[0]; u32 R = col.n, C = t.n, k = r.range(2, 4); switch (r.below(6)) { case 0: return mkop(SpvOpMatrixTimesScalar, t, {g(t), g(c)}); case 1: return mkop(SpvOpMatrixTimesMatrix, t, {g(tmat(tvec(c, R), k)), g(tmat(tvec(c, k), C))}); case 2: return mkop(SpvOpOuterProduct, t, {g(tvec(c, R)), g(tvec(c, C))}); case 3: return mkop(SpvOpTranspose, t, {g(tmat(tvec(c, C), R))}); case 4: if (R == C && o.glsl) return mkglsl(GLSLstd450MatrixInverse, t, {g(t)}); [[fallthrough]]; default: return leaf(t); } }
    if (t.k == Ty::Vec && r.chance(1, 5)) { const Ty& c = t.sub[0]; switch (r.below(3)) { case 0: { u32 n1 = r.range(2, 4), n2 = r.range(2, 4); std::vector<u32> im; for (u32 i = 0; i < t.n; ++i) im.push_back(r.below(n1 + n2)); return mkop(SpvOpVectorShuffle, t, {g(tvec(c, n1)), g(tvec(c, n2))}, im); } case 1: return mkop(SpvOpVectorInsertDynamic, t, {g(t), g(c), mkop(SpvOpUMod, U32, {g(U32), mkconst(U32, {t.n})})}); default: { u32 k = r.range(2, 4); Ty ct = c; if (ct.k != Ty::Float) break; if (r.coin()) return mkop(SpvOpVectorTimesMatrix, t, {g(tvec(c, k)), g(tmat(tvec(c, k), t.n))}); return mkop(SpvOpMatrixTimesVector, t, {g(tmat(tvec(c, t.n), k)), g(tvec(c, k))}); } } }
    if (t.scalar() && r.chance(1, 8)) { u32 n = r.range(2, 4); return mkop(SpvOpVectorExtractDynamic, t, {g(tvec(t, n)), mkop(SpvOpUMod, U32, {g(U32), mkconst(U32, {n})})}); }
    const Ty& c = t.comp();
    if (c.k == Ty::Bool) {
      switch (r.below(10)) {
        case 0: return mkop(SpvOpLogicalNot, t, {g(t)});
        case 1: return mkop(r.pick(std::vector<u32>{SpvOpLogicalAnd, SpvOpLogicalOr, SpvOpLogicalEqual, SpvOpLogicalNotEqual}), t, {g(t), g(t)});
        case 2: if (t.k == Ty::Bool) return mkop(r.coin() ? SpvOpAny : SpvOpAll, t, {g(tvec(B, r.range(2, 4)))}); [[fallthrough]];
        case 3: { Ty x = like(floatty(), t); static const std::vector<u32> f1{SpvOpIsNan, SpvOpIsInf}, f2{SpvOpIsFinite, SpvOpIsNormal, SpvOpSignBitSet}; if (o.kernel_ops && r.chance(1, 4)) { if (r.coin()) return mkop(r.pick(std::vector<u32>{SpvOpOrdered, SpvOpUnordered}), t, {g(x), g(x)}); return mkop(r.pick(f2), t, {g(x)}); } return mkop(r.pick(f1), t, {g(x)}); }
        case 4: case 5: case 6: { Ty x = like(floatty(), t); return mkop(r.pick(std::vector<u32>{SpvOpFOrdEqual, SpvOpFUnordEqual, SpvOpFOrdNotEqual, SpvOpFUnordNotEqual, SpvOpFOrdLessThan, SpvOpFUnordLessThan, SpvOpFOrdGreaterThan, SpvOpFUnordGreaterThan, SpvOpFOrdLessThanEqual, SpvOpFUnordLessThanEqual, SpvOpFOrdGreaterThanEqual, SpvOpFUnordGreaterThanEqual}), t, {g(x), g(x)}); }
        default: { Ty s = r.chance(1, 4) ? r.pick(scal) : r.coin() ? I32 : U32; if (s.k != Ty::Int) s = I32; Ty x = like(s, t), y = x; if (r.chance(1, 8)) y = like(tint(s.bits, !s.sgn), t); static const std::vector<u32> sg{SpvOpIEqual, SpvOpINotEqual, SpvOpSGreaterThan, SpvOpSGreaterThanEqual, SpvOpSLessThan, SpvOpSLessThanEqual}, us{SpvOpIEqual, SpvOpINotEqual, SpvOpUGreaterThan, SpvOpUGreaterThanEqual, SpvOpULessThan, SpvOpULessThanEqual}; return mkop(r.pick(s.sgn || y != x ? sg : us), t, {g(x), g(y)}); } } }
    if (c.k == Ty::Int) { Ty other = like(tint(c.bits, !c.sgn), t);
      switch (r.below(16)) {
        case 0: case 1: case 2: return mkop(r.pick(std::vector<u32>{SpvOpIAdd, SpvOpISub, SpvOpIMul}), t, {g(t), r.chance(1, 10) ? g(other) : g(t)});
        case 3: return c.sgn ? mkop(r.pick(std::vector<u32>{SpvOpSDiv, SpvOpSRem, SpvOpSMod}), t, {g(t), g(t)}) : mkop(r.coin() ? SpvOpUDiv : SpvOpUMod, t, {g(t), g(t)});
        case 4: return c.sgn ? mkop(SpvOpSNegate, t, {g(t)}) : mkop(SpvOpNot, t, {g(t)}); case 5: return mkop(SpvOpNot, t, {g(t)});
        case 6: return mkop(r.pick(std::vector<u32>{SpvOpBitwiseAnd, SpvOpBitwiseOr, SpvOpBitwiseXor}), t, {g(t), g(t)});
        case 7: return mkop(r.pick(std::vector<u32>{SpvOpShiftLeftLogical, SpvOpShiftRightLogical, SpvOpShiftRightArithmetic}), t, {g(t), small(t)});
        case 8: if (c.bits == 32) { u32 off = r.below(32), cnt = r.below(33 - off); P po = mkconst(r.coin() ? U32 : I32, {off}), pc = mkconst(r.coin() ? U32 : I32, {cnt}); switch (r.below(5)) { case 0: return mkop(SpvOpBitFieldInsert, t, {g(t), g(t), po, pc}); case 1: return mkop(SpvOpBitFieldSExtract, t, {g(t), po, pc}); case 2: return mkop(SpvOpBitFieldUExtract, t, {g(t), po, pc}); case 3: return mkop(SpvOpBitReverse, t, {g(t)}); default: return mkop(SpvOpBitCount, t, {g(t)}); } } return leaf(t);
        case 9: if (c.bits == 32 && r.coin()) return mkop(c.sgn ? SpvOpConvertFToS : SpvOpConvertFToU, t, {g(like(F32, t))}); { std::vector<Ty> q; for (auto& s : scal) if (s.k == Ty::Int && s.bits != c.bits && s.sgn == c.sgn) q.push_back(s); if (!q.empty()) return mkop(c.sgn ? SpvOpSConvert : SpvOpUConvert, t, {g(like(r.pick(q), t))}); return mkop(SpvOpBitcast, t, {g(other)}); }
        case 10: { if (c.bits == 32 && r.coin()) return mkop(SpvOpBitcast, t, {g(like(F32, t))}); if (c.bits == 64 && t.scalar()) return mkop(SpvOpBitcast, t, {g(tvec(U32, 2))}); return mkop(SpvOpBitcast, t, {g(other)}); }
        case 11: { Ty st = tstruct({t, t}); if (c.bits < 32) return leaf(t); if (!c.sgn) return mkop(SpvOpCompositeExtract, t, {mkop(r.pick(std::vector<u32>{SpvOpIAddCarry, SpvOpISubBorrow, SpvOpUMulExtended}), st, {g(t), g(t)})}, {r.below(2)}); return mkop(SpvOpCompositeExtract, t, {mkop(SpvOpSMulExtended, st, {g(t), g(t)})}, {r.below(2)}); }
        case 12: case 13: case 14: if (o.glsl && c.bits == 32) { if (c.sgn) switch (r.below(7)) { case 0: return mkglsl(GLSLstd450SAbs, t, {g(t)}); case 1: return mkglsl(GLSLstd450SSign, t, {g(t)}); case 2: return mkglsl(r.coin() ? GLSLstd450SMin : GLSLstd450SMax, t, {g(t), g(t)}); case 3: return mkglsl(GLSLstd450SClamp, t, {g(t), g(t), g(t)}); case 4: if (t.scalar()) switch (r.below(5)) { case 0: return mkglsl(GLSLstd450PackSnorm4x8, t, {g(tvec(F32, 4))}); case 1: return mkglsl(GLSLstd450PackUnorm4x8, t, {g(tvec(F32, 4))}); case 2: return mkglsl(GLSLstd450PackSnorm2x16, t, {g(tvec(F32, 2))}); case 3: return mkglsl(GLSLstd450PackUnorm2x16, t, {g(tvec(F32, 2))}); default: return mkglsl(GLSLstd450PackHalf2x16, t, {g(tvec(F32, 2))}); } if (t.k == Ty::Vec && t.n == 2 && p.f64) return mkglsl(GLSLstd450UnpackDouble2x32, t, {g(tfloat(64))}); return leaf(t); default: return mkglsl(r.coin() ? GLSLstd450FindILsb : GLSLstd450FindSMsb, t, {g(t)}); }
            switch (r.below(5)) { case 0: return mkglsl(r.coin() ? GLSLstd450UMin : GLSLstd450UMax, t, {g(t), g(t)}); case 1: return mkglsl(GLSLstd450UClamp, t, {g(t), g(t), g(t)}); case 2: return mkglsl(r.coin() ? GLSLstd450FindILsb : GLSLstd450FindUMsb, t, {g(t)}); default: return leaf(t); } } return leaf(t);
        default: if (o.kernel_ops && r.chance(1, 3)) return mkop(r.coin() ? SpvOpSatConvertUToS : SpvOpSatConvertSToU, t, {g(t)}); return leaf(t); } }
    // floats
    switch (r.below(18)) {
      case 0: case 1: case 2: return mkop(r.pick(std::vector<u32>{SpvOpFAdd, SpvOpFSub, SpvOpFMul}), t, {g(t), g(t)}); case 3: return mkop(r.pick(std::vector<u32>{SpvOpFDiv, SpvOpFRem, SpvOpFMod}), t, {g(t), g(t)}); case 4: return mkop(SpvOpFNegate, t, {g(t)});
      case 5: if (t.k == Ty::Vec) return mkop(SpvOpVectorTimesScalar, t, {g(t), g(c)}); return mkop(SpvOpDot, t, [&] { Ty v = tvec(t, r.range(2, 4)); return std::vector<P>{g(v), g(v)}; }());
      case 6: if (t.k == Ty::Vec && (c.bits == 32 || c.bits == 64)) { auto e = mk(K::DivVS, t); e->a = {g(t), g(c)}; return e; } [[fallthrough]];
      case 7: { if (c.bits == 64 && !p.i64) return leaf(t); if (r.coin()) return mkop(SpvOpConvertSToF, t, {g(like(tint(c.bits, true), t))}); return mkop(SpvOpConvertUToF, t, {g(like(tint(c.bits, false), t))}); }
      case 8: if (p.f64) return mkop(SpvOpFConvert, t, {g(like(tfloat(c.bits == 32 ? 64 : 32), t))}); if (c.bits == 32) return mkop(SpvOpQuantizeToF16, t, {g(t)}); return leaf(t);
      case 9: if (c.bits == 32) return mkop(SpvOpBitcast, t, {g(like(r.coin() ? U32 : I32, t))}); return t.scalar() ? mkop(SpvOpBitcast, t, {g(tvec(U32, 2))}) : leaf(t);
      case 10: if (frag && c.bits == 32 && r.coin()) return mkop(r.pick(std::vector<u32>{SpvOpDPdx, SpvOpDPdy, SpvOpFwidth, SpvOpDPdxFine, SpvOpDPdyFine, SpvOpFwidthFine, SpvOpDPdxCoarse, SpvOpDPdyCoarse, SpvOpFwidthCoarse}), t, {g(t)}); [[fallthrough]];
      default: if (!o.glsl) return leaf(t); switch (r.below(9)) {
        case 0: case 1: { static const std::vector<u32> any{GLSLstd450Round, GLSLstd450RoundEven, GLSLstd450Trunc, GLSLstd450FAbs, GLSLstd450FSign, GLSLstd450Floor, GLSLstd450Ceil, GLSLstd450Fract, GLSLstd450Sqrt, GLSLstd450InverseSqrt, GLSLstd450Normalize}, no64{GLSLstd450Radians, GLSLstd450Degrees, GLSLstd450Sin, GLSLstd450Cos, GLSLstd450Tan, GLSLstd450Asin, GLSLstd450Acos, GLSLstd450Atan, GLSLstd450Sinh, GLSLstd450Cosh, GLSLstd450Tanh, GLSLstd450Asinh, GLSLstd450Acosh, GLSLstd450Atanh, GLSLstd450Exp, GLSLstd450Log, GLSLstd450Exp2, GLSLstd450Log2}; return mkglsl(r.pick(c.bits == 32 && r.coin() ? no64 : any), t, {g(t)}); }
        case 2: { u32 op = r.pick(std::vector<u32>{GLSLstd450FMin, GLSLstd450FMax, GLSLstd450NMin, GLSLstd450NMax, GLSLstd450Step, GLSLstd450Reflect, GLSLstd450Atan2, GLSLstd450Pow}); if (c.bits == 64 && (op == GLSLstd450Atan2 || op == GLSLstd450Pow)) op = GLSLstd450FMin; return mkglsl(op, t, {g(t), g(t)}); }
        case 3: return mkglsl(r.pick(std::vector<u32>{GLSLstd450FClamp, GLSLstd450NClamp, GLSLstd450FMix, GLSLstd450SmoothStep, GLSLstd450Fma, GLSLstd450FaceForward}), t, {g(t), g(t), g(t)});
        case 4: if (t.k == Ty::Vec && t.n == 3) return mkglsl(GLSLstd450Cross, t, {g(t), g(t)}); if (t.scalar()) { Ty v = r.chance(1, 4) ? t : tvec(t, r.range(2, 4)); return r.coin() ? mkglsl(GLSLstd450Length, t, {g(v)}) : mkglsl(GLSLstd450Distance, t, {g(v), g(v)}); } return leaf(t);
        case 5: if (t.scalar()) { u32 n = r.range(2, 4); return mkglsl(GLSLstd450Determinant, t, {g(tmat(tvec(t, n), n))}); } if (c.bits == 32) { if (t.n == 4) return mkglsl(r.coin() ? GLSLstd450UnpackSnorm4x8 : GLSLstd450UnpackUnorm4x8, t, {g(U32)}); if (t.n == 2) return mkglsl(r.pick(std::vector<u32>{GLSLstd450UnpackSnorm2x16, GLSLstd450UnpackUnorm2x16, GLSLstd450UnpackHalf2x16}), t, {g(U32)}); } return leaf(t);
        case 6: { if (t.k == Ty::Vec && r.coin()) return mkglsl(GLSLstd450Refract, t, {g(t), g(t), g(c)}); return mkglsl(GLSLstd450Ldexp, t, {g(t), g(like(I32, t))}); }
        case 7: { if (r.coin()) return mkop(SpvOpCompositeExtract, t, {mkglsl(GLSLstd450ModfStruct, tstruct({t, t}), {g(t)})}, {r.below(2)}); return mkop(SpvOpCompositeExtract, t, {mkglsl(GLSLstd450FrexpStruct, tstruct({t, like(I32, t)}), {g(t)})}, {0}); }
        default: if (c.bits == 64 && t.scalar()) return mkglsl(GLSLstd450PackDouble2x32, t, {g(tvec(U32, 2))}); return leaf(t); } } }
  int newlet(const Ty& t) { f->lett.push_back(t); visible.push_back((int)f->lett.size() - 1); return (int)f->lett.size() - 1; }
  Ty anyty() { return r.chance(1, 4) ? type(1) : r.coin() ? scalar() : vecty(); }
  void block(std::vector<Stmt>& out, u32 n, u32 nest, bool canret) { size_t vis = visible.size(); for (u32 i = 0; i < n; ++i) stmt(out, nest, canret); visible.resize(vis); }
  void store(std::vector<Stmt>& out) { std::vector<int> vs; for (int v : vars()) if (var(v).where != 'i') vs.push_back(v); Stmt s; s.k = SK::Store; s.var = r.pick(vs); const Ty* t = &var(s.var).ty; bool dyn = false; while (!t->scalar() && s.chain.size() < 4 && r.coin()) { u32 i = r.below(t->members()); s.chain.push_back(idx(*t, i, 1, dyn)); t = &t->elem(i); } s.ty = *t; s.e = gen(*t, o.depth); s.form = r.u(); out.push_back(s); }
  void stmt(std::vector<Stmt>& out, u32 nest, bool canret) {
    Stmt s; s.form = r.u();
    switch (r.below(o.control && nest < 3 ? 12 : 7)) {
      case 0: case 1: { s.k = SK::Let; s.ty = anyty(); s.e = gen(s.ty, o.depth); s.let = newlet(s.ty); out.push_back(s); return; }
      case 2: { Ty t = anyty(); s.k = SK::Copy; s.ty = t; if (loadpath(t, 0, true, s.var, s.chain) && loadpath(t, 0, false, s.var2, s.chain2)) { out.push_back(s); return; } store(out); return; }
      case 3: { std::vector<int> c; for (int i = 0; i < fidx; ++i) if (!p.fns[(size_t)i].entry) c.push_back(i); if (c.empty()) { store(out); return; } s.k = SK::Call; s.fn = r.pick(c); const Fn& q = p.fns[(size_t)s.fn]; for (auto& t : q.params) if (t.k == Ty::Ptr) { std::vector<int> v; for (size_t i = 0; i < f->locals.size(); ++i) if (f->locals[i].ty == t.sub[0] && f->locals[i].where != 'l') v.push_back(1000 + (int)i); if (v.empty()) { f->locals.push_back({t.sub[0], 'f', true, random_value(r, t.sub[0]), ""}); v.push_back(1000 + (int)f->locals.size() - 1); } s.ptrs.push_back(r.pick(v)); s.args.push_back(nullptr); } else { s.ptrs.push_back(-1); s.args.push_back(gen(t, o.depth - 1)); } s.ty = q.ret; if (q.ret.k != Ty::Void) s.let = newlet(q.ret); out.push_back(s); return; }
      default: store(out); return;
      case 7: case 8: { s.k = SK::If; s.c = gen(B, 2); block(s.a, r.range(0, 3), nest + 1, canret); if (r.coin()) { s.n = 1; block(s.b, r.range(0, 3), nest + 1, canret); } if (canret && r.chance(1, 6) ) { Stmt q; q.k = SK::Ret; if (frag && f->entry && r.coin()) q.k = SK::Kill; else if (f->ret.k != Ty::Void) q.e = gen(f->ret, 2); s.a.push_back(q); } out.push_back(s); return; }
      case 9: { s.k = SK::Phi; s.ty = r.coin() ? scalar() : vecty(); s.c = gen(B, 2); s.args = {gen(s.ty, 2), gen(s.ty, 2)}; s.let = newlet(s.ty); out.push_back(s); return; }
      case 10: case 11: { s.k = SK::Loop; s.n = r.range(0, 4); f->locals.push_back({r.coin() ? I32 : U32, 'l', true, {0}, ""}); s.var = 1000 + (int)f->locals.size() - 1; s.c = r.chance(1, 3) ? gen(B, 1) : nullptr; block(s.a, r.range(0, 3), nest + (s.form & 1 ? 1 : 3), canret && (s.form & 1)); out.push_back(s); return; } } }
  void func(Fn& fn, int i) { f = &fn; fidx = i; visible.clear(); f->lett.clear(); for (size_t k = 0; k < fn.params.size(); ++k) if (fn.params[k].k != Ty::Ptr) fn.param_lets.push_back(newlet(fn.params[k])); else { fn.param_lets.push_back(1000 + (int)fn.locals.size()); fn.locals.push_back({fn.params[k].sub[0], 'a', true, {}, ""}); }
    for (u32 k = 0, n = r.below(3); k < n; ++k) { Ty t = r.coin() ? anyty() : type(2); fn.locals.push_back({t, 'f', true, random_value(r, t), r.coin() ? fmt("loc%u", k) : ""}); }
    for (u32 k = 0, n = r.range(1, o.size); k < n; ++k) stmt(fn.body, 0, true);
    if (fn.entry) for (int v = 0; v < (int)p.globals.size(); ++v) if (p.globals[(size_t)v].where == 'o') { Stmt s; s.k = SK::Store; s.var = v; s.ty = p.globals[(size_t)v].ty; s.e = gen(s.ty, o.depth); s.form = r.u(); fn.body.push_back(s); }
    Stmt q; q.k = SK::Ret; if (fn.ret.k != Ty::Void) q.e = gen(fn.ret, o.depth); fn.body.push_back(q); }
  // loop counters must not be touched by other statements
};
Ty random_type(Rng& r, u32 d, bool wide) { Opt o; G g{r, o, {}, nullptr, {}, false, 0, 0, {}, {}}; g.scal = {B, I32, U32, F32}; if (wide) { g.p.f64 = true; for (Ty t : {tint(64, true), tint(64, false), tint(16, true), tint(16, false), tint(8, true), tint(8, false), tfloat(64)}) g.scal.push_back(t); } return g.type(d); }
Prog random(Rng& r, const Opt& o) { G g{r, o, {}, nullptr, {}, false, 0, 0, {}, {}}; g.scal = {B, I32, U32, F32}; Prog& p = g.p;
  if (o.wide && r.chance(1, 3)) { if (r.coin()) { p.i64 = true; g.scal.push_back(tint(64, true)); g.scal.push_back(tint(64, false)); } if (r.coin()) { p.f64 = true; g.scal.push_back(tfloat(64)); } if (r.chance(1, 3)) { p.i16 = true; g.scal.push_back(tint(16, true)); g.scal.push_back(tint(16, false)); } if (r.chance(1, 4)) { p.i8 = true; g.scal.push_back(tint(8, true)); g.scal.push_back(tint(8, false)); } }
  p.model = r.below(3); g.frag = p.model == 1;
  auto io = [&] { Ty t = r.pick(std::vector<Ty>{I32, U32, F32, F32}); return r.coin() ? t : tvec(t, r.range(2, 4)); };
  if (p.model != 2) for (u32 i = 0, n = r.below(3); i < n; ++i) p.globals.push_back({io(), 'i', true, {}, fmt("in%u", i)});
  for (u32 i = 0, n = p.model != 2 ? r.range(1, 3) : 0; i < n; ++i) p.globals.push_back({io(), 'o', false, {}, r.coin() ? fmt("out%u", i) : "out"});
  for (u32 i = 0, n = r.range(1, 3); i < n; ++i) { Ty t = g.type(2); p.globals.push_back({t, 'p', true, random_value(r, t), ""}); }
  u32 nf = o.funcs ? r.below(4) : 0; p.fns.reserve(nf + o.entries);
  for (u32 i = 0; i < nf; ++i) { Fn f; f.ret = r.chance(1, 3) ? tvoid() : g.anyty(); for (u32 k = 0, n = r.below(4); k < n; ++k) { Ty t = g.anyty(); f.params.push_back(r.chance(1, 5) ? tptr(t, SpvStorageClassFunction) : t); } f.name = r.chance(1, 4) ? "" : fmt("fn%u", i); p.fns.push_back(f); bool fr = g.frag; g.frag = false; g.func(p.fns.back(), (int)i); g.frag = fr; }
  for (u32 i = 0; i < o.entries; ++i) { Fn f; f.entry = true; f.name = fmt("main%u", i); f.model = p.model; p.fns.push_back(f); g.func(p.fns.back(), (int)(nf + i)); }
  return p; }
// ---- direct evaluation
namespace { struct Stop { std::string s; };
struct Frame { const Fn* f; std::vector<Val> locals; std::vector<Val> lets; std::vector<Val*> ptr; };
struct E { const Prog& p; std::vector<Val> g; u64 steps = 0; bool killed = false;
  const Ty& vty(Frame& f, int v) { return v < 1000 ? p.globals[(size_t)v].ty : f.f->locals[(size_t)v - 1000].ty; }
  Val& vm(Frame& f, int v) { if (v < 1000) return g[(size_t)v]; Val* q = f.ptr[(size_t)v - 1000]; return q ? *q : f.locals[(size_t)v - 1000]; }
  u32 off(Frame& f, int v, const std::vector<P>& ch, const Ty*& t) { t = &vty(f, v); u32 o = 0; for (auto& e : ch) { u64 i = ev(f, e)[0]; if (i >= t->members()) throw Stop{"index"}; o += offset(*t, (u32)i); t = &t->elem((u32)i); } return o; }
  Val load(Frame& f, int v, const std::vector<P>& ch) { const Ty* t; u32 o = off(f, v, ch, t); Val& m = vm(f, v); if (o + flat(*t) > m.size()) throw Stop{"uninitialised"}; return Val(m.begin() + o, m.begin() + o + flat(*t)); }
  void store(Frame& f, int v, const std::vector<P>& ch, const Val& x) { const Ty* t; u32 o = off(f, v, ch, t); Val& m = vm(f, v); if (m.size() != flat(vty(f, v))) { if (o == 0 && x.size() == flat(vty(f, v))) m = x; else throw Stop{"partial store to an uninitialised variable"}; return; } std::copy(x.begin(), x.end(), m.begin() + o); }
  Val ev(Frame& f, const P& e) { if (++steps > 200000) throw Stop{"steps"}; switch (e->k) { case K::Const: return e->cv; case K::Let: return f.lets[(size_t)e->var]; case K::Load: return load(f, e->var, e->chain);
      case K::DivVS: { Val v = ev(f, e->a[0]), s = ev(f, e->a[1]), q, o; const Ty& c = e->ty.comp(); core(SpvOpFDiv, c, {c, c}, {{fromdouble(1, c.bits)}, s}, {}, q); core(SpvOpVectorTimesScalar, e->ty, {e->ty, c}, {v, q}, {}, o); return o; }
      default: { std::vector<Val> a; std::vector<Ty> t; for (auto& x : e->a) { a.push_back(ev(f, x)); t.push_back(x->ty); } Val o; bool ok = e->k == K::Glsl ? sem::glsl(e->op, e->ty, t, a, o) : core(e->op, e->ty, t, a, e->imm, o); if (!ok || o.size() != flat(e->ty)) throw Stop{fmt("op %u", e->op)}; return o; } } }
  // 0 next, 1 returned, 2 killed
  int run(Frame& f, const std::vector<Stmt>& b, Val& ret) { for (auto& s : b) { if (++steps > 200000) throw Stop{"steps"}; int r = 0; switch (s.k) {
      case SK::Let: f.lets[(size_t)s.let] = ev(f, s.e); break; case SK::Store: { Val v = ev(f, s.e); store(f, s.var, s.chain, v); break; } case SK::Copy: store(f, s.var, s.chain, load(f, s.var2, s.chain2)); break;
      case SK::If: if (ev(f, s.c)[0]) r = run(f, s.a, ret); else if (s.n) r = run(f, s.b, ret); if (r) return r; break;
      case SK::Phi: f.lets[(size_t)s.let] = ev(f, s.c)[0] ? ev(f, s.args[0]) : ev(f, s.args[1]); break;
      case SK::Loop: store(f, s.var, {}, {0}); while (load(f, s.var, {})[0] < s.n && (!s.c || ev(f, s.c)[0])) { r = run(f, s.a, ret); if (r) return r; store(f, s.var, {}, {load(f, s.var, {})[0] + 1}); } break;
      case SK::Call: { std::vector<Val> a; std::vector<Val*> ps; for (size_t i = 0; i < s.args.size(); ++i) { a.push_back(s.args[i] ? ev(f, s.args[i]) : Val{}); ps.push_back(s.ptrs[i] >= 0 ? &vm(f, s.ptrs[i]) : nullptr); } Val v = call(s.fn, a, ps); if (s.let >= 0) f.lets[(size_t)s.let] = v; break; }
      case SK::Ret: if (s.e) ret = ev(f, s.e); return 1; case SK::Kill: killed = true; return 2; } } return 0; }
  Val call(int fi, const std::vector<Val>& a, const std::vector<Val*>& ps) { const Fn& fn = p.fns[(size_t)fi]; Frame f; f.f = &fn; f.lets.resize(fn.lett.size()); f.ptr.assign(fn.locals.size(), nullptr); for (auto& l : fn.locals) f.locals.push_back(l.init ? l.iv : Val{}); for (size_t i = 0; i < a.size(); ++i) if (ps[i]) f.ptr[(size_t)fn.param_lets[i] - 1000] = ps[i]; else f.lets[(size_t)fn.param_lets[i]] = a[i]; Val r; run(f, fn.body, r); return r; } }; }
Eval eval(const Prog& p, int f, const std::vector<Val>& inputs) { E e{p, {}, 0, false}; for (size_t i = 0; i < p.globals.size(); ++i) e.g.push_back(p.globals[i].where == 'i' ? inputs[i] : p.globals[i].init ? p.globals[i].iv : Val{}); Eval r; try { e.call(f, {}, {}); } catch (Stop& s) { r.error = s.s; } r.globals = e.g; r.killed = e.killed; return r; }
// ---- lowering
Type api_type(Module& m, const Ty& t) { Type r = m.newType(); switch (t.k) { case Ty::Void: r.Void(); break; case Ty::Bool: r.Bool(); break; case Ty::Int: r.Int(t.bits, t.sgn); break; case Ty::Float: r.Float(t.bits); break; case Ty::Vec: { Type e = api_type(m, t.sub[0]); r = e.wrapVector(t.n); break; } case Ty::Mat: { Type e = api_type(m, t.sub[0]); r = e.wrapMatrix(t.n); break; } case Ty::Arr: { Type e = api_type(m, t.sub[0]); r = e.wrapArray(t.n); break; } case Ty::Ptr: { Type e = api_type(m, t.sub[0]); r = e.wrapPointer((spv::StorageClass)t.storage); break; } case Ty::Struct: r.Struct(); for (auto& s : t.sub) { Type e = api_type(m, s); r.MemberM(&e); } break; default: break; } return r; }
template <class T> static In tvt(Module& m, const Ty& t) { if (t.k != Ty::Vec) return m.type<T>(); switch (t.n) { case 2: return m.type<vector_t<T, 2>>(); case 3: return m.type<vector_t<T, 3>>(); default: return m.type<vector_t<T, 4>>(); } }
In api_type_instr(Module& m, const Ty& t, Rng& r) { if (r.coin()) { if (t.k == Ty::Void) return m.type<void>(); if (t.scalar() || t.k == Ty::Vec) { const Ty& c = t.comp(); if (c.k == Ty::Bool) return tvt<bool>(m, t); if (c.k == Ty::Float && c.bits == 32) return tvt<float>(m, t); if (c.k == Ty::Float && c.bits == 64) return tvt<double>(m, t); if (c.k == Ty::Int) switch (c.bits) { case 32: return c.sgn ? tvt<int>(m, t) : tvt<unsigned>(m, t); case 64: return c.sgn ? tvt<long long>(m, t) : tvt<unsigned long long>(m, t); case 16: return c.sgn ? tvt<short>(m, t) : tvt<unsigned short>(m, t); case 8: return c.sgn ? tvt<char>(m, t) : tvt<unsigned char>(m, t); default: break; } } if (t.k == Ty::Struct && t.sub.size() == 2) return m.compositeType(spv::Op::OpTypeStruct, api_type_instr(m, t.sub[0], r), api_type_instr(m, t.sub[1], r)); } return m.addType(api_type(m, t)); }
template <class T> static In cst(Module& m, u64 v, bool spec) { T x; memcpy(&x, &v, sizeof(T)); return m.constant<T>(x, spec); }
static void cmake(Constant& c, const Ty& t, const Val& v, bool spec) {
  if (t.k == Ty::Bool) c.make<bool>(v[0] != 0, spec);
  else if (t.k == Ty::Float && t.bits == 32) { float f; u32 x = (u32)v[0]; memcpy(&f, &x, 4); c.make<float>(f, spec); } else if (t.k == Ty::Float) { double d; memcpy(&d, &v[0], 8); c.make<double>(d, spec); }
  else if (t.k == Ty::Int) switch (t.bits) { case 8: if (t.sgn) c.make<char>((char)v[0], spec); else c.make<unsigned char>((unsigned char)v[0], spec); break; case 16: if (t.sgn) c.make<short>((short)v[0], spec); else c.make<unsigned short>((unsigned short)v[0], spec); break; case 32: if (t.sgn) c.make<int>((int)v[0], spec); else c.make<unsigned>((unsigned)v[0], spec); break; default: if (t.sgn) c.make<long long>((long long)v[0], spec); else c.make<unsigned long long>(v[0], spec); }
  }
Constant api_constant(Module& m, const Ty& t, const Val& v, bool spec) { Constant c = m.newConstant(); if (t.scalar()) { cmake(c, t, v, spec); return c; } c.setOperation(spec ? spv::Op::OpSpecConstantComposite : spv::Op::OpConstantComposite); c.getType() = api_type(m, t); u32 o = 0; for (u32 i = 0; i < t.members(); ++i) { u32 n = flat(t.elem(i)); c.getComponents().emplace_back(api_constant(m, t.elem(i), Val(v.begin() + o, v.begin() + o + n), spec)); o += n; } return c; }
In api_const(Module& m, const Ty& t, const Val& v, Rng* r, bool spec) {
  if (t.k == Ty::Bool) return m.constant(v[0] != 0, spec);
  if (t.k == Ty::Int) switch (t.bits) { case 32: return t.sgn ? cst<int>(m, v[0], spec) : cst<unsigned>(m, v[0], spec); case 64: return t.sgn ? cst<long long>(m, v[0], spec) : cst<unsigned long long>(m, v[0], spec); case 16: return t.sgn ? cst<short>(m, v[0], spec) : cst<unsigned short>(m, v[0], spec); case 8: return t.sgn ? cst<char>(m, v[0], spec) : cst<unsigned char>(m, v[0], spec); default: return nullptr; }
  if (t.k == Ty::Float) return t.bits == 32 ? cst<float>(m, v[0], spec) : cst<double>(m, v[0], spec);
  if (t.k == Ty::Vec && t.sub[0] == F32 && r && r->coin()) { auto f = [&](u32 i) { float x; u32 w = (u32)v[i]; memcpy(&x, &w, 4); return x; }; if (t.n == 2) return m.constant(make_vector(f(0), f(1))); if (t.n == 3) return m.constant(make_vector(f(0), f(1), f(2))); return m.constant(make_vector(f(0), f(1), f(2), f(3))); }
  return m.addConstant(api_constant(m, t, v, spec)); }
namespace {
struct Rej { std::string s; };
using F1 = In (Instruction::*)(In); using F2 = In (Instruction::*)(In, In);
const std::map<u32, F1>& unary() { static const std::map<u32, F1> m{
#define U(x) {SpvOp##x, &Instruction::op##x}
 U(ConvertFToU), U(ConvertFToS), U(ConvertSToF), U(ConvertUToF), U(SatConvertSToU), U(SatConvertUToS), U(SNegate), U(FNegate), U(Any), U(All), U(IsNan), U(IsInf), U(IsFinite), U(IsNormal), U(SignBitSet), U(LogicalNot), U(Not), U(BitReverse), U(BitCount), U(DPdx), U(DPdy), U(Fwidth), U(DPdxFine), U(DPdyFine), U(FwidthFine), U(DPdxCoarse), U(DPdyCoarse), U(FwidthCoarse), U(CopyObject), U(Transpose), U(QuantizeToF16)
#undef U
 }; return m; }
const std::map<u32, F2>& binary() { static const std::map<u32, F2> m{
#define U(x) {SpvOp##x, &Instruction::op##x}
 U(IAdd), U(FAdd), U(ISub), U(FSub), U(IMul), U(FMul), U(UDiv), U(SDiv), U(FDiv), U(UMod), U(SRem), U(SMod), U(FRem), U(FMod), U(VectorTimesScalar), U(MatrixTimesScalar), U(VectorTimesMatrix), U(MatrixTimesVector), U(MatrixTimesMatrix), U(OuterProduct), U(Dot), U(IAddCarry), U(ISubBorrow), U(UMulExtended), {SpvOpSMulExtended, &Instruction::OpSMulExtended}, U(Ordered), U(Unordered), U(LogicalEqual), U(LogicalNotEqual), U(LogicalOr), U(LogicalAnd), U(IEqual), U(INotEqual), U(UGreaterThan), U(SGreaterThan), U(UGreaterThanEqual), U(SGreaterThanEqual), U(ULessThan), U(SLessThan), U(ULessThanEqual), U(SLessThanEqual), U(FOrdEqual), U(FUnordEqual), U(FOrdNotEqual), U(FUnordNotEqual), U(FOrdLessThan), U(FUnordLessThan), U(FOrdGreaterThan), U(FUnordGreaterThan), U(FOrdLessThanEqual), U(FUnordLessThanEqual), U(FOrdGreaterThanEqual), U(FUnordGreaterThanEqual), U(ShiftRightLogical), U(ShiftRightArithmetic), U(ShiftLeftLogical), U(BitwiseOr), U(BitwiseXor), U(BitwiseAnd), U(VectorExtractDynamic)
#undef U
 }; return m; }
using X = GLSL450Intruction; using X1 = In (X::*)(In); using X2 = In (X::*)(In, In); using X3 = In (X::*)(In, In, In);
struct GX { X1 a; X2 b; X3 c; };
const std::map<u32, GX>& gx() { static const std::map<u32, GX> m{
#define A(x) {GLSLstd450##x, {&X::op##x, nullptr, nullptr}}
#define A_(x, y) {GLSLstd450##x, {&X::op##y, nullptr, nullptr}}
#define Bn(x) {GLSLstd450##x, {nullptr, &X::op##x, nullptr}}
#define Cn(x) {GLSLstd450##x, {nullptr, nullptr, &X::op##x}}
 A(Round), A(RoundEven), A(Trunc), A(FAbs), A(SAbs), A(FSign), A(SSign), A(Floor), A(Ceil), A(Fract), A(Radians), A(Degrees), A(Sin), A(Cos), A(Tan), A_(Asin, ASin), A_(Acos, ACos), A_(Atan, ATan), A(Sinh), A(Cosh), A(Tanh), A(Asinh), A(Acosh), A(Atanh), Bn(Atan2), Bn(Pow), A(Exp), A(Log), A(Exp2), A(Log2), A(Sqrt), A(InverseSqrt), A(Determinant), A(MatrixInverse), A(ModfStruct), Bn(FMin), Bn(UMin), Bn(SMin), Bn(FMax), Bn(UMax), Bn(SMax), Cn(FClamp), Cn(UClamp), Cn(SClamp), Cn(FMix), Bn(Step), Cn(SmoothStep), Cn(Fma), A(FrexpStruct), Bn(Ldexp), A(PackSnorm4x8), A(PackUnorm4x8), A(PackSnorm2x16), A(PackUnorm2x16), A(PackHalf2x16), A(PackDouble2x32), A(UnpackSnorm4x8), A(UnpackUnorm4x8), A(UnpackSnorm2x16), A(UnpackUnorm2x16), A(UnpackHalf2x16), A(UnpackDouble2x32), A(Length), Bn(Distance), Bn(Cross), A(Normalize), Cn(FaceForward), Bn(Reflect), Cn(Refract), A(FindILsb), A(FindSMsb), A(FindUMsb), Bn(NMin), Bn(NMax), Cn(NClamp)
#undef A
#undef A_
#undef Bn
#undef Cn
 }; return m; }
// generic builder functions and the instructions they denote for the given operand types
struct Gen { F2 i; BasicBlock& (BasicBlock::*b)(In, In); BasicBlock& (BasicBlock::*s)(In); BasicBlock& (*o)(BasicBlock&, In); };
const Gen* generic(u32 op) { static const Gen add{&Instruction::Add, &BasicBlock::Add, &BasicBlock::Add, &ops::operator+}, sub{&Instruction::Sub, &BasicBlock::Sub, &BasicBlock::Sub, &ops::operator-}, mul{&Instruction::Mul, &BasicBlock::Mul, &BasicBlock::Mul, &ops::operator*}, div{nullptr, &BasicBlock::Div, &BasicBlock::Div, &ops::operator/}, eq{&Instruction::Equal, &BasicBlock::Equal, &BasicBlock::Equal, &ops::operator==}, ne{&Instruction::NotEqual, &BasicBlock::NotEqual, &BasicBlock::NotEqual, &ops::operator!=}, lt{&Instruction::Less, &BasicBlock::Less, &BasicBlock::Less, &ops::operator<}, le{&Instruction::LessEqual, &BasicBlock::LessEqual, &BasicBlock::LessEqual, &ops::operator<=}, gt{&Instruction::Greater, &BasicBlock::Greater, &BasicBlock::Greater, &ops::operator>}, ge{&Instruction::GreaterEqual, &BasicBlock::GreaterEqual, &BasicBlock::GreaterEqual, &ops::operator>=};
  switch (op) { case SpvOpIAdd: case SpvOpFAdd: return &add; case SpvOpISub: case SpvOpFSub: return &sub; case SpvOpIMul: case SpvOpFMul: case SpvOpVectorTimesScalar: case SpvOpMatrixTimesScalar: case SpvOpVectorTimesMatrix: case SpvOpMatrixTimesVector: case SpvOpMatrixTimesMatrix: return &mul; case SpvOpUDiv: case SpvOpSDiv: case SpvOpFDiv: return &div;
    case SpvOpIEqual: case SpvOpFOrdEqual: case SpvOpLogicalEqual: return &eq; case SpvOpINotEqual: case SpvOpFOrdNotEqual: case SpvOpLogicalNotEqual: return &ne; case SpvOpSLessThan: case SpvOpULessThan: case SpvOpFOrdLessThan: return &lt; case SpvOpSLessThanEqual: case SpvOpULessThanEqual: case SpvOpFOrdLessThanEqual: return &le; case SpvOpSGreaterThan: case SpvOpUGreaterThan: case SpvOpFOrdGreaterThan: return &gt; case SpvOpSGreaterThanEqual: case SpvOpUGreaterThanEqual: case SpvOpFOrdGreaterThanEqual: return &ge; default: return nullptr; } }
struct L { const Prog& p; Module& m; Rng& r; Built& out; std::function<void()> tick; struct Fr { const Fn* f; Function* fn; std::vector<In> locals, lets; };
  void form(const char* s) { ++out.forms[s]; }
  In chk(In i, const std::string& what) { if (tick) tick(); if (!i || i->isErrorInstr()) throw Rej{what}; return i; }
  In vp(Fr& f, int v) { return v < 1000 ? out.globals[(size_t)v] : f.locals[(size_t)v - 1000]; }
  const Ty& vty(Fr& f, int v) { return v < 1000 ? p.globals[(size_t)v].ty : f.f->locals[(size_t)v - 1000].ty; }
  In ptr(Fr& f, BasicBlock& b, int v, const std::vector<P>& ch, u32 fm) { In base = vp(f, v); if (ch.empty()) return base; bool allc = true; for (auto& e : ch) allc &= e->k == K::Const; const Ty* t = &vty(f, v);
    if (allc && fm % 4 < 2) { form("accesschain-int"); auto c = [&](size_t i) { return (unsigned)ch[i]->cv[0]; }; switch (ch.size()) { case 1: return chk(b->opAccessChain(base, c(0)), "opAccessChain"); case 2: return chk(b->opAccessChain(base, c(0), c(1)), "opAccessChain"); case 3: return chk(b->opAccessChain(base, c(0), c(1), c(2)), "opAccessChain"); default: return chk(b->opAccessChain(base, c(0), c(1), c(2), c(3)), "opAccessChain"); } }
    if (allc && fm % 4 == 2) { form("accesschain-list"); List<unsigned> l(m.getAllocator()); for (auto& e : ch) l.emplace_back((unsigned)e->cv[0]); return chk(b->opAccessChain(base, l), "opAccessChain list"); }
    form("accesschain-dynamic"); std::vector<In> ix; for (auto& e : ch) ix.push_back(ex(f, b, e)); for (auto& e : ch) t = &t->elem(e->k == K::Const ? (u32)e->cv[0] : 0); In pt = m.addType(api_type(m, *t).wrapPointer(base->getType()->getStorageClass()));
    switch (ix.size()) { case 1: return chk(allc ? b->opInBoundsAccessChain(pt, base, ix[0]) : b->opAccessChain(pt, base, ix[0]), "opAccessChain"); case 2: return chk(allc ? b->opInBoundsAccessChain(pt, base, ix[0], ix[1]) : b->opAccessChain(pt, base, ix[0], ix[1]), "opAccessChain"); case 3: return chk(b->opAccessChain(pt, base, ix[0], ix[1], ix[2]), "opAccessChain"); default: return chk(b->opAccessChain(pt, base, ix[0], ix[1], ix[2], ix[3]), "opAccessChain"); } }
  std::string desc(const P& e) { std::string s = e->k == K::Glsl ? fmt("glsl %u", e->op) : fmt("%s", sv::opname(e->op)); for (auto& a : e->a) s += " " + a->ty.str(); return s + " -> " + e->ty.str(); }
  In ex(Fr& f, BasicBlock& b, const P& e) { In i = ex0(f, b, e); const Type* t = i->getType(); if (!t || !(*t == api_type(m, e->ty))) throw Rej{(e->k == K::Const ? "constant" : e->k == K::Let ? "let" : e->k == K::Load ? "opLoad" : e->k == K::DivVS ? "Div-vec/scalar" : desc(e)) + " has result type " + (t ? tname(*t) : "none") + " instead of " + e->ty.str()}; return i; }
  static std::string tname(const Type& t) { std::string s = sv::opname((u32)t.getType()); if (t.isInt() || t.isFloat()) s += fmt("%u%s", t.getIntWidth(), t.isInt() ? t.isSInt() ? "s" : "u" : ""); if (t.isVector()) s += fmt("x%u", t.getVectorComponentCount()); if (t.isMatrix()) s += fmt("x%u", t.getMatrixColumnCount()); for (auto& u : t.getSubTypes()) s += "<" + tname(u) + ">"; return s; }
  In ex0(Fr& f, BasicBlock& b, const P& e) { switch (e->k) {
      case K::Const: if (e->spec) { form("specconst"); return m.specConstant<bool>(true), api_const(m, e->ty, e->cv, nullptr, true); } return chk(api_const(m, e->ty, e->cv, &r), "constant " + e->ty.str());
      case K::Let: return f.lets[(size_t)e->var];
      case K::Load: { In q = ptr(f, b, e->var, e->chain, e->form >> 3); return chk((e->form & 1) ? b->opLoad(q) : b->opLoad(q, spv::MemoryAccessMask::Volatile), "opLoad"); }
      case K::DivVS: { In v = ex(f, b, e->a[0]), s = ex(f, b, e->a[1]); form("div-vec-scalar"); if (e->form & 1) return chk(b->Div(v, s), "Div vec/scalar"); b.Div(v, s); return chk(b, "Div vec/scalar"); }
      case K::Glsl: { std::vector<In> a; for (auto& x : e->a) a.push_back(ex(f, b, x)); auto i = gx().find(e->op); if (i == gx().end()) throw Rej{"no builder for " + desc(e)}; GLSL450Intruction* g = e->form & 1 ? b.glsl() : b.ext<ext::GLSL>(); form("glsl"); In q = i->second.a ? (g->*i->second.a)(a[0]) : i->second.b ? (g->*i->second.b)(a[0], a[1]) : (g->*i->second.c)(a[0], a[1], a[2]); return chk(q, desc(e)); }
      default: return op(f, b, e); } }
  In op(Fr& f, BasicBlock& b, const P& e) { std::string d = desc(e);
    if (const Gen* g = generic(e->op); g && (e->form % 5) != 0) { bool mixed = e->a.size() == 2 && e->a[0]->ty != e->a[1]->ty; (void)mixed; bool stack = e->form % 5 >= 3 && e->a[0]->k != K::Const && e->a[0]->k != K::Let;
      if (stack) { In rr = ex(f, b, e->a[1]); In l = ex(f, b, e->a[0]); if (!b.empty() && &b.back() == l) { form(e->form % 5 == 3 ? "stack" : "operator"); if (e->form % 5 == 3) (b.*g->s)(rr); else g->o(b, rr); return chk(b, d); } b.operator->()->opCopyObject(l); form("stack-copy"); (b.*g->s)(rr); return chk(b, d); }
      In l = ex(f, b, e->a[0]), rr = ex(f, b, e->a[1]); if ((e->op == SpvOpVectorTimesScalar || e->op == SpvOpMatrixTimesScalar) && (e->form & 64)) std::swap(l, rr);
      if (e->form % 5 == 1 && g->i) { form("generic-instr"); return chk((b.operator->()->*g->i)(l, rr), d); } form("generic-bb"); (b.*g->b)(l, rr); return chk(b, d); }
    if ((e->op == SpvOpNot || e->op == SpvOpLogicalNot) && e->form % 5) { In x = ex(f, b, e->a[0]); switch (e->form % 5) { case 1: form("generic-not"); return chk(b->Not(x), d); case 2: b.Not(x); return chk(b, d); default: if (!b.empty() && &b.back() == x && !x->isConstant()) { form("stack-not"); if (e->form % 5 == 3) b.Not(); else ops::operator!(b); return chk(b, d); } return chk(b->Not(x), d); } }
    std::vector<In> a; for (auto& x : e->a) a.push_back(ex(f, b, x)); form("specific");
    if (auto i = unary().find(e->op); i != unary().end()) return chk((b.operator->()->*i->second)(a[0]), d);
    if (auto i = binary().find(e->op); i != binary().end()) return chk((b.operator->()->*i->second)(a[0], a[1]), d);
    switch (e->op) {
      case SpvOpSelect: return chk(b->opSelect(a[0], a[1], a[2]), d); case SpvOpUConvert: return chk(b->opUConvert(a[0], e->ty.comp().bits), d); case SpvOpSConvert: return chk(b->opSConvert(a[0], e->ty.comp().bits), d); case SpvOpFConvert: return chk(b->opFConvert(a[0], e->ty.comp().bits), d);
      case SpvOpBitcast: if (e->ty == F32 && (e->form & 1)) return chk(b->bitcast<float>(a[0]), d); return chk(b->opBitcast(api_type_instr(m, e->ty, r), a[0]), d);
      case SpvOpBitFieldInsert: return chk(b->opBitFieldInsert(a[0], a[1], a[2], a[3]), d); case SpvOpBitFieldSExtract: return chk(b->opBitFieldSExtract(a[0], a[1], a[2]), d); case SpvOpBitFieldUExtract: return chk(b->opBitFieldUExtract(a[0], a[1], a[2]), d);
      case SpvOpVectorInsertDynamic: return chk(b->opVectorInsertDynamic(a[0], a[1], a[2]), d);
      case SpvOpCompositeExtract: { if (e->form & 1) { form("extract-list"); List<unsigned> l(m.getAllocator()); for (u32 i : e->imm) l.emplace_back(i); return chk(b->opCompositeExtractDynamic(a[0], l), d); } auto c = [&](size_t i) { return (unsigned)e->imm[i]; }; switch (e->imm.size()) { case 1: return chk(b->opCompositeExtract(a[0], c(0)), d); case 2: return chk(b->opCompositeExtract(a[0], c(0), c(1)), d); default: return chk(b->opCompositeExtract(a[0], c(0), c(1), c(2)), d); } }
      case SpvOpCompositeInsert: { auto c = [&](size_t i) { return (unsigned)e->imm[i]; }; return chk(e->imm.size() == 1 ? b->opCompositeInsert(a[1], a[0], c(0)) : b->opCompositeInsert(a[1], a[0], c(0), c(1)), d); }
      case SpvOpCompositeConstruct: { In t = api_type_instr(m, e->ty, r); if ((e->form & 1) || a.size() > 4) { form("construct-list"); List<In> l(m.getAllocator()); for (In x : a) l.emplace_back(x); return chk(b->opCompositeConstructDynamic(t, l), d); } switch (a.size()) { case 1: return chk(b->opCompositeConstruct(t, a[0]), d); case 2: return chk(b->opCompositeConstruct(t, a[0], a[1]), d); case 3: return chk(b->opCompositeConstruct(t, a[0], a[1], a[2]), d); default: return chk(b->opCompositeConstruct(t, a[0], a[1], a[2], a[3]), d); } }
      case SpvOpVectorShuffle: { auto c = [&](size_t i) { return (unsigned)e->imm[i]; }; switch (e->imm.size()) { case 2: return chk(b->opVectorShuffle(a[0], a[1], c(0), c(1)), d); case 3: return chk(b->opVectorShuffle(a[0], a[1], c(0), c(1), c(2)), d); default: return chk(b->opVectorShuffle(a[0], a[1], c(0), c(1), c(2), c(3)), d); } }
      default: throw Rej{"no builder for " + d}; } }
  static bool flatb(const std::vector<Stmt>& b) { for (auto& s : b) if (s.k == SK::If || s.k == SK::Loop || s.k == SK::Phi) return false; return true; }
  static bool ends(const std::vector<Stmt>& b) { return !b.empty() && (b.back().k == SK::Ret || b.back().k == SK::Kill); }
  static bool rets(const std::vector<Stmt>& b) { for (auto& s : b) if (s.k == SK::Ret || s.k == SK::Kill || rets(s.a) || rets(s.b)) return true; return false; }
  // returns the block in which execution continues
  BasicBlock* blk(Fr& f, BasicBlock* b, const std::vector<Stmt>& ss) { for (auto& s : ss) b = st(f, b, s); return b; }
  BasicBlock* st(Fr& f, BasicBlock* bp, const Stmt& s) { BasicBlock& b = *bp; if (tick) tick(); switch (s.k) {
      case SK::Let: f.lets[(size_t)s.let] = ex(f, b, s.e); return bp;
      case SK::Store: { In v = ex(f, b, s.e); In q = ptr(f, b, s.var, s.chain, s.form); b->opStore(q, v); if (b.empty() || b.back().getOperation() != spv::Op::OpStore) throw Rej{"opStore " + s.ty.str()}; return bp; }
      case SK::Copy: { In d = ptr(f, b, s.var, s.chain, s.form), q = ptr(f, b, s.var2, s.chain2, s.form >> 4); b->opCopyMemory(d, q); if (b.empty() || b.back().getOperation() != spv::Op::OpCopyMemory) throw Rej{"opCopyMemory " + s.ty.str()}; form("copymemory"); return bp; }
      case SK::Ret: if (s.e) b.returnValue(ex(f, b, s.e)); else if (s.form & 1) b.returnValue(); else b->opReturn(); return bp;
      case SK::Kill: b->opKill(); form("kill"); return bp;
      case SK::Call: { std::vector<In> a; for (size_t i = 0; i < s.args.size(); ++i) a.push_back(s.args[i] ? ex(f, b, s.args[i]) : vp(f, s.ptrs[i])); Function* q = out.fns[(size_t)s.fn]; In c; if ((s.form & 1) || a.size() > 3) { form("call-dynamic"); List<In> l(m.getAllocator()); for (In x : a) l.emplace_back(x); c = b->callDynamic(q, l); } else { form("call"); switch (a.size()) { case 0: c = b->call(q); break; case 1: c = b->call(q, a[0]); break; case 2: c = b->call(q, a[0], a[1]); break; default: c = b->call(q, a[0], a[1], a[2]); } } chk(c, "call"); if (s.let >= 0) f.lets[(size_t)s.let] = c; return bp; }
      case SK::Phi: { In c = ex(f, b, s.c); In v0 = nullptr, v1 = nullptr; auto arm = [&](BasicBlock& x, const P& e) { In v = ex(f, x, e); if (v->getParentType() != Instruction::ParentType::BasicBlock || v->getBasicBlock() != &x) v = chk(x->opCopyObject(v), "opCopyObject"); return v; }; BasicBlock& mg = b.If(c, [&](BasicBlock& t) { v0 = arm(t, s.args[0]); }, [&](BasicBlock& t) { v1 = arm(t, s.args[1]); }); In q; if (s.form & 1) { form("phi"); q = mg->opPhi(v0, v1); } else { form("phi-dynamic"); List<In> l(m.getAllocator()); l.emplace_back(v0); l.emplace_back(v1); q = mg->opPhiDynamic(l); } f.lets[(size_t)s.let] = chk(q, "opPhi"); return &mg; }
      case SK::If: { In c = ex(f, b, s.c); bool fa = flatb(s.a), fb = flatb(s.b); u32 fm = s.form >> 1; auto mask = (fm & 1) ? spv::SelectionControlMask::Flatten : spv::SelectionControlMask::MaskNone;
        bool rt = rets(s.a) || rets(s.b); // a block has to follow its dominator: a merge block made up front cannot follow nested blocks
        if ((fm & 2) && (fa && fb || !rt)) { form("if-lambda"); BasicBlock* mg = fa && fb && (rt || (fm & 4)) ? nullptr : &f.fn->addBasicBlock(fm & 8 ? "merge" : nullptr); BasicBlock* res; auto body = [&](BasicBlock& x, const std::vector<Stmt>& ss) { BasicBlock* e = blk(f, &x, ss); if (!ends(ss) && (e != &x)) (*e)->opBranch(mg); };
          if (s.n) res = &b.If(c, [&](BasicBlock& x) { body(x, s.a); }, [&](BasicBlock& x) { body(x, s.b); }, mg, mask); else res = &b.If(c, [&](BasicBlock& x) { body(x, s.a); }, mg, mask); return res; }
        form("if-block"); BasicBlock& t = f.fn->addBasicBlock(); BasicBlock* fl = s.n ? &f.fn->addBasicBlock() : nullptr; BasicBlock* e1 = blk(f, &t, s.a); BasicBlock* e2 = fl ? blk(f, fl, s.b) : nullptr; BasicBlock* mg = e1 == &t && !t.empty() && (!fl || (e2 == fl && !fl->empty())) && (fm & 4) ? nullptr : &f.fn->addBasicBlock("m");
        if (!ends(s.a) && (e1 != &t || t.empty())) (*e1)->opBranch(mg); if (fl && !ends(s.b) && (e2 != fl || fl->empty())) (*e2)->opBranch(mg);
        return fl ? &b.If(c, t, *fl, mg, mask) : &b.If(c, t, mg, mask); }
      case SK::Loop: { In cv = vp(f, s.var); const Ty& ct = vty(f, s.var); In zero = api_const(m, ct, {0}), one = api_const(m, ct, {1}), lim = api_const(m, ct, {s.n}); b->opStore(cv, zero);
        auto cond = [&](BasicBlock& x) -> In { In l = x->opLoad(cv); In q = chk(x->Less(l, lim), "Less"); if (s.c) { In g = ex(f, x, s.c); q = chk(x->opLogicalAnd(q, g), "opLogicalAnd"); } return q; }; auto cont = [&](BasicBlock& x) { In l = x->opLoad(cv); In n = chk(x->Add(l, one), "Add"); x->opStore(cv, n); }; auto mask = (s.form & 2) ? spv::LoopControlMask::Unroll : spv::LoopControlMask::MaskNone;
        if (!(s.form & 1)) { form("loop-lambda"); return &b.Loop(cond, cont, [&](BasicBlock& x) { blk(f, &x, s.a); }, nullptr, mask); }
        form("loop-block"); BasicBlock& head = f.fn->addBasicBlock("head"); BasicBlock& cb = f.fn->addBasicBlock(); BasicBlock& body = f.fn->addBasicBlock(); b->opBranch(&head); In q = cond(cb); BasicBlock* end = blk(f, &body, s.a); BasicBlock& ct2 = f.fn->addBasicBlock("cont"); cont(ct2); if (end != &body) (*end)->opBranch(&ct2); BasicBlock* mg = (s.form & 4) ? &f.fn->addBasicBlock() : nullptr; return &head.Loop(q, ct2, body, mg, mask); } }
    return bp; }
  void run() {
    m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450);
    if (p.i64) m.addCapability(spv::Capability::Int64); if (p.f64) m.addCapability(spv::Capability::Float64); if (p.i16) m.addCapability(spv::Capability::Int16); if (p.i8) m.addCapability(spv::Capability::Int8);
    u32 loc[2] = {0, 0};
    for (auto& g : p.globals) { spv::StorageClass sc = g.where == 'i' ? spv::StorageClass::Input : g.where == 'o' ? spv::StorageClass::Output : spv::StorageClass::Private; In init = g.init && g.where == 'p' ? chk(api_const(m, g.ty, g.iv, &r), "initialiser") : nullptr; const char* nm = g.name.empty() ? nullptr : g.name.c_str(); In v; if (r.coin()) v = m.variable(api_type(m, g.ty), sc, nm, init); else v = m.variable(m.addType(api_type(m, g.ty).wrapPointer(sc)), sc, nm, init); chk(v, "variable " + g.ty.str()); out.globals.push_back(v);
      if (g.where != 'p') { u32& l = loc[g.where == 'o']; m.addDecorationInstr()->opDecorate(v, spv::Decoration::Location, l); l += 4; if (g.where == 'i' && p.model == 1 && g.ty.comp().k == Ty::Int) m.addDecorationInstr()->opDecorate(v, spv::Decoration::Flat); } }
    for (auto& fn : p.fns) { Fr f; f.f = &fn; f.lets.resize(fn.lett.size()); Function* q;
      if (fn.entry) { spv::ExecutionModel mo = fn.model == 0 ? spv::ExecutionModel::Vertex : fn.model == 1 ? spv::ExecutionModel::Fragment : spv::ExecutionModel::GLCompute; EntryPoint& e = m.addEntryPoint(mo, fn.name.c_str()); q = &e; if (fn.model == 1) e.addExecutionMode(spv::ExecutionMode::OriginUpperLeft); if (fn.model == 2) e.addExecutionMode(spv::ExecutionMode::LocalSize, 1u, 1u, 1u); }
      else { Function& x = m.addFunction(); x.setReturnType(api_type_instr(m, fn.ret, r)); for (auto& t : fn.params) x.addParameters(t.k == Ty::Ptr ? m.addType(api_type(m, t)) : api_type_instr(m, t, r)); chk(x.finalize(spv::FunctionControlMask::MaskNone, fn.name.empty() ? nullptr : fn.name.c_str()), "Function::finalize"); x.addBasicBlock("entry"); q = &x; }
      out.fns.push_back(q); f.fn = q; f.locals.resize(fn.locals.size()); for (size_t i = 0; i < fn.params.size(); ++i) { In a = chk(q->getParameter((unsigned)i), "getParameter"); if (fn.params[i].k == Ty::Ptr) f.locals[(size_t)fn.param_lets[i] - 1000] = a; else f.lets[(size_t)fn.param_lets[i]] = a; }
      for (size_t i = 0; i < fn.locals.size(); ++i) { auto& v = fn.locals[i]; if (v.where == 'a') continue; In init = v.where == 'f' && v.init ? chk(api_const(m, v.ty, v.iv, &r), "initialiser") : nullptr; const char* nm = v.name.empty() ? nullptr : v.name.c_str(); f.locals[i] = chk(r.coin() ? q->variable(api_type(m, v.ty), nm, init) : q->variable(m.addType(api_type(m, v.ty).wrapPointer(spv::StorageClass::Function)), nm, init), "Function::variable"); }
      blk(f, &(**q), fn.body); } } };
}
Built lower(const Prog& p, Module& m, Rng& r, std::function<void()> between) { Built b; L l{p, m, r, b, between}; try { l.run(); } catch (Rej& e) { b.rejected = e.s; } return b; }
std::string Prog::text() const { std::string s; for (auto& g : globals) s += fmt("%c %s; ", g.where, g.ty.str().c_str()); for (auto& f : fns) s += fmt("fn %s(%zu) %zu stmts; ", f.name.c_str(), f.params.size(), f.body.size()); return s; }
}
