#include "sem.h"
#include <cmath>
#include <spirv/unified1/spirv.h>
#include <spirv/unified1/GLSL.std.450.h>
namespace sem {
using namespace hx;
std::string Ty::str() const { switch (k) { case Void: return "void"; case Bool: return "bool"; case Int: return fmt("%c%u", sgn ? 'i' : 'u', bits); case Float: return fmt("f%u", bits); case Vec: return fmt("%sx%u", sub[0].str().c_str(), n); case Mat: return fmt("mat%u(%s)", n, sub[0].str().c_str()); case Arr: return fmt("%s[%u]", sub[0].str().c_str(), n); case Struct: { std::string s = "{"; for (auto& m : sub) s += m.str() + ","; return s + "}"; } case Ptr: return "ptr(" + sub[0].str() + ")"; default: return "?"; } }
Ty tvoid() { return Ty(); }
Ty tbool() { Ty t; t.k = Ty::Bool; t.bits = 1; return t; }
Ty tint(u32 b, bool s) { Ty t; t.k = Ty::Int; t.bits = b; t.sgn = s; return t; }
Ty tfloat(u32 b) { Ty t; t.k = Ty::Float; t.bits = b; return t; }
static Ty wrap(Ty::K k, const Ty& c, u32 n) { Ty t; t.k = k; t.bits = 0; t.n = n; t.sub = {c}; return t; }
Ty tvec(const Ty& c, u32 n) { return wrap(Ty::Vec, c, n); }
Ty tmat(const Ty& c, u32 n) { return wrap(Ty::Mat, c, n); }
Ty tarr(const Ty& c, u32 n) { return wrap(Ty::Arr, c, n); }
Ty tstruct(std::vector<Ty> m) { Ty t; t.k = Ty::Struct; t.bits = 0; t.n = (u32)m.size(); t.sub = std::move(m); return t; }
Ty tptr(const Ty& e, u32 st) { Ty t = wrap(Ty::Ptr, e, 0); t.storage = st; return t; }
u32 flat(const Ty& t) { switch (t.k) { case Ty::Void: return 0; case Ty::Vec: case Ty::Mat: case Ty::Arr: return t.n * flat(t.sub[0]); case Ty::Struct: { u32 s = 0; for (auto& m : t.sub) s += flat(m); return s; } case Ty::Ptr: return 2; default: return 1; } }
u32 offset(const Ty& t, u32 m) { if (t.k == Ty::Struct) { u32 s = 0; for (u32 i = 0; i < m; ++i) s += flat(t.sub[i]); return s; } return m * flat(t.sub[0]); }
u64 mask(u64 v, u32 b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static i64 sx(u64 v, u32 b) { return b >= 64 ? (i64)v : (i64)(v << (64 - b)) >> (64 - b); }
double todouble(u64 v, u32 b) { if (b == 64) { double d; memcpy(&d, &v, 8); return d; } if (b == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } _Float16 h; uint16_t x = (uint16_t)v; memcpy(&h, &x, 2); return (double)h; }
u64 fromdouble(double d, u32 b) { u64 r = 0; if (b == 64) memcpy(&r, &d, 8); else if (b == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); r = x; } else { _Float16 h = (_Float16)d; uint16_t x; memcpy(&x, &h, 2); r = x; } return r; }
// float operations are carried out in double and rounded once (correctly rounded for + - * / and sqrt)
static u64 f2i(double d, u32 bits, bool sgn) { if (std::isnan(d)) return 0; d = std::trunc(d); if (sgn) { double lo = -std::ldexp(1.0, (int)bits - 1), hi = std::ldexp(1.0, (int)bits - 1); if (d <= lo) return mask((u64)1 << (bits - 1), bits); if (d >= hi) return mask(((u64)1 << (bits - 1)) - 1, bits); return mask((u64)(i64)d, bits); } double hi = std::ldexp(1.0, (int)bits); if (d <= 0) return 0; if (d >= hi) return mask(~0ull, bits); return (u64)d; }
static bool fcmp(u32 op, double a, double b, bool& r) { bool u = std::isnan(a) || std::isnan(b); switch (op) {
  case SpvOpFOrdEqual: r = !u && a == b; return true; case SpvOpFUnordEqual: r = u || a == b; return true; case SpvOpFOrdNotEqual: r = !u && a != b; return true; case SpvOpFUnordNotEqual: r = u || a != b; return true;
  case SpvOpFOrdLessThan: r = !u && a < b; return true; case SpvOpFUnordLessThan: r = u || a < b; return true; case SpvOpFOrdGreaterThan: r = !u && a > b; return true; case SpvOpFUnordGreaterThan: r = u || a > b; return true;
  case SpvOpFOrdLessThanEqual: r = !u && a <= b; return true; case SpvOpFUnordLessThanEqual: r = u || a <= b; return true; case SpvOpFOrdGreaterThanEqual: r = !u && a >= b; return true; case SpvOpFUnordGreaterThanEqual: r = u || a >= b; return true;
  case SpvOpOrdered: r = !u; return true; case SpvOpUnordered: r = u; return true; case SpvOpLessOrGreater: r = !u && a != b; return true; default: return false; } }
// one component; ct: component type of the first operand, rt: component type of the result
static bool comp1(u32 op, const Ty& rt, const Ty& ct, const Ty& ct2, const u64* x, size_t nx, u64& r) {
  u32 b = ct.bits; u64 a = x[0], c = nx > 1 ? x[1] : 0, d = nx > 2 ? x[2] : 0; i64 sa = sx(a, b), sc = sx(c, ct2.bits ? ct2.bits : b);
  auto F = [&](double v) { r = fromdouble(v, rt.bits); return true; }; auto I = [&](u64 v) { r = mask(v, rt.bits); return true; }; auto B = [&](bool v) { r = v; return true; };
  double fa = ct.k == Ty::Float ? todouble(a, b) : 0, fc = ct2.k == Ty::Float && nx > 1 ? todouble(c, ct2.bits) : 0; bool cr;
  switch (op) {
    case SpvOpIAdd: return I(a + c); case SpvOpISub: return I(a - c); case SpvOpIMul: return I(a * c);
    case SpvOpUDiv: return I(c ? a / c : ~0ull); case SpvOpUMod: return I(c ? a % c : a);
    case SpvOpSDiv: return I(!sc ? ~0ull : sc == -1 ? (u64)0 - a : (u64)(sa / sc)); case SpvOpSRem: return I(!sc ? a : sc == -1 ? 0 : (u64)(sa % sc));
    case SpvOpSMod: { if (!sc) return I(a); if (sc == -1) return I(0); i64 m = sa % sc; if (m && ((m < 0) != (sc < 0))) m += sc; return I((u64)m); }
    case SpvOpFAdd: return F(fa + fc); case SpvOpFSub: return F(fa - fc); case SpvOpFMul: return F(fa * fc); case SpvOpFDiv: return F(fa / fc);
    case SpvOpFRem: return F(std::fmod(fa, fc)); case SpvOpFMod: { double m = std::fmod(fa, fc); if (m != 0 && ((m < 0) != (fc < 0))) m += fc; return F(m); }
    case SpvOpSNegate: return I((u64)0 - a); case SpvOpFNegate: r = a ^ (1ull << (b - 1)); return true; case SpvOpNot: return I(~a);
    case SpvOpShiftLeftLogical: return I(c >= b ? 0 : a << c); case SpvOpShiftRightLogical: return I(c >= b ? 0 : a >> c); case SpvOpShiftRightArithmetic: return I((u64)(sa >> std::min<u64>(c, 63)));
    case SpvOpBitwiseOr: return I(a | c); case SpvOpBitwiseAnd: return I(a & c); case SpvOpBitwiseXor: return I(a ^ c);
    case SpvOpBitReverse: { u64 v = 0; for (u32 i = 0; i < b; ++i) if (a >> i & 1) v |= 1ull << (b - 1 - i); return I(v); } case SpvOpBitCount: return I((u64)__builtin_popcountll(a));
    case SpvOpLogicalAnd: return B(a && c); case SpvOpLogicalOr: return B(a || c); case SpvOpLogicalNot: return B(!a); case SpvOpLogicalEqual: return B(!a == !c); case SpvOpLogicalNotEqual: return B(!a != !c);
    case SpvOpIEqual: return B(a == c); case SpvOpINotEqual: return B(a != c); case SpvOpUGreaterThan: return B(a > c); case SpvOpUGreaterThanEqual: return B(a >= c); case SpvOpULessThan: return B(a < c); case SpvOpULessThanEqual: return B(a <= c);
    case SpvOpSGreaterThan: return B(sa > sc); case SpvOpSGreaterThanEqual: return B(sa >= sc); case SpvOpSLessThan: return B(sa < sc); case SpvOpSLessThanEqual: return B(sa <= sc);
    case SpvOpIsNan: return B(std::isnan(fa)); case SpvOpIsInf: return B(std::isinf(fa)); case SpvOpIsFinite: return B(std::isfinite(fa)); case SpvOpIsNormal: return B(b == 32 ? std::isnormal((float)fa) : std::isnormal(fa)); case SpvOpSignBitSet: return B(std::signbit(fa));
    case SpvOpConvertFToU: r = f2i(fa, rt.bits, false); return true; case SpvOpConvertFToS: r = f2i(fa, rt.bits, true); return true; case SpvOpConvertSToF: r = rt.bits == 32 ? fromdouble((double)(float)sa, 32) : fromdouble((double)sa, rt.bits); return true; case SpvOpConvertUToF: r = rt.bits == 32 ? fromdouble((double)(float)a, 32) : fromdouble((double)a, rt.bits); return true;
    case SpvOpUConvert: return I(a); case SpvOpSConvert: return I((u64)sa); case SpvOpFConvert: return F(fa);
    case SpvOpQuantizeToF16: { u64 h = fromdouble(fa, 16); return F(todouble(h, 16)); }
    case SpvOpSatConvertSToU: { double hi = std::ldexp(1.0, (int)rt.bits) - 1; if (sa < 0) return I(0); if ((double)sa > hi) return I(~0ull); return I(a); } case SpvOpSatConvertUToS: { u64 hi = mask(~0ull, rt.bits) >> 1; return I(std::min(a, hi)); }
    case SpvOpSelect: r = a ? c : d; return true; case SpvOpCopyObject: r = a; return true;
    case SpvOpDPdx: case SpvOpDPdy: case SpvOpFwidth: case SpvOpDPdxFine: case SpvOpDPdyFine: case SpvOpFwidthFine: case SpvOpDPdxCoarse: case SpvOpDPdyCoarse: case SpvOpFwidthCoarse: return F(fa * (1 + (op - SpvOpDPdx)) + 0.5); // any injective stand-in: distinguishes the nine instructions
    default: if (fcmp(op, fa, fc, cr)) return B(cr); return false; } }
bool core(u32 op, const Ty& rt, const std::vector<Ty>& at, const std::vector<Val>& a, const std::vector<u32>& imm, Val& out) {
  out.clear(); auto ft = [&](const Ty& t) { return t.comp().bits; }; if (at.empty() && op != SpvOpCompositeConstruct) return false;
  switch (op) {
    case SpvOpBitcast: { std::vector<bool> bits; u32 b = ft(at[0]), rb = ft(rt); for (u64 v : a[0]) for (u32 i = 0; i < b; ++i) bits.push_back(v >> i & 1); if (bits.size() != (size_t)rb * flat(rt)) return false; for (u32 i = 0; i < flat(rt); ++i) { u64 v = 0; for (u32 j = 0; j < rb; ++j) if (bits[i * rb + j]) v |= 1ull << j; out.push_back(v); } return true; }
    case SpvOpVectorTimesScalar: case SpvOpMatrixTimesScalar: for (u64 v : a[0]) { u64 x[2] = {v, a[1][0]}, r; comp1(SpvOpFMul, rt.comp(), rt.comp(), rt.comp(), x, 2, r); out.push_back(r); } return true;
    case SpvOpDot: { double s = 0; u32 b = ft(at[0]); for (size_t i = 0; i < a[0].size(); ++i) s = todouble(fromdouble(s + todouble(fromdouble(todouble(a[0][i], b) * todouble(a[1][i], b), b), b), b), b); out = {fromdouble(s, b)}; return true; }
    case SpvOpVectorTimesMatrix: { u32 b = ft(at[0]), rows = at[0].n; if (at[1].sub[0].n != rows) return false; for (u32 c = 0; c < at[1].n; ++c) { double s = 0; for (u32 r = 0; r < rows; ++r) s = todouble(fromdouble(s + todouble(a[0][r], b) * todouble(a[1][c * rows + r], b), b), b); out.push_back(fromdouble(s, b)); } return true; }
    case SpvOpMatrixTimesVector: { u32 b = ft(at[0]), rows = at[0].sub[0].n; if (at[1].n != at[0].n) return false; for (u32 r = 0; r < rows; ++r) { double s = 0; for (u32 c = 0; c < at[0].n; ++c) s = todouble(fromdouble(s + todouble(a[0][c * rows + r], b) * todouble(a[1][c], b), b), b); out.push_back(fromdouble(s, b)); } return true; }
    case SpvOpMatrixTimesMatrix: { u32 b = ft(at[0]), rows = at[0].sub[0].n, inner = at[0].n, cols = at[1].n; if (at[1].sub[0].n != inner) return false; for (u32 c = 0; c < cols; ++c) for (u32 r = 0; r < rows; ++r) { double s = 0; for (u32 k = 0; k < inner; ++k) s = todouble(fromdouble(s + todouble(a[0][k * rows + r], b) * todouble(a[1][c * inner + k], b), b), b); out.push_back(fromdouble(s, b)); } return true; }
    case SpvOpOuterProduct: { u32 b = ft(at[0]); for (u64 c : a[1]) for (u64 r : a[0]) out.push_back(fromdouble(todouble(c, b) * todouble(r, b), b)); return true; }
    case SpvOpTranspose: { u32 rows = at[0].sub[0].n; for (u32 r = 0; r < rows; ++r) for (u32 c = 0; c < at[0].n; ++c) out.push_back(a[0][c * rows + r]); return true; }
    case SpvOpAny: { bool v = false; for (u64 x : a[0]) v |= x != 0; out = {v}; return true; } case SpvOpAll: { bool v = true; for (u64 x : a[0]) v &= x != 0; out = {v}; return true; }
    case SpvOpBitFieldInsert: case SpvOpBitFieldSExtract: case SpvOpBitFieldUExtract: { u32 b = ft(at[0]); size_t k = op == SpvOpBitFieldInsert ? 2 : 1; u64 off = a[k][0], cnt = a[k + 1][0]; if (off > b) off = b; if (cnt > b - off) cnt = b - off; for (size_t i = 0; i < a[0].size(); ++i) { u64 base = a[0][i]; if (op == SpvOpBitFieldInsert) { u64 m = off >= 64 ? 0 : mask(~0ull, (u32)cnt) << off; if (!cnt) m = 0; out.push_back(mask((base & ~m) | ((off >= 64 ? 0 : a[1][i] << off) & m), b)); } else { u64 v = off >= 64 || !cnt ? 0 : mask(base >> off, (u32)cnt); if (op == SpvOpBitFieldSExtract && cnt) v = mask((u64)sx(v, (u32)cnt), b); out.push_back(v); } } return true; }
    case SpvOpIAddCarry: case SpvOpISubBorrow: case SpvOpUMulExtended: case SpvOpSMulExtended: { u32 b = ft(at[0]); Val lo, hi; for (size_t i = 0; i < a[0].size(); ++i) { u64 x = a[0][i], y = a[1][i]; if (op == SpvOpIAddCarry) { u64 s = mask(x + y, b); lo.push_back(s); hi.push_back(s < x); } else if (op == SpvOpISubBorrow) { lo.push_back(mask(x - y, b)); hi.push_back(x < y); } else if (op == SpvOpUMulExtended) { unsigned __int128 p = (unsigned __int128)x * y; lo.push_back(mask((u64)p, b)); hi.push_back(mask((u64)(p >> b), b)); } else { __int128 p = (__int128)sx(x, b) * sx(y, b); lo.push_back(mask((u64)p, b)); hi.push_back(mask((u64)(p >> b), b)); } } out = lo; out.insert(out.end(), hi.begin(), hi.end()); return true; }
    case SpvOpCompositeConstruct: for (auto& v : a) out.insert(out.end(), v.begin(), v.end()); return out.size() == flat(rt);
    case SpvOpCompositeExtract: { const Ty* t = &at[0]; u32 o = 0; for (u32 i : imm) { if (i >= t->members()) return false; o += offset(*t, i); const Ty* e = &t->elem(i); t = e; } if (o + flat(*t) > a[0].size() || flat(*t) != flat(rt)) return false; out.assign(a[0].begin() + o, a[0].begin() + o + flat(*t)); return true; }
    case SpvOpCompositeInsert: { const Ty* t = &at[1]; u32 o = 0; for (u32 i : imm) { if (i >= t->members()) return false; o += offset(*t, i); t = &t->elem(i); } out = a[1]; if (flat(*t) != a[0].size()) return false; std::copy(a[0].begin(), a[0].end(), out.begin() + o); return true; }
    case SpvOpVectorShuffle: for (u32 i : imm) { u32 n0 = (u32)a[0].size(); if (i == 0xffffffff) out.push_back(0); else if (i < n0) out.push_back(a[0][i]); else if (i - n0 < a[1].size()) out.push_back(a[1][i - n0]); else return false; } return out.size() == flat(rt);
    case SpvOpVectorExtractDynamic: out = {a[1][0] < a[0].size() ? a[0][(size_t)a[1][0]] : 0}; return true;
    case SpvOpVectorInsertDynamic: out = a[0]; if (a[2][0] < out.size()) out[(size_t)a[2][0]] = a[1][0]; return true;
    case SpvOpCopyObject: out = a[0]; return true;
    case SpvOpSelect: if (a[0].size() == 1 && flat(rt) != 1) { out = a[0][0] ? a[1] : a[2]; return true; } break;
    default: break; }
  u32 n = flat(rt); if (rt.k == Ty::Mat || rt.k == Ty::Arr || rt.k == Ty::Struct) return false;
  for (u32 i = 0; i < n; ++i) { u64 x[3] = {0, 0, 0}; for (size_t k = 0; k < a.size() && k < 3; ++k) { if (a[k].size() != n) return false; x[k] = a[k][i]; } u64 r = 0; if (!comp1(op, rt.comp(), at[0].comp(), at.size() > 1 ? at[1].comp() : at[0].comp(), x, a.size(), r)) return false; out.push_back(r); }
  return true; }
static double sgn(double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; }
static double det(std::vector<double> m, u32 n) { double d = 1; for (u32 c = 0; c < n; ++c) { u32 p = c; while (p < n && m[c * n + p] == 0) ++p; if (p == n) return 0; if (p != c) { d = -d; for (u32 k = 0; k < n; ++k) std::swap(m[k * n + p], m[k * n + c]); } d *= m[c * n + c]; for (u32 r = c + 1; r < n; ++r) { double f = m[c * n + r] / m[c * n + c]; for (u32 k = c; k < n; ++k) m[k * n + r] -= f * m[k * n + c]; } } return d; }
bool glsl(u32 op, const Ty& rt, const std::vector<Ty>& at, const std::vector<Val>& a, Val& out) {
  out.clear(); if (a.empty()) return false; const Ty& c = at[0].comp(); u32 b = c.bits; size_t n = a[0].size(); auto D = [&](size_t k, size_t i) { return todouble(a[k][i], at[k].comp().bits); }; auto P = [&](double d) { out.push_back(fromdouble(d, rt.comp().bits)); };
  auto cw = [&](auto f) { for (size_t i = 0; i < n; ++i) { u64 r; f(i, r); out.push_back(r); } return true; };
  auto f1 = [&](auto f) { for (size_t i = 0; i < n; ++i) P(f(D(0, i))); return true; };
  auto f2 = [&](auto f) { for (auto& v : a) if (v.size() != n) return false; for (size_t i = 0; i < n; ++i) P(f(D(0, i), D(1, i))); return true; };
  auto f3 = [&](auto f) { for (auto& v : a) if (v.size() != n) return false; for (size_t i = 0; i < n; ++i) P(f(D(0, i), D(1, i), D(2, i))); return true; };
  auto dot = [&](size_t x, size_t y) { double s = 0; for (size_t i = 0; i < a[x].size(); ++i) s += D(x, i) * D(y, i); return s; };
  auto S = [&](size_t k, size_t i) { return sx(a[k][i], at[k].comp().bits); };
  switch (op) {
    case GLSLstd450Round: return f1([](double x) { return std::floor(x + 0.5); }); case GLSLstd450RoundEven: return f1([](double x) { return std::nearbyint(x); }); case GLSLstd450Trunc: return f1([](double x) { return std::trunc(x); });
    case GLSLstd450FAbs: return f1([](double x) { return std::fabs(x); }); case GLSLstd450FSign: return f1(sgn); case GLSLstd450Floor: return f1([](double x) { return std::floor(x); }); case GLSLstd450Ceil: return f1([](double x) { return std::ceil(x); }); case GLSLstd450Fract: return f1([](double x) { return x - std::floor(x); });
    case GLSLstd450SAbs: return cw([&](size_t i, u64& r) { i64 v = S(0, i); r = mask(v < 0 ? (u64)0 - (u64)v : (u64)v, b); }); case GLSLstd450SSign: return cw([&](size_t i, u64& r) { i64 v = S(0, i); r = mask((u64)(i64)(v > 0 ? 1 : v < 0 ? -1 : 0), b); });
    case GLSLstd450Radians: return f1([](double x) { return x * M_PI / 180; }); case GLSLstd450Degrees: return f1([](double x) { return x * 180 / M_PI; });
    case GLSLstd450Sin: return f1([](double x) { return std::sin(x); }); case GLSLstd450Cos: return f1([](double x) { return std::cos(x); }); case GLSLstd450Tan: return f1([](double x) { return std::tan(x); }); case GLSLstd450Asin: return f1([](double x) { return std::asin(x); }); case GLSLstd450Acos: return f1([](double x) { return std::acos(x); }); case GLSLstd450Atan: return f1([](double x) { return std::atan(x); });
    case GLSLstd450Sinh: return f1([](double x) { return std::sinh(x); }); case GLSLstd450Cosh: return f1([](double x) { return std::cosh(x); }); case GLSLstd450Tanh: return f1([](double x) { return std::tanh(x); }); case GLSLstd450Asinh: return f1([](double x) { return std::asinh(x); }); case GLSLstd450Acosh: return f1([](double x) { return std::acosh(x); }); case GLSLstd450Atanh: return f1([](double x) { return std::atanh(x); });
    case GLSLstd450Atan2: return f2([](double y, double x) { return std::atan2(y, x); }); case GLSLstd450Pow: return f2([](double x, double y) { return std::pow(x, y); }); case GLSLstd450Exp: return f1([](double x) { return std::exp(x); }); case GLSLstd450Log: return f1([](double x) { return std::log(x); }); case GLSLstd450Exp2: return f1([](double x) { return std::exp2(x); }); case GLSLstd450Log2: return f1([](double x) { return std::log2(x); });
    case GLSLstd450Sqrt: return f1([](double x) { return std::sqrt(x); }); case GLSLstd450InverseSqrt: return f1([](double x) { return 1 / std::sqrt(x); });
    case GLSLstd450Determinant: { u32 k = at[0].n; std::vector<double> m; for (size_t i = 0; i < n; ++i) m.push_back(D(0, i)); P(det(m, k)); return true; }
    case GLSLstd450MatrixInverse: { u32 k = at[0].n; std::vector<double> m; for (size_t i = 0; i < n; ++i) m.push_back(D(0, i)); double d = det(m, k); for (u32 cc = 0; cc < k; ++cc) for (u32 r = 0; r < k; ++r) { std::vector<double> q; for (u32 c2 = 0; c2 < k; ++c2) for (u32 r2 = 0; r2 < k; ++r2) if (c2 != r && r2 != cc) q.push_back(m[c2 * k + r2]); P(((cc + r) % 2 ? -1 : 1) * det(q, k - 1) / d); } return true; }
    case GLSLstd450ModfStruct: { Val fr, wh; for (size_t i = 0; i < n; ++i) { double w, f = std::modf(D(0, i), &w); fr.push_back(fromdouble(f, b)); wh.push_back(fromdouble(w, b)); } out = fr; out.insert(out.end(), wh.begin(), wh.end()); return true; }
    case GLSLstd450FrexpStruct: { Val fr, ex; for (size_t i = 0; i < n; ++i) { int e = 0; double v = D(0, i), f = std::isfinite(v) ? std::frexp(v, &e) : v; fr.push_back(fromdouble(f, b)); ex.push_back(mask((u64)(i64)e, 32)); } out = fr; out.insert(out.end(), ex.begin(), ex.end()); return true; }
    case GLSLstd450FMin: return f2([](double x, double y) { return y < x ? y : x; }); case GLSLstd450FMax: return f2([](double x, double y) { return x < y ? y : x; }); case GLSLstd450NMin: return f2([](double x, double y) { return std::isnan(x) ? y : std::isnan(y) ? x : y < x ? y : x; }); case GLSLstd450NMax: return f2([](double x, double y) { return std::isnan(x) ? y : std::isnan(y) ? x : x < y ? y : x; });
    case GLSLstd450UMin: return cw([&](size_t i, u64& r) { r = std::min(a[0][i], a[1][i]); }); case GLSLstd450UMax: return cw([&](size_t i, u64& r) { r = std::max(a[0][i], a[1][i]); });
    case GLSLstd450SMin: return cw([&](size_t i, u64& r) { r = S(0, i) < S(1, i) ? a[0][i] : a[1][i]; }); case GLSLstd450SMax: return cw([&](size_t i, u64& r) { r = S(0, i) > S(1, i) ? a[0][i] : a[1][i]; });
    case GLSLstd450FClamp: case GLSLstd450NClamp: return f3([&](double x, double lo, double hi) { if (op == GLSLstd450NClamp && std::isnan(x)) return lo; double v = x < lo ? lo : x; return hi < v ? hi : v; });
    case GLSLstd450UClamp: return cw([&](size_t i, u64& r) { r = std::min(std::max(a[0][i], a[1][i]), a[2][i]); }); case GLSLstd450SClamp: return cw([&](size_t i, u64& r) { i64 v = std::min(std::max(S(0, i), S(1, i)), S(2, i)); r = mask((u64)v, b); });
    case GLSLstd450FMix: return f3([](double x, double y, double t) { return x * (1 - t) + y * t; }); case GLSLstd450Step: return f2([](double e, double x) { return x < e ? 0.0 : 1.0; });
    case GLSLstd450SmoothStep: return f3([](double e0, double e1, double x) { double t = (x - e0) / (e1 - e0); t = t < 0 ? 0 : t > 1 ? 1 : t; return t * t * (3 - 2 * t); }); case GLSLstd450Fma: return f3([](double x, double y, double z) { return std::fma(x, y, z); });
    case GLSLstd450Ldexp: for (size_t i = 0; i < n; ++i) P(std::ldexp(D(0, i), (int)std::max<i64>(-3000, std::min<i64>(3000, S(1, i))))); return true;
    case GLSLstd450PackSnorm4x8: case GLSLstd450PackUnorm4x8: case GLSLstd450PackSnorm2x16: case GLSLstd450PackUnorm2x16: { bool s = op == GLSLstd450PackSnorm4x8 || op == GLSLstd450PackSnorm2x16; u32 w = (op == GLSLstd450PackSnorm4x8 || op == GLSLstd450PackUnorm4x8) ? 8 : 16; if (n * w != 32) return false; u64 r = 0; for (size_t i = 0; i < n; ++i) { double v = D(0, i); if (std::isnan(v)) v = 0; v = std::min(1.0, std::max(s ? -1.0 : 0.0, v)); i64 q = (i64)std::nearbyint(v * (s ? (w == 8 ? 127 : 32767) : (w == 8 ? 255 : 65535))); r |= mask((u64)q, w) << (w * i); } out = {r}; return true; }
    case GLSLstd450UnpackSnorm4x8: case GLSLstd450UnpackUnorm4x8: case GLSLstd450UnpackSnorm2x16: case GLSLstd450UnpackUnorm2x16: { bool s = op == GLSLstd450UnpackSnorm4x8 || op == GLSLstd450UnpackSnorm2x16; u32 w = (op == GLSLstd450UnpackSnorm4x8 || op == GLSLstd450UnpackUnorm4x8) ? 8 : 16; for (u32 i = 0; i < 32 / w; ++i) { u64 v = mask(a[0][0] >> (w * i), w); P(s ? std::max(-1.0, (double)sx(v, w) / (w == 8 ? 127 : 32767)) : (double)v / (w == 8 ? 255 : 65535)); } return true; }
    case GLSLstd450PackHalf2x16: if (n != 2) return false; out = {fromdouble(D(0, 0), 16) | fromdouble(D(0, 1), 16) << 16}; return true; case GLSLstd450UnpackHalf2x16: P(todouble(mask(a[0][0], 16), 16)); P(todouble(mask(a[0][0] >> 16, 16), 16)); return true;
    case GLSLstd450PackDouble2x32: if (n != 2) return false; out = {a[0][0] | a[0][1] << 32}; return true; case GLSLstd450UnpackDouble2x32: out = {mask(a[0][0], 32), a[0][0] >> 32}; return true;
    case GLSLstd450Length: P(std::sqrt(dot(0, 0))); return true; case GLSLstd450Distance: { double s = 0; for (size_t i = 0; i < n; ++i) s += (D(0, i) - D(1, i)) * (D(0, i) - D(1, i)); P(std::sqrt(s)); return true; }
    case GLSLstd450Cross: if (n != 3) return false; for (size_t i = 0; i < 3; ++i) { size_t j = (i + 1) % 3, k = (i + 2) % 3; P(D(0, j) * D(1, k) - D(1, j) * D(0, k)); } return true;
    case GLSLstd450Normalize: { double l = std::sqrt(dot(0, 0)); for (size_t i = 0; i < n; ++i) P(D(0, i) / l); return true; } case GLSLstd450FaceForward: { double d = dot(2, 1); for (size_t i = 0; i < n; ++i) P(d < 0 ? D(0, i) : -D(0, i)); return true; }
    case GLSLstd450Reflect: { double d = dot(1, 0); for (size_t i = 0; i < n; ++i) P(D(0, i) - 2 * d * D(1, i)); return true; } case GLSLstd450Refract: { double d = dot(1, 0), eta = D(2, 0), k = 1 - eta * eta * (1 - d * d); for (size_t i = 0; i < n; ++i) P(k < 0 ? 0 : eta * D(0, i) - (eta * d + std::sqrt(k)) * D(1, i)); return true; }
    case GLSLstd450FindILsb: return cw([&](size_t i, u64& r) { r = a[0][i] ? (u64)__builtin_ctzll(a[0][i]) : mask(~0ull, rt.comp().bits); }); case GLSLstd450FindUMsb: return cw([&](size_t i, u64& r) { r = a[0][i] ? 63 - (u64)__builtin_clzll(a[0][i]) : mask(~0ull, rt.comp().bits); }); case GLSLstd450FindSMsb: return cw([&](size_t i, u64& r) { u64 v = (u64)S(0, i); if (S(0, i) < 0) v = ~v; r = v ? 63 - (u64)__builtin_clzll(v) : mask(~0ull, rt.comp().bits); });
    default: return false; } }
std::string str(const Ty& t, const Val& v) { std::string s; for (u64 x : v) s += t.k == Ty::Float || (t.k != Ty::Struct && t.k != Ty::Arr && t.comp().k == Ty::Float) ? fmt("%.9g(%llx) ", todouble(x, t.comp().bits), (unsigned long long)x) : fmt("%llx ", (unsigned long long)x); return s; }
bool same(const Ty& t, const Val& a, const Val& b) { if (a.size() != b.size()) return false; if (a.empty()) return true; if (t.k == Ty::Struct || t.k == Ty::Arr || t.k == Ty::Mat || t.k == Ty::Vec) { u32 o = 0; for (u32 i = 0; i < t.members(); ++i) { const Ty& e = t.elem(i); u32 f = flat(e); if (!same(e, Val(a.data() + o, a.data() + o + f), Val(b.data() + o, b.data() + o + f))) return false; o += f; } return true; }
  if (t.k == Ty::Float && a.size() == 1) { double x = todouble(a[0], t.bits), y = todouble(b[0], t.bits); if (std::isnan(x) && std::isnan(y)) return true; } return a == b; }
}
