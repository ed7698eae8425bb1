// Value semantics of SPIR-V instructions on concrete values, shared by the direct evaluator of builder programs and
// by the interpreter of emitted binaries. Undefined cases (division by zero, over-wide shifts, ...) get a fixed meaning:
// only the agreement of both sides matters.
#pragma once
#include "hx.h"
namespace sem {
using hx::u32; using hx::u64; using hx::i64;
struct Ty { enum K { Void, Bool, Int, Float, Vec, Mat, Arr, Struct, Ptr, Other } k = Void; u32 bits = 32; bool sgn = false; u32 n = 0; u32 storage = 0; std::vector<Ty> sub;
  bool operator==(const Ty& o) const { return k == o.k && bits == o.bits && sgn == o.sgn && n == o.n && storage == o.storage && sub == o.sub; }
  bool operator!=(const Ty& o) const { return !(*this == o); }
  const Ty& comp() const { return k == Vec ? sub[0] : k == Mat ? sub[0].sub[0] : *this; }
  u32 len() const { return k == Vec ? n : 1; }
  bool scalar() const { return k == Bool || k == Int || k == Float; }
  u32 members() const { return k == Struct ? (u32)sub.size() : n; }
  const Ty& elem(u32 i) const { return k == Struct ? sub[i] : sub[0]; }
  std::string str() const; };
Ty tvoid(); Ty tbool(); Ty tint(u32 bits, bool sgn); Ty tfloat(u32 bits); Ty tvec(const Ty& c, u32 n); Ty tmat(const Ty& col, u32 n); Ty tarr(const Ty& e, u32 n); Ty tstruct(std::vector<Ty> m); Ty tptr(const Ty& e, u32 storage);
u32 flat(const Ty& t);                       // number of scalars
u32 offset(const Ty& t, u32 member);         // scalar offset of a member
using Val = std::vector<u64>;
u64 mask(u64 v, u32 bits);
double todouble(u64 v, u32 bits); u64 fromdouble(double d, u32 bits);
// componentwise and composite instructions of the core set. false: not a value instruction this knows
bool core(u32 op, const Ty& rt, const std::vector<Ty>& at, const std::vector<Val>& a, const std::vector<u32>& imm, Val& out);
bool glsl(u32 op, const Ty& rt, const std::vector<Ty>& at, const std::vector<Val>& a, Val& out);
std::string str(const Ty& t, const Val& v);
bool same(const Ty& t, const Val& a, const Val& b); // NaN equals NaN
}
