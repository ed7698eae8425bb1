// P09: constants carry exactly the requested value, are unique, and survive the way to SPIR-V and back.
#include "tmodel.h"
#include "gen.h"
#include "build.h"
#include "common/HeapAllocator.h"
#include <cstring>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P09", "a case is one module for which 8..60 constants (scalars of every C++ type with boundary and random bit patterns, vectors, matrices, arrays, structs, nulls, samplers, regular and specialization) are requested by template, Constant object and copies, repeatedly and with one-bit near duplicates; then written, decoded and parsed again; or one parsed grammar generated module; the oracle is a structural model of constants and the decoded binary", 10000, 180000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
using tym::T; using tym::mk;
namespace {
T I(u32 w, u32 s) { return mk(SpvOpTypeInt, {w, s}); } T F(u32 w) { return mk(SpvOpTypeFloat, {w}); } T B() { return mk(SpvOpTypeBool); }
// a constant: op distinguishes null, true, false, scalar, composite, sampler and spec-ness
struct C { u32 op = 0; T t; std::vector<u32> w; std::vector<C> kids; std::string key() const { std::string s = fmt("%u:", op) + t.key() + "="; for (u32 x : w) s += fmt("%x,", x); if (!kids.empty()) { s += "["; for (auto& k : kids) s += k.key() + ";"; s += "]"; } return s; } bool spec() const { return op == SpvOpSpecConstant || op == SpvOpSpecConstantTrue || op == SpvOpSpecConstantFalse || op == SpvOpSpecConstantComposite; } };
std::string str(const C& c) { std::string s = sv::opname(c.op) + std::string(" ") + tym::str(c.t); for (u32 x : c.w) s += fmt(" %#x", x); if (!c.kids.empty()) { s += " {"; for (auto& k : c.kids) s += str(k) + ", "; s += "}"; } return s; }
u32 sop(u32 op, bool spec) { if (!spec) return op; switch (op) { case SpvOpConstant: return SpvOpSpecConstant; case SpvOpConstantTrue: return SpvOpSpecConstantTrue; case SpvOpConstantFalse: return SpvOpSpecConstantFalse; case SpvOpConstantComposite: return SpvOpSpecConstantComposite; default: return op; } }
// bit patterns of interest for a width
u64 bits(Rng& r, u32 w) { u64 m = w == 64 ? ~0ull : (1ull << w) - 1; switch (r.below(9)) { case 0: return 0; case 1: return 1; case 2: return m; case 3: return 1ull << (w - 1); case 4: return m >> 1; case 5: return (u64)r.below(200) & m; case 6: { static const u64 f32[] = {0x80000000u, 0x7fc00000u, 0x7fa00001u, 0xffc12345u, 0x7f800000u, 0xff800000u, 0x00000001u, 0x7f7fffffu}, f64[] = {0x8000000000000000ull, 0x7ff8000000000000ull, 0x7ff4000000000001ull, 0xfff8123456789abcull, 0x7ff0000000000000ull, 1ull, 0x0000000100000002ull, 0xffffffff00000000ull}, f16[] = {0x8000, 0x7e00, 0x7c01, 0xfe12, 0x7c00, 1, 0x3c00, 0xfbff}; u32 i = r.below(8); return (w == 64 ? f64[i] : w == 32 ? f32[i] : w == 16 ? f16[i] : (u64)r.u()) & m; } default: return r.u() & m; } }
std::vector<u32> words(const T& t, u64 b) { u32 w = t.lit[0]; if (w == 64) return {(u32)b, (u32)(b >> 32)}; if (t.op == SpvOpTypeInt && t.lit[1] && w < 32 && (b >> (w - 1) & 1)) return {(u32)b | ~((1u << w) - 1)}; return {(u32)b}; }
C scalar(const T& t, u64 b, bool spec) { C c; c.t = t; if (t.op == SpvOpTypeBool) c.op = sop(b & 1 ? SpvOpConstantTrue : SpvOpConstantFalse, spec); else { c.op = sop(SpvOpConstant, spec); c.w = words(t, b); } return c; }
C comp(T t, std::vector<C> k, bool spec) { C c; c.op = sop(SpvOpConstantComposite, spec); c.t = std::move(t); c.kids = std::move(k); return c; }
C null(const T& t) { C c; c.op = SpvOpConstantNull; c.t = t; return c; }
bool can_null(const T& t) { switch (t.op) { case SpvOpTypeBool: case SpvOpTypeInt: case SpvOpTypeFloat: case SpvOpTypeVector: case SpvOpTypeMatrix: case SpvOpTypePointer: case SpvOpTypeEvent: case SpvOpTypeDeviceEvent: case SpvOpTypeReserveId: case SpvOpTypeQueue: return true; case SpvOpTypeArray: case SpvOpTypeStruct: for (auto& k : t.kids) if (!can_null(k)) return false; return true; default: return false; } }
// type of which composites of constants can be made
T ctype(Rng& r, int d) { switch (d <= 0 ? r.below(3) : r.below(7)) { case 0: case 1: return tym::scalar(r); case 2: return tym::vec(r); case 3: return mk(SpvOpTypeMatrix, {(u32)r.range(2, 4)}, {tym::fvec(r)}); case 4: return mk(SpvOpTypeArray, {(u32)r.range(1, 5)}, {ctype(r, d - 1)}); default: { T t = mk(SpvOpTypeStruct); for (u32 i = 0, n = (u32)r.range(1, 4); i < n; ++i) t.kids.push_back(ctype(r, d - 1)); return t; } } }
C any(const T& t, Rng& r, bool spec, bool top = true) { if (t.op == SpvOpTypeBool) return scalar(t, r.u(), spec && (top || r.coin())); if (t.op == SpvOpTypeInt || t.op == SpvOpTypeFloat) return scalar(t, bits(r, t.lit[0]), spec && (top || r.coin())); if (r.chance(1, top ? 20 : 8) && can_null(t)) return null(t); u32 n = t.op == SpvOpTypeStruct ? (u32)t.kids.size() : t.lit[0]; std::vector<C> k; for (u32 i = 0; i < n; ++i) k.push_back(any(t.op == SpvOpTypeStruct ? t.kids[i] : t.kids[0], r, spec, false)); return comp(t, k, spec); }
C sampler(u32 a, u32 p, u32 f) { C c; c.op = SpvOpConstantSampler; c.t = mk(SpvOpTypeSampler); c.w = {a, p, f}; return c; }
C mutate(const C& c, Rng& r) { C m = c; if (!m.kids.empty()) { u32 i = r.below((u32)m.kids.size()); if (m.kids.size() > 1 && r.chance(1, 3) && m.kids[0].t == m.kids.back().t) { std::swap(m.kids[0], m.kids.back()); return m; } m.kids[i] = mutate(m.kids[i], r); if (m.kids[i].spec()) m.op = SpvOpSpecConstantComposite; return m; }
  if (c.op == SpvOpConstantSampler) { u32 i = r.below(3); m.w[i] = (m.w[i] + 1) % (i == 0 ? 5 : 2); return m; } if (m.t.op == SpvOpTypeBool && c.op != SpvOpConstantNull) return scalar(m.t, c.op == SpvOpConstantFalse || c.op == SpvOpSpecConstantFalse, c.spec());
  if ((m.t.op == SpvOpTypeInt || m.t.op == SpvOpTypeFloat)) { u32 w = m.t.lit[0]; if (c.op == SpvOpConstantNull) return scalar(m.t, 0, false); u64 b = c.w[0]; if (w == 64) b |= (u64)c.w[1] << 32; else if (w < 32) b &= (1u << w) - 1; return scalar(m.t, b ^ 1ull << r.below(w), c.spec()); } if (m.t.op == SpvOpTypeVector || m.t.op == SpvOpTypeMatrix) return any(m.t, r, false); m.t = mk(SpvOpTypeStruct, {}, {m.t, F(32)}); return m; }
void fill(Constant& d, const C& c, Rng& r) { d.setOperation((spv::Op)c.op); tym::fill(d.getType(), c.t, r); if (r.coin()) { Type t = d.getType(); d.getType() = t; } bool b = c.t.op == SpvOpTypeBool && c.op != SpvOpConstantNull; if (b) d.addData(c.op == SpvOpConstantTrue || c.op == SpvOpSpecConstantTrue); for (u32 x : c.w) if (r.coin()) d.getData().emplace_back(x); else d.addData(x);
  for (auto& k : c.kids) { if (r.coin()) fill(d.Component(), k, r); else { Constant s(d.getComponents().getAllocator()); fill(s, k, r); if (r.coin()) d.Component() = s; else d.Component() = std::move(s); } } }
C from(const Constant& d) { C c; c.op = (u32)d.getOperation(); c.t = tym::from(d.getType()); for (u32 x : d.getData()) c.w.push_back(x); if (c.t.op == SpvOpTypeBool) c.w.clear(); for (auto& k : d.getComponents()) c.kids.push_back(from(k)); return c; }
bool decode(const tym::Bin& b, u32 id, C& c, int depth = 0) { auto it = b.def.find(id); if (it == b.def.end() || depth > 60) return false; const sv::Ins& i = *it->second; c = C{}; c.op = i.op; if (!sv::is_const(i.op) || i.op == SpvOpSpecConstantOp || !b.type(i.type, c.t)) return false; switch (i.op) { case SpvOpConstant: case SpvOpSpecConstant: case SpvOpConstantSampler: c.w.assign(i.w.begin() + 3, i.w.end()); return true; case SpvOpConstantComposite: case SpvOpSpecConstantComposite: for (size_t k = 3; k < i.w.size(); ++k) { C x; if (!decode(b, i.w[k], x, depth + 1)) return false; c.kids.push_back(x); } return true; default: return i.w.size() == 3; } }
bool typed(const C& c) { switch (c.op) { case SpvOpConstant: case SpvOpSpecConstant: return c.t.op == SpvOpTypeInt || c.t.op == SpvOpTypeFloat; case SpvOpConstantSampler: return c.t.op == SpvOpTypeSampler; case SpvOpConstantTrue: case SpvOpConstantFalse: case SpvOpSpecConstantTrue: case SpvOpSpecConstantFalse: return c.t.op == SpvOpTypeBool; case SpvOpConstantComposite: case SpvOpSpecConstantComposite: for (auto& k : c.kids) if (!typed(k)) return false; return c.t.op == SpvOpTypeVector || c.t.op == SpvOpTypeMatrix || c.t.op == SpvOpTypeArray || c.t.op == SpvOpTypeStruct; default: return true; } }
// template requests
struct Req { C c; std::function<Instruction*(Module&, const char*)> f; std::function<Constant&(Constant&)> make; std::function<std::string(const Constant&)> get; };
template <class X> T tof() { if constexpr (std::is_same_v<X, bool>) return B(); else if constexpr (std::is_floating_point_v<X>) return F(sizeof(X) * 8); else return I(sizeof(X) * 8, std::is_signed_v<X>); }
template <class X> X val(Rng& r, u64& b) { if constexpr (std::is_same_v<X, bool>) { b = r.below(2); return b != 0; } else { b = bits(r, sizeof(X) * 8); X x; std::memcpy(&x, &b, sizeof(X)); return x; } }
template <class X> std::string dataAs(const Constant& c, const X& x) { const X* p = c.getDataAs<X>(); if (!p) return "nothing"; if (std::memcmp(p, &x, sizeof x)) return "another value"; struct Big { u64 w[3]; }; if (c.getDataAs<Big>(false)) return "more words than the constant has"; if (const X* u = c.getDataAs<X>(false); u != p) return "another address without the type check"; if constexpr (!std::is_same_v<X, float>) { if (c.getDataAs<float>()) return "a value of another type"; } else if (c.getDataAs<int>()) return "a value of another type"; return ""; }
template <class V> Req finish(C c, V v, bool spec, Rng& r) { Req q; q.c = c; bool s2 = r.coin(); q.f = [v, spec, s2](Module& m, const char* n) { return spec && s2 ? m.specConstant(v, n) : m.constant(v, spec, n); }; q.make = [v, spec](Constant& d) -> Constant& { return d.make(v, spec); }; q.get = [](const Constant&) { return std::string(); }; return q; }
template <class X> Req rs(Rng& r, bool spec) { u64 b; X x = val<X>(r, b); Req q = finish(scalar(tof<X>(), b, spec), x, spec, r); q.get = [x](const Constant& c) { return dataAs(c, x); }; return q; }
template <class X, unsigned N> const_vector_t<X, N> vv(Rng& r, C& c, bool spec, bool kspec) { const_vector_t<X, N> v; std::vector<C> k; for (auto& x : v.data) { u64 b; x = val<X>(r, b); k.push_back(scalar(tof<X>(), b, kspec)); } c = comp(mk(SpvOpTypeVector, {N}, {tof<X>()}), k, spec); return v; }
template <class X, unsigned N> Req rv(Rng& r, bool spec) { C c; auto v = vv<X, N>(r, c, spec, false); if (r.coin()) { if constexpr (N == 2) v = make_vector(v.data[0], v.data[1]); else v = make_vector(v.data); } return finish(c, v, spec, r); }
template <class X, unsigned Co, unsigned Ro> const_matrix_t<X, Co, Ro> mm(Rng& r, C& c, bool spec) { const_matrix_t<X, Co, Ro> v; std::vector<C> k; for (auto& col : v.data) { C x; col = vv<X, Ro>(r, x, false, false); k.push_back(x); } c = comp(mk(SpvOpTypeMatrix, {Co}, {mk(SpvOpTypeVector, {Ro}, {tof<X>()})}), k, spec); return v; }
template <class X, unsigned Co, unsigned Ro> Req rm(Rng& r, bool spec) { C c; auto v = mm<X, Co, Ro>(r, c, spec); if (r.coin()) { if constexpr (Co == 2) v = make_matrix(v.data[0], v.data[1]); else { X raw[Co][Ro]; for (unsigned i = 0; i < Co; ++i) for (unsigned j = 0; j < Ro; ++j) raw[i][j] = v.data[i].data[j]; v = make_matrix(raw); } } return finish(c, v, spec, r); }
template <class X, unsigned N> Req ra(Rng& r, bool spec) { const_array_t<X, N> v; std::vector<C> k; for (auto& x : v.data) { u64 b; x = val<X>(r, b); k.push_back(scalar(tof<X>(), b, false)); } if (r.coin()) { if constexpr (N == 3) v = make_array(v.data[0], v.data[1], v.data[2]); else v = make_array(v.data); } return finish(comp(mk(SpvOpTypeArray, {N}, {tof<X>()}), k, spec), v, spec, r); }
Req rav(Rng& r, bool spec) { const_array_t<const_vector_t<int, 3>, 2> v; std::vector<C> k; for (auto& x : v.data) { C c; x = vv<int, 3>(r, c, false, false); k.push_back(c); } return finish(comp(mk(SpvOpTypeArray, {2}, {mk(SpvOpTypeVector, {3}, {I(32, 1)})}), k, spec), v, spec, r); }
Req ram(Rng& r, bool spec) { const_array_t<const_array_t<const_matrix_t<float, 2, 2>, 2>, 2> v; std::vector<C> o; for (auto& x : v.data) { std::vector<C> k; for (auto& y : x.data) { C c; y = mm<float, 2, 2>(r, c, false); k.push_back(c); } o.push_back(comp(mk(SpvOpTypeArray, {2}, {k[0].t}), k, false)); } return finish(comp(mk(SpvOpTypeArray, {2}, {o[0].t}), o, spec), v, spec, r); }
template <class X> Req rn(Rng& r, T t) { return finish(null(t), const_null_t<X>{}, false, r); }
Req rsam(Rng& r) { const_sampler_t s; u32 a = r.below(5), p = r.below(2), f = r.below(2); s.addressMode = (spv::SamplerAddressingMode)a; s.coordMode = (ConstantSamplerCoordMode)p; s.filterMode = (spv::SamplerFilterMode)f; return finish(sampler(a, p, f), s, false, r); }
Req tpl(Rng& r) { bool s = r.chance(1, 4); switch (r.below(44)) { case 0: case 1: return rs<bool>(r, s); case 2: case 3: return rs<char>(r, s); case 4: return rs<unsigned char>(r, s); case 5: case 6: return rs<short>(r, s); case 7: return rs<unsigned short>(r, s); case 8: case 9: return rs<int>(r, s); case 10: case 11: return rs<unsigned int>(r, s); case 12: case 13: return rs<long long>(r, s); case 14: return rs<unsigned long long>(r, s); case 15: return rs<long long>(r, s); case 16: return rs<unsigned long long>(r, s); case 17: case 18: return rs<float>(r, s); case 19: case 20: return rs<double>(r, s);
    case 21: return rv<float, 2>(r, s); case 22: return rv<double, 3>(r, s); case 23: return rv<int, 4>(r, s); case 24: return rv<bool, 2>(r, s); case 25: return rv<char, 3>(r, s); case 26: return rv<long long, 2>(r, s); case 27: return rv<unsigned short, 4>(r, s); case 28: return rm<float, 2, 3>(r, s); case 29: return rm<double, 4, 2>(r, s); case 30: return rm<float, 3, 3>(r, s); case 31: return ra<int, 3>(r, s); case 32: return ra<float, 5>(r, s); case 33: return ra<short, 2>(r, s); case 34: return ra<bool, 4>(r, s); case 35: return rav(r, s); case 36: return ram(r, s);
    case 37: return rn<float>(r, F(32)); case 38: return rn<int>(r, I(32, 1)); case 39: return rn<vector_t<float, 3>>(r, mk(SpvOpTypeVector, {3}, {F(32)})); case 40: return rn<array_t<matrix_t<float, 2, 2>, 4>>(r, mk(SpvOpTypeArray, {4}, {mk(SpvOpTypeMatrix, {2}, {mk(SpvOpTypeVector, {2}, {F(32)})})})); case 41: return rn<bool>(r, B()); case 42: return rn<event_t>(r, mk(SpvOpTypeEvent)); default: return rsam(r); } }
struct K { Module& m; Log& log; Rng& r; std::map<std::string, Instruction*> byKey; std::map<Instruction*, C> byInstr;
  void note(const C& c, Instruction* i, const char* how, size_t before, bool fresh_ok) { count("requests"); count(std::string("by_") + how); std::string k = c.key(), tag = std::string(how) + ":" + sv::opname(c.op) + ":" + sv::opname(c.t.op) + (c.t.lit.size() && c.t.op != SpvOpTypeArray ? fmt("%u", c.t.lit[0]) : ""); if (log.errors) { violation("request-rejected:" + tag, log.last + " for " + str(c)); log.errors = 0; return; } if (!i || !i->isSpecOrConstant()) { violation("no-constant-instruction:" + tag, str(c)); return; }
    auto q = byInstr.find(i); if (c.spec()) { count("spec"); if (q != byInstr.end()) violation("spec-shared:" + tag, str(c) + " has the instruction of " + str(q->second)); byInstr[i] = c; } else { auto it = byKey.find(k); if (it != byKey.end()) { if (it->second != i) violation("duplicate:" + tag, "another instruction for " + str(c)); else if (m.getTypesAndConstants().size() != before) violation("grew:" + tag, str(c)); count("known"); } else { if (q != byInstr.end()) { violation("not-distinguished:" + tag, str(c) + " has the instruction of " + str(q->second)); return; } if (!fresh_ok) violation("missing:" + tag, str(c)); byKey[k] = i; byInstr[i] = c; count("fresh"); } }
    const Constant* d = m.getConstantInfo(i); if (!d) { violation("no-info:" + tag, str(c)); return; } if (from(*d).key() != k) violation("info:" + tag, "requested " + str(c) + ", info says " + str(from(*d))); if (i->getOperation() != (spv::Op)c.op) violation("opcode:" + tag, str(c)); if (i->isSpecOrConstant() != true) violation("isSpecOrConstant", str(c)); const Type* ty = i->getType(); if (!ty || !(tym::from(*ty) == c.t)) violation("type:" + tag, str(c)); kids(c, i); }
  // constituents are constants of their own
  void kids(const C& c, Instruction* i) { if (c.kids.empty()) return; size_t n = 0; for (auto it = i->getFirstActualOperand(), e = i->end(); it != e; ++it, ++n) { if (n >= c.kids.size()) break; Instruction* s = it->getInstruction(); if (!s) { violation("component", str(c)); return; } auto q = byInstr.find(s); if (q == byInstr.end()) { if (!c.kids[n].spec()) byKey[c.kids[n].key()] = s; byInstr[s] = c.kids[n]; } else if (q->second.key() != c.kids[n].key()) violation("component-other", str(c) + " has " + str(q->second)); kids(c.kids[n], s); } if (n != c.kids.size()) violation("component-count", str(c)); }
  void request(const C& c, bool fresh_ok = true) { size_t n = m.getTypesAndConstants().size(); const char* name = r.chance(1, 10) ? "n" : nullptr; switch (r.below(4)) { case 0: { Constant d = m.newConstant(); fill(d, c, r); note(c, m.addConstant(d, name), "object", n, fresh_ok); break; } case 1: { Constant d = m.newConstant(); fill(d, c, r); Constant e(d), f = m.newConstant(); if (r.coin()) f.make(3.5f); f = e; Constant h(std::move(f)), k = m.newConstant(); if (r.coin()) k.make(make_vector(1, 2)); k = std::move(h); note(c, m.addConstant(k, name), "copy", n, fresh_ok); break; }
      case 2: { Constant d = m.newConstant(); Req q = tpl(r); q.make(d); d.reset(); fill(d, c, r); note(c, m.addConstant(d, name), "reused", n, fresh_ok); break; } default: { Constant d = m.newConstant(); fill(d, c, r); Constant e = m.newConstant(); fill(e, c, r); if (Hasher<Constant>()(d, 7) != Hasher<Constant>()(e, 7)) violation("hash", str(c)); note(c, m.addConstant(e, name), "twin", n, fresh_ok); } } }
  C request(const Req& q) { size_t n = m.getTypesAndConstants().size(); Instruction* i; if (r.coin()) i = q.f(m, r.chance(1, 10) ? "t" : nullptr); else { Constant d = m.newConstant(); if (r.chance(1, 3)) tpl(r).make(d); q.make(d); i = m.addConstant(d); } note(q.c, i, "template", n, true); if (const Constant* d = m.getConstantInfo(i)) if (std::string e = q.get(*d); !e.empty()) violation("getDataAs", e + " for " + str(q.c)); return q.c; } };
void parsed(const std::vector<u32>& w, Rng& r, const std::vector<Req>* reqs) { sv::Mod sm; std::string err; if (!sv::decode(w, sm, &err)) { count("undecodable"); return; } tym::Bin bin(sm); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(w); if (!m.readAndInit(rd, *g)) { if (reqs) violation("not-parsed", log.last); else count("rejected"); return; } log.errors = 0; count("parsed"); size_t n0 = m.getTypesAndConstants().size(); std::map<u32, Instruction*> byId; for (auto& i : m.getTypesAndConstants()) byId[(u32)i.getResultId()] = &i;
    std::map<Instruction*, C> expect; std::vector<std::pair<C, Instruction*>> all; for (auto& i : sm.ins) if (sv::is_const(i.op)) { auto q = byId.find(i.result); if (q == byId.end()) { violation("constant-lost", sv::str(i)); continue; } C c; if (!decode(bin, i.result, c)) { count("not_representable"); continue; } if (!typed(c)) { count("ill_typed"); continue; } const Constant* d = m.getConstantInfo(q->second); std::string op = sv::opname(i.op); if (!d) { violation("parsed-no-info:" + op, sv::str(i)); continue; } if (from(*d).key() != c.key()) { violation("parsed-info:" + op, "binary " + str(c) + ", info " + str(from(*d))); continue; } expect[q->second] = c; all.push_back({c, q->second}); count("parsed_constants"); }
    for (auto& [c, in] : all) { if (c.spec()) continue; Constant d = m.newConstant(); fill(d, c, r); Instruction* i = m.addConstant(d); auto q = expect.find(i); if (q == expect.end()) violation("parsed-request:" + std::string(sv::opname(c.op)), "not the one of the parsed module was returned for " + str(c)); else if (q->second.key() != c.key()) violation("parsed-request-other", str(c)); }
    if (m.getTypesAndConstants().size() != n0) violation("parsed-grew", fmt("requesting the constants of the parsed module added %zu instructions", m.getTypesAndConstants().size() - n0)); if (log.errors) { violation("parsed-error", log.last); log.errors = 0; }
    if (reqs) for (auto& q : *reqs) if (!q.c.spec()) { Instruction* i = q.f(m, nullptr); if (m.getTypesAndConstants().size() != n0) { violation("parsed-template", str(q.c)); break; } if (const Constant* d = m.getConstantInfo(i)) if (std::string e = q.get(*d); !e.empty()) violation("parsed-getDataAs", e + " for " + str(q.c)); }
    // constants whose type differs only in that the array length is not a specialization constant
    for (auto& i : sm.ins) if (i.op == SpvOpConstantNull || i.op == SpvOpConstantComposite) { auto t = bin.def.find(i.type); if (t == bin.def.end() || t->second->op != SpvOpTypeArray) continue; auto c = bin.def.find(t->second->w[3]); if (c == bin.def.end() || c->second->op != SpvOpSpecConstant || c->second->w.size() != 4) continue; C x; T e; if (!bin.type(t->second->w[2], e)) continue; T at = mk(SpvOpTypeArray, {c->second->w[3]}, {e}); if (!can_null(at)) continue; x = null(at); Constant d = m.newConstant(); fill(d, x, r); Instruction* ci = m.addConstant(d); count("spec_length"); Type ty = m.newType(); tym::fill(ty, at, r); if (!ci || ci->getResultTypeInstr() != m.addType(ty)) violation("spec-length-constant", "a constant of the array type with specialization constant length was returned for " + str(x)); }
    for (u32 j = 0; j < 6 && !all.empty(); ++j) { C c = mutate(r.pick(all).first, r); if (c.spec()) continue; bool had = false; for (auto& a : all) had |= a.first.key() == c.key(); Constant d = m.newConstant(); fill(d, c, r); Instruction* i = m.addConstant(d); bool old = expect.count(i); if (old != had) violation("parsed-new:" + std::string(sv::opname(c.op)), std::string(old ? "an existing instruction was returned for " : "a new instruction was added for ") + str(c)); if (!old) { expect[i] = c; all.push_back({c, i}); } for (auto k = i->getFirstActualOperand(); k != i->end(); ++k) if (Instruction* s = k->getInstruction(); s && !expect.count(s) && m.getConstantInfo(s)) { C kc = from(*m.getConstantInfo(s)); expect[s] = kc; all.push_back({kc, s}); } } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
}
// operations on specialization constants: the opcode and the operands asked for, in an order SPIR-V accepts
static void specops(Rng& r) {
  TrackAlloc al; Log log; std::vector<u32> w; struct W { const Instruction* i; u32 op; std::vector<const Instruction*> a; }; std::vector<W> made; std::map<const Instruction*, u32> ids; {
    Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); m.type<bool>();
    bool sg = r.coin(); std::vector<Instruction*> v; for (u32 k = r.range(2, 4); k; --k) { u32 x = r.u(); Instruction* c = sg ? m.constant((int)x, r.chance(3, 4)) : m.constant(x, r.chance(3, 4)); v.push_back(c); } std::vector<Instruction*> bools; std::string hist;
    for (u32 k = r.range(1, 6); k; --k) { Instruction *a = r.pick(v), *b = r.pick(v), *i = m.addConstantInstr(); u32 q = r.below(bools.empty() ? 8 : 9); W x; x.i = i; x.a = {a, b};
      switch (q) { case 0: i->opIAdd(a, b); x.op = SpvOpIAdd; break; case 1: i->opISub(a, b); x.op = SpvOpISub; break; case 2: i->opIMul(a, b); x.op = SpvOpIMul; break; case 3: i->opBitwiseXor(a, b); x.op = SpvOpBitwiseXor; break; case 4: i->opNot(a); x.op = SpvOpNot; x.a = {a}; break; case 5: i->opIEqual(a, b); x.op = SpvOpIEqual; break; case 6: i->opShiftLeftLogical(a, b); x.op = SpvOpShiftLeftLogical; break; case 7: break; default: { Instruction* c = r.pick(bools); i->opSelect(c, a, b); x.op = SpvOpSelect; x.a = {c, a, b}; } }
      if (q == 7) { i->opSpecConstantOp(a->getResultTypeInstr(), spv::Op::OpBitwiseOr, a, b); x.op = SpvOpBitwiseOr; } else if (i->isErrorInstr()) { violation("specop-refused", std::string(sv::opname(x.op)) + ": " + log.last); return; } else if (Instruction* t = i->toSpecOp(); t != i) { violation("specop-return", std::string(sv::opname(x.op)) + ": " + log.last); return; }
      if (i->getOperation() != spv::Op::OpSpecConstantOp || !i->isSpecOrConstant()) violation("specop-opcode", fmt("%u", (u32)i->getOperation()));
      if (!i->getResultTypeInstr() || (q != 5 && i->getResultTypeInstr() != a->getResultTypeInstr())) violation("specop-type", sv::opname(x.op)); hist += std::string(" ") + sv::opname(x.op); (q == 5 ? bools : v).push_back(i); made.push_back(x); }
    VecWriter vw; if (log.errors || !m.finalizeAndWrite(vw, g)) { violation("specop-write", hist + ": " + log.last); return; } w = vw.w; distinct(fnv(w)); for (auto& x : made) { ids[x.i] = (u32)x.i->getResultId(); for (auto* a : x.a) ids[a] = (u32)a->getResultId(); }
    std::string err; if (!sv::validate(w, &err)) { violation("specop-invalid", hist + ": " + err + sv::disasm(w)); return; } sv::Mod sm; sv::decode(w, sm, &err); std::map<u32, const sv::Ins*> by; size_t n = 0; for (auto& i : sm.ins) { if (i.result) by[i.result] = &i; n += i.op == SpvOpSpecConstantOp; } if (n != made.size()) violation("specop-count", fmt("%zu of %zu", n, made.size()));
    for (auto& x : made) { auto q = by.find(ids[x.i]); std::vector<u32> e{x.op}; for (auto* a : x.a) e.push_back(ids[a]); if (q == by.end() || q->second->op != SpvOpSpecConstantOp || std::vector<u32>(q->second->w.begin() + 3, q->second->w.end()) != e) violation("specop-words:" + std::string(sv::opname(x.op)), q == by.end() ? "missing" : sv::str(*q->second)); count("specops"); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("specop-allocation", e);
}
// a type nothing has declared yet, inferred for an operation among the constants
static void specop_new_type() {
  TrackAlloc al; Log log; Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450);
  Instruction *a = m.constant(1u, true), *i = m.addConstantInstr(); i->opIEqual(a, a)->toSpecOp(); VecWriter vw; std::string err; if (log.errors || !m.finalizeAndWrite(vw, g)) { violation("specop-write", log.last); return; }
  if (!sv::validate(vw.w, &err)) violation("specop-new-type:IEqual", err + sv::disasm(vw.w)); count("specop_new_type");
}
void hx::run_case(u64 idx, Rng& r) {
  if (idx == 0) specop_new_type();
  if (r.chance(1, 24)) { specops(r); return; }
  u32 mode = r.below(8); if (mode >= 6) { std::vector<u32> w; if (mode == 6) { gen::Opt o; o.size = r.range(2, 20); o.any_op = false; w = gen::module(r, o); } else { build::Opt o; o.size = 2; TrackAlloc al; Log log; Module m(&al, &log); build::Prog p = build::random(r, o); build::Built b = build::lower(p, m, r); VecWriter vw; if (!b.rejected.empty() || log.errors || !m.finalizeAndWrite(vw, g)) { count("rejected"); return; } w = vw.w; } distinct(fnv(w)); count(mode == 6 ? "mode_generated" : "mode_program"); parsed(w, r, nullptr); return; }
  TrackAlloc al; std::vector<u32> w; std::vector<Req> reqs; std::vector<C> all; { Log log; Module m(&al, &log); K k{m, log, r, {}, {}}; if (r.coin()) { m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); }
    { C c = scalar(I(32, 0), 1, false); k.request(c); for (u32 i = 1; i < 6; ++i) k.request(scalar(I(32, 0), i, false)); } // array lengths
    for (u32 i = 0, n = r.chance(1, 4) ? r.range(20, 60) : r.range(8, 20); i < n; ++i) { if (r.chance(2, 5)) { reqs.push_back(!reqs.empty() && r.chance(1, 3) ? Req(r.pick(reqs)) : tpl(r)); all.push_back(k.request(reqs.back())); continue; } C c; if (!all.empty() && r.chance(1, 2)) { c = r.pick(all); if (r.chance(2, 3)) c = mutate(c, r); } else if (r.chance(1, 12)) c = sampler(r.below(5), r.below(2), r.below(2)); else if (r.chance(1, 6)) { T t = tym::any(r, 2); c = can_null(t) ? null(t) : any(tym::scalar(r), r, false); } else c = any(ctype(r, (int)r.below(4)), r, r.chance(1, 5)); k.request(c); all.push_back(c); }
    for (auto& c : all) if (!c.spec()) k.request(c, false);
    VecWriter vw; m.assignIDs(g); std::map<u32, C> want; for (auto& q : k.byInstr) want[(u32)q.first->getResultId()] = q.second; if (!m.write(vw)) { violation("write", log.last); return; } w = vw.w; distinct(fnv(w));
    sv::Mod sm; std::string err; if (!sv::decode(w, sm, &err)) { violation("undecodable", err); return; } tym::Bin bin(sm); size_t n = 0; for (auto& i : sm.ins) if (sv::is_const(i.op)) { C c; std::string op = sv::opname(i.op); if (!decode(bin, i.result, c)) { violation("emitted-unknown:" + op, sv::str(i)); continue; } auto q = want.find(i.result); if (q == want.end()) { if (!(c.op == SpvOpConstant && c.t == I(32, 0))) violation("emitted-extra:" + op, str(c)); continue; } ++n; if (q->second.key() != c.key()) violation("emitted:" + op, "requested " + str(q->second) + ", emitted " + str(c)); } if (n != want.size()) violation("emitted-count", fmt("%zu of %zu constants emitted", n, want.size())); count("constants_emitted", n); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e);
  bool change = r.chance(1, 4); if (change) { sv::Mod sm; std::string err; sv::decode(w, sm, &err); std::set<u32> len; for (auto& i : sm.ins) if (i.op == SpvOpTypeArray && r.coin()) len.insert(i.w[3]); for (auto& i : sm.ins) if (i.op == SpvOpConstantComposite) for (size_t k = 3; k < i.w.size(); ++k) len.erase(i.w[k]); std::vector<u32> v(w.begin(), w.begin() + 5); for (auto& i : sm.ins) { std::vector<u32> x = i.w; if (i.op == SpvOpConstant && len.count(i.result)) x[0] = (x[0] & 0xffff0000u) | SpvOpSpecConstant; v.insert(v.end(), x.begin(), x.end()); } w = v; reqs.clear(); }
  parsed(w, r, &reqs); }
