// P07: every instruction helper yields the specified instruction and result type, or an error, exactly when the
// validator rejects / accepts the instruction with these operand types.
#include "hx.h"
#include "spv.h"
#include "tmodel.h"
#include "common/HeapAllocator.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/TypeAlias.h"
#include "spvgentwo/GLSL450Instruction.h"
#include <spirv/unified1/GLSL.std.450.h>
using namespace hx; using namespace spvgentwo; using tym::T; using tym::mk;
namespace hx { const Info g_info = {"P07", "a case is one call of an instruction helper with operands of chosen types: a well-typed pattern of the instruction, in half of the cases with one operand, index, image operand or type changed; the returned instruction is compared with opcode, operand order and result type of the specification model and the module is validated; after a refusal the same module with the instruction put together by hand is validated", 400000, 5000000}; }
namespace {
using Ops = std::vector<Instruction*>; using Lits = std::vector<u32>;
// ---- a call: operand types (with the value of constants), a type operand and literal arguments
struct Val { T t; bool constant = false; u32 value = 0; Val() = default; Val(T x) : t(std::move(x)) {} Val(T x, u32 v) : t(std::move(x)), constant(true), value(v) {} };
struct Case { std::vector<Val> v; T ty; Lits lit; u32 version = 5; u32 mask = 0; bool operator<(const Case&) const = delete; };
// expected operand: an operand instruction, a literal, or an integer constant
struct O { int k = 0; u32 x = 0; }; enum { OpndI, OpndL, OpndC };
struct Exp { bool have = false; u32 op = 0, ext = 0; bool result = true; T rt; std::vector<O> ops; };
struct Row { std::string name; std::function<void(Rng&, Case&)> gen; std::function<Instruction*(BasicBlock&, const Ops&, Instruction* ty, const Case&)> call; std::function<Exp(const Case&)> exp; };
std::vector<Row> rows; Grammar* g; HeapAllocator* g_heap;
// ---- types
T Fl(u32 w) { return mk(SpvOpTypeFloat, {w}); } T In(u32 w, u32 s) { return mk(SpvOpTypeInt, {w, s}); } T Bo() { return mk(SpvOpTypeBool); } T Vo() { return mk(SpvOpTypeVoid); }
T Ve(const T& t, u32 n) { return n == 1 ? t : mk(SpvOpTypeVector, {n}, {t}); } T Ma(const T& t, u32 rws, u32 c) { return mk(SpvOpTypeMatrix, {c}, {Ve(t, rws)}); } T Pt(u32 sc, const T& t) { return mk(SpvOpTypePointer, {sc}, {t}); } T St(std::vector<T> k) { return mk(SpvOpTypeStruct, {}, std::move(k)); }
bool isv(const T& t) { return t.op == SpvOpTypeVector; } bool ism(const T& t) { return t.op == SpvOpTypeMatrix; } const T& el(const T& t) { return isv(t) || ism(t) ? el(t.kids[0]) : t; } u32 len(const T& t) { return isv(t) ? t.lit[0] : 1; }
bool isint(const T& t) { return el(t).op == SpvOpTypeInt && !ism(t); } bool isflt(const T& t) { return el(t).op == SpvOpTypeFloat && !ism(t); } bool isboolean(const T& t) { return el(t).op == SpvOpTypeBool; }
T withel(const T& t, const T& e) { if (!isv(t) && !ism(t)) return e; T r = t; r.kids[0] = withel(t.kids[0], e); return r; }
T sgn(const T& t, u32 s) { if (el(t).op != SpvOpTypeInt) return t; return withel(t, In(el(t).lit[0], s)); }
u32 fw(Rng& r) { static const std::vector<u32> w{16, 32, 32, 32, 64}; return r.pick(w); } u32 iw(Rng& r) { static const std::vector<u32> w{8, 16, 32, 32, 32, 64}; return r.pick(w); }
T scal(Rng& r) { switch (r.below(5)) { case 0: return Bo(); case 1: case 2: return In(iw(r), r.below(2)); default: return Fl(fw(r)); } }
// a type a value may have in this module
T value(Rng& r, int depth) { switch (r.below(depth > 0 ? 9u : 4u)) { case 0: case 1: return scal(r); case 2: return Ve(scal(r), r.range(2, 4)); case 3: return Ma(Fl(fw(r)), r.range(2, 4), r.range(2, 4)); case 4: return mk(SpvOpTypeArray, {r.range(1, 5)}, {value(r, depth - 1)}); case 5: return Pt(r.coin() ? SpvStorageClassFunction : SpvStorageClassPrivate, value(r, depth - 1)); default: { T s = St({}); for (u32 n = r.range(1, 4); n; --n) { T k = value(r, depth - 1); if (k.op == SpvOpTypePointer) k = scal(r); s.kids.push_back(k); } return s; } } }
T plainval(Rng& r, int depth) { T t = value(r, depth); return t.op == SpvOpTypePointer ? plainval(r, depth) : t; }
T tweak(const T& t, Rng& r) { T m = t; switch (t.op) { case SpvOpTypeInt: switch (r.below(4)) { case 0: m.lit[1] ^= 1; return m; case 1: m.lit[0] = iw(r); return m; case 2: return Ve(m, r.range(2, 4)); default: return r.coin() ? Fl(32) : Bo(); } case SpvOpTypeFloat: switch (r.below(3)) { case 0: m.lit[0] = fw(r); return m; case 1: return Ve(m, r.range(2, 4)); default: return In(32, r.below(2)); } case SpvOpTypeBool: return r.coin() ? Ve(m, r.range(2, 4)) : scal(r);
  case SpvOpTypeVector: switch (r.below(5)) { case 0: return Ve(m.kids[0], r.range(2, 4)); case 1: return m.kids[0]; case 2: if (isflt(m)) return mk(SpvOpTypeMatrix, {r.range(2, 4)}, {m}); return withel(m, scal(r)); default: { T e = tweak(m.kids[0], r); return isv(e) ? e : withel(m, e); } }
  case SpvOpTypeMatrix: switch (r.below(4)) { case 0: m.lit[0] = r.range(2, 4); return m; case 1: m.kids[0].lit[0] = r.range(2, 4); return m; case 2: return m.kids[0]; default: return withel(m, Fl(fw(r))); }
  case SpvOpTypePointer: switch (r.below(4)) { case 0: m.kids[0] = plainval(r, 1); return m; case 1: return m.kids[0].op == SpvOpTypePointer || m.kids[0].op == SpvOpTypeImage || m.kids[0].op == SpvOpTypeSampledImage || m.lit[0] == SpvStorageClassStorageBuffer ? scal(r) : m.kids[0]; case 2: m.lit[0] = m.lit[0] == SpvStorageClassFunction ? SpvStorageClassPrivate : SpvStorageClassFunction; if (m.kids[0].op == SpvOpTypeStruct) for (auto& k : m.kids[0].kids) if (k.op == SpvOpTypeRuntimeArray) k = k.kids[0]; return m; default: return value(r, 1); }
  case SpvOpTypeArray: switch (r.below(3)) { case 0: m.lit[0] = r.range(1, 5); return m; case 1: return m.kids[0]; default: return value(r, 1); }
  case SpvOpTypeStruct: if (!m.kids.empty() && r.coin()) { size_t k = r.below((u32)m.kids.size()); if (r.coin()) m.kids.erase(m.kids.begin() + (long)k); else { T x = tweak(m.kids[k], r); if (x.op != SpvOpTypePointer) m.kids[k] = x; } if (m.kids.empty()) m.kids.push_back(scal(r)); return m; } return value(r, 1);
  case SpvOpTypeImage: { switch (r.below(7)) { case 0: { static const std::vector<u32> d{0, 1, 2, 3, 4, 5}; m.lit[0] = r.pick(d); break; } case 1: m.lit[2] ^= 1; break; case 2: m.lit[3] ^= 1; break; case 3: m.lit[4] = r.range(1, 2); break; case 4: m.kids[0] = r.coin() ? Fl(32) : In(32, r.below(2)); break; case 5: return mk(SpvOpTypeSampledImage, {}, {m}); default: return r.coin() ? mk(SpvOpTypeSampler) : scal(r); } return m; }
  case SpvOpTypeSampledImage: if (r.chance(1, 4)) return m.kids[0]; { T k = tweak(m.kids[0], r); if (k.op != SpvOpTypeImage) return k; m.kids[0] = k; return m; }
  case SpvOpTypeSampler: { T im = mk(SpvOpTypeImage, {1, 0, 0, 0, 1, 0}, {Fl(32)}); return r.coin() ? im : scal(r); }
  default: return value(r, 1); } }
T normalise(const T& t, u32 s) { T m = t; if (m.op == SpvOpTypeInt) m.lit[1] = s; for (auto& k : m.kids) k = normalise(k, s); return m; }
// ---- patterns: one character per operand. Capitals share length and width: F I U S B; lower case: f scalar float of that width, i int vector of any width, n/u int scalar / 32 bit unsigned scalar, v bool vector
std::vector<Val> pattern(const std::string& p, Rng& r) { static const std::vector<u32> iws{8, 16, 32, 32, 32, 64}; u32 n = r.coin() ? 1 : r.range(2, 4), wf = fw(r), wi = r.pick(iws), s = r.below(2); std::vector<Val> v; for (char c : p) { T t; switch (c) { case 'F': t = Ve(Fl(wf), n); break; case 'G': t = Ve(Fl(32), n); break; case 'I': t = Ve(In(wi, s), n); break; case 'K': t = Ve(In(32, s), n); break; case 'U': t = Ve(In(wi, 0), n); break; case 'S': t = Ve(In(wi, 1), n); break; case 'B': t = Ve(Bo(), n); break; case 'f': t = Fl(wf); break; case 'i': t = Ve(In(iw(r), r.below(2)), n); break; case 'n': t = In(iw(r), r.below(2)); break; case 'V': if (n == 1) n = r.range(2, 4); t = Ve(Fl(wf), n); break; case 'v': if (n == 1) n = r.range(2, 4); t = Ve(Bo(), n); break; case '3': t = Ve(Fl(wf), 3); break; case '2': t = Ve(Fl(32), 2); break; case '4': t = Ve(Fl(32), 4); break; case 'u': t = In(32, s); break; case 'd': t = Fl(64); break; case 'w': t = Ve(In(32, s), 2); break; case 'X': { if (n == 1) n = r.range(2, 4); t = Ma(Fl(wf), n, n); break; } default: harness_error("pattern"); } v.push_back(t); } return v; }
using RT = std::function<bool(const std::vector<Val>&, T&)>;
RT same(size_t i) { return [i](const std::vector<Val>& v, T& t) { t = v[i].t; return true; }; }
RT sign(size_t i, u32 s) { return [i, s](const std::vector<Val>& v, T& t) { t = sgn(v[i].t, s); return true; }; }
RT fixed(T x) { return [x](const std::vector<Val>&, T& t) { t = x; return true; }; }
RT boolean() { return [](const std::vector<Val>& v, T& t) { t = Ve(Bo(), len(v[0].t)); return true; }; }
RT other(size_t i, T e) { return [i, e](const std::vector<Val>& v, T& t) { t = withel(v[i].t, e); return !ism(v[i].t); }; }
RT flt(size_t i) { return [i](const std::vector<Val>& v, T& t) { if (!isint(v[i].t)) return false; u32 w = el(v[i].t).lit[0]; t = withel(v[i].t, Fl(w)); return true; }; }
RT intof(size_t i, u32 s) { return [i, s](const std::vector<Val>& v, T& t) { if (!isflt(v[i].t)) return false; t = withel(v[i].t, In(el(v[i].t).lit[0], s)); return true; }; }
RT pairof(u32 ext = 0) { return [ext](const std::vector<Val>& v, T& t) { t = ext ? St({v[0].t, withel(v[0].t, In(32, 1))}) : St({v[0].t, v[0].t}); return !ism(v[0].t); }; }
RT elem(size_t i) { return [i](const std::vector<Val>& v, T& t) { t = el(v[i].t); return true; }; }
std::vector<O> inorder(size_t n) { std::vector<O> o; for (size_t i = 0; i < n; ++i) o.push_back({OpndI, (u32)i}); return o; }
using Call = std::function<Instruction*(BasicBlock&, const Ops&)>;
void change(Rng& r, Case& c) { if (!c.v.empty() && r.coin()) { size_t i = r.below((u32)c.v.size()); c.v[i] = Val(tweak(c.v[i].t, r)); } }
void simple(const std::string& name, u32 op, const std::string& pat, RT rt, Call call, u32 ext = 0) { size_t n = pat.size(); rows.push_back({name, [pat](Rng& r, Case& c) { c.v = pattern(pat, r); change(r, c); }, [call](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return call(b, v); }, [op, rt, n, ext](const Case& c) { Exp e; e.op = op; e.ext = ext; e.have = rt(c.v, e.rt); e.ops = inorder(n); return e; }}); }
#define U1(fn, OP, pat, rt) simple(#fn, SpvOp##OP, pat, rt, [](BasicBlock& b, const Ops& v) { return b->fn(v[0]); })
#define U2(fn, OP, pat, rt) simple(#fn, SpvOp##OP, pat, rt, [](BasicBlock& b, const Ops& v) { return b->fn(v[0], v[1]); })
#define U3(fn, OP, pat, rt) simple(#fn, SpvOp##OP, pat, rt, [](BasicBlock& b, const Ops& v) { return b->fn(v[0], v[1], v[2]); })
#define U4(fn, OP, pat, rt) simple(#fn, SpvOp##OP, pat, rt, [](BasicBlock& b, const Ops& v) { return b->fn(v[0], v[1], v[2], v[3]); })
#define E1(fn, OP, pat, rt) simple("glsl." #fn, SpvOpExtInst, pat, rt, [](BasicBlock& b, const Ops& v) { return b.glsl()->fn(v[0]); }, GLSLstd450##OP)
#define E2(fn, OP, pat, rt) simple("glsl." #fn, SpvOpExtInst, pat, rt, [](BasicBlock& b, const Ops& v) { return b.glsl()->fn(v[0], v[1]); }, GLSLstd450##OP)
#define E3(fn, OP, pat, rt) simple("glsl." #fn, SpvOpExtInst, pat, rt, [](BasicBlock& b, const Ops& v) { return b.glsl()->fn(v[0], v[1], v[2]); }, GLSLstd450##OP)
#include "p07_rows.inc"
// ---- modules
Instruction* raw(BasicBlock& b, u32 op, Instruction* type, bool result) { Instruction* i = b.addInstruction(); i->setOperation((spv::Op)op); if (type) i->addOperand(type); if (result) i->addOperand(InvalidId); return i; }
struct Mo { Log log; Module m{g_heap, &log}; BasicBlock* b = nullptr; Ops v; Instruction* ty = nullptr; std::string why; Rng r; Mo() : r(7) {}
  Instruction* type(const T& t) { Type x = m.newType(); Rng q(1); tym::fill(x, t, q); return m.addType(x); }
  Instruction* constant(const T& t, u32 v) { if (t.op == SpvOpTypeInt) { bool s = t.lit[1]; switch (t.lit[0]) { case 8: return s ? m.constant((char)v) : m.constant((unsigned char)v); case 16: return s ? m.constant((short)v) : m.constant((unsigned short)v); case 32: return s ? m.constant((i32)v) : m.constant(v); default: return s ? m.constant((sgt_int64_t)v) : m.constant((sgt_uint64_t)v); } } if (t.op == SpvOpTypeFloat && t.lit[0] == 32) return m.constant((float)v); if (isv(t) && el(t).op == SpvOpTypeInt && el(t).lit[0] == 32) { i32 q = (i32)v; if (el(t).lit[1]) switch (t.lit[0]) { case 2: return m.constant(make_vector(q + 0, q + 1)); case 3: return m.constant(make_vector(q + 0, q + 1, q + 0)); default: return m.constant(make_vector(q + 0, q + 1, q + 0, q + 1)); } u32 p = v; switch (t.lit[0]) { case 2: return m.constant(make_vector(p + 0u, p + 1u)); case 3: return m.constant(make_vector(p + 0u, p + 1u, p + 0u)); default: return m.constant(make_vector(p + 0u, p + 1u, p + 0u, p + 1u)); } }
    if (t.op == SpvOpTypeArray && isv(t.kids[0]) && t.lit[0] == 4) { const auto q = make_vector(1, 2); return m.constant(make_array(q, q, q, q)); } return nullptr; }
  bool build(const Case& c) { m.setSpvVersion(makeVersion(1, c.version)); static const spv::Capability caps[] = {spv::Capability::Shader, spv::Capability::Linkage, spv::Capability::Matrix, spv::Capability::Int8, spv::Capability::Int16, spv::Capability::Int64, spv::Capability::Float16, spv::Capability::Float64, spv::Capability::Sampled1D, spv::Capability::Image1D, spv::Capability::SampledCubeArray, spv::Capability::ImageCubeArray, spv::Capability::SampledRect, spv::Capability::ImageRect, spv::Capability::SampledBuffer, spv::Capability::ImageBuffer, spv::Capability::ImageMSArray, spv::Capability::StorageImageMultisample, spv::Capability::StorageImageExtendedFormats, spv::Capability::StorageImageReadWithoutFormat, spv::Capability::StorageImageWriteWithoutFormat, spv::Capability::ImageQuery, spv::Capability::MinLod, spv::Capability::ImageGatherExtended, spv::Capability::DerivativeControl, spv::Capability::InterpolationFunction, spv::Capability::GeometryStreams, spv::Capability::SampledImageArrayDynamicIndexing, spv::Capability::InputAttachment, spv::Capability::VariablePointers, spv::Capability::PhysicalStorageBufferAddresses, spv::Capability::SampleRateShading};
    for (auto k : caps) m.addCapability(k); m.addExtension("SPV_KHR_physical_storage_buffer"); m.addExtension("SPV_KHR_variable_pointers"); m.addExtension("SPV_KHR_storage_buffer_storage_class"); m.setMemoryModel(spv::AddressingModel::PhysicalStorageBuffer64, spv::MemoryModel::GLSL450);
    Function& f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone); b = &*f; v.assign(c.v.size(), nullptr);
    for (size_t i = 0; i < c.v.size(); ++i) { const T& t = c.v[i].t; if (t.op == SpvOpTypePointer && t.lit[0] == SpvStorageClassFunction) v[i] = f.variable(type(t)); else if (t.op == SpvOpTypePointer && t.lit[0] != SpvStorageClassPhysicalStorageBuffer) v[i] = m.variable(type(t), (spv::StorageClass)t.lit[0]); }
    for (size_t i = 0; i < c.v.size(); ++i) { if (v[i]) continue; const T& t = c.v[i].t; if (c.v[i].constant && (v[i] = constant(t, c.v[i].value)) != nullptr) continue; Instruction* ti = type(t); if (t.op == SpvOpTypeImage || t.op == SpvOpTypeSampledImage || t.op == SpvOpTypeSampler) { Instruction* var = m.variable(type(Pt(SpvStorageClassUniformConstant, t)), spv::StorageClass::UniformConstant); v[i] = raw(*b, SpvOpLoad, ti, true); v[i]->addOperand(var); } else v[i] = raw(*b, SpvOpUndef, ti, true); }
    if (c.ty.op) ty = type(c.ty); for (auto* x : v) if (!x || x->isErrorInstr()) { why = "no operand"; return false; } if (log.errors) { why = log.all; return false; } return true; }
  bool valid(std::string* err, std::vector<u32>* out = nullptr) { b->returnValue(); VecWriter w; if (!m.finalizeAndWrite(w, g)) { *err = "not written: " + log.all; return false; } if (out) *out = w.w; return sv::validate(w.w, err); } };
std::string desc(const Case& c) { std::string s; for (auto& v : c.v) s += (s.empty() ? "" : " | ") + tym::str(v.t) + (v.constant ? fmt(" = %u", v.value) : ""); if (c.ty.op) s += " type " + tym::str(c.ty); for (u32 l : c.lit) s += fmt(" #%u", l); if (c.mask) s += fmt(" mask 0x%x", c.mask); return s + fmt(" (1.%u)", c.version); }
// the type of an instruction, from its OpType instructions
bool typeof_(const Instruction* ti, T& t) { if (!ti || !ti->getType()) return false; t = tym::from(*ti->getType()); return true; }
bool accepted(const Row& row, const Case& c, Mo& m, Instruction** out) { u32 before = m.log.errors; Instruction* i = row.call(*m.b, m.v, m.ty, c); *out = i; return i && !i->isErrorInstr() && m.log.errors == before; }
}
void hx::init() { g_heap = new HeapAllocator; g = new Grammar(g_heap); make_rows(); }
void hx::finish() {}
void hx::run_case(u64 index, Rng& r) {
  const Row& row = rows[index % rows.size()]; Case c; static const std::vector<u32> vers{0, 3, 3, 4, 5, 5}; c.version = r.pick(vers); row.gen(r, c); distinct(fnv(row.name + desc(c)));
  std::string d = row.name + ": " + desc(c); Mo a; if (!a.build(c)) { count("operands_not_built"); if (verbose()) printf("%s: %s\n", d.c_str(), a.why.c_str()); return; } evaluated();
  Exp e = row.exp(c); Instruction* i = nullptr; std::string err; std::vector<u32> w;
  // an operand which is no value at all (the label of the block, the void type, an OpNop) cannot be valid either: refused, and without a crash
  if (!a.v.empty() && r.chance(1, 25)) { size_t k = r.below((u32)a.v.size()); u32 how = r.below(3); a.v[k] = how == 0 ? a.b->getLabel() : how == 1 ? a.m.type<void>() : how == 2 ? a.m.addTypeInstr() : nullptr; count("no_value:" + std::string(how == 0 ? "label" : how == 1 ? "type" : "nop")); if (accepted(row, c, a, &i) && i && i->getOperation() != spv::Op::OpNop) violation("accepted-no-value:" + row.name, d + fmt(": operand %zu is %s", k, how == 0 ? "a label" : how == 1 ? "a type" : "an OpNop")); return; }
  if (accepted(row, c, a, &i)) { count("accepted"); count("accepted:" + row.name);
    if (!i) return; if (e.have) { if ((u32)i->getOperation() != e.op) { violation("opcode:" + row.name, d + fmt(": got %s", sv::opname((u32)i->getOperation()))); return; }
      T t; Instruction* ti = i->getResultTypeInstr(); if (e.result && (!typeof_(ti, t) || !(t == e.rt))) { violation("type:" + row.name, d + ": result type " + (ti ? tym::str(t) : "none") + " instead of " + tym::str(e.rt)); return; }
      auto it = i->getFirstActualOperand(); size_t k = 0; std::string bad; auto imp = e.ext ? a.m.getExtensionInstructionImport("GLSL.std.450") : nullptr; if (e.ext) { if (it == nullptr || it->getInstruction() != imp) bad = "instruction set"; else { ++it; if (it == nullptr || !it->isLiteral() || it->getLiteral().value != e.ext) bad = "extended instruction"; else ++it; } }
      for (; bad.empty() && it != nullptr && it != i->end(); ++it, ++k) { if (k >= e.ops.size()) { bad = "surplus operand"; break; } const O& o = e.ops[k]; if (o.k == OpndL) { if (!it->isLiteral() || it->getLiteral().value != o.x) bad = fmt("operand %zu", k); } else if (o.k == OpndC) { Instruction* q = it->getInstruction(); const Constant* cc = q ? q->getConstant() : nullptr; if (!cc || cc->getData().empty() || cc->getData().front() != o.x) bad = fmt("index %zu", k); } else if (it->getInstruction() != a.v[o.x]) bad = fmt("operand %zu", k); }
      if (bad.empty() && k < e.ops.size()) bad = "missing operand"; if (!bad.empty()) { violation("operands:" + row.name, d + ": " + bad); return; } }
    if (!a.valid(&err, &w)) { Mo o; std::string e2; if (!o.build(c) || !o.valid(&e2)) { count("operands_invalid"); if (verbose()) printf("%s: the operands alone: %s\n", d.c_str(), e2.c_str()); return; } violation("accepted:" + row.name, d + ": " + err); if (verbose()) printf("%s\n", sv::disasm(w).c_str()); }
    return; }
  count("rejected"); if (!e.have) { count("rejected_no_type"); return; }
  Mo q; if (!q.build(c)) harness_error("the module cannot be built again"); Instruction* ti = e.result ? q.type(e.rt) : nullptr; if (e.result && (!ti || ti->isErrorInstr())) { count("rejected_no_type"); return; }
  std::vector<Operand> list; if (e.ext) { list.emplace_back(q.m.addExtensionInstructionImport("GLSL.std.450")); list.emplace_back(literal_t{e.ext}); } for (auto& o : e.ops) { if (o.k == OpndL) list.emplace_back(literal_t{o.x}); else if (o.k == OpndC) list.emplace_back(q.m.constant(o.x)); else list.emplace_back(q.v[o.x]); }
  Instruction* x = raw(*q.b, e.op, ti, e.result); for (auto& o : list) x->addOperand(o);
  if (!q.valid(&err, &w)) { count("rejected_rightly"); return; }
  for (u32 s = 0; s < 2; ++s) { Case n = c; for (auto& v : n.v) v.t = normalise(v.t, s); if (n.ty.op) n.ty = normalise(n.ty, s); Mo p; Instruction* y; if (p.build(n) && accepted(row, n, p, &y)) { count("rejected_signedness"); return; } }
  violation("rejected:" + row.name, d + ": the validator accepts it; logged: " + a.log.all); if (verbose()) printf("%s\n", sv::disasm(w).c_str());
}
