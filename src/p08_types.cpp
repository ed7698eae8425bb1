// P08: types are unique, distinguished, and survive the way to SPIR-V and back.
#include "tmodel.h"
#include "gen.h"
#include "build.h"
#include "common/HeapAllocator.h"
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P08", "a case is one module for which 5..60 types of random structure (with near duplicates that differ in one property) are requested in random ways (fluent, dirty Type objects, wrap helpers, composites of instructions, templates, copies), written, decoded and parsed again, or one parsed grammar generated module; the oracle is a structural model of types and the decoded binary", 12000, 250000}; }
static Grammar* g; static HeapAllocator g_heap;
void hx::init() { g = new Grammar(&g_heap); }
void hx::finish() {}
using tym::T;
namespace { struct Tpl { T t; Instruction* (*f)(Module&); Type (*n)(Module&); };
template <class X> Tpl tp(T t) { return {std::move(t), [](Module& m) { return m.type<X>(); }, [](Module& m) { return m.newType<X>(); }}; }
T I(u32 w, u32 s) { return tym::mk(SpvOpTypeInt, {w, s}); } T F(u32 w) { return tym::mk(SpvOpTypeFloat, {w}); } T V(u32 n, T k) { return tym::mk(SpvOpTypeVector, {n}, {std::move(k)}); } T M(u32 c, u32 n, T k) { return tym::mk(SpvOpTypeMatrix, {c}, {V(n, std::move(k))}); } T A(u32 n, T k) { return tym::mk(SpvOpTypeArray, {n}, {std::move(k)}); }
const std::vector<Tpl>& tpls() { static const T B = tym::mk(SpvOpTypeBool), VO = tym::mk(SpvOpTypeVoid); static const std::vector<Tpl> v{tp<void>(VO), tp<bool>(B), tp<char>(I(8, 1)), tp<unsigned char>(I(8, 0)), tp<short>(I(16, 1)), tp<unsigned short>(I(16, 0)), tp<int>(I(32, 1)), tp<unsigned int>(I(32, 0)), tp<long>(I(32, 1)), tp<unsigned long>(I(32, 0)), tp<long long>(I(64, 1)), tp<unsigned long long>(I(64, 0)), tp<float>(F(32)), tp<double>(F(64)), tp<vector_t<float, 2>>(V(2, F(32))), tp<vector_t<double, 3>>(V(3, F(64))), tp<vector_t<int, 4>>(V(4, I(32, 1))), tp<vector_t<bool, 2>>(V(2, B)), tp<vector_t<unsigned short, 3>>(V(3, I(16, 0))),
    tp<matrix_t<float, 3, 2>>(M(3, 2, F(32))), tp<matrix_t<double, 2, 4>>(M(2, 4, F(64))), tp<array_t<int, 7>>(A(7, I(32, 1))), tp<array_t<matrix_t<float, 4, 4>, 2>>(A(2, M(4, 4, F(32)))), tp<array_t<array_t<vector_t<unsigned int, 2>, 3>, 5>>(A(5, A(3, V(2, I(32, 0))))), tp<float*>(tym::mk(SpvOpTypePointer, {SpvStorageClassGeneric}, {F(32)})), tp<sampler_t>(tym::mk(SpvOpTypeSampler)), tp<event_t>(tym::mk(SpvOpTypeEvent)), tp<device_event_t>(tym::mk(SpvOpTypeDeviceEvent)), tp<reserve_id_t>(tym::mk(SpvOpTypeReserveId)), tp<queue_t>(tym::mk(SpvOpTypeQueue)), tp<pipe_t>(tym::mk(SpvOpTypePipe, {0})), tp<pipe_storage_t>(tym::mk(SpvOpTypePipeStorage)), tp<named_barrier_t>(tym::mk(SpvOpTypeNamedBarrier)), tp<ray_query_khr_t>(tym::mk(SpvOpTypeRayQueryKHR)), tp<acceleration_structure_khr_t>(tym::mk(SpvOpTypeAccelerationStructureKHR)),
    tp<dyn_image_t>(tym::mk(SpvOpTypeImage, {1, 1, 0, 0, 0, 0}, {F(32)})), tp<glsl::mat3>(M(3, 3, F(32))), tp<hlsl::int3>(V(3, I(32, 1))), tp<const_vector_t<int, 2>>(V(2, I(32, 1))), tp<const_array_t<float, 3>>(A(3, F(32)))}; return v; }
struct K { Module& m; Log& log; Rng& r; std::map<std::string, Instruction*> byKey; std::map<Instruction*, std::string> byInstr;
  // every registered type still has its instruction; t has i
  void note(const T& t, Instruction* i, const char* how, size_t before, bool fresh_ok = true) { count("requests"); count(std::string("by_") + how); std::string k = t.key(); if (log.errors) { violation(std::string("request-rejected:") + how + ":" + sv::opname(t.op), log.last + " for " + tym::str(t)); log.errors = 0; return; }
    if (!i || !i->isType()) { violation(std::string("no-type-instruction:") + how, tym::str(t)); return; } auto it = byKey.find(k); if (it != byKey.end()) { if (it->second != i) violation(std::string("duplicate:") + how + ":" + sv::opname(t.op), "another instruction for " + tym::str(t)); else if (m.getTypesAndConstants().size() != before) violation(std::string("grew:") + how, "a known type added instructions: " + tym::str(t)); count("known"); }
    else { auto q = byInstr.find(i); if (q != byInstr.end()) { violation(std::string("not-distinguished:") + how + ":" + sv::opname(t.op), tym::str(t) + " has the instruction of " + q->second); return; } if (!fresh_ok) violation(std::string("missing:") + how, tym::str(t)); byKey[k] = i; byInstr[i] = tym::str(t); count("fresh"); }
    const Type* ty = m.getTypeInfo(i); if (!ty) { violation("no-type-info", tym::str(t)); return; } T f = tym::from(*ty); if (!(f == t)) violation(std::string("type-info:") + how + ":" + sv::opname(t.op), "requested " + tym::str(t) + ", info says " + tym::str(f)); if (i->getType() != ty && !(i->getType() && *i->getType() == *ty)) violation("instruction-type", tym::str(t)); if (i->getOperation() != (spv::Op)t.op) violation("opcode", tym::str(t)); if (m.getTypeInstr(*ty) != i) violation("type-instr", tym::str(t)); }
  Instruction* request(const T& t, bool fresh_ok = true) { size_t n = m.getTypesAndConstants().size(); Instruction* i; switch (r.below(6)) {
      case 0: { Type d = m.newType(); tym::fill(d, t, r); i = m.addType(d); note(t, i, "fluent", n, fresh_ok); break; }
      case 1: { Type d = m.newType(); T o = tym::any(r, 2); tym::fill(d, o, r); if (t.op == o.op || r.coin()) tym::fill(d, t, r); else { Type e = m.newType(); tym::fill(e, t, r); d = e; } i = m.addType(d); note(t, i, "reused", n, fresh_ok); break; }
      case 2: { Type d = m.newType(); tym::fill(d, t, r); Type c(d); Type e(std::move(d)); Type f = m.newType(); f = std::move(e); if (!(c == f) || c != f) violation("copy-differs", tym::str(t)); i = m.addType(f); note(t, i, "moved", n, fresh_ok); break; }
      case 3: { if ((t.op == SpvOpTypeStruct || t.op == SpvOpTypeFunction || t.op == SpvOpTypeSampledImage || t.op == SpvOpTypeRuntimeArray) && !t.kids.empty()) { List<Instruction*> l(m.getAllocator()); for (auto& k : t.kids) { Type d = m.newType(); tym::fill(d, k, r); size_t b = m.getTypesAndConstants().size(); Instruction* s = m.addType(d); note(k, s, "member", b, fresh_ok); l.emplace_back(s); } n = m.getTypesAndConstants().size(); auto op = (spv::Op)t.op; i = nullptr; if (t.kids.size() == 1 && r.coin()) i = m.compositeType(op, l.front()); else if (t.kids.size() == 2 && r.coin()) i = m.compositeType(op, l.front(), l.back()); else i = m.compositeType(op, l); note(t, i, "composite", n, fresh_ok); break; } [[fallthrough]]; }
      case 4: { Type d = m.newType(); tym::fill(d, t, r); i = m.getTypeInstr(d); bool known = byKey.count(t.key()); if (known != (i != nullptr)) violation("getTypeInstr", std::string(known ? "not found: " : "found: ") + tym::str(t)); if (!i) { i = m.addType(d); } note(t, i, "lookup", n, fresh_ok); break; }
      default: { Type d = m.newType(); tym::fill(d, t, r); i = m.type<void>(); note(tym::mk(SpvOpTypeVoid), i, "void", n); n = m.getTypesAndConstants().size(); i = m.addType(d, r.chance(1, 8) ? "named" : nullptr); note(t, i, "fluent", n, fresh_ok); } } subs(t); return i; }
  void subs(const T& t) { for (auto& k : t.kids) { if (byKey.count(k.key())) { subs(k); continue; } Type d = m.newType(); tym::fill(d, k, r); size_t n = m.getTypesAndConstants().size(); Instruction* i = m.addType(d); if (m.getTypesAndConstants().size() != n) violation("subtype-not-added", tym::str(k)); note(k, i, "subtype", n); subs(k); } }
  void tpl() { const Tpl& x = r.pick(tpls()); size_t n = m.getTypesAndConstants().size(); if (r.coin()) note(x.t, x.f(m), "template", n); else { Type t = x.n(m); if (!(tym::from(t) == x.t)) violation("template-type", tym::str(x.t) + " made " + tym::str(tym::from(t))); note(x.t, m.addType(t), "template-newtype", n); } subs(x.t); if (r.chance(1, 3)) props(); }
  static dyn_scalar_t dscalar(const T& s) { return {(spv::Op)s.op, s.lit.empty() ? 0u : s.lit[0], s.op == SpvOpTypeInt && s.lit[1] != 0}; }
  void described() { // the dyn_* descriptions of templates, all fields
    T t; Instruction* i; size_t n = m.getTypesAndConstants().size(); bool ptr = r.chance(1, 4); auto sc = (spv::StorageClass)r.below(13); auto scalar = [&] { return r.coin() ? F(16u << r.below(3)) : I(8u << r.below(4), r.below(2)); };
    auto go = [&](auto d) { using D = decltype(d); if (ptr) { t = tym::mk(SpvOpTypePointer, {(u32)sc}, {t}); i = m.type<D*>(sc, d); } else i = r.coin() ? m.type<D>(d) : m.addType(m.newType<D>(d)); };
    switch (r.below(7)) {
      case 0: { T s = scalar(); t = s; go(dscalar(s)); break; }
      case 1: { T s = scalar(); u32 c = r.range(2, 4); t = V(c, s); go(dyn_vector_t{dscalar(s), c}); break; }
      case 2: { T s = F(16u << r.below(3)); u32 c = r.range(2, 4), k = r.range(2, 4); t = M(k, c, s); go(dyn_matrix_t{{dscalar(s), c}, k}); break; }
      case 3: case 4: { T im = tym::image(r); im.kids[0] = r.chance(1, 3) ? tym::mk(SpvOpTypeVoid) : scalar(); dyn_image_t d{r.coin() && im.kids[0].op == SpvOpTypeVoid ? DynScalarVoid : dscalar(im.kids[0]), (spv::Dim)im.lit[0], im.lit[1], im.lit[2] != 0, im.lit[3] != 0, (SamplerImageAccess)im.lit[4], (spv::ImageFormat)im.lit[5], im.lit.size() > 6 ? (spv::AccessQualifier)im.lit[6] : spv::AccessQualifier::Max}; if (r.coin()) { t = im; go(d); } else { t = tym::mk(SpvOpTypeSampledImage, {}, {im}); go(dyn_sampled_image_t{d}); } break; }
      case 5: { T e = tym::any(r, 1); if (e.op == SpvOpTypeVoid || e.op == SpvOpTypeFunction || e.op == SpvOpTypeForwardPointer) e = F(32); Type et = m.newType(); tym::fill(et, e, r); u32 len = r.coin() ? r.range(1, 8) : r.coin() ? r.range(60000, 70000) : 1u << r.below(32); t = A(len, e); ptr = false; go(dyn_array_t{et, len}); break; }
      default: { T e = tym::any(r, 1); if (e.op == SpvOpTypeVoid || e.op == SpvOpTypeFunction || e.op == SpvOpTypeForwardPointer) e = F(32); Type et = m.newType(); tym::fill(et, e, r); t = tym::mk(SpvOpTypeRuntimeArray, {}, {e}); ptr = false; go(dyn_runtime_array_t{et}); } }
    note(t, i, "description", n); subs(t); }
  void props() { if (r.coin()) { described(); return; } size_t n = m.getTypesAndConstants().size(); T t; Instruction* i; switch (r.below(7)) { case 6: i = m.type<pipe_t>(spv::AccessQualifier::WriteOnly); t = tym::mk(SpvOpTypePipe, {1}); break; case 0: i = m.type<float*>(spv::StorageClass::Uniform); t = tym::mk(SpvOpTypePointer, {SpvStorageClassUniform}, {F(32)}); break; case 1: i = m.type<vector_t<int, 3>*>(spv::StorageClass::Output); t = tym::mk(SpvOpTypePointer, {SpvStorageClassOutput}, {V(3, I(32, 1))}); break; case 2: { dyn_image_t d; d.dimension = spv::Dim::Cube; d.array = true; d.depth = 2; d.samplerAccess = SamplerImageAccess::Sampled; i = m.type<dyn_image_t>(d); t = tym::mk(SpvOpTypeImage, {3, 2, 1, 0, 1, 0}, {F(32)}); break; }
      case 3: { dyn_sampled_image_t d; d.imageType.multiSampled = true; d.imageType.sampledType = {spv::Op::OpTypeInt, 32u, true}; i = m.type<dyn_sampled_image_t>(d); t = tym::mk(SpvOpTypeSampledImage, {}, {tym::mk(SpvOpTypeImage, {1, 1, 0, 1, 0, 0}, {I(32, 1)})}); break; } case 4: { dyn_vector_t d{{spv::Op::OpTypeInt, 16u, false}, 4}; i = m.type<dyn_vector_t>(d); t = V(4, I(16, 0)); break; } default: { dyn_image_t d; d.format = spv::ImageFormat::R32f; i = m.type<dyn_image_t*>(spv::StorageClass::UniformConstant, d); t = tym::mk(SpvOpTypePointer, {0}, {tym::mk(SpvOpTypeImage, {1, 1, 0, 0, 0, 3}, {F(32)})}); } } note(t, i, "properties", n); subs(t); } };
// after parsing: what the module says about its types is what the binary says, and asking for them finds one with that structure
void parsed(const std::vector<u32>& w, Rng& r, bool unique) { sv::Mod sm; std::string err; if (!sv::decode(w, sm, &err)) { count("undecodable"); return; } tym::Bin bin(sm); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(w); if (!m.readAndInit(rd, *g)) { if (unique) violation("not-parsed", log.last); else count("rejected"); return; } log.errors = 0; count("parsed"); std::map<Instruction*, std::pair<u32, T>> known; size_t n0 = m.getTypesAndConstants().size(), k = 0; std::vector<u32> ids; for (auto& i : sm.ins) if (i.result && (sv::is_type(i.op) || sv::is_const(i.op) || i.op == SpvOpUndef)) ids.push_back(i.result); (void)k;
    std::map<u32, Instruction*> byId; for (auto& i : m.getTypesAndConstants()) byId[(u32)i.getResultId()] = &i;
    std::vector<T> all; std::map<Instruction*, T> expect; for (auto& i : sm.ins) if (sv::is_type(i.op) && i.result) { auto q = byId.find(i.result); if (q == byId.end()) { violation("type-lost", sv::str(i)); continue; } T t; bool rep = bin.type(i.result, t); const Type* ty = m.getTypeInfo(q->second); if (!rep) { count("not_representable"); if (i.op == SpvOpTypeArray && ty) { auto c = bin.def.find(i.w[3]); if (c != bin.def.end() && c->second->op == SpvOpSpecConstantOp) violation("parsed-info-unknown-length", sv::str(i) + ": info for an array whose length is the result of " + sv::str(*c->second) + ": " + tym::str(tym::from(*ty))); } if (i.op == SpvOpTypeArray) { auto c = bin.def.find(i.w[3]); if (c != bin.def.end()) count("array_length:" + std::string(sv::opname(c->second->op))); } continue; } if (!ty) { violation("parsed-no-info:" + std::string(sv::opname(i.op)), sv::str(i)); continue; } T f = tym::from(*ty); if (!(f == t)) { violation("parsed-info:" + std::string(sv::opname(i.op)), "binary " + tym::str(t) + ", info " + tym::str(f)); continue; } expect[q->second] = t; all.push_back(t); count("parsed_types"); }
    for (auto& t : all) { Type d = m.newType(); tym::fill(d, t, r); Instruction* i = m.addType(d); auto q = expect.find(i); if (q == expect.end()) violation("parsed-request:" + std::string(sv::opname(t.op)), "a type which is not the one of the parsed module was returned for " + tym::str(t)); else if (!(q->second == t)) violation("parsed-request-other", tym::str(t) + " vs " + tym::str(q->second)); }
    if (m.getTypesAndConstants().size() != n0) violation("parsed-grew", fmt("requesting the types of the parsed module added %zu instructions", m.getTypesAndConstants().size() - n0)); if (log.errors) violation("parsed-error", log.last);
    // the same array with a constant length instead of a specialization constant is another type
    for (auto& i : sm.ins) if (i.op == SpvOpTypeArray) { auto c = bin.def.find(i.w[3]); T e; if (c == bin.def.end() || c->second->op != SpvOpSpecConstant || c->second->w.size() != 4 || !bin.type(i.w[2], e)) continue; T t = tym::mk(SpvOpTypeArray, {c->second->w[3]}, {e}); bool had = false; for (auto& a : all) had |= a == t; Type d = m.newType(); tym::fill(d, t, r); Instruction* ti = m.addType(d); bool old = expect.count(ti); count("spec_length"); if (ti->getResultId() == spv::Id(i.result)) violation("spec-length-array", "the array with specialization constant length is returned for " + tym::str(t)); else if (old != had) violation("spec-length-new", tym::str(t)); if (!old) { expect[ti] = t; all.push_back(t); } }
    // new types are really new
    for (u32 j = 0; j < 6; ++j) { T t = all.empty() ? tym::any(r, 2) : tym::mutate(r.pick(all), r); bool had = false; for (auto& a : all) had |= a == t; Type d = m.newType(); tym::fill(d, t, r); Instruction* i = m.addType(d); bool old = expect.count(i); if (old != had) violation("parsed-new:" + std::string(sv::opname(t.op)), std::string(old ? "an existing instruction was returned for " : "a new instruction was added for ") + tym::str(t)); if (!old) { expect[i] = t; all.push_back(t); } } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
}
void hx::run_case(u64 idx, Rng& r) {
  u32 mode = r.below(8); if (mode >= 6) { std::vector<u32> w; if (mode == 6) { gen::Opt o; o.size = r.range(2, 20); o.any_op = false; w = gen::module(r, o); } else { build::Opt o; o.size = 2; TrackAlloc al; Log log; Module m(&al, &log); build::Prog p = build::random(r, o); build::Built b = build::lower(p, m, r); VecWriter vw; if (!b.rejected.empty() || log.errors || !m.finalizeAndWrite(vw, g)) { count("rejected"); return; } w = vw.w; } distinct(fnv(w)); count(mode == 6 ? "mode_generated" : "mode_program"); parsed(w, r, false); return; }
  TrackAlloc al; std::vector<u32> w; std::vector<T> all; { Log log; Module m(&al, &log); K k{m, log, r, {}, {}}; if (r.coin()) { m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); }
    k.request(I(32, 0)); // used for array lengths
    for (u32 i = 0, n = r.chance(1, 4) ? r.range(20, 60) : r.range(5, 20); i < n; ++i) { if (r.chance(1, 5)) { k.tpl(); continue; } T t; if (!all.empty() && r.chance(1, 2)) { t = r.pick(all); if (r.chance(2, 3)) t = tym::mutate(t, r); } else t = tym::any(r, (int)r.below(4)); k.request(t); all.push_back(t); }
    for (auto& t : all) { Type a = m.newType(), b = m.newType(); tym::fill(a, t, r); const T& o = r.pick(all); tym::fill(b, o, r); if ((a == b) != (t == o)) violation("equality:" + std::string(sv::opname(t.op)), tym::str(t) + " vs " + tym::str(o)); }
    for (auto& t : all) k.request(t, false);
    // an instruction added by hand for a described type is the instruction of this type from then on
    if (r.chance(1, 4)) for (u32 j = r.range(1, 3); j; --j) { static const std::vector<T> kinds{F(16), F(64), I(8, 1), I(64, 0), tym::mk(SpvOpTypeBool), tym::mk(SpvOpTypeSampler), tym::mk(SpvOpTypeEvent)}; const T& t = r.pick(kinds); if (k.byKey.count(t.key())) continue; Type d = m.newType(); tym::fill(d, t, r); size_t n = m.getTypesAndConstants().size(); Instruction* i = m.addTypeInstr(&d); if (m.getTypesAndConstants().size() != n + 1) violation("by-hand-added", tym::str(t)); i->setOperation((spv::Op)t.op); i->addOperand(spvgentwo::InvalidId); for (u32 l : t.lit) i->addOperand(literal_t{l}); const Type* ti = m.getTypeInfo(i); if (!ti || !(tym::from(*ti) == t)) violation("by-hand-info:" + std::string(sv::opname(t.op)), tym::str(t) + (ti ? ": info " + tym::str(tym::from(*ti)) : ": no info")); if (m.getTypeInstr(d) != i) violation("by-hand-instr:" + std::string(sv::opname(t.op)), tym::str(t)); if (i->getType() != ti) violation("by-hand-type", tym::str(t)); n = m.getTypesAndConstants().size(); if (m.addType(d) != i || m.getTypesAndConstants().size() != n) violation("by-hand-again", tym::str(t)); Instruction* plain = m.addTypeInstr(); plain->setOperation(spv::Op::OpTypeVoid); if (m.getTypeInfo(plain)) violation("by-hand-unknown", "info for an instruction added without a type"); m.remove(plain); count("by_hand"); k.byKey[t.key()] = i; }
    VecWriter vw; m.assignIDs(g); std::map<u32, std::string> want; for (auto& q : k.byKey) want[(u32)q.second->getResultId()] = q.first; if (!m.write(vw)) { violation("write", log.last); return; } w = vw.w;
    sv::Mod sm; std::string err; if (!sv::decode(w, sm, &err)) { violation("undecodable", err); return; } tym::Bin bin(sm); size_t types = 0; for (auto& i : sm.ins) if (sv::is_type(i.op)) { ++types; T t; if (!bin.type(i.result, t)) { violation("emitted-unknown", sv::str(i)); continue; } auto q = want.find(i.result); if (q == want.end()) { violation("emitted-extra:" + std::string(sv::opname(i.op)), tym::str(t)); continue; } if (q->second != t.key()) violation("emitted:" + std::string(sv::opname(i.op)), "requested " + q->second + ", emitted " + tym::str(t)); } if (types != want.size()) violation("emitted-count", fmt("%zu types emitted, %zu requested", types, want.size())); count("types_emitted", types); distinct(fnv(w)); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e);
  if (r.chance(1, 4)) { sv::Mod sm; std::string err; sv::decode(w, sm, &err); bool op = r.chance(1, 3); std::set<u32> len; for (auto& i : sm.ins) if (i.op == SpvOpTypeArray && r.coin()) len.insert(i.w[3]); std::vector<u32> v(w.begin(), w.begin() + 5); for (auto& i : sm.ins) { std::vector<u32> x = i.w; if (i.op == SpvOpConstant && len.count(i.result)) { if (op) { u32 id = v[3]++; v.insert(v.end(), {(4u << 16) | SpvOpConstant, i.w[1], id, i.w[3]}); if (i.w.size() != 4) harness_error("length"); x = {(6u << 16) | SpvOpSpecConstantOp, i.w[1], i.result, (u32)SpvOpIAdd, id, id}; } else x[0] = (x[0] & 0xffff0000u) | SpvOpSpecConstant; } v.insert(v.end(), x.begin(), x.end()); } w = v; }
  parsed(w, r, true); }
