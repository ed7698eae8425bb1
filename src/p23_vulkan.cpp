// P23: Vulkan classification of resources, shader stages, and the type queries it rests on.
// needs: tools
#include "tmodel.h"
#include "gen.h"
#include "build.h"
#include "common/VulkanInterop.h"
#include "common/TypeHelper.h"
#include "common/HeapAllocator.h"
#include "common/HeapString.h"
#include <unistd.h>
#include <sys/wait.h>
using namespace hx; using namespace spvgentwo;
namespace hx { const Info g_info = {"P23", "a case is one module with 1..12 variables of random Vulkan resource kinds, arrays, storage classes and set/binding sharing (built through the API, parsed from words assembled by the check, or both), or a batch of type queries on random types, or all execution models; the oracle is the descriptor type and stage tables of the Vulkan specification and a structural model of types", 24000, 900000}; }
static Grammar* g; static HeapAllocator g_heap;
static std::string g_dir, g_bin;
void hx::init() { g = new Grammar(&g_heap); char t[] = "/tmp/p23_XXXXXX"; if (!mkdtemp(t)) harness_error("mkdtemp"); g_dir = t; if (const char* b = getenv("VERIF_BUILD_DIR")) g_bin = b; if (g_bin.empty() || access((g_bin + "/tool_refl_bin").c_str(), X_OK)) g_bin.clear(); else if (g_bin[0] != '/') { char c[4096]; if (getcwd(c, sizeof c)) g_bin = std::string(c) + "/" + g_bin; } }
void hx::finish() { if (!g_dir.empty()) { unlink((g_dir + "/m.spv").c_str()); rmdir(g_dir.c_str()); } }
using tym::T; using vk::DescriptorType; using D = vk::DescriptorType;
namespace {
T im(u32 dim, u32 sampled, Rng& r) { static const std::vector<u32> fmts{SpvImageFormatRgba32f, SpvImageFormatR32f, SpvImageFormatRgba8, SpvImageFormatR32i, SpvImageFormatUnknown}; u32 f = r.pick(fmts); T s = f == SpvImageFormatR32i ? tym::mk(SpvOpTypeInt, {32, 1}) : tym::mk(SpvOpTypeFloat, {32}); if (dim == SpvDimSubpassData) f = 0; return tym::mk(SpvOpTypeImage, {dim, (u32)r.below(3), dim == SpvDim3D || dim == SpvDimBuffer || dim == SpvDimSubpassData ? 0 : (u32)r.below(2), (dim == SpvDim2D || dim == SpvDimSubpassData) ? (u32)r.below(2) : 0, sampled, f}, {s}); }
enum Kind { kSampler, kSampled, kStorage, kCombined, kUTexel, kSTexel, kInput, kUbo, kSsboOld, kSsbo, kAccel, kNone, kCombinedBuffer, kKinds };
const char* const kname[] = {"sampler", "sampled-image", "storage-image", "combined", "uniform-texel", "storage-texel", "input-attachment", "uniform-buffer", "buffer-block", "storage-buffer", "acceleration-structure", "no-descriptor", "combined-buffer"};
struct V { Kind k; T t; u32 sc; int set = -1, binding = -1; u32 deco = 0; std::string note; Instruction* i = nullptr; u32 id = 0; };
const std::vector<u32>& dims() { static const std::vector<u32> d{SpvDim1D, SpvDim2D, SpvDim3D, SpvDimCube, SpvDimRect}; return d; }
V var(Rng& r, u32& salt) { V v; v.k = (Kind)r.below(kKinds); v.sc = SpvStorageClassUniformConstant; u32 dim = r.pick(dims()); auto strct = [&](u32 deco) { T t = tym::mk(SpvOpTypeStruct); for (u32 i = 0, n = r.range(1, 3); i < n; ++i) t.kids.push_back(r.coin() ? tym::mk(SpvOpTypeFloat, {32}) : r.coin() ? tym::mk(SpvOpTypeVector, {4}, {tym::mk(SpvOpTypeFloat, {32})}) : tym::mk(SpvOpTypeArray, {4}, {tym::mk(SpvOpTypeInt, {32, 0})})); t.kids.push_back(tym::mk(SpvOpTypeArray, {++salt + 100}, {tym::mk(SpvOpTypeInt, {32, 1})})); v.deco = deco; return t; };
  switch (v.k) { case kSampler: v.t = tym::mk(SpvOpTypeSampler); break; case kSampled: v.t = im(dim, 1, r); break; case kStorage: v.t = im(dim, 2, r); break; case kCombined: v.t = tym::mk(SpvOpTypeSampledImage, {}, {im(dim, 1, r)}); break; case kCombinedBuffer: v.t = tym::mk(SpvOpTypeSampledImage, {}, {im(SpvDimBuffer, 1, r)}); break; case kUTexel: v.t = im(SpvDimBuffer, 1, r); break; case kSTexel: v.t = im(SpvDimBuffer, 2, r); break; case kInput: v.t = im(SpvDimSubpassData, 2, r); break;
    case kUbo: v.sc = SpvStorageClassUniform; v.t = strct(SpvDecorationBlock); break; case kSsboOld: v.sc = SpvStorageClassUniform; v.t = strct(SpvDecorationBufferBlock); break; case kSsbo: v.sc = SpvStorageClassStorageBuffer; v.t = strct(SpvDecorationBlock); break; case kAccel: v.t = tym::mk(SpvOpTypeAccelerationStructureKHR); break;
    default: { static const std::vector<u32> scs{SpvStorageClassInput, SpvStorageClassOutput, SpvStorageClassPrivate, SpvStorageClassWorkgroup, SpvStorageClassPushConstant}; v.sc = r.pick(scs); v.t = r.coin() ? tym::vec(r) : strct(v.sc == SpvStorageClassPushConstant ? (u32)SpvDecorationBlock : ~0u); if (v.t.op != SpvOpTypeStruct) v.deco = ~0u; } }
  if (v.k != kNone) { if (r.chance(1, 3)) v.t = r.chance(1, 3) ? tym::mk(SpvOpTypeRuntimeArray, {}, {v.t}) : tym::mk(SpvOpTypeArray, {r.range(1, 9)}, {v.t}); if (r.chance(1, 8)) v.t = tym::mk(SpvOpTypeArray, {r.range(1, 9)}, {v.t}); v.set = (int)r.below(3); v.binding = (int)r.below(4); } return v; }
bool combinable(Kind k) { return k == kSampler || k == kSampled || k == kCombined; }
D want(const V& v, const std::vector<V>& all) { if (combinable(v.k)) for (auto& o : all) if (&o != &v && o.set == v.set && o.binding == v.binding && combinable(o.k) && o.k != v.k) return D::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
  switch (v.k) { case kSampler: return D::VK_DESCRIPTOR_TYPE_SAMPLER; case kSampled: return D::VK_DESCRIPTOR_TYPE_SAMPLED_IMAGE; case kStorage: return D::VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; case kCombined: return D::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; case kCombinedBuffer: case kUTexel: return D::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER; case kSTexel: return D::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; case kInput: return D::VK_DESCRIPTOR_TYPE_INPUT_ATTACHMENT; case kUbo: return D::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER; case kSsboOld: case kSsbo: return D::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; case kAccel: return D::VK_DESCRIPTOR_TYPE_ACCELERATION_STRUCTURE_KHR; default: return D::VK_DESCRIPTOR_TYPE_MAX_ENUM; } }
bool texels(Kind k) { return k == kUTexel || k == kCombinedBuffer; } // an image of a buffer is one descriptor, with or without sampled image around it
// only combinable resources may share a binding, and each with a different part (the same part twice is an alias)
void legalize(std::vector<V>& vs, Rng& r) { int next = 100; for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < i; ++j) if (vs[i].set >= 0 && vs[i].set == vs[j].set && vs[i].binding == vs[j].binding && !(combinable(vs[i].k) && combinable(vs[j].k)) && !(texels(vs[i].k) && texels(vs[j].k)) && (vs[i].k != vs[j].k || r.coin())) { vs[i].binding = next++; } }
void check(const std::vector<V>& vs, Module& m, const char* how) { (void)m; for (auto& v : vs) { D d = vk::getDescriptorTypeFromVariable(*v.i), e = want(v, vs); count(std::string("kind_") + kname[v.k]); if (e == D::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER && v.k != kCombined) count("shared_binding"); if (d != e) violation(std::string("descriptor:") + kname[v.k] + ":" + how, fmt("%s (storage class %u, set %d, binding %d): got %u, expected %u", tym::str(v.t).c_str(), v.sc, v.set, v.binding, (u32)d, (u32)e)); } }
const T& innermost(const T& t) { const T* p = &t; while (p->op == SpvOpTypeArray || p->op == SpvOpTypeRuntimeArray) p = &p->kids[0]; return *p; }
// assembles the module without the library; arrays of structs share the struct
struct Asm { std::vector<u32> types, decos, vars; std::map<std::string, u32> ids; u32 next = 1; std::map<std::string, std::set<u32>> decorated;
  void put(std::vector<u32>& o, u32 op, std::vector<u32> a) { o.push_back(((u32)(a.size() + 1) << 16) | op); o.insert(o.end(), a.begin(), a.end()); }
  u32 type(const T& t) { auto it = ids.find(t.key()); if (it != ids.end()) return it->second; std::vector<u32> k; for (auto& c : t.kids) k.push_back(type(c)); u32 len = 0; if (t.op == SpvOpTypeArray) { u32 ut = type(tym::mk(SpvOpTypeInt, {32, 0})); std::string lk = fmt("len%u", t.lit[0]); if (!ids.count(lk)) { ids[lk] = next; put(types, SpvOpConstant, {ut, next, t.lit[0]}); ++next; } len = ids[lk]; } u32 id = next++; std::vector<u32> a{id};
    switch (t.op) { case SpvOpTypeArray: a.push_back(k[0]); a.push_back(len); break; case SpvOpTypeVector: case SpvOpTypeMatrix: a.push_back(k[0]); a.push_back(t.lit[0]); break; case SpvOpTypePointer: a.push_back(t.lit[0]); a.push_back(k[0]); break; default: a.insert(a.end(), k.begin(), k.end()); a.insert(a.end(), t.lit.begin(), t.lit.end()); } put(types, t.op, a); ids[t.key()] = id; return id; }
  std::vector<u32> module(std::vector<V>& vs, Rng& r) { std::vector<size_t> order(vs.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i; for (auto& v : vs) { u32 p = type(tym::mk(SpvOpTypePointer, {v.sc}, {v.t})); v.id = next++; put(vars, SpvOpVariable, {p, v.id, v.sc}); } for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below((u32)i)]); for (size_t i : order) { V& v = vs[i]; bool first = r.coin(); auto set = [&] { if (v.set >= 0) put(decos, SpvOpDecorate, {v.id, SpvDecorationDescriptorSet, (u32)v.set}); }; if (first) set(); if (v.binding >= 0) put(decos, SpvOpDecorate, {v.id, SpvDecorationBinding, (u32)v.binding}); if (!first) set(); if (r.chance(1, 4)) put(decos, SpvOpDecorate, {v.id, SpvDecorationNonWritable}); const T& s = innermost(v.t); if (s.op == SpvOpTypeStruct && v.deco != ~0u) { auto& d = decorated[s.key()]; if (r.coin()) put(decos, SpvOpMemberDecorate, {type(s), 0, SpvDecorationOffset, 0}); if (d.insert(v.deco).second) { bool more = r.coin(); if (more && r.coin()) put(decos, SpvOpDecorate, {type(s), SpvDecorationGLSLShared}); put(decos, SpvOpDecorate, {type(s), v.deco}); if (more) put(decos, SpvOpDecorate, {type(s), SpvDecorationGLSLPacked}); if (r.chance(1, 3)) put(decos, SpvOpMemberDecorate, {type(s), 0, SpvDecorationNonWritable}); } } if (v.k == kInput) put(decos, SpvOpDecorate, {v.id, SpvDecorationInputAttachmentIndex, r.below(4)}); }
    std::vector<u32> w{SpvMagicNumber, 0x00010500, 0, next, 0}; for (u32 c : {1u, 5302u, 4479u}) put(w, SpvOpCapability, {c}); put(w, SpvOpMemoryModel, {0, 1}); w.insert(w.end(), decos.begin(), decos.end()); w.insert(w.end(), types.begin(), types.end()); w.insert(w.end(), vars.begin(), vars.end()); return w; } };
// the reflection tool lists every variable with the name of its descriptor type
void tool(const std::vector<u32>& w, const std::vector<V>& vs) { if (g_bin.empty()) { count("tools_missing"); return; } static const std::map<u32, const char*> names{{0, "SAMPLER"}, {1, "COMBINED_IMAGE_SAMPLER"}, {2, "SAMPLED_IMAGE"}, {3, "STORAGE_IMAGE"}, {4, "UNIFORM_TEXEL_BUFFER"}, {5, "STORAGE_TEXEL_BUFFER"}, {6, "UNIFORM_BUFFER"}, {7, "STORAGE_BUFFER"}, {8, "UNIFORM_BUFFER_DYNAMIC"}, {9, "STORAGE_BUFFER_DYNAMIC"}, {10, "INPUT_ATTACHMENT"}, {1000138000, "INLINE_UNIFORM_BLOCK_EXT"}, {1000150000, "ACCELERATION_STRUCTURE_KHR"}, {1000165000, "ACCELERATION_STRUCTURE_NV"}};
  std::string f = g_dir + "/m.spv", out; FILE* o = fopen(f.c_str(), "wb"); if (!o || fwrite(w.data(), 4, w.size(), o) != w.size()) harness_error("write"); fclose(o); FILE* p = popen(("timeout 60 " + g_bin + "/tool_refl_bin " + f + " -vars 2>&1").c_str(), "r"); if (!p) harness_error("popen"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k); int rc = pclose(p); if (!WIFEXITED(rc) || WEXITSTATUS(rc)) { violation("tool-failed", out.substr(0, 1500)); return; } count("tool_runs");
  for (auto& v : vs) { auto q = names.find((u32)want(v, vs)); std::string key = fmt(":\t%%%u\tOpVariable ", v.id), e = q == names.end() ? "" : std::string("\t[VK_DESCRIPTOR_TYPE_") + q->second + "]"; size_t at = out.find(key); if (at == std::string::npos) { violation("tool-variable", fmt("%%%u is not listed\n", v.id) + out.substr(0, 1500)); continue; } std::string line = out.substr(at, out.find('\n', at) - at); size_t l = line.find("\t["); if ((l == std::string::npos ? std::string() : line.substr(l)) != e) violation(std::string("tool-descriptor:") + kname[v.k], line + ": expected " + e); count("tool_variables"); } }
void parsed(const std::vector<u32>& w, std::vector<V>& vs, const char* how) { TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(w); if (!m.readAndInit(rd, *g)) { violation("parse", log.last); return; } std::map<u32, Instruction*> by; for (auto& i : m.getGlobalVariables()) by[(u32)i.getResultId()] = &i; for (auto& v : vs) { v.i = by[v.id]; if (!v.i) { violation("variable-lost", fmt("%u", v.id)); return; } } check(vs, m, how); static u32 turn = 0; if (turn++ % 60 == 0) tool(w, vs); HeapString s; for (auto& v : vs) { s.clear(); TypeHelper::getTypeName(*v.i->getType(), s, v.i); String s2(&al); TypeHelper::getTypeName(*v.i->getType(), s2, nullptr); (void)s2; } if (log.errors) violation("error:" + std::string(how), log.last); } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
void descriptors(Rng& r, u32 way) { u32 salt = 0; std::vector<V> vs; for (u32 i = 0, n = r.range(1, 12); i < n; ++i) { vs.push_back(var(r, salt)); if (!vs.empty() && vs.size() > 1 && r.chance(1, 3)) { V& a = vs.back(); const V& b = vs[r.below((u32)vs.size() - 1)]; if (a.set >= 0 && b.set >= 0) { a.set = b.set; a.binding = b.binding; } } } legalize(vs, r);
  if (way == 0) { Asm a; std::vector<u32> w = a.module(vs, r); distinct(fnv(w)); parsed(w, vs, "parsed"); return; }
  TrackAlloc al; std::vector<u32> w; { Log log; Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); std::map<std::string, std::set<u32>> done;
    for (auto& v : vs) { Type p = m.newType(); T pt = tym::mk(SpvOpTypePointer, {v.sc}, {v.t}); tym::fill(p, pt, r); v.i = r.coin() ? m.variable(p, (spv::StorageClass)v.sc) : m.variable(m.addType(p), (spv::StorageClass)v.sc); const T& s = innermost(v.t); if (s.op == SpvOpTypeStruct && v.deco != ~0u && done[s.key()].insert(v.deco).second) { Type d = m.newType(); tym::fill(d, s, r); Instruction* st = m.addType(d); if (r.coin()) m.addDecorationInstr()->opMemberDecorate(st, 0u, spv::Decoration::Offset, 0u); m.addDecorationInstr()->opDecorate(st, (spv::Decoration)v.deco); if (r.coin()) m.addDecorationInstr()->opDecorate(st, spv::Decoration::GLSLShared); }
      if (r.chance(1, 4)) m.addDecorationInstr()->opDecorate(v.i, spv::Decoration::NonWritable); if (v.binding >= 0) m.addDecorationInstr()->opDecorate(v.i, spv::Decoration::Binding, (u32)v.binding); if (v.set >= 0) m.addDecorationInstr()->opDecorate(v.i, spv::Decoration::DescriptorSet, (u32)v.set); }
    if (log.errors) violation("build-error", log.last); check(vs, m, "built"); m.assignIDs(g); for (auto& v : vs) v.id = (u32)v.i->getResultId(); VecWriter vw; if (!m.write(vw)) { violation("write", log.last); return; } w = vw.w; HeapString s; for (auto& v : vs) { s.clear(); TypeHelper::getTypeName(*v.i->getType(), s, v.i); } for (auto& i : m.getTypesAndConstants()) { s.clear(); if (const Type* t = m.getTypeInfo(&i)) TypeHelper::getTypeName(*t, s, &i); if (vk::getDescriptorTypeFromVariable(i) != D::VK_DESCRIPTOR_TYPE_MAX_ENUM) violation("not-a-variable", sv::opname((u32)i.getOperation())); } }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); distinct(fnv(w)); parsed(w, vs, "reparsed"); }
void stages() { using S = vk::ShaderStageFlagBits; struct E { u32 model, stage; }; static const std::vector<E> es{{SpvExecutionModelVertex, 1}, {SpvExecutionModelTessellationControl, 2}, {SpvExecutionModelTessellationEvaluation, 4}, {SpvExecutionModelGeometry, 8}, {SpvExecutionModelFragment, 16}, {SpvExecutionModelGLCompute, 32}, {SpvExecutionModelTaskNV, 64}, {SpvExecutionModelMeshNV, 128}, {SpvExecutionModelTaskEXT, 64}, {SpvExecutionModelMeshEXT, 128}, {SpvExecutionModelRayGenerationKHR, 0x100}, {SpvExecutionModelAnyHitKHR, 0x200}, {SpvExecutionModelClosestHitKHR, 0x400}, {SpvExecutionModelMissKHR, 0x800}, {SpvExecutionModelIntersectionKHR, 0x1000}, {SpvExecutionModelCallableKHR, 0x2000}, {SpvExecutionModelKernel, (u32)S::VK_SHADER_STAGE_FLAG_BITS_MAX_ENUM}};
  std::map<u32, u32> m; for (auto& e : es) m[e.model] = e.stage; for (u32 x = 0; x < 6000; ++x) { u32 got = (u32)vk::getShaderStageFromExecutionModel((spv::ExecutionModel)x); auto it = m.find(x); u32 e = it == m.end() ? 0x7fffffffu : it->second; count("models"); if (got != e) violation(fmt("stage:%u", x), fmt("execution model %u gave stage %x, expected %x", x, got, e)); } if (vk::getShaderStageFromExecutionModel(spv::ExecutionModel::Max) != S::VK_SHADER_STAGE_FLAG_BITS_MAX_ENUM) violation("stage:max", "the invalid model has a stage"); }
// ---- type queries
const T& base(const T& t) { return t.kids.empty() ? t : base(t.kids[0]); }
u32 width(const T& t) { return t.op == SpvOpTypeInt || t.op == SpvOpTypeFloat ? t.lit[0] : 0; }
bool sint(const T& t) { return t.op == SpvOpTypeInt && t.lit[1]; }
bool contains(const T& t, const T& s) { if (t == s) return true; for (auto& k : t.kids) if (contains(k, s)) return true; return false; }
bool contains(const T& t, u32 op) { if (t.op == op) return true; for (auto& k : t.kids) if (contains(k, op)) return true; return false; }
void expect(bool got, bool e, const char* q, const T& t) { count("queries"); if (got != e) violation(std::string("query:") + q, fmt("%s is %d for %s", q, got, tym::str(t).c_str())); }
void expectn(u64 got, u64 e, const char* q, const T& t) { count("queries"); if (got != e) violation(std::string("query:") + q, fmt("%s is %llu, expected %llu for %s", q, (unsigned long long)got, (unsigned long long)e, tym::str(t).c_str())); }
void queries(Rng& r) { TrackAlloc al; { Module m(&al); std::vector<T> all; for (u32 i = 0, n = r.range(3, 10); i < n; ++i) all.push_back(!all.empty() && r.coin() ? tym::mutate(r.pick(all), r) : tym::any(r, (int)r.below(4)));
    for (auto& t : all) { if (t.op == SpvOpTypePipe) continue; Type a = m.newType(); if (r.chance(1, 3)) { T o = tym::any(r, 2); tym::fill(a, o, r); } { Type f = m.newType(); tym::fill(f, t, r); a = f; } distinct(fnv(t.key())); bool vec = t.op == SpvOpTypeVector, mat = t.op == SpvOpTypeMatrix, num = t.op == SpvOpTypeInt || t.op == SpvOpTypeFloat, scal = num || t.op == SpvOpTypeBool; const T& b = base(t);
#define Q(e, w) expect(a.e, w, #e, t)
      Q(isVoid(), t.op == SpvOpTypeVoid); Q(isBool(), t.op == SpvOpTypeBool); Q(isPointer(), t.op == SpvOpTypePointer); Q(isStruct(), t.op == SpvOpTypeStruct); Q(isArray(), t.op == SpvOpTypeArray); Q(isRuntimeArray(), t.op == SpvOpTypeRuntimeArray); Q(isImage(), t.op == SpvOpTypeImage); Q(isSampler(), t.op == SpvOpTypeSampler); Q(isSampledImage(), t.op == SpvOpTypeSampledImage); Q(isVector(), vec); Q(isMatrix(), mat); Q(isNumerial(), num); Q(isScalar(), scal); Q(isFunction(), t.op == SpvOpTypeFunction); Q(isEvent(), t.op == SpvOpTypeEvent); Q(isDeviceEvent(), t.op == SpvOpTypeDeviceEvent); Q(isReservedId(), t.op == SpvOpTypeReserveId); Q(isPipeStorage(), t.op == SpvOpTypePipeStorage); Q(isQueue(), t.op == SpvOpTypeQueue); Q(isRayQueryKHR(), t.op == SpvOpTypeRayQueryKHR); Q(isAccelerationStructure(), t.op == SpvOpTypeAccelerationStructureKHR); Q(isAggregate(), t.op == SpvOpTypeStruct || t.op == SpvOpTypeArray); Q(isComposite(), t.op == SpvOpTypeStruct || t.op == SpvOpTypeArray || vec || mat); Q(isForwardPointer(), false); Q(isOpaque(), false);
      for (u32 w : {8u, 16u, 32u, 64u}) { bool wi = t.op == SpvOpTypeInt && t.lit[0] == w, wf = t.op == SpvOpTypeFloat && t.lit[0] == w; Q(isInt(w), wi); Q(isUInt(w), wi && !t.lit[1]); Q(isSInt(w), wi && t.lit[1]); Q(isFloat(w), wf); Q(isInt(w, Sign::Signed), wi && t.lit[1]); Q(isInt(w, Sign::Unsigned), wi && !t.lit[1]); }
      Q(isI8(), t.op == SpvOpTypeInt && width(t) == 8); Q(isU16(), t.op == SpvOpTypeInt && width(t) == 16 && !sint(t)); Q(isS32(), sint(t) && width(t) == 32); Q(isU64(), t.op == SpvOpTypeInt && width(t) == 64 && !sint(t)); Q(isF16(), t.op == SpvOpTypeFloat && width(t) == 16); Q(isF32(), t.op == SpvOpTypeFloat && width(t) == 32); Q(isF64(), t.op == SpvOpTypeFloat && width(t) == 64); Q(isInt(), t.op == SpvOpTypeInt); Q(isFloat(), t.op == SpvOpTypeFloat); Q(isS8(), sint(t) && width(t) == 8); Q(isU8(), !sint(t) && t.op == SpvOpTypeInt && width(t) == 8); Q(isI16(), t.op == SpvOpTypeInt && width(t) == 16); Q(isS16(), sint(t) && width(t) == 16); Q(isI32(), t.op == SpvOpTypeInt && width(t) == 32); Q(isU32(), t.op == SpvOpTypeInt && width(t) == 32 && !sint(t)); Q(isI64(), t.op == SpvOpTypeInt && width(t) == 64); Q(isS64(), sint(t) && width(t) == 64);
      if (t.op == SpvOpTypeInt) { expectn(a.getIntWidth(), t.lit[0], "getIntWidth", t); Q(getIntSign(), t.lit[1] != 0); } if (t.op == SpvOpTypeFloat) expectn(a.getFloatWidth(), t.lit[0], "getFloatWidth", t); if (vec) expectn(a.getVectorComponentCount(), t.lit[0], "getVectorComponentCount", t); if (mat) { expectn(a.getMatrixColumnCount(), t.lit[0], "getMatrixColumnCount", t); Q(isSqareMatrix(), t.lit[0] == t.kids[0].lit[0]); Q(isSqareMatrixOf(spv::Op::OpTypeFloat), t.lit[0] == t.kids[0].lit[0]); Q(isSqareMatrixOf(spv::Op::OpTypeInt), false); } expectn(a.getMatrixRowCount(), mat ? t.kids[0].lit[0] : 0, "getMatrixRowCount", t); if (t.op == SpvOpTypeArray) expectn(a.getArrayLength(), t.lit[0], "getArrayLength", t); if (t.op == SpvOpTypePointer) { expectn((u32)a.getStorageClass(), t.lit[0], "getStorageClass", t); Q(isPointer((spv::StorageClass)t.lit[0]), true); Q(isPointer((spv::StorageClass)(t.lit[0] + 1)), false); }
      if (t.op == SpvOpTypeImage) { expectn((u32)a.getImageDimension(), t.lit[0], "getImageDimension", t); expectn(a.getImageDepth(), t.lit[1], "getImageDepth", t); Q(getImageArray(), t.lit[2] != 0); Q(getImageMultiSampled(), t.lit[3] != 0); expectn((u32)a.getImageSamplerAccess(), t.lit[4], "getImageSamplerAccess", t); expectn((u32)a.getImageFormat(), t.lit[5], "getImageFormat", t); }
      if (!mat || true) { if (!(tym::from(a.getBaseType()) == b)) violation("query:getBaseType", tym::str(t)); expectn((u32)a.getBaseTypeOp(), b.op, "getBaseTypeOp", t); Q(isBaseTypeOf((spv::Op)b.op), true); Q(isSigned(), sint(b)); Q(isUnsigned(), b.op == SpvOpTypeInt && !sint(b)); Q(hasSign(Sign::Any), true); Q(hasSign(Sign::Signed), sint(b)); Q(hasSign(Sign::Unsigned), !sint(b)); }
      expectn(a.getScalarOrVectorLength(), scal ? 1 : vec ? t.lit[0] : 0, "getScalarOrVectorLength", t); u32 n = r.below(5), w = (u32)(r.below(2) ? 0 : 8u << r.below(4)); Sign sg = (Sign)r.below(3); const T* c = vec ? &t.kids[0] : nullptr; auto sgn = [&](const T& x) { return sg == Sign::Any || (sg == Sign::Signed) == sint(x); }; bool vl = vec && (!n || t.lit[0] == n) && (!w || width(*c) == w); 
      Q(isVectorOfLength(n, w, sg), vl && sgn(*c)); Q(isVectorOfInt(n, w, sg), vl && c->op == SpvOpTypeInt && sgn(*c)); Q(isVectorOfSInt(n, w), vl && sint(*c)); Q(isVectorOfUInt(n, w), vl && c->op == SpvOpTypeInt && !sint(*c)); Q(isVectorOfFloat(n, w), vl && c->op == SpvOpTypeFloat); Q(isVectorOfBool(n), vec && (!n || t.lit[0] == n) && c->op == SpvOpTypeBool);
      for (u32 op : {SpvOpTypeInt, SpvOpTypeFloat, SpvOpTypeBool}) { Q(isVectorOf((spv::Op)op, n, w, sg), vl && c->op == op && sgn(*c)); Q(isScalarOrVectorOf((spv::Op)op, n, w, sg), (t.op == op && (!w || width(t) == w) && sgn(t)) || (vl && c->op == op && sgn(*c))); Q(isMatrixOf((spv::Op)op, n, 0, w, sg), mat && b.op == op && (!n || t.lit[0] == n) && (!w || width(b) == w) && sgn(b)); } Q(isMatrixOfFloat(0, n, w), mat && (!n || t.kids[0].lit[0] == n) && (!w || width(b) == w)); Q(isMatrixOfInt(), false); Q(isNumericalScalarOrVector(n, w, sg), (num && (!w || width(t) == w) && sgn(t)) || (vl && c->op != SpvOpTypeBool && sgn(*c)));
      for (u32 op : {(u32)SpvOpTypeInt, (u32)SpvOpTypeFloat, (u32)SpvOpTypeStruct, (u32)SpvOpTypeVoid, b.op}) Q(containsType((spv::Op)op), contains(t, op));
      const T& o = r.chance(1, 3) ? b : r.pick(all); if (o.op == SpvOpTypePipe) continue; Type ob = m.newType(); tym::fill(ob, o, r); const T& ob_ = base(o); bool ovec = o.op == SpvOpTypeVector, oscal = o.op == SpvOpTypeInt || o.op == SpvOpTypeFloat || o.op == SpvOpTypeBool; Q(containsType(ob), contains(t, o)); Q(hasSameBase(ob), b == ob_); Q(hasSameBase(ob, true), b.op == ob_.op); Q(hasSameVectorLength(ob), vec && ovec && t.lit[0] == o.lit[0]); Q(hasSameVectorLength(ob, spv::Op::OpTypeFloat), vec && ovec && t.lit[0] == o.lit[0] && t.kids[0].op == SpvOpTypeFloat && o.kids[0].op == SpvOpTypeFloat); if ((scal || vec) && (oscal || ovec)) { bool sl = (vec && ovec && t.lit[0] == o.lit[0]) || (scal && oscal); Q(isScalarOrVectorOfSameLength(ob, false), sl); Q(isScalarOrVectorOfSameLength(ob), sl && width(b) == width(ob_)); Q(hasSameComponentWidth(ob), width(b) && width(ob_) && width(b) == width(ob_)); }
      HeapString s; TypeHelper::getTypeName(a, s); a.getString(); if (t.op == SpvOpTypeBool && !(s == "bool")) violation("type-name", s.c_str());
      if (u32 steps = r.range(1, 3); true) { List<unsigned> idx(&al); const T* p = &t; for (u32 k = 0; k < steps && !p->kids.empty(); ++k) { u32 i = r.below((u32)p->kids.size()); idx.emplace_back(i); p = &p->kids[i]; } if (idx.size()) { auto it = a.getSubType(idx); if (it == a.getSubTypes().end() || !(tym::from(*it) == *p)) violation("query:getSubType", tym::str(t)); auto v = idx.begin(); auto jt = idx.size() == 1 ? a.getSubType(*v) : idx.size() == 2 ? a.getSubType(*v, *(v + 1)) : a.getSubType(*v, *(v + 1), *(v + 2)); if (jt != it) violation("query:getSubType-static", tym::str(t)); } } } 
    // formats
    struct F { spv::ImageFormat f; u32 n, w; int k; }; using IF = spv::ImageFormat; static const std::vector<F> fs{{IF::Rgba32f, 4, 32, 2}, {IF::Rgba16f, 4, 16, 2}, {IF::R32f, 1, 32, 2}, {IF::Rg32f, 2, 32, 2}, {IF::Rg16f, 2, 16, 2}, {IF::R16f, 1, 16, 2}, {IF::Rgba32i, 4, 32, 1}, {IF::Rgba16i, 4, 16, 1}, {IF::Rgba8i, 4, 8, 1}, {IF::R32i, 1, 32, 1}, {IF::Rg32i, 2, 32, 1}, {IF::Rg16i, 2, 16, 1}, {IF::Rg8i, 2, 8, 1}, {IF::R16i, 1, 16, 1}, {IF::R8i, 1, 8, 1}, {IF::Rgba32ui, 4, 32, 0}, {IF::Rgba16ui, 4, 16, 0}, {IF::Rgba8ui, 4, 8, 0}, {IF::R32ui, 1, 32, 0}, {IF::Rg32ui, 2, 32, 0}, {IF::Rg16ui, 2, 16, 0}, {IF::Rg8ui, 2, 8, 0}, {IF::R16ui, 1, 16, 0}, {IF::R8ui, 1, 8, 0}, {IF::R64i, 1, 64, 1}, {IF::R64ui, 1, 64, 0}};
    const F& f = r.pick(fs); Type t = m.newType(); { T o = tym::any(r, 2); tym::fill(t, o, r); } t.fromImageFormat(f.f, r.coin()); T e = f.k == 2 ? tym::mk(SpvOpTypeFloat, {f.w}) : tym::mk(SpvOpTypeInt, {f.w, (u32)f.k}); if (f.n > 1) e = tym::mk(SpvOpTypeVector, {f.n}, {e}); if (!(tym::from(t) == e)) violation(fmt("image-format:%u", (u32)f.f), "got " + tym::str(tym::from(t)) + ", expected " + tym::str(e)); }
  if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
// every resource query on arbitrary parsed modules: no crash, and only variables have descriptors
void hostile(Rng& r) { gen::Opt o; o.size = r.range(2, 16); o.any_op = false; std::vector<u32> w = gen::module(r, o); if (r.coin() && w.size() > 8) w[5 + r.below((u32)w.size() - 5)] ^= 1u << r.below(r.coin() ? 4 : 32); distinct(fnv(w)); TrackAlloc al; { Log log; Module m(&al, &log); VecReader rd(w); if (!m.readAndInit(rd, *g)) { count("rejected"); return; } HeapString s; m.iterateInstructions([&](Instruction& i) { count("instructions_queried"); D d = vk::getDescriptorTypeFromVariable(i); if (i.getOperation() != spv::Op::OpVariable && d != D::VK_DESCRIPTOR_TYPE_MAX_ENUM) violation("not-a-variable", sv::opname((u32)i.getOperation())); if (const Type* t = i.getType()) { s.clear(); TypeHelper::getTypeName(*t, s, &i); } }); } if (std::string e = al.imbalance(); !e.empty()) violation("allocation", e); }
}
void hx::run_case(u64 idx, Rng& r) { if (idx % 4096 == 0) { stages(); distinct(1); return; } switch (r.below(8)) { case 0: case 1: case 2: count("mode_parsed"); descriptors(r, 0); break; case 3: case 4: count("mode_built"); descriptors(r, 1); break; case 5: case 6: count("mode_queries"); queries(r); break; default: count("mode_hostile"); hostile(r); } }
