#include "extra.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/TypeAlias.h"
#include <spirv/unified1/spirv.h>
using namespace spvgentwo; using namespace hx;
namespace build { namespace { using In = Instruction*;
struct X { Module& m; Rng& r; Extra out; In file = nullptr;
  void form(const char* s) { ++out.forms[s]; }
  In fl(float v) { return m.constant<float>(v); }
  In coord(u32 n) { switch (n) { case 1: return m.constant<float>(0.5f); case 2: return m.constant(make_vector(0.25f, 0.75f)); case 3: return m.constant(make_vector(0.25f, 0.5f, 0.75f)); default: return m.constant(make_vector(0.25f, 0.5f, 0.75f, 1.f)); } }
  In icoord(u32 n) { switch (n) { case 1: return m.constant<int>(1); case 2: return m.constant(make_vector(1, 2)); default: return m.constant(make_vector(1, 2, 3)); } }
  void source() { if (r.coin()) { file = m.addSourceStringInstr()->opString(r.coin() ? "shader.frag" : "a much longer file name.glsl"); form("string"); }
    if (r.coin()) { m.addSourceStringInstr()->opSource(r.pick(std::vector<spv::SourceLanguage>{spv::SourceLanguage::GLSL, spv::SourceLanguage::HLSL, spv::SourceLanguage::Unknown}), r.below(500), file, file && r.coin() ? "void main() {}" : nullptr); form("source"); if (r.chance(1, 3)) { m.addSourceStringInstr()->opSourceContinued("more text"); } }
    if (r.coin()) m.addSourceStringInstr()->opSourceExtension("GL_EXT_x"); if (r.chance(1, 3)) { auto* i = m.addModuleProccessedInstr(); i->makeOp(spv::Op::OpModuleProcessed, "optimised twice"); form("processed"); } }
  void line(BasicBlock& b) { if (file && r.chance(1, 4)) { b->opLine(file, r.below(1000), r.below(80)); form("line"); if (r.coin()) { b->opNoLine(); } } }
  // a buffer struct: members are 16 byte aligned
  struct Mem { Type t; u32 off; }; std::vector<u32> offs;
  In buffer(bool ssbo, bool rta, std::vector<Type>& ms) { u32 n = r.range(1, 5), off = 0; Type s = m.newType(); s.Struct(); std::vector<std::pair<u32, u32>> mats; for (u32 i = 0; i < n; ++i) { Type t = m.newType(); u32 sz = 16; switch (r.below(6)) { case 0: t.Float(); break; case 1: t.UInt(); break; case 2: t.Int(); break; case 3: { t = m.newType<vector_t<float, 4>>(); break; } case 4: { t = m.newType<matrix_t<float, 4, 4>>(); sz = 64; mats.push_back({i, 16}); break; } default: { u32 k = r.range(1, 5); t = m.newType<vector_t<float, 4>>().wrapArray(k); sz = 16 * k; break; } }
      s.Member() = t; ms.push_back(t); offs.push_back(off); off += sz; }
    if (rta) { Type e = m.newType<unsigned int>(); Type t = m.newType(); t.RuntimeArray(&e); s.Member() = t; ms.push_back(t); offs.push_back(off); }
    In st = m.addType(s); static u32 key; (void)key; if (!decorated.insert(st).second) { return ssbo ? m.storageBuffer(s, r.coin() ? "ssbo" : nullptr) : m.uniform(s, r.coin() ? "ubo" : nullptr); }
    m.addDecorationInstr()->opDecorate(st, spv::Decoration::Block); for (u32 i = 0; i < offs.size(); ++i) m.addDecorationInstr()->opMemberDecorate(st, i, spv::Decoration::Offset, offs[i]); for (auto& q : mats) { m.addDecorationInstr()->opMemberDecorate(st, q.first, spv::Decoration::MatrixStride, q.second); m.addDecorationInstr()->opMemberDecorate(st, q.first, spv::Decoration::ColMajor); }
    for (auto& t : ms) if (t.isArray()) { In a = m.addType(t); if (strided.insert(a).second) m.addDecorationInstr()->opDecorate(a, spv::Decoration::ArrayStride, t.isArray() && !t.front().isVector() ? 4u : 16u); }
    for (u32 i = 0; i < ms.size(); ++i) if (r.chance(1, 3)) { m.addMemberName(st, fmt("member%u", i).c_str(), i); form("membername"); } if (r.coin()) m.addName(st, "Block");
    form(ssbo ? "ssbo" : "ubo"); return ssbo ? m.storageBuffer(s, r.coin() ? "ssbo" : nullptr) : m.uniform(s, r.coin() ? "ubo" : nullptr); }
  std::set<In> decorated, strided;
  void buffers(BasicBlock& b) { for (u32 k = 0, n = r.range(1, 3); k < n; ++k) { std::vector<Type> ms; offs.clear(); bool ssbo = r.coin(), rta = ssbo && r.coin(); In v = buffer(ssbo, rta, ms); out.vars.push_back(v); m.addDecorationInstr()->opDecorate(v, spv::Decoration::DescriptorSet, 0u); m.addDecorationInstr()->opDecorate(v, spv::Decoration::Binding, k);
      for (u32 i = 0; i < ms.size(); ++i) { if (r.chance(1, 3)) continue; line(b); In p = b->opAccessChain(v, i); bool run = rta && i + 1 == ms.size(); if (run || ms[i].isArray()) { if (run) { In len = b->opArrayLength(v, i); form("arraylength"); In q = b->opAccessChain(v, i, r.below(100)); In x = b->opLoad(q); In y = b->opIAdd(x, len); b->opStore(q, y); continue; } p = b->opAccessChain(v, i, 0u); } In x = b->opLoad(p); if (ssbo && r.coin()) b->opStore(p, x); } } }
  void image(BasicBlock& b, u32 k) { static const std::vector<spv::Dim> dims{spv::Dim::Dim1D, spv::Dim::Dim2D, spv::Dim::Dim3D, spv::Dim::Cube}; spv::Dim d = r.pick(dims); bool arr = d != spv::Dim::Dim3D && r.chance(1, 3), depth = d != spv::Dim::Dim3D && r.chance(1, 4); u32 base = d == spv::Dim::Dim1D ? 1 : d == spv::Dim::Dim2D ? 2 : 3, cn = base + arr;
    if (d == spv::Dim::Dim1D) m.addCapability(spv::Capability::Sampled1D); if (d == spv::Dim::Cube && arr) m.addCapability(spv::Capability::SampledCubeArray);
    bool storage = !depth && r.chance(1, 4); Type img = m.newType(); img.Image({spv::Op::OpTypeFloat, 32u}, d, depth ? 1 : 0, arr, false, storage ? SamplerImageAccess::Storage : SamplerImageAccess::Sampled, storage ? spv::ImageFormat::Rgba32f : spv::ImageFormat::Unknown);
    auto deco = [&](In v) { m.addDecorationInstr()->opDecorate(v, spv::Decoration::DescriptorSet, 1u); m.addDecorationInstr()->opDecorate(v, spv::Decoration::Binding, k * 2); out.vars.push_back(v); };
    if (storage) { if (d == spv::Dim::Dim1D) m.addCapability(spv::Capability::Image1D); if (d == spv::Dim::Cube && arr) m.addCapability(spv::Capability::ImageCubeArray); In v = m.uniformConstant(img, "storageImage"); deco(v); In i = b->opLoad(v); In c = icoord(cn > 3 ? 3 : cn); if (d == spv::Dim::Cube && arr) c = icoord(3); if (cn > 3) return; In t = b->opImageRead(i, c); form("imageread"); if (t && !t->isErrorInstr()) { b->opImageWrite(i, c, t); form("imagewrite"); } b->opImageQuerySize(i); form("imagequerysize"); return; }
    In si; if (r.coin()) { In v = m.uniformConstant(m.newType().SampledImage(&img), "tex"); deco(v); si = b->opLoad(v); } else { In vi = m.uniformConstant(img, "image"); deco(vi); In vs = m.uniformConstant(m.newType().Sampler(), "sampler"); m.addDecorationInstr()->opDecorate(vs, spv::Decoration::DescriptorSet, 1u); m.addDecorationInstr()->opDecorate(vs, spv::Decoration::Binding, k * 2 + 1); In li = b->opLoad(vi), ls = b->opLoad(vs); si = b->opSampledImage(li, ls); form("sampledimage"); }
    In c = coord(cn); line(b);
    switch (depth ? 6 + r.below(2) : r.below(6)) { case 0: form("sample"); b->opImageSampleImplictLod(si, c); break; case 1: form("sample-lod"); b->opImageSampleExplicitLodLevel(si, c, fl(1.f)); break; case 2: if (d != spv::Dim::Dim2D && d != spv::Dim::Cube) break; form("gather"); b->opImageGather(si, c, m.constant<int>(1)); break; case 3: form("querylod"); b->opImageQueryLod(si, coord(base)); break; case 4: { In i = b->opImage(si); form("image-of"); b->opImageQuerySizeLod(i, m.constant<unsigned int>(0)); b->opImageQueryLevels(i); if (d != spv::Dim::Cube && cn <= 3) { form("fetch"); b->opImageFetch(i, icoord(cn)); } break; }
      case 5: if (arr || d == spv::Dim::Cube) break; form("sample-proj"); b->opImageSampleProjImplictLod(si, coord(base + 1)); break; default: break; } }
  void fragment(bool images) { EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::Fragment, "fragExtra"); e.addExecutionMode(r.coin() ? spv::ExecutionMode::OriginUpperLeft : spv::ExecutionMode::OriginLowerLeft); BasicBlock& b = *e; out.fns.push_back(&e); buffers(b); if (images) for (u32 k = 0, n = r.range(1, 4); k < n; ++k) image(b, k); call(b); if (r.chance(1, 5)) b->opKill(); else b.returnValue(); form("fragment"); }
  void compute() { EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::GLCompute, "computeExtra"); out.fns.push_back(&e); e.addExecutionMode(spv::ExecutionMode::LocalSize, r.range(1, 64), 1u, r.range(1, 4)); BasicBlock& b = *e; buffers(b); In u = b->opUndef(m.type<vector_t<float, 3>>()); b->opFAdd(u, u); In w = m.variable<unsigned int>(spv::StorageClass::Workgroup, r.coin() ? "shared" : nullptr); out.vars.push_back(w); In lw = b->opLoad(w), mw = b->opIMul(lw, m.specConstant<unsigned int>(r.below(5))); b->opStore(w, mw); call(b); b.returnValue(); form("compute"); }
  Function* callee = nullptr; void call(BasicBlock& b) { if (callee && r.coin()) { b->call(callee, m.constant<int>((int)r.below(9))); form("callee"); } }
  void helpers() { if (r.coin()) { Function& f = m.addFunction<int, int>(r.coin() ? "helper" : nullptr, r.coin() ? spv::FunctionControlMask::Const : spv::FunctionControlMask::MaskNone); out.fns.push_back(&f); BasicBlock& b = *f; In p = f.getParameter(0); if (r.coin()) m.addName(p, "arg"); In v = f.variable<int>(r.coin() ? "tmp" : nullptr); b->opStore(v, p); line(b); In lv = b->opLoad(v), mv = b->opIMul(lv, p); b.returnValue(mv); callee = &f; form("helper"); }
    if (r.chance(1, 3)) { m.addCapability(spv::Capability::Linkage); Function& f = m.addFunction<float, float>(nullptr, spv::FunctionControlMask::MaskNone, false); f.finalize(spv::FunctionControlMask::MaskNone, "imported"); LinkerDecorate(f); form("import"); }
    if (r.chance(1, 3)) { m.addUndefInstr()->opUndef(m.type<vector_t<int, 2>>()); form("undef"); }
    if (r.chance(1, 4)) { Function& f = m.addFunction<void>("forward"); BasicBlock& b = *f; Function& g = m.addFunction<float>("later"); b->call(&g); b.returnValue(); BasicBlock& c = *g; c.returnValue(fl(1.f)); form("forward-call"); } }
  void LinkerDecorate(Function& f) { m.addDecorationInstr()->opDecorate(f.getFunction(), spv::Decoration::LinkageAttributes, "imported", spv::LinkageType::Import); }
}; }
Extra extras(Module& m, Rng& r, bool images) { X x{m, r, {}, nullptr, {}, {}, {}, nullptr}; m.addExtension("SPV_KHR_storage_buffer_storage_class"); x.source(); x.helpers(); bool fr = r.chance(2, 3); if (fr) x.fragment(images); if (!fr || r.chance(2, 3)) x.compute(); return x.out; }
}
