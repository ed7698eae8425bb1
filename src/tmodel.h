// Model of SPIR-V types, independent of the library's Type class.
#pragma once
#include "hx.h"
#include "spv.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/TypeAlias.h"
#include <spirv/unified1/spirv.h>
namespace tym { using hx::u32; using hx::u64; using namespace spvgentwo;
struct T { u32 op = 0; std::vector<u32> lit; std::vector<T> kids;
  std::string key() const { std::string s = hx::fmt("%u", op); for (u32 l : lit) s += hx::fmt(",%u", l); if (!kids.empty()) { s += "("; for (auto& k : kids) s += k.key() + ";"; s += ")"; } return s; }
  bool operator==(const T& o) const { return key() == o.key(); } };
inline std::string str(const T& t) { std::string s = std::string(sv::opname(t.op)).substr(6); for (u32 l : t.lit) s += hx::fmt(" %u", l); if (!t.kids.empty()) { s += "("; for (size_t i = 0; i < t.kids.size(); ++i) s += (i ? ", " : "") + str(t.kids[i]); s += ")"; } return s; }
inline T mk(u32 op, std::vector<u32> l = {}, std::vector<T> k = {}) { return T{op, std::move(l), std::move(k)}; }
inline const std::vector<u32>& plain() { static const std::vector<u32> v{SpvOpTypeVoid, SpvOpTypeBool, SpvOpTypeSampler, SpvOpTypeEvent, SpvOpTypeDeviceEvent, SpvOpTypeReserveId, SpvOpTypeQueue, SpvOpTypePipeStorage, SpvOpTypeNamedBarrier, SpvOpTypeRayQueryKHR, SpvOpTypeAccelerationStructureKHR}; return v; }
inline T scalar(hx::Rng& r) { static const std::vector<u32> iw{8, 16, 32, 64}, fw{16, 32, 64}; switch (r.below(5)) { case 0: return mk(SpvOpTypeBool); case 1: case 2: return mk(SpvOpTypeInt, {r.pick(iw), (u32)r.below(2)}); default: return mk(SpvOpTypeFloat, {r.pick(fw)}); } }
inline T vec(hx::Rng& r) { return mk(SpvOpTypeVector, {(u32)r.range(2, 4)}, {scalar(r)}); }
inline T fvec(hx::Rng& r) { static const std::vector<u32> fw{16, 32, 64}; return mk(SpvOpTypeVector, {(u32)r.range(2, 4)}, {mk(SpvOpTypeFloat, {r.pick(fw)})}); }
inline T image(hx::Rng& r) { T s; switch (r.below(4)) { case 0: s = mk(SpvOpTypeVoid); break; case 1: s = mk(SpvOpTypeInt, {r.coin() ? 32u : 64u, (u32)r.below(2)}); break; default: s = mk(SpvOpTypeFloat, {r.chance(1, 4) ? 16u : 32u}); }
  T t = mk(SpvOpTypeImage, {(u32)r.below(7), (u32)r.below(3), (u32)r.below(2), (u32)r.below(2), (u32)r.below(3), (u32)r.below(42)}, {s}); if (r.chance(1, 3)) t.lit.push_back((u32)r.below(3)); return t; }
inline T any(hx::Rng& r, int depth) { static const std::vector<u32> sc{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 5328, 5338, 5349};
  switch (depth <= 0 ? r.below(4) : r.below(14)) { case 0: return scalar(r); case 1: return vec(r); case 2: return mk(SpvOpTypeMatrix, {(u32)r.range(2, 4)}, {fvec(r)}); case 3: return r.chance(1, 3) ? r.chance(1, 6) ? mk(SpvOpTypePipe, {(u32)r.below(3)}) : mk(r.pick(plain())) : scalar(r); case 4: return image(r); case 5: return mk(SpvOpTypeSampledImage, {}, {image(r)});
    case 6: return mk(SpvOpTypeArray, {r.coin() ? (u32)r.range(1, 5) : r.coin() ? (u32)r.range(1, 1000) : (u32)(r.u() | 1)}, {any(r, depth - 1)}); case 7: return mk(SpvOpTypeRuntimeArray, {}, {any(r, depth - 1)}); case 8: case 9: return mk(SpvOpTypePointer, {r.pick(sc)}, {any(r, depth - 1)});
    case 10: { T t = mk(SpvOpTypeFunction); for (u32 i = 0, n = (u32)r.range(1, 4); i < n; ++i) t.kids.push_back(i || r.coin() ? any(r, depth - 1) : mk(SpvOpTypeVoid)); return t; }
    default: { T t = mk(SpvOpTypeStruct); for (u32 i = 0, n = (u32)r.below(5); i < n; ++i) t.kids.push_back(any(r, depth - 1)); return t; } } }
// a type which differs from t in one property
inline T mutate(const T& t, hx::Rng& r) { T m = t; if (!m.kids.empty() && r.chance(2, 3)) { size_t i = (size_t)r.below((u32)m.kids.size());
    if ((m.op == SpvOpTypeStruct || m.op == SpvOpTypeFunction) && m.kids.size() > 1 && r.chance(1, 2)) { switch (r.below(4)) { case 0: std::swap(m.kids[0], m.kids.back()); return m; case 1: m.kids.erase(m.kids.begin() + (long)(m.op == SpvOpTypeFunction ? 1 : i)); return m;
        case 2: { T in = mk(SpvOpTypeStruct, {}, {m.kids.end() - 1, m.kids.end()}); m.kids.back() = in; return m; } default: { // move a member into the preceding struct or the other way round
          for (size_t k = 0; k + 1 < m.kids.size(); ++k) if (m.kids[k].op == SpvOpTypeStruct) { m.kids[k].kids.push_back(m.kids[k + 1]); m.kids.erase(m.kids.begin() + (long)k + 1); return m; } T in = mk(SpvOpTypeStruct, {}, {m.kids[m.op == SpvOpTypeFunction ? 1 : 0]}); m.kids[m.op == SpvOpTypeFunction ? 1 : 0] = in; return m; } } }
    if (m.op == SpvOpTypeVector) m.kids[0] = scalar(r); else if (m.op == SpvOpTypeMatrix) m.kids[0] = fvec(r); else if (m.op == SpvOpTypeImage) m.kids[0] = image(r).kids[0]; else m.kids[i] = mutate(m.kids[i], r); return m; }
  if (m.op == SpvOpTypeVector || m.op == SpvOpTypeMatrix) { m.lit[0] = m.lit[0] == 4 ? 2 : m.lit[0] + 1; return m; } if (m.op == SpvOpTypeArray) { m.lit[0] ^= 1u << r.below(31); if (!m.lit[0]) m.lit[0] = 7; return m; }
  if (m.op == SpvOpTypeInt) { if (r.coin()) m.lit[1] ^= 1; else m.lit[0] = m.lit[0] == 64 ? 8 : m.lit[0] * 2; return m; } if (m.op == SpvOpTypeFloat) { m.lit[0] = m.lit[0] == 64 ? 16 : m.lit[0] * 2; return m; } if (m.op == SpvOpTypePipe) { m.lit[0] = (m.lit[0] + 1) % 3; return m; } if (m.op == SpvOpTypePointer) { m.lit[0] = (m.lit[0] + 1) % 12; return m; }
  if (m.op == SpvOpTypeImage) { switch (r.below(7)) { case 0: m.lit[0] = (m.lit[0] + 1) % 7; break; case 1: m.lit[1] = (m.lit[1] + 1) % 3; break; case 2: m.lit[2] ^= 1; break; case 3: m.lit[3] ^= 1; break; case 4: m.lit[4] = (m.lit[4] + 1) % 3; break; case 5: m.lit[5] = (m.lit[5] + 1) % 42; break; default: if (m.lit.size() > 6) m.lit.pop_back(); else m.lit.push_back((u32)r.below(3)); } return m; }
  return any(r, 2); }
// the library's Type for t, by the fluent interface
inline void fill(Type& d, const T& t, hx::Rng& r) { u32 how = (u32)r.u(); auto sub = [&](const T& k) { Type s = d.New(); fill(s, k, r); return s; };
  switch (t.op) { case SpvOpTypeVoid: d.Void(); break; case SpvOpTypeBool: d.Bool(); break; case SpvOpTypeSampler: d.Sampler(); break; case SpvOpTypeEvent: d.Event(); break; case SpvOpTypeDeviceEvent: d.DeviceEvent(); break; case SpvOpTypeReserveId: d.ReserveId(); break; case SpvOpTypeQueue: d.Queue(); break; case SpvOpTypePipeStorage: d.PipeStorage(); break; case SpvOpTypeNamedBarrier: d.NamedBarrier(); break; case SpvOpTypePipe: if (t.lit[0] || (how & 1)) d.Pipe((spv::AccessQualifier)t.lit[0]); else d.Pipe(); break; case SpvOpTypeRayQueryKHR: d.RayQueryKHR(); break; case SpvOpTypeAccelerationStructureKHR: d.AccelerationStructureKHR(); break;
    case SpvOpTypeInt: if (how & 1) d.Int(t.lit[0], t.lit[1]); else if (!t.lit[1] && (how & 2)) d.UInt(t.lit[0]); else d.Scalar(spv::Op::OpTypeInt, t.lit[0], t.lit[1]); break;
    case SpvOpTypeFloat: if (how & 1) d.Float(t.lit[0]); else if (t.lit[0] == 64 && (how & 2)) d.Double(); else d.Scalar(dyn_scalar_t{spv::Op::OpTypeFloat, t.lit[0], (how & 4) != 0}); break;
    case SpvOpTypeVector: { Type s = sub(t.kids[0]); switch (how % 4) { case 0: d.Vector(t.lit[0], &s); break; case 1: d.VectorElement(t.lit[0]) = s; break; case 2: d.Vector(t.lit[0]).Member() = s; break; default: d = s.wrapVector(t.lit[0]); } break; }
    case SpvOpTypeMatrix: { Type s = sub(t.kids[0]); switch (how % 4) { case 0: d.Matrix(t.lit[0], &s); break; case 1: { Type c = s.front(); d.Matrix(t.lit[0], t.kids[0].lit[0], &c); break; } case 2: d.Matrix(t.lit[0]).Member(&s); break; default: d = s.wrapMatrix(t.lit[0]); } break; }
    case SpvOpTypeArray: { Type s = sub(t.kids[0]); switch (how % 3) { case 0: d.Array(t.lit[0], &s); break; case 1: d.ArrayElement(t.lit[0]) = s; break; default: d = s.wrapArray(t.lit[0]); } break; }
    case SpvOpTypeRuntimeArray: { Type s = sub(t.kids[0]); switch (how % 3) { case 0: d.RuntimeArray(&s); break; case 1: d.RuntimeArrayElement() = s; break; default: d = s.wrap(spv::Op::OpTypeRuntimeArray); } break; }
    case SpvOpTypePointer: { Type s = sub(t.kids[0]); auto sc = (spv::StorageClass)t.lit[0]; switch (how % 3) { case 0: d.Pointer(sc, &s); break; case 1: d.Pointer(sc).Member() = s; break; default: d = s.wrapPointer(sc); } break; }
    case SpvOpTypeFunction: d.Function(); for (auto& k : t.kids) { if (r.coin()) fill(d.Member(), k, r); else { Type s = sub(k); d.Member(&s); } } break;
    case SpvOpTypeStruct: { if (t.kids.size() == 1 && (how & 1)) { Type s = sub(t.kids[0]); if (how & 2) d = s.wrapStruct(); else d.Struct(&s); break; } if (t.kids.size() == 2 && (how & 1)) { Type a = sub(t.kids[0]), b = sub(t.kids[1]); d.Struct(a, b); break; } d.Struct(); for (auto& k : t.kids) {
        if (k.op == SpvOpTypeFloat && r.coin()) { d.FloatM(k.lit[0]); continue; } if (k.op == SpvOpTypeInt && r.coin()) { d.IntM(k.lit[0], k.lit[1]); continue; } if (k.op == SpvOpTypeBool && r.coin()) { d.BoolM(); continue; } if (k.op == SpvOpTypeVector && r.coin()) { Type s = sub(k.kids[0]); d.VectorM(k.lit[0], &s); continue; } if (k.op == SpvOpTypeArray && r.coin()) { Type s = sub(k.kids[0]); d.ArrayM(k.lit[0], &s); continue; } if (k.op == SpvOpTypeRuntimeArray && r.coin()) { Type s = sub(k.kids[0]); d.RuntimeArrayM(&s); continue; }
        fill(d.Member(), k, r); } break; }
    case SpvOpTypeImage: { const T& k = t.kids[0]; dyn_scalar_t s{(spv::Op)k.op, k.lit.empty() ? 0u : k.lit[0], k.op == SpvOpTypeInt && k.lit[1]}; auto acc = t.lit.size() > 6 ? (spv::AccessQualifier)t.lit[6] : spv::AccessQualifier::Max; if (how & 1) d.Image(s, (spv::Dim)t.lit[0], t.lit[1], t.lit[2], t.lit[3], (SamplerImageAccess)t.lit[4], (spv::ImageFormat)t.lit[5], acc); else d.Image(dyn_image_t{s, (spv::Dim)t.lit[0], t.lit[1], t.lit[2] != 0, t.lit[3] != 0, (SamplerImageAccess)t.lit[4], (spv::ImageFormat)t.lit[5], acc}); break; }
    case SpvOpTypeSampledImage: { Type s = sub(t.kids[0]); if (how & 1) d.SampledImage(&s); else d = s.wrap(spv::Op::OpTypeSampledImage); break; }
    default: break; } }
inline T from(const Type& t) { T m; m.op = (u32)t.getType(); switch (m.op) { case SpvOpTypeInt: m.lit = {t.getIntWidth(), t.getIntSign()}; break; case SpvOpTypeFloat: m.lit = {t.getFloatWidth()}; break; case SpvOpTypeVector: m.lit = {t.getVectorComponentCount()}; break; case SpvOpTypeMatrix: m.lit = {t.getMatrixColumnCount()}; break; case SpvOpTypeArray: m.lit = {t.getArrayLength()}; break; case SpvOpTypePointer: m.lit = {(u32)t.getStorageClass()}; break;
    case SpvOpTypeImage: m.lit = {(u32)t.getImageDimension(), t.getImageDepth(), t.getImageArray(), t.getImageMultiSampled(), (u32)t.getImageSamplerAccess(), (u32)t.getImageFormat()}; if (t.getAccessQualifier() != spv::AccessQualifier::Max) m.lit.push_back((u32)t.getAccessQualifier()); break; case SpvOpTypePipe: m.lit = {(u32)t.getAccessQualifier()}; break; default: break; }
  for (auto& s : t.getSubTypes()) m.kids.push_back(from(s)); return m; }
// structure of the type with the given id in a binary; false: not representable (spec constant array length, forward pointer, ...)
struct Bin { std::map<u32, const sv::Ins*> def; explicit Bin(const sv::Mod& m) { for (auto& i : m.ins) if (i.result) def[i.result] = &i; }
  bool type(u32 id, T& t, int depth = 0) const { auto it = def.find(id); if (it == def.end() || depth > 60) return false; const sv::Ins& i = *it->second; t = T{}; t.op = i.op; auto kid = [&](u32 k) { t.kids.emplace_back(); T x; if (!type(k, x, depth + 1)) return false; t.kids.back() = x; return true; };
    switch (i.op) { case SpvOpTypeInt: t.lit = {i.w[2], i.w[3]}; return true; case SpvOpTypeFloat: t.lit = {i.w[2]}; return i.w.size() == 3; case SpvOpTypeVector: case SpvOpTypeMatrix: t.lit = {i.w[3]}; return kid(i.w[2]); case SpvOpTypePointer: t.lit = {i.w[2]}; return kid(i.w[3]); case SpvOpTypeRuntimeArray: case SpvOpTypeSampledImage: return kid(i.w[2]);
      case SpvOpTypeStruct: case SpvOpTypeFunction: for (size_t k = 2; k < i.w.size(); ++k) if (!kid(i.w[k])) return false; return true; case SpvOpTypeArray: { auto c = def.find(i.w[3]); if (c == def.end() || c->second->op != SpvOpConstant) return false; t.lit = {c->second->w[3]}; return kid(i.w[2]); }
      case SpvOpTypeImage: t.lit.assign(i.w.begin() + 3, i.w.end()); return kid(i.w[2]); case SpvOpTypePipe: t.lit = {i.w[2]}; return true; default: for (u32 p : plain()) if (p == i.op) return i.w.size() == 2; return false; } } };
}
