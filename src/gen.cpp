#include "gen.h"
#include <fstream>
#include <spirv/unified1/spirv.h>
using namespace hx; using namespace spec;
namespace gen {
static const std::set<std::string>& drift() { static std::set<std::string> d; if (d.empty()) { d.insert("-"); FILE* f = fopen((std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/spec/drift.txt").c_str(), "r"); if (!f) harness_error("no spec/drift.txt"); char buf[1000]; while (fgets(buf, sizeof buf, f)) { std::string l(buf); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); auto p = l.find(" name: missing"); if (p != std::string::npos) d.insert("E " + l.substr(0, p)); p = l.find(" getInfo: missing"); if (p != std::string::npos) d.insert("I " + l.substr(0, p)); } fclose(f); } return d; }
bool known_op(const Inst& i) { static std::map<u32, bool> c; auto it = c.find(i.opcode); if (it != c.end()) return it->second; return c[i.opcode] = !drift().count(fmt("I core %u %s", i.opcode, i.name)); }
bool known_enum(const Kind& k, const Enum& e) { return !drift().count(fmt("E %s %u %s", k.name, e.value, e.name)); }
void str_words(std::vector<u32>& w, const std::string& s) { u32 cur = 0; size_t i = 0; for (; i < s.size(); ++i) { cur |= (u32)(unsigned char)s[i] << (8 * (i & 3)); if ((i & 3) == 3) { w.push_back(cur); cur = 0; } } w.push_back(cur); }
const std::vector<const Inst*>& body_ops() {
    static std::vector<const Inst*> ops; if (ops.empty()) for (auto& i : core) { std::string nm = i.name, c = i.cls; if (!known_op(i)) continue; bool first = op(i.opcode) == &i; if (!first) continue;
      static const std::set<std::string> no = {"OpCapability", "OpExtension", "OpExtInstImport", "OpMemoryModel", "OpEntryPoint", "OpExecutionMode", "OpExecutionModeId", "OpString", "OpSource", "OpSourceExtension", "OpSourceContinued", "OpName", "OpMemberName", "OpModuleProcessed", "OpDecorate", "OpMemberDecorate", "OpDecorationGroup", "OpGroupDecorate", "OpGroupMemberDecorate", "OpDecorateId", "OpDecorateString", "OpMemberDecorateString", "OpFunction", "OpFunctionParameter", "OpFunctionEnd", "OpLabel", "OpBranch", "OpBranchConditional", "OpSwitch", "OpKill", "OpReturn", "OpReturnValue", "OpUnreachable", "OpTerminateInvocation", "OpIgnoreIntersectionKHR", "OpTerminateRayKHR", "OpEmitMeshTasksEXT", "OpSamplerImageAddressingModeNV"};
      if (no.count(nm) || nm.rfind("OpType", 0) == 0 || nm.rfind("OpConstant", 0) == 0 || nm.rfind("OpSpecConstant", 0) == 0 || nm.find("Continued") != std::string::npos) continue; ops.push_back(&i); }
    return ops;
}
namespace {
enum { kResultType = 0, kResult, kSem, kScope, kRef };
struct G {
  Rng& r; const Opt& o; Info* info; std::vector<u32> out; std::vector<u32> pool; size_t next = 0; u32 maxid = 0;
  std::vector<u32> types, intTypes, floatTypes, consts, lens, vars, labels, fnIds, locals, any, exts, strings, groups, structs, fnTypes, ptrTypes, scalars, vecF, images;
  std::map<u32, std::pair<u32, bool>> width; std::set<std::vector<u32>> uniq; std::map<u32, u32> elemCount; std::map<u32, u32> typeOf; std::map<u32, u32> extSet;
  std::vector<u32> sec[12]; u32 curSwitchSel = 0;
  G(Rng& r, const Opt& o, Info* i) : r(r), o(o), info(i) { u32 n = 6000; if (o.contiguous_ids) n = 0; for (u32 k = 1; k <= n; ++k) pool.push_back(k); for (u32 k = 0; k + 1 < n; ++k) std::swap(pool[k], pool[k + r.below(n - k)]); }
  u32 id() { u32 v = next < pool.size() ? pool[next] : (u32)next + 1; ++next; maxid = std::max(maxid, v); return v; }
  void emit(int s, u32 op, const std::vector<u32>& w) { sec[s].push_back(op | (u32)(w.size() + 1) << 16); sec[s].insert(sec[s].end(), w.begin(), w.end()); if (info) info->ops[op]++; }
  std::string rstr(u32 minl = 0) { u32 n = r.chance(1, 8) ? r.range(minl, 70) : r.range(minl, 13); std::string s; static const char cs[] = "abcXYZ_0189 .:\"\\%;"; for (u32 i = 0; i < n; ++i) s += r.chance(1, 12) ? (char)r.range(0x80, 0xff) : cs[r.below(sizeof(cs) - 1)]; return s; }
  u32 lit() { switch (r.below(6)) { case 0: return 0; case 1: return r.below(8); case 2: return 0xffffffffu; case 3: return r.below(300); default: return r.u(); } }
  u32 anyId() { if (!locals.empty() && r.chance(1, 2)) return r.pick(locals); return any.empty() ? r.pick(types) : r.pick(any); }
  void value(std::vector<u32>& w, int kind) {
    const Kind& k = K(kind); std::string n = k.name; if (info) info->kinds.insert((u32)kind);
    if (k.bit()) { u32 m = 0; std::vector<const Enum*> bits; for (auto& e : k.enums) { if (!e.value || (e.value & (e.value - 1)) || !known_enum(k, e)) continue; bool dup = false; for (auto* b : bits) if (b->value == e.value) dup = true; if (!dup) bits.push_back(&e); }
      u32 style = r.below(4); for (auto* b : bits) if (style == 1 ? false : style == 2 ? r.chance(1, (u32)bits.size()) : r.chance(1, 3)) m |= b->value; if (style == 1 && !bits.empty()) m = r.pick(bits)->value;
      w.push_back(m); if (info) info->enums.insert(fmt("%s:%x", k.name, m));
      std::sort(bits.begin(), bits.end(), [](auto* a, auto* b) { return a->value < b->value; }); for (auto* b : bits) if (m & b->value) for (int p : b->params) value(w, p); }
    else if (k.value()) { const Enum* e; do e = &r.pick(k.enums); while (!known_enum(k, *e)); const Enum* first = k.find(e->value); w.push_back(e->value); if (info) info->enums.insert(fmt("%s:%x", k.name, e->value)); for (int p : first->params) value(w, p); }
    else if (k.comp()) { for (int b : k.bases) value(w, b); }
    else if (n == "IdResultType") w.push_back(r.pick(types));
    else if (k.id()) w.push_back(anyId());
    else if (n == "LiteralString") str_words(w, rstr());
    else if (n == "LiteralExtInstInteger") w.push_back(r.range(1, 60));
    else w.push_back(lit());
  }
  void operands(std::vector<u32>& w, const Inst& in, u32& result) {
    for (size_t i = 0; i < in.ops.size(); ++i) { auto& p = in.ops[i]; std::string n = K(p.kind).name;
      if (n == "IdResult") { result = id(); w.push_back(result); continue; }
      if (n == "LiteralExtInstInteger") { bool g = extSet[w[w.size() - 1]] == 0; const auto& t = g ? glsl : opencl; const Inst& e = r.pick(t); w.push_back(e.opcode); for (auto& q : e.ops) { u32 c = q.q == '1' ? 1 : q.q == '?' ? r.below(2) : r.below(4); while (c--) value(w, q.kind); } return; }
      if (in.opcode == SpvOpExtInst && p.kind == kind("IdRef") && p.q == '1') { w.push_back(r.pick(exts)); continue; }
      if (p.q == '1') value(w, p.kind);
      else if (p.q == '?') { if (r.coin()) value(w, p.kind); else return; }
      else { u32 c = r.chance(1, 10) ? r.below(20) : r.below(4); while (c--) value(w, p.kind); } }
  }
  // --- types
  u32 type(u32 op, std::vector<u32> rest, bool dupOk = false) { std::vector<u32> key = rest; key.insert(key.begin(), op); if (!dupOk && !uniq.insert(key).second) return 0; u32 t = id(); std::vector<u32> w{t}; w.insert(w.end(), rest.begin(), rest.end()); emit(8, op, w); types.push_back(t); any.push_back(t); return t; }
  u32 constant(u32 ty, bool spec) { u32 c = id(); std::vector<u32> w{ty, c}; for (u32 i = 0; i < (width[ty].first + 31) / 32; ++i) { u32 v = lit(); if (width[ty].first < 32) { v &= (1u << width[ty].first) - 1; if (width[ty].second && v >> (width[ty].first - 1)) v |= ~0u << width[ty].first; } w.push_back(v); }
    emit(8, spec ? SpvOpSpecConstant : SpvOpConstant, w); consts.push_back(c); any.push_back(c); typeOf[c] = ty; return c; }
  void typesAndConsts(u32 n) {
    u32 v = type(SpvOpTypeVoid, {}); u32 b = type(SpvOpTypeBool, {}); u32 i32 = type(SpvOpTypeInt, {32, r.below(2)}); width[i32] = {32, false}; intTypes.push_back(i32); scalars.push_back(i32);
    u32 f32 = type(SpvOpTypeFloat, {32}); width[f32] = {32, false}; floatTypes.push_back(f32); scalars.push_back(f32); { u32 u = type(SpvOpTypeFunction, {v}); fnTypes.push_back(u); }
    { u32 c = id(); emit(8, SpvOpConstant, {i32, c, r.range(1, 9)}); consts.push_back(c); any.push_back(c); lens.push_back(c); typeOf[c] = i32; }
    if (o.switch64) { u32 t = type(SpvOpTypeInt, {64, r.below(2)}); width[t] = {64, false}; intTypes.push_back(t); scalars.push_back(t); }
    (void)b;
    auto sub = [&]() { for (;;) { u32 t = r.pick(types); if (t != v && std::find(fnTypes.begin(), fnTypes.end(), t) == fnTypes.end()) return t; } };
    for (u32 k = 0; k < n; ++k) switch (r.below(26)) {
      case 0: { u32 s = r.below(2), wd = 8u << r.below(4); u32 t = type(SpvOpTypeInt, {wd, s}); if (t) { width[t] = {wd, s}; intTypes.push_back(t); scalars.push_back(t); } break; }
      case 1: { u32 wd = 16u << r.below(3); u32 t = type(SpvOpTypeFloat, {wd}); if (t) { width[t] = {wd, false}; floatTypes.push_back(t); scalars.push_back(t); } break; }
      case 2: case 3: { static const u32 ns[] = {2, 3, 4, 8, 16}; u32 s = r.pick(scalars), c = ns[r.below(5)]; u32 t = type(SpvOpTypeVector, {s, c}); if (t) { elemCount[t] = c; typeOf[t] = s; if (std::count(floatTypes.begin(), floatTypes.end(), s)) vecF.push_back(t); } break; }
      case 4: if (!vecF.empty()) { u32 c = r.range(2, 4), s = r.pick(vecF); u32 t = type(SpvOpTypeMatrix, {s, c}); if (t) { elemCount[t] = c; typeOf[t] = s; } } break;
      case 5: { u32 s = sub(); type(SpvOpTypeArray, {s, r.pick(lens)}, true); break; }
      case 6: type(SpvOpTypeRuntimeArray, {sub()}, true); break;
      case 7: case 8: { std::vector<u32> m; u32 c = r.chance(1, 8) ? r.below(20) : r.below(5); while (c--) m.push_back(sub()); u32 t = type(SpvOpTypeStruct, m, true); structs.push_back(t); break; }
      case 9: case 10: { static const u32 sc[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; u32 s = sc[r.below(13)], t = sub(); u32 p = type(SpvOpTypePointer, {s, t}); if (p) { ptrTypes.push_back(p); typeOf[p] = s; } break; }
      case 11: { std::vector<u32> m{r.pick(types)}; if (std::count(fnTypes.begin(), fnTypes.end(), m[0])) m[0] = v; u32 c = r.below(5); while (c--) m.push_back(sub()); u32 t = type(SpvOpTypeFunction, m); if (t) fnTypes.push_back(t); break; }
      case 12: { std::vector<u32> m{r.coin() ? v : r.pick(scalars), r.below(7), r.below(3), r.below(2), r.below(2), r.below(3), r.below(42)}; if (r.chance(1, 3)) m.push_back(r.below(3)); u32 t = type(SpvOpTypeImage, m); if (t) images.push_back(t); break; }
      case 13: type(SpvOpTypeSampler, {}); break;
      case 14: if (!images.empty()) type(SpvOpTypeSampledImage, {r.pick(images)}); break;
      case 15: { static const u32 simple[] = {SpvOpTypeEvent, SpvOpTypeDeviceEvent, SpvOpTypeReserveId, SpvOpTypeQueue, SpvOpTypePipeStorage, SpvOpTypeNamedBarrier, SpvOpTypeRayQueryKHR, SpvOpTypeAccelerationStructureKHR, SpvOpTypeAvcImeResultINTEL, SpvOpTypeAvcSicPayloadINTEL}; type(simple[r.below(10)], {}); break; }
      case 16: if (o.weird_types) { if (r.coin()) { std::vector<u32> w; str_words(w, rstr(1)); type(SpvOpTypeOpaque, w, true); } else type(SpvOpTypePipe, {r.below(3)}); } break;
      case 17: case 18: { u32 t = r.pick(scalars); constant(t, r.chance(1, 4)); break; }
      case 19: { u32 c = id(); static const u32 bo[] = {SpvOpConstantTrue, SpvOpConstantFalse, SpvOpSpecConstantTrue, SpvOpSpecConstantFalse}; emit(8, bo[r.below(4)], {b, c}); consts.push_back(c); any.push_back(c); typeOf[c] = b; break; }
      case 20: { u32 c = id(), t = sub(); emit(8, SpvOpConstantNull, {t, c}); consts.push_back(c); any.push_back(c); typeOf[c] = t; break; }
      case 21: { std::vector<u32> m; u32 t = sub(); u32 c = id(); m = {t, c}; u32 cc = r.range(1, 4); while (cc--) m.push_back(r.pick(consts)); emit(8, r.chance(1, 4) ? SpvOpSpecConstantComposite : SpvOpConstantComposite, m); consts.push_back(c); any.push_back(c); break; }
      case 22: { u32 c = id(); emit(8, SpvOpConstantSampler, {sub(), c, r.below(5), r.below(2), r.below(2)}); any.push_back(c); break; }
      case 23: if (o.spec_op) { u32 c = id(), t = sub(); auto C = [&]() { return r.pick(consts); }; std::vector<u32> w{t, c};
          switch (r.below(8)) { case 0: w.insert(w.end(), {SpvOpIAdd, C(), C()}); break; case 1: w.insert(w.end(), {SpvOpSelect, C(), C(), C()}); break; case 2: { w.insert(w.end(), {SpvOpCompositeExtract, C()}); u32 n = r.range(1, 3); while (n--) w.push_back(r.below(4)); break; } case 3: { w.insert(w.end(), {SpvOpVectorShuffle, C(), C()}); u32 n = r.range(2, 4); while (n--) w.push_back(r.chance(1, 5) ? ~0u : r.below(8)); break; }
            case 4: w.insert(w.end(), {SpvOpCompositeInsert, C(), C(), r.below(4)}); break; case 5: w.insert(w.end(), {SpvOpNot, C()}); break; case 6: w.insert(w.end(), {SpvOpQuantizeToF16, C()}); break; default: w.insert(w.end(), {SpvOpSLessThan, C(), C()}); }
          emit(8, SpvOpSpecConstantOp, w); any.push_back(c); } break;
      case 24: if (o.undef_const) { u32 c = id(); emit(8, SpvOpUndef, {sub(), c}); consts.push_back(c); any.push_back(c); } break;
      case 25: { u32 c = id(); emit(8, SpvOpConstant, {i32, c, r.range(1, 70)}); consts.push_back(c); any.push_back(c); lens.push_back(c); typeOf[c] = i32; break; }
    }
    if (ptrTypes.empty()) { u32 p = type(SpvOpTypePointer, {SpvStorageClassPrivate, f32}); ptrTypes.push_back(p); typeOf[p] = SpvStorageClassPrivate; }
  }
  void body(u32 n) {
    const std::vector<const Inst*>& ops = body_ops();
    static const u32 common[] = {SpvOpLoad, SpvOpStore, SpvOpFAdd, SpvOpIMul, SpvOpFunctionCall, SpvOpExtInst, SpvOpCompositeExtract, SpvOpImageSampleImplicitLod, SpvOpAccessChain, SpvOpPhi, SpvOpVectorShuffle, SpvOpCopyMemory, SpvOpUndef, SpvOpLine, SpvOpNoLine, SpvOpNop};
    u32 nb = r.range(1, 5); std::vector<u32> lb; for (u32 i = 0; i < nb; ++i) { lb.push_back(id()); locals.push_back(lb.back()); }
    for (u32 bi = 0; bi < nb; ++bi) {
      emit(11, SpvOpLabel, {lb[bi]});
      u32 c = r.below(n + 1);
      for (u32 k = 0; k < c; ++k) { const Inst* in = o.only_op >= 0 ? op((u32)o.only_op) : (o.any_op && r.chance(2, 3)) ? r.pick(ops) : op(common[r.below(sizeof(common) / 4)]); if (!o.lines && (in->opcode == SpvOpLine || in->opcode == SpvOpNoLine)) continue;
        std::vector<u32> w; u32 res = 0;
        if (in->opcode == SpvOpFunctionCall) { res = id(); w = {r.pick(types), res, r.pick(fnIds)}; u32 a = r.below(4); while (a--) w.push_back(anyId()); }
        else if (in->opcode == SpvOpVariable) { res = id(); w = {r.pick(ptrTypes), res, SpvStorageClassFunction}; if (r.chance(1, 3)) w.push_back(r.pick(consts)); }
        else if (in->opcode == SpvOpPhi) { res = id(); w = {r.pick(types), res}; u32 a = r.range(1, 4); while (a--) { w.push_back(anyId()); w.push_back(r.pick(lb)); } }
        else operands(w, *in, res);
        if (w.size() > 60000) continue;
        emit(11, in->opcode, w); if (res) locals.push_back(res); }
      // terminator
      u32 sel = 0;
      switch (r.below(12)) { case 0: case 1: emit(11, SpvOpBranch, {r.pick(lb)}); break; case 2: case 3: { std::vector<u32> w{anyId(), r.pick(lb), r.pick(lb)}; if (r.coin()) { w.push_back(lit()); w.push_back(lit()); } emit(11, SpvOpBranchConditional, w); break; }
        case 4: case 5: { std::vector<u32> cs; for (u32 c : consts) { auto t = typeOf.find(c); if (t != typeOf.end() && width.count(t->second) && std::count(intTypes.begin(), intTypes.end(), t->second)) cs.push_back(c); } sel = r.pick(cs); u32 wd = (width[typeOf[sel]].first + 31) / 32; std::vector<u32> w{sel, r.pick(lb)}; u32 n = r.below(5); while (n--) { for (u32 q = 0; q < wd; ++q) w.push_back(width[typeOf[sel]].first < 32 ? lit() & 0x7f : lit()); w.push_back(r.pick(lb)); } emit(11, SpvOpSwitch, w); break; }
        case 6: emit(11, SpvOpReturn, {}); break; case 7: emit(11, SpvOpReturnValue, {anyId()}); break; case 8: emit(11, SpvOpUnreachable, {}); break; case 9: emit(11, SpvOpKill, {}); break;
        case 10: { static const u32 t[] = {SpvOpTerminateInvocation, SpvOpIgnoreIntersectionKHR, SpvOpTerminateRayKHR}; emit(11, t[r.below(3)], {}); break; }
        default: emit(11, SpvOpReturn, {}); }
    }
  }
  std::vector<u32> run() {
    // types first: later sections refer to their ids
    typesAndConsts(o.size * 2 + 4);
    for (u32 i = 0, n = r.below(o.size / 2 + 1); i < n; ++i) { u32 p = r.pick(ptrTypes); if (typeOf[p] == SpvStorageClassFunction) continue; u32 v = id(); std::vector<u32> w{p, v, typeOf[p]}; if (r.chance(1, 3)) w.push_back(r.pick(consts)); emit(9, SpvOpVariable, w); vars.push_back(v); any.push_back(v); }
    u32 nimp = r.range(1, 2); for (u32 i = 0; i < nimp; ++i) { std::vector<u32> w{id()}; exts.push_back(w[0]); extSet[w[0]] = i; str_words(w, i ? "OpenCL.std" : "GLSL.std.450"); emit(2, SpvOpExtInstImport, w); }
    u32 nf = r.range(1, 4), ne = r.below(3); if (info) { info->functions = nf; info->entry_points = ne; } for (u32 i = 0; i < nf; ++i) { fnIds.push_back(id()); any.push_back(fnIds.back()); }
    std::vector<u32> epf; for (u32 i = 0; i < ne && i < nf; ++i) { u32 f = o.shared_ep ? r.pick(fnIds) : fnIds[i]; epf.push_back(f); }
    // strings, sources
    for (u32 i = 0, n = r.below(4); i < n; ++i) { std::vector<u32> w{id()}; strings.push_back(w[0]); str_words(w, rstr()); emit(6, SpvOpString, w); }
    if (r.coin()) { std::vector<u32> w{r.below(10), r.below(500)}; if (!strings.empty() && r.coin()) { w.push_back(r.pick(strings)); if (r.coin()) str_words(w, rstr()); } emit(6, SpvOpSource, w); if (w.size() > 3 && r.coin()) { std::vector<u32> c; str_words(c, rstr()); emit(6, SpvOpSourceContinued, c); } }
    if (r.chance(1, 4)) { std::vector<u32> c; str_words(c, rstr()); emit(6, SpvOpSourceExtension, c); }
    // functions
    bool first = true;
    for (int pass = 0; pass < 2; ++pass) for (u32 i = 0; i < nf; ++i) { bool ep = std::count(epf.begin(), epf.end(), fnIds[i]); bool decl = !ep && (fnIds[i] % 5 == 0); if ((pass == 0) != decl) continue;
      locals.clear(); u32 ft = r.pick(fnTypes); std::vector<u32> w{r.pick(types), fnIds[i], r.below(16), ft}; emit(11, SpvOpFunction, w); u32 np = r.below(4); while (np--) { u32 p = id(); emit(11, SpvOpFunctionParameter, {r.pick(types), p}); locals.push_back(p); }
      if (!decl) body(o.size); emit(11, SpvOpFunctionEnd, {}); first = false; }
    (void)first;
    // preamble
    { std::set<u32> caps; const Kind& k = K(kind("Capability")); u32 n = r.range(1, 6); while (n--) { const Enum* e = &r.pick(k.enums); if (known_enum(k, *e)) caps.insert(e->value); } std::vector<u32> cv(caps.begin(), caps.end()); for (size_t i = 0; i + 1 < cv.size(); ++i) std::swap(cv[i], cv[i + r.below((u32)(cv.size() - i))]); for (u32 c : cv) emit(0, SpvOpCapability, {c}); }
    { std::set<std::string> ex; u32 n = r.below(4); while (n--) ex.insert(r.coin() ? "SPV_KHR_multiview" : "SPV_" + rstr(1)); for (auto& s : ex) { std::vector<u32> w; str_words(w, s); emit(1, SpvOpExtension, w); } }
    { static const u32 am[] = {0, 1, 2, 5348}; emit(3, SpvOpMemoryModel, {am[r.below(4)], r.below(4)}); }
    std::set<std::string> en; for (u32 f : epf) { static const u32 em[] = {0, 1, 2, 3, 4, 5, 6, 5267, 5268, 5313, 5364, 5365}; std::vector<u32> w{em[r.below(12)], f}; str_words(w, rstr(1)); u32 n = r.below(4); std::set<u32> seen; while (n-- && !vars.empty()) { u32 v = r.pick(vars); if (seen.insert(v).second) w.push_back(v); } emit(4, SpvOpEntryPoint, w); }
    if (!epf.empty()) for (u32 i = 0, n = r.below(4); i < n; ++i) { std::vector<u32> w{r.pick(epf)}; const Kind& k = K(kind("ExecutionMode")); const Enum* e; do e = &r.pick(k.enums); while (!known_enum(k, *e)); w.push_back(e->value); bool idp = false; for (int p : k.find(e->value)->params) { idp |= K(p).id(); if (K(p).id()) w.push_back(r.pick(consts)); else value(w, p); } emit(5, idp ? SpvOpExecutionModeId : SpvOpExecutionMode, w); }
    for (u32 i = 0, n = r.below(o.size); i < n; ++i) { if (!structs.empty() && r.chance(1, 3)) { std::vector<u32> w{r.pick(structs), r.below(5)}; str_words(w, rstr()); emit(7, SpvOpMemberName, w); } else { std::vector<u32> w{r.pick(any)}; str_words(w, rstr()); emit(7, SpvOpName, w); } }
    for (u32 i = 0, n = r.chance(1, 4) ? 2 : 0; i < n; ++i) { std::vector<u32> w; str_words(w, rstr()); emit(7, SpvOpModuleProcessed, w); }
    // annotations
    std::vector<u32> deco; locals.clear();
    for (u32 i = 0, n = r.below(o.size); i < n; ++i) { const Kind& k = K(kind("Decoration")); const Enum* e; do e = &r.pick(k.enums); while (!known_enum(k, *e)); e = k.find(e->value); bool idp = false, strp = false; for (int p : e->params) { idp |= K(p).id(); strp |= !strcmp(K(p).name, "LiteralString"); }
      std::vector<u32> pw; value(pw, kind("LiteralInteger")); pw.clear(); pw.push_back(e->value); for (int p : e->params) { if (K(p).id()) pw.push_back(r.pick(consts)); else value(pw, p); }
      bool strform = strp && e->params.size() == 1 && r.coin(); std::vector<u32> w;
      if (!structs.empty() && r.chance(1, 3) && !idp) { w = {r.pick(structs), r.below(6)}; w.insert(w.end(), pw.begin(), pw.end()); emit(10, strform ? SpvOpMemberDecorateString : SpvOpMemberDecorate, w); }
      else { w = {r.pick(any)}; w.insert(w.end(), pw.begin(), pw.end()); emit(10, idp ? SpvOpDecorateId : strform ? SpvOpDecorateString : SpvOpDecorate, w); } }
    if (r.chance(1, 4)) { u32 g = id(); emit(10, SpvOpDecorate, {g, SpvDecorationRelaxedPrecision}); emit(10, SpvOpDecorationGroup, {g}); std::vector<u32> w{g}; u32 n = r.below(4); while (n--) w.push_back(r.pick(any)); emit(10, SpvOpGroupDecorate, w); if (!structs.empty() && r.coin()) { w = {g}; n = r.below(4); while (n--) { w.push_back(r.pick(structs)); w.push_back(r.below(6)); } emit(10, SpvOpGroupMemberDecorate, w); } }
    u32 ver = o.version >= 0 ? (u32)o.version : r.below(7);
    out = {0x07230203, 0x10000u | ver << 8, r.u(), maxid + 1, 0};
    for (int s : {0, 1, 2, 3, 4, 5, 6, 7, 10, 8, 9, 11}) out.insert(out.end(), sec[s].begin(), sec[s].end());
    return out;
  }
};
}
std::vector<u32> module(Rng& rng, const Opt& o, Info* info) { G g(rng, o, info); return g.run(); }
}
