#include "interp.h"
#include <spirv/unified1/spirv.h>
namespace interp {
using namespace hx; using namespace sem;
namespace {
struct Fail { std::string s; };
struct Mem { Val v; std::vector<char> init; };
struct Fn { const sv::Ins* def; std::vector<const sv::Ins*> params; std::vector<std::pair<u32, std::vector<const sv::Ins*>>> blocks; std::map<u32, size_t> at; };
struct M { const sv::Mod& m; std::map<u32, Ty> ty; std::map<u32, Val> gv; std::map<u32, u32> gt; std::map<u32, Fn> fn; std::vector<Mem> mem; Stats* st; std::map<u32, u32> glob; u32 glslset = 0; bool killed = false; u64 steps = 0; int depth = 0;
  [[noreturn]] void fail(const std::string& s) { throw Fail{s}; }
  const Ty& T(u32 id) { auto i = ty.find(id); if (i == ty.end()) fail(fmt("%%%u is not a known type", id)); return i->second; }
  struct Env { std::map<u32, Val> v; std::map<u32, u32> t; };
  const Val& V(Env& e, u32 id) { auto i = e.v.find(id); if (i != e.v.end()) return i->second; auto g = gv.find(id); if (g == gv.end()) fail(fmt("%%%u has no value", id)); return g->second; }
  u32 TI(Env& e, u32 id) { auto i = e.t.find(id); if (i != e.t.end()) return i->second; auto g = gt.find(id); if (g == gt.end()) fail(fmt("%%%u has no type", id)); return g->second; }
  Val newvar(const Ty& pt, const Val* init) { Mem x; u32 n = flat(pt.sub[0]); x.v.assign(n, 0); x.init.assign(n, init != nullptr); if (init) x.v = *init; mem.push_back(x); return {mem.size() - 1, 0}; }
  Val load(const Val& p, u32 n) { Mem& o = mem.at((size_t)p[0]); if (p[1] + n > o.v.size()) fail("load outside the variable"); for (u32 i = 0; i < n; ++i) if (!o.init[(size_t)p[1] + i]) fail("load of uninitialised memory"); return Val(o.v.begin() + (long)p[1], o.v.begin() + (long)p[1] + n); }
  void store(const Val& p, const Val& v) { Mem& o = mem.at((size_t)p[0]); if (p[1] + v.size() > o.v.size()) fail("store outside the variable"); for (size_t i = 0; i < v.size(); ++i) { o.v[(size_t)p[1] + i] = v[i]; o.init[(size_t)p[1] + i] = 1; } }
  u64 lit(const sv::Ins& i, const Ty& t) { u64 v = i.w[3]; if (i.w.size() > 4) v |= (u64)i.w[4] << 32; return mask(v, t.bits); }
  Val call(u32 fid, const std::vector<Val>& args) {
    auto fi = fn.find(fid); if (fi == fn.end()) fail("call of an unknown function"); Fn& f = fi->second; if (f.blocks.empty()) fail("call of a function without body"); if (args.size() != f.params.size()) fail("argument count"); if (++depth > 60) fail("call depth"); if (st) ++st->calls;
    Env e; for (size_t i = 0; i < args.size(); ++i) { e.v[f.params[i]->result] = args[i]; e.t[f.params[i]->result] = f.params[i]->type; }
    size_t b = 0; u32 prev = 0;
    for (;;) { auto& blk = f.blocks[b]; if (st) ++st->blocks; u32 next = 0; std::vector<std::pair<u32, Val>> phis;
      bool inphi = true;
      for (const sv::Ins* ip : blk.second) { const sv::Ins& i = *ip; if (++steps > 400000) fail("step limit"); if (st) { ++st->steps; st->ops.insert(i.op); }
        if (i.op == SpvOpPhi) { bool ok = false; for (size_t k = 3; k + 1 < i.w.size(); k += 2) if (i.w[k + 1] == prev) { phis.push_back({i.result, V(e, i.w[k])}); e.t[i.result] = i.type; ok = true; } if (!ok) fail("phi without an entry for the predecessor"); if (st) ++st->phis; continue; }
        if (inphi) { inphi = i.op == SpvOpLine || i.op == SpvOpNoLine; if (!inphi) for (auto& p : phis) e.v[p.first] = p.second; }
        switch (i.op) {
          case SpvOpLine: case SpvOpNoLine: case SpvOpNop: case SpvOpSelectionMerge: case SpvOpLoopMerge: continue;
          case SpvOpVariable: e.v[i.result] = newvar(T(i.type), i.w.size() > 4 ? &V(e, i.w[4]) : nullptr); e.t[i.result] = i.type; continue;
          case SpvOpLoad: e.v[i.result] = load(V(e, i.w[3]), flat(T(i.type))); e.t[i.result] = i.type; continue;
          case SpvOpStore: store(V(e, i.w[1]), V(e, i.w[2])); continue;
          case SpvOpCopyMemory: store(V(e, i.w[1]), load(V(e, i.w[2]), flat(T(TI(e, i.w[1])).sub[0]))); continue;
          case SpvOpAccessChain: case SpvOpInBoundsAccessChain: { Val p = V(e, i.w[3]); const Ty* t = &T(TI(e, i.w[3])).sub[0]; for (size_t k = 4; k < i.w.size(); ++k) { u64 x = V(e, i.w[k])[0]; if (x >= t->members()) fail("access chain index out of range"); p[1] += offset(*t, (u32)x); t = &t->elem((u32)x); } if (*t != T(i.type).sub[0]) fail("access chain result type"); e.v[i.result] = p; e.t[i.result] = i.type; continue; }
          case SpvOpFunctionCall: { std::vector<Val> a; for (size_t k = 4; k < i.w.size(); ++k) a.push_back(V(e, i.w[k])); Val r = call(i.w[3], a); if (killed) { --depth; return {}; } e.v[i.result] = r; e.t[i.result] = i.type; continue; }
          case SpvOpBranch: next = i.w[1]; if (st) ++st->branches; break;
          case SpvOpBranchConditional: next = V(e, i.w[1])[0] ? i.w[2] : i.w[3]; if (st) ++st->branches; break;
          case SpvOpSwitch: { u64 v = V(e, i.w[1])[0]; next = i.w[2]; u32 wide = T(TI(e, i.w[1])).bits > 32 ? 2 : 1; for (size_t k = 3; k + wide < i.w.size(); k += wide + 1) { u64 l = i.w[k]; if (wide == 2) l |= (u64)i.w[k + 1] << 32; if (mask(l, T(TI(e, i.w[1])).bits) == v) next = i.w[k + wide]; } break; }
          case SpvOpReturn: --depth; return {}; case SpvOpReturnValue: { Val r = V(e, i.w[1]); --depth; return r; }
          case SpvOpKill: killed = true; --depth; return {}; case SpvOpUnreachable: fail("unreachable executed");
          case SpvOpExtInst: { if (i.w[3] != glslset) fail("unknown instruction set"); std::vector<Val> a; std::vector<Ty> t; for (size_t k = 5; k < i.w.size(); ++k) { a.push_back(V(e, i.w[k])); t.push_back(T(TI(e, i.w[k]))); } Val r; if (st) st->glsl.insert(i.w[4]); if (!sem::glsl(i.w[4], T(i.type), t, a, r)) fail("extended instruction " + sv::str(i)); if (r.size() != flat(T(i.type))) fail("result size of " + sv::str(i)); e.v[i.result] = r; e.t[i.result] = i.type; continue; }
          default: { if (!i.result || !i.type) fail("cannot execute " + sv::str(i)); Val r; if (!value(e, i, r)) fail("cannot execute " + sv::str(i)); if (r.size() != flat(T(i.type))) fail("result size of " + sv::str(i)); e.v[i.result] = r; e.t[i.result] = i.type; continue; }
        }
        if (next) break; }
      if (!next) fail("block without terminator"); auto nb = f.at.find(next); if (nb == f.at.end()) fail("branch to an unknown block"); prev = blk.first; b = nb->second; } }
  bool value(Env& e, const sv::Ins& i, Val& r) { std::vector<Val> a; std::vector<Ty> t; std::vector<u32> imm; for (auto& o : i.o) { if (o.result() || o.type == SPV_OPERAND_TYPE_TYPE_ID) continue; if (o.id()) { a.push_back(V(e, i.w[o.off])); t.push_back(T(TI(e, i.w[o.off]))); } else for (u32 k = 0; k < o.n; ++k) imm.push_back(i.w[o.off + k]); } return core(i.op, T(i.type), t, a, imm, r); }
  void globals(const std::map<u32, Val>& inputs) { Env e; bool infn = false; Fn* f = nullptr;
    for (auto& i : m.ins) { if (infn) { if (i.op == SpvOpFunctionEnd) { infn = false; continue; } if (i.op == SpvOpFunctionParameter) f->params.push_back(&i); else if (i.op == SpvOpLabel) { f->at[i.result] = f->blocks.size(); f->blocks.push_back({i.result, {}}); } else if (!f->blocks.empty()) f->blocks.back().second.push_back(&i); continue; }
      switch (i.op) { case SpvOpFunction: infn = true; f = &fn[i.result]; f->def = &i; break;
        case SpvOpTypeVoid: ty[i.result] = tvoid(); break; case SpvOpTypeBool: ty[i.result] = tbool(); break; case SpvOpTypeInt: ty[i.result] = tint(i.w[2], i.w[3]); break; case SpvOpTypeFloat: ty[i.result] = tfloat(i.w[2]); break;
        case SpvOpTypeVector: ty[i.result] = tvec(T(i.w[2]), i.w[3]); break; case SpvOpTypeMatrix: ty[i.result] = tmat(T(i.w[2]), i.w[3]); break; case SpvOpTypeArray: ty[i.result] = tarr(T(i.w[2]), (u32)V(e, i.w[3])[0]); break; case SpvOpTypeRuntimeArray: { Ty x = tarr(T(i.w[2]), 0); ty[i.result] = x; break; }
        case SpvOpTypeStruct: { std::vector<Ty> mm; for (size_t k = 2; k < i.w.size(); ++k) mm.push_back(T(i.w[k])); ty[i.result] = tstruct(mm); break; } case SpvOpTypePointer: ty[i.result] = tptr(T(i.w[3]), i.w[2]); break;
        case SpvOpTypeFunction: case SpvOpTypeImage: case SpvOpTypeSampler: case SpvOpTypeSampledImage: { Ty x; x.k = Ty::Other; x.n = i.result; ty[i.result] = x; break; }
        case SpvOpExtInstImport: { sv::Opd o = i.o.back(); if (sv::literal(i, o) == "GLSL.std.450") glslset = i.result; break; }
        case SpvOpConstantTrue: case SpvOpSpecConstantTrue: gv[i.result] = {1}; gt[i.result] = i.type; break; case SpvOpConstantFalse: case SpvOpSpecConstantFalse: gv[i.result] = {0}; gt[i.result] = i.type; break;
        case SpvOpConstant: case SpvOpSpecConstant: gv[i.result] = {lit(i, T(i.type))}; gt[i.result] = i.type; break; case SpvOpConstantNull: case SpvOpUndef: gv[i.result] = Val(flat(T(i.type)), 0); gt[i.result] = i.type; break;
        case SpvOpConstantComposite: case SpvOpSpecConstantComposite: { Val v; for (size_t k = 3; k < i.w.size(); ++k) { auto& x = V(e, i.w[k]); v.insert(v.end(), x.begin(), x.end()); } if (v.size() != flat(T(i.type))) fail("constituents of " + sv::str(i)); gv[i.result] = v; gt[i.result] = i.type; break; }
        case SpvOpSpecConstantOp: { std::vector<Val> a; std::vector<Ty> t; std::vector<u32> imm; bool first = true; for (auto& o : i.o) { if (o.result() || o.type == SPV_OPERAND_TYPE_TYPE_ID) continue; if (o.id()) { a.push_back(V(e, i.w[o.off])); t.push_back(T(gt[i.w[o.off]])); } else if (first) first = false; else for (u32 k = 0; k < o.n; ++k) imm.push_back(i.w[o.off + k]); } Val r; if (!core(i.w[3], T(i.type), t, a, imm, r)) fail("cannot evaluate " + sv::str(i)); gv[i.result] = r; gt[i.result] = i.type; break; }
        case SpvOpVariable: { auto in = inputs.find(i.result); const Val* init = i.w.size() > 4 ? &V(e, i.w[4]) : nullptr; if (in != inputs.end()) init = &in->second; if (init && init->size() != flat(T(i.type).sub[0])) fail("initialiser size"); gv[i.result] = newvar(T(i.type), init); gt[i.result] = i.type; glob[i.result] = (u32)gv[i.result][0]; break; }
        default: break; } } }
};
}
Result run(const sv::Mod& m, u32 entry, const std::map<u32, Val>& inputs, Stats* st) { Result r; M x{m, {}, {}, {}, {}, {}, st, {}, 0, false, 0, 0}; try { x.globals(inputs); x.call(entry, {}); } catch (Fail& f) { r.error = f.s; } catch (std::exception& e) { r.error = e.what(); } r.killed = x.killed; for (auto& g : x.glob) { r.types[g.first] = x.ty[x.gt[g.first]].sub[0]; Val v = x.mem[g.second].v; for (char c : x.mem[g.second].init) if (!c) v.clear(); r.globals[g.first] = v; } return r; }
}
