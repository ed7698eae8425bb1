#include "linkmodel.h"
using namespace hx;
namespace lm { namespace {
struct Str { int kind; std::vector<std::string> mem; std::vector<std::pair<u32, std::string>> extra; }; // 0 plain, 1 with offsets, 2 Block
struct Fn { std::string name, id, ret; std::vector<std::string> par; bool entry = false, import = false, exported = false; };
struct Gl { std::string name, id, cls, key; bool import = false, exported = false; };
const std::map<char, const char*> cls_name{{'p', "Private"}, {'u', "Uniform"}, {'w', "Workgroup"}, {'i', "Input"}, {'o', "Output"}, {'F', "Function"}, {'c', "UniformConstant"}};
struct M {
  Rng& r; const std::vector<Str>& st; std::string names, deco, types, strings, lines, decl, def; std::set<std::string> caps{"Shader", "Linkage"}; bool glsl = false; std::map<std::string, std::string> tid, cid; u32 n = 0, spec = 0, loc = 0; u32 naming, version = 0; bool f64, user_strings = false; std::vector<std::string> files, undefs, specs; std::vector<std::pair<std::string, std::string>> lits;
  M(Rng& r, const std::vector<Str>& s, bool f64) : r(r), st(s), naming(r.below(4)), f64(f64) {}
  std::string id() { return fmt("%%x%u", ++n); }
  std::string word() { static const std::vector<std::string> w{"value", "a", "tmp", "light", "x", "", "colour", "long_name_with_many_characters", "main", "foo"}; return r.pick(w) + (r.coin() ? fmt("%u", r.below(50)) : ""); }
  void name(const std::string& i, u32 den = 0) { if (!den) den = naming + 1; if (naming && r.chance(1, den)) names += "OpName " + i + " \"" + word() + "\"\n"; if (naming && r.chance(1, den * 12)) names += "OpName " + i + " \"" + word() + "\"\n"; }
  u32 num(const std::string& k, size_t& p) { u32 v = 0; while (p < k.size() && isdigit((unsigned char)k[p])) v = v * 10 + (u32)(k[p++] - '0'); return v; }
  u32 size(const std::string& k) { switch (k[0]) { case 'V': case 'd': return 16; case 'M': return 16u * (u32)(k[1] - '0'); case 'A': { size_t p = 1; return 16 * num(k, p); } case 'S': { size_t p = 1; u32 t = 0; for (auto& m : st[num(k, p)].mem) t += (size(m) + 15) / 16 * 16; return t; } default: return 4; } }
  std::string ty(const std::string& k) { auto it = tid.find(k); if (it != tid.end()) return it->second; std::string i, t; size_t p = 1; switch (k[0]) {
      case 'v': t = "OpTypeVoid"; break; case 'b': t = "OpTypeBool"; break; case 'f': t = "OpTypeFloat 32"; break; case 'u': t = "OpTypeInt 32 0"; break; case 'i': t = "OpTypeInt 32 1"; break; case 'd': t = "OpTypeFloat 64"; caps.insert("Float64"); break;
      case 'V': { std::string e = ty(k.substr(2)); t = "OpTypeVector " + e + " " + k[1]; break; } case 'M': { std::string e = ty("V4f"); t = "OpTypeMatrix " + e + " " + k[1]; break; }
      case 'A': { u32 n = num(k, p); std::string e = ty(k.substr(p)), c = cst("u", fmt("%u", n)); t = "OpTypeArray " + e + " " + c; break; }
      case 'Z': { u32 n = num(k, p); std::string e = ty(k.substr(p)), u = ty("u"), c = id(); types += c + " = OpSpecConstant " + u + fmt(" %u\n", n); is_spec.insert(c); specs.push_back(c); deco += fmt("OpDecorate %s SpecId %u\n", c.c_str(), 100 + n); if (n % 2) { std::string two = cst("u", "2"), d = id(); types += d + " = OpSpecConstantOp " + u + " IAdd " + c + " " + two + "\n"; is_spec.insert(d); c = d; } t = "OpTypeArray " + e + " " + c; break; } // length is a specialization constant
      case 'S': { t = "OpTypeStruct"; for (auto& m : st[num(k, p)].mem) t += " " + ty(m); break; } case 'P': { std::string e = ty(k.substr(2)); t = std::string("OpTypePointer ") + cls_name.at(k[1]) + " " + e; break; }
      case 'I': { std::string f = ty("f"); t = "OpTypeImage " + f + " 2D 0 0 0 1 Unknown"; break; } case 'T': { std::string f = ty("I"); t = "OpTypeSampledImage " + f; break; }
      case 'F': { t = "OpTypeFunction"; std::string s = k.substr(1), w; for (char c : s) if (c == ',') { t += " " + ty(w); w.clear(); } else w += c; break; } }
    i = id(); types += i + " = " + t + "\n"; tid[k] = i; name(i); p = 1; if (k[0] == 'A' && num(k, p) >= 30) deco += "OpDecorate " + i + " ArrayStride 16\n";
    if (k[0] == 'S') { p = 1; auto& s = st[num(k, p)]; u32 off = 0; if (s.kind == 2) deco += "OpDecorate " + i + " Block\n"; for (u32 m = 0; m < s.mem.size(); ++m) { if (naming && r.coin()) names += fmt("OpMemberName %s %u \"%s\"\n", i.c_str(), m, word().c_str()); if (s.kind) { if (r.chance(1, 10)) { std::string g = id(); deco += fmt("OpDecorate %s Offset %u\n%s = OpDecorationGroup\nOpGroupMemberDecorate %s %s %u\n", g.c_str(), off, g.c_str(), g.c_str(), i.c_str(), m); } else deco += fmt("OpMemberDecorate %s %u Offset %u\n", i.c_str(), m, off); off += (size(s.mem[m]) + 15) / 16 * 16; if (s.mem[m][0] == 'M') deco += fmt("OpMemberDecorate %s %u ColMajor\nOpMemberDecorate %s %u MatrixStride 16\n", i.c_str(), m, i.c_str(), m); } } for (auto& x : s.extra) { if (x.second[0] == '"') { deco += fmt("OpMemberDecorateStringGOOGLE %s %u UserSemantic ", i.c_str(), x.first) + x.second + "\n"; ext_string = true; } else if (r.coin()) grouped_members[x.second].push_back(fmt(" %s %u", i.c_str(), x.first)); else deco += fmt("OpMemberDecorate %s %u ", i.c_str(), x.first) + x.second + "\n"; } }
    return i; }
  std::string fty(const Fn& f) { std::string k = "F" + f.ret + ","; for (auto& p : f.par) k += p + ","; return k; }
  std::string cst(const std::string& k, std::string v = "") { std::string t = ty(k), i; bool sp = v.empty() && r.chance(1, 6); char c = k[0];
    if (c == 'b') { bool tr = r.coin(); std::string key = k + (tr ? "T" : "0"); if (!sp && cid.count(key)) return cid[key]; i = id(); types += i + " = " + (sp ? "OpSpecConstant" : "OpConstant") + (tr ? "True " : "False ") + t + "\n"; if (sp) specid(i); else cid[key] = i; name(i); return i; }
    if (c == 'f' || c == 'u' || c == 'i' || c == 'd') { bool any_value = v.empty(); if (v.empty()) { static const std::vector<std::string> fl{"0", "1", "-0.5", "3.25", "100", "0x1p-3"}; if (c == 'f' || c == 'd') v = r.pick(fl); else v = fmt("%u", r.below(6)); } if (c == 'u' && any_value && r.chance(1, 12) && !sp && !specs.empty()) return specop(); std::string key = k + "=" + v; if (!sp && cid.count(key)) return cid[key]; i = id(); types += i + " = " + (sp ? "OpSpecConstant " : "OpConstant ") + t + " " + v + "\n"; if (sp) { specid(i); if (c == 'u') specs.push_back(i); } else cid[key] = i; name(i); return i; }
    if (r.chance(1, 4) || c == 'P' || c == 'Z') { std::string key = k + "N"; if (cid.count(key)) return cid[key]; i = id(); types += i + " = OpConstantNull " + t + "\n"; cid[key] = i; name(i); return i; }
    std::vector<std::string> parts; size_t p = 1; if (c == 'V') { for (int j = 0; j < k[1] - '0'; ++j) parts.push_back(cst(k.substr(2))); } else if (c == 'M') { for (int j = 0; j < k[1] - '0'; ++j) parts.push_back(cst("V4f")); } else if (c == 'A') { u32 n = num(k, p); std::string e = cst(k.substr(p)); for (u32 j = 0; j < n; ++j) parts.push_back(e); if (n < 16) parts[0] = cst(k.substr(p)); } else if (c == 'S') { u32 s = num(k, p); for (auto& m : st[s].mem) parts.push_back(cst(m)); }
    std::string key = k + "C"; bool any = false; for (auto& q : parts) { key += q; any |= is_spec.count(q) > 0; } if (cid.count(key)) return cid[key]; i = id(); bool spc = any || r.chance(1, 12); types += i + " = " + (spc ? "OpSpecConstantComposite " : "OpConstantComposite ") + t; for (auto& q : parts) types += " " + q; types += "\n"; if (spc) is_spec.insert(i); cid[key] = i; name(i); return i; }
  std::set<std::string> is_spec; void specid(const std::string& i) { is_spec.insert(i); if (r.chance(3, 4)) deco += fmt("OpDecorate %s SpecId %u\n", i.c_str(), spec_base + spec++); } u32 spec_base = 0;
  std::string specop() { std::string t = ty("u"), a = r.pick(specs), b = r.coin() ? r.pick(specs) : cst("u", fmt("%u", r.range(1, 5))), i = id(); static const std::vector<std::string> ops{"IAdd", "IMul", "BitwiseXor", "ISub"}; types += i + " = OpSpecConstantOp " + t + " " + r.pick(ops) + " " + a + " " + b + "\n"; is_spec.insert(i); specs.push_back(i); name(i); return i; }
  Gl global(char c, const std::string& k, bool import) { Gl g; g.cls = c; g.key = k; g.import = import; std::string t = ty(std::string("P") + c + k), init; if (!import && (c == 'p' || c == 'o') && r.coin() && k[0] != 'I') init = cst(k); g.id = id(); types += g.id + " = OpVariable " + t + " " + cls_name.at(c) + (init.empty() ? "" : " " + init) + "\n"; name(g.id, 2); if (c == 'u' || c == 'c') { deco += fmt("OpDecorate %s DescriptorSet %u\nOpDecorate %s Binding %u\n", g.id.c_str(), r.below(3), g.id.c_str(), r.below(9)); } if (c == 'i' || c == 'o') { deco += fmt("OpDecorate %s Location %u\n", g.id.c_str(), loc++); if (c == 'i' && k != "f" && k != "V4f") deco += "OpDecorate " + g.id + " Flat\n"; } if ((c == 'i' || c == 'o') && user_strings && r.chance(1, 3)) { ext_string = true; deco += (version >= 4 || r.coin() ? "OpDecorateString " : "OpDecorateStringGOOGLE ") + g.id + " UserSemantic \"" + word() + "\"\n"; } if (c == 'p' && r.chance(1, 4) && k == "f") deco += "OpDecorate " + g.id + " RelaxedPrecision\n"; return g; }
  // ---- function bodies
  struct Val { std::string key, id; }; std::vector<Val> scope; std::vector<Val> locals; std::string o, cur; const std::vector<Fn>* callees = nullptr; const std::vector<Gl>* globals = nullptr; u32 budget = 0;
  std::string lab() { return id(); }
  void start(const std::string& l) { o += l + " = OpLabel\n"; cur = l; name(l, 8); }
  std::string res(const std::string& k, const std::string& rhs, bool keep = true) { std::string t = ty(k), i = id(); size_t p = rhs.find(' '); std::string op = rhs.substr(0, p), rest = p == std::string::npos ? "" : rhs.substr(p); o += i + " = " + op + " " + t + rest + "\n"; name(i, 4); if (k == "f" && r.chance(1, 8)) deco += "OpDecorate " + i + " RelaxedPrecision\n"; if (op == "OpFAdd" && r.chance(1, 4)) groupable.push_back(i); else if (k == "f" && version >= 4 && r.chance(1, 10)) { std::string sc = cst("u", "3"); deco += "OpDecorateId " + i + " UniformId " + sc + "\n"; } else if (op == "OpFAdd" && r.chance(1, 6)) deco += "OpDecorate " + i + " NoContraction\n"; if (keep) scope.push_back({k, i}); return i; }
  std::string val(const std::string& k) { std::vector<std::string> c; for (auto& v : scope) if (v.key == k) c.push_back(v.id); if (!c.empty() && !r.chance(1, 4)) return r.pick(c); for (auto& l : locals) if (l.key == k && r.coin()) return res(k, "OpLoad " + l.id); if (r.chance(1, 12)) { if (r.coin()) return res(k, "OpUndef"); std::string t = ty(k), key = k + "U"; if (!cid.count(key)) { std::string i = id(); types += i + " = OpUndef " + t + "\n"; cid[key] = i; name(i); } return cid[key]; } if ((k[0] == 'V' || k[0] == 'S') && r.coin()) { size_t p = 1; std::string a; if (k[0] == 'V') for (int j = 0; j < k[1] - '0'; ++j) a += " " + val(k.substr(2)); else for (auto& m : st[num(k, p)].mem) a += " " + val(m); return res(k, "OpCompositeConstruct" + a); } return cst(k); }
  std::string any_key() { static const std::vector<std::string> v{"f", "f", "u", "i", "V4f", "V2f", "b", "V3u", "d"}; std::string k = r.pick(v); return k == "d" && !f64 ? "f" : k; }
  std::string cond() { if (r.chance(1, 4)) return val("b"); std::string a, b; switch (r.below(3)) { case 0: a = val("f"); b = val("f"); return res("b", "OpFOrdLessThan " + a + " " + b); case 1: a = val("u"); b = val("u"); return res("b", "OpIEqual " + a + " " + b); default: a = val("i"); b = val("i"); return res("b", "OpSGreaterThan " + a + " " + b); } }
  std::string arith(const std::string& k, const std::string& a, const std::string& b) { std::string op; char c = k[0] == 'V' ? k.back() : k[0]; if (c == 'b') op = r.coin() ? "OpLogicalAnd" : "OpLogicalNotEqual"; else if (c == 'f' || c == 'd') op = r.pick(std::vector<std::string>{"OpFAdd", "OpFMul", "OpFSub"}); else op = r.pick(std::vector<std::string>{"OpIAdd", "OpIMul", "OpBitwiseOr", "OpISub"}); return res(k, op + " " + a + " " + b); }
  void stmts(u32 k, int depth) { for (u32 j = 0; j < k && budget; ++j) { --budget; stmt(depth); } }
  void stmt(int depth) { switch (r.below(15)) {
    case 0: case 1: { std::string k = any_key(), a = val(k), b = val(k); arith(k, a, b); break; }
    case 2: if (!locals.empty()) { Val l = r.pick(locals); std::string v = val(l.key); o += "OpStore " + l.id + " " + v + "\n"; } break;
    case 3: case 4: case 5: if (globals && !globals->empty()) { Gl g = r.pick(*globals); std::string p = g.id, k = g.key; if (k == "T") { std::string c = val("V2f"), l = cst("f", "0"), im = res("T", "OpLoad " + p, false); res("V4f", "OpImageSampleExplicitLod " + im + " " + c + " Lod " + l); break; } if (k[0] == 'A' && k.back() == 'T') break;
        while ((k[0] == 'S' || k[0] == 'A' || k[0] == 'Z') && r.chance(9, 10)) { size_t q = 1; u32 a = num(k, q); std::string e, ix; if (k[0] == 'S') { u32 m = r.below((u32)st[a].mem.size()); e = st[a].mem[m]; ix = cst("u", fmt("%u", m)); } else { e = k.substr(q); ix = val("u"); } std::string t = ty("P" + g.cls + e), i = id(); o += i + " = OpAccessChain " + t + " " + p + " " + ix + "\n"; name(i, 6); p = i; k = e; }
        bool w = g.cls != "u" && g.cls != "i"; if (w && r.coin()) { std::string v = val(k); o += "OpStore " + p + " " + v + "\n"; } else res(k, "OpLoad " + p); } break;
    case 6: case 7: if (callees && !callees->empty()) { const Fn& f = r.pick(*callees); std::string a; for (auto& p : f.par) { if (p[0] == 'P') { std::string l; for (auto& v : locals) if (v.key == p.substr(2)) l = v.id; if (l.empty()) return; a += " " + l; } else a += " " + val(p); } if (f.ret == "v") { std::string t = ty("v"), i = id(); o += i + " = OpFunctionCall " + t + " " + f.id + a + "\n"; } else res(f.ret, "OpFunctionCall " + f.id + a); } break;
    case 8: { glsl = true; std::string k = r.coin() ? "f" : "V4f", a = val(k); switch (r.below(3)) { case 0: res(k, "OpExtInst %glsl FAbs " + a); break; case 1: { std::string b = val(k); res(k, "OpExtInst %glsl FMax " + a + " " + b); break; } default: res(k, "OpExtInst %glsl Sqrt " + a); } break; }
    case 9: if (depth < 3) { std::string c = cond(), t = lab(), e = lab(), m = lab(), k = any_key(); size_t s = scope.size(); bool has_else = r.coin(); std::string v0 = val(k); s = scope.size(); std::string from = cur; o += "OpSelectionMerge " + m + " None\nOpBranchConditional " + c + " " + t + " " + (has_else ? e : m) + "\n"; start(t); stmts(r.range(1, 3), depth + 1); std::string v1 = val(k), l1 = cur; scope.resize(s); o += "OpBranch " + m + "\n"; std::string v2 = v0, l2 = from; if (has_else) { start(e); stmts(r.range(1, 3), depth + 1); v2 = val(k); l2 = cur; scope.resize(s); o += "OpBranch " + m + "\n"; } start(m); res(k, "OpPhi " + v1 + " " + l1 + " " + v2 + " " + l2); } break;
    case 10: if (depth < 2) { std::string h = lab(), c = lab(), b = lab(), ct = lab(), m = lab(), z = cst("u", "0"), one = cst("u", "1"), lim = cst("u", "4"), u = ty("u"), bt = ty("b"), k = any_key(), v0 = val(k), kt = ty(k), i = id(), in = id(), f = id(), fn = id(), cmp = id(), from = cur; size_t s = scope.size(); o += "OpBranch " + h + "\n"; start(h); o += i + " = OpPhi " + u + " " + z + " " + from + " " + in + " " + ct + "\n" + f + " = OpPhi " + kt + " " + v0 + " " + from + " " + fn + " " + ct + "\n"; name(i); scope.push_back({"u", i}); scope.push_back({k, f}); o += "OpLoopMerge " + m + " " + ct + " None\nOpBranch " + c + "\n"; start(c); o += cmp + " = OpULessThan " + bt + " " + i + " " + lim + "\nOpBranchConditional " + cmp + " " + b + " " + m + "\n"; start(b); stmts(r.range(1, 3), depth + 1); std::string v = val(k), w = f; o += fn + " = OpCopyObject " + kt + " " + v + "\n"; scope.resize(s); o += "OpBranch " + ct + "\n"; start(ct); o += in + " = OpIAdd " + u + " " + i + " " + one + "\nOpBranch " + h + "\n"; start(m); name(in); name(fn); } break;
    case 11: { std::string k = any_key(), a = val(k), b = val(k), c = val("b"); if (k[0] == 'V' && version < 4) { k = "f"; a = val(k); b = val(k); } res(k, "OpSelect " + c + " " + a + " " + b); break; }
    case 12: if (!files.empty()) { if (r.chance(1, 4)) o += "OpNoLine\n"; else o += "OpLine " + r.pick(files) + fmt(" %u %u\n", r.range(1, 999), r.below(80)); } break;
    case 13: if (depth < 2) { std::string s0 = val("u"), m = lab(), a = lab(), b = lab(); size_t s = scope.size(); o += "OpSelectionMerge " + m + " None\nOpSwitch " + s0 + " " + b + fmt(" %u ", r.below(9)) + a + fmt(" %u ", r.range(10, 20)) + (r.coin() ? a : b) + "\n"; start(a); stmts(1, depth + 1); scope.resize(s); o += "OpBranch " + m + "\n"; start(b); stmts(1, depth + 1); scope.resize(s); o += "OpBranch " + m + "\n"; start(m); } break;
    default: { std::string v = val("V4f"); res("f", "OpCompositeExtract " + v + fmt(" %u", r.below(4))); } } }
  void body(const Fn& f, const std::vector<Fn>& cs, const std::vector<Gl>& gs, u32 size) { o.clear(); scope.clear(); locals.clear(); callees = &cs; globals = &gs; budget = size; std::string rt = ty(f.ret), ft = ty(fty(f)); static const std::vector<std::string> ctl{"None", "Inline", "DontInline", "Pure", "None"}; o += f.id + " = OpFunction " + rt + " " + (f.entry ? "None" : r.pick(ctl)) + " " + ft + "\n"; for (auto& p : f.par) { std::string t = ty(p), i = id(); o += i + " = OpFunctionParameter " + t + "\n"; name(i, 2); if (p == "f" && r.chance(1, 4)) deco += "OpDecorate " + i + " RelaxedPrecision\n"; if (p[0] == 'P') locals.push_back({p.substr(2), i}); else scope.push_back({p, i}); }
    start(lab()); for (u32 j = 0, e = r.below(4); j < e; ++j) { std::string k = r.chance(1, 4) && !st.empty() && st[0].kind == 0 ? "S0" : any_key(), t = ty("PF" + k), in = r.coin() ? " " + cst(k) : "", i = id(); o += i + " = OpVariable " + t + " Function" + in + "\n"; name(i, 2); locals.push_back({k, i}); }
    stmts(size, 0); if (f.ret == "v") o += "OpReturn\nOpFunctionEnd\n"; else { std::string v = val(f.ret); o += "OpReturnValue " + v + "\nOpFunctionEnd\n"; } def += o; }
  void declare(const Fn& f) { std::string rt = ty(f.ret), ft = ty(fty(f)); decl += f.id + " = OpFunction " + rt + " None " + ft + "\n"; for (auto& p : f.par) { std::string t = ty(p), i = id(); decl += i + " = OpFunctionParameter " + t + "\n"; name(i, 6); } decl += "OpFunctionEnd\n"; }
  void link(const std::string& i, const std::string& nm, bool exp) { deco += "OpDecorate " + i + " LinkageAttributes \"" + nm + "\" " + (exp ? "Export" : "Import") + "\n"; }
  std::map<std::string, std::vector<std::string>> grouped_members;
  std::string text(const std::string& entries) { for (auto& [d, v] : grouped_members) { std::string g = id(); groups += "OpDecorate " + g + " " + d + "\n" + g + " = OpDecorationGroup\nOpGroupMemberDecorate " + g; for (auto& x : v) groups += x; groups += "\n"; } std::string t; for (auto& c : caps) t += "OpCapability " + c + "\n"; if (ext_string) t += "OpExtension \"SPV_GOOGLE_hlsl_functionality1\"\nOpExtension \"SPV_GOOGLE_decorate_string\"\n"; if (glsl) t += "%glsl = OpExtInstImport \"GLSL.std.450\"\n"; t += "OpMemoryModel Logical GLSL450\n" + entries + strings + shuffle(names) + processed + shuffle(deco) + groups + types + lines + decl + def; return t; } std::string processed;
  void group() { if (groupable.empty()) return; std::string g = id(), l; std::set<std::string> u; for (u32 k = r.range(1, 4); k; --k) u.insert(r.pick(groupable)); for (auto& x : u) l += " " + x; groups += "OpDecorate " + g + " RelaxedPrecision\n"; if (r.coin()) groups += "OpDecorate " + g + " NoContraction\n"; groups += g + " = OpDecorationGroup\nOpGroupDecorate " + g + l + "\n"; } std::string groups; std::vector<std::string> groupable; bool ext_string = false;
  std::string shuffle(const std::string& s) { std::vector<std::string> l; std::string w; for (char c : s) { w += c; if (c == '\n') { l.push_back(w); w.clear(); } } for (size_t i = l.size(); i > 1; --i) if (r.coin()) std::swap(l[i - 1], l[r.below((u32)i)]); w.clear(); for (auto& x : l) w += x; return w; }
  void debug() { u32 k = r.below(3); for (u32 j = 0; j < k; ++j) { std::string i = id(); strings += i + " = OpString \"" + word() + ".glsl\"\n"; files.push_back(i); name(i); } if (r.chance(1, 3)) strings += "OpSource GLSL 450" + (files.empty() || r.coin() ? std::string() : " " + files[0]) + "\n"; if (r.chance(1, 4)) strings += "OpSourceExtension \"GL_" + word() + "\"\n"; if (!files.empty() && r.chance(1, 3)) for (u32 j = r.range(1, 3); j; --j) lines += r.chance(1, 5) ? std::string("OpNoLine\n") : "OpLine " + r.pick(files) + fmt(" %u %u\n", r.below(99), r.below(9)); if (r.chance(1, 4) && version >= 1) processed += "OpModuleProcessed \"" + word() + "\"\n"; }
};
std::vector<u32> finish(const std::string& text, u32 version, Rng& r, std::string* err) { static const spv_target_env env[] = {SPV_ENV_UNIVERSAL_1_0, SPV_ENV_UNIVERSAL_1_1, SPV_ENV_UNIVERSAL_1_2, SPV_ENV_UNIVERSAL_1_3, SPV_ENV_UNIVERSAL_1_4, SPV_ENV_UNIVERSAL_1_5}; std::vector<u32> w = sv::assemble(text, err, false, env[version]); if (w.empty()) return w; sv::Mod m; if (!sv::decode(w, m, err)) return {}; std::vector<u32> p; u32 gap = r.below(3) ? 0 : r.below(20); for (u32 i = 1; i < m.bound + gap; ++i) p.push_back(i); if (!r.chance(1, 4)) for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below((u32)i)]); std::vector<u32> o{w[0], w[1], w[2], m.bound + gap, 0}; u32 mx = 0; for (auto& i : m.ins) { auto q = i.w; for (auto& x : i.o) if (x.id()) { q[x.off] = p[q[x.off] - 1]; mx = std::max(mx, q[x.off]); } o.insert(o.end(), q.begin(), q.end()); } o[3] = mx + 1; if (!sv::validate(o, err, env[version])) return {}; return o; }
}
bool make(Rng& r, const Opt& opt, Case& c, std::string* err) {
  bool f64 = opt.f64 && r.chance(1, 3); std::vector<std::pair<u32, u32>> twins; std::vector<Str> st; u32 ns = r.below(5); auto basic = [&](bool bl) -> std::string { static const std::vector<std::string> v{"f", "u", "i", "V4f", "V2f", "M4", "M2", "V3u"}; (void)bl; return r.pick(v); };
  for (u32 i = 0; i < ns; ++i) { Str s; s.kind = (int)r.below(3); for (u32 k = r.range(1, 3); k; --k) { std::string m = basic(s.kind); if (r.chance(1, 3)) for (u32 j = 0; j < i; ++j) if (st[j].kind == (s.kind ? 1 : 0)) m = fmt("S%u", j); s.mem.push_back(m); } s.mem.insert(s.mem.begin() + r.below((u32)s.mem.size() + 1), fmt("A%uf", (s.kind ? 30 : 2) + i)); st.push_back(s); if (s.kind && r.chance(1, 3)) { s.kind = (s.kind + (int)r.range(1, 2)) % 3; bool nested = false; for (auto& m : s.mem) nested |= m[0] == 'S'; if (!nested) { st.push_back(s); ++i; } }
    else if (s.kind && r.chance(1, 2)) { static const std::vector<std::string> x{"NonWritable", "Coherent", "\"sem\"", "\"semantic\"", "\"sem_1\""}; auto ex = [&] { Str t = s; t.extra.clear(); for (u32 k = r.below(3); k; --k) { std::pair<u32, std::string> e{r.below((u32)s.mem.size()), x[r.below(5)]}; bool dup = false; for (auto& o : t.extra) dup |= o == e || (o.first == e.first && o.second[0] == '"' && e.second[0] == '"'); if (!dup) t.extra.push_back(e); } return t; }; Str a = ex(); st.back().extra = a.extra; Str b = ex(); if (!a.extra.empty() && r.chance(2, 3)) { b = a; auto& y = b.extra[r.below((u32)b.extra.size())]; switch (r.below(3)) { case 0: b.extra.erase(b.extra.begin()); break; case 1: y.first = (y.first + 1) % (u32)s.mem.size(); break; default: if (y.second[0] == '"') y.second = x[2 + r.below(3)]; else y.second = x[r.below(2)]; } std::set<std::string> u; for (auto& o : b.extra) u.insert(fmt("%u", o.first) + o.second[0]); if (u.size() != b.extra.size()) b = ex(); } auto so = [](std::vector<std::pair<u32, std::string>> v) { std::sort(v.begin(), v.end()); return v; }; if (so(b.extra) != so(a.extra)) { if (s.kind == 2) twins.push_back({(u32)st.size() - 1, (u32)st.size()}); st.push_back(b); ++i; } } }
  auto gkey = [&](char& cl) -> std::string { static const std::vector<char> cs{'p', 'p', 'p', 'w', 'u', 'i', 'o', 'c'}; cl = r.pick(cs); std::vector<u32> pl, bl; for (u32 i = 0; i < st.size(); ++i) { if (st[i].kind == 0) pl.push_back(i); if (st[i].kind == 2) bl.push_back(i); } static const std::vector<std::string> v{"f", "u", "V4f", "i", "V3u", "A5f", "A3u", "Z6f", "Z5u"}; if (cl == 'u') { if (bl.empty()) { cl = 'p'; return r.pick(v); } return fmt("S%u", r.pick(bl)); } if (cl == 'c') return "T"; if (cl == 'i' || cl == 'o') return r.pick(std::vector<std::string>{"f", "V4f", "u"}); if (!pl.empty() && r.chance(1, 3)) return fmt("S%u", r.pick(pl)); return r.pick(v); };
  auto sig = [&](Fn& f) { static const std::vector<std::string> v{"f", "u", "V4f", "i", "b", "PFf", "PFV4f", "V3u"}; static const std::vector<std::string> rt{"f", "u", "v", "V4f", "b", "v", "S"}; f.ret = r.pick(rt); if (f.ret == "S") f.ret = !st.empty() && st[0].kind == 0 ? "S0" : "f"; for (u32 k = r.below(4); k; --k) { std::string p = r.pick(v); if (!st.empty() && st[0].kind == 0 && r.chance(1, 6)) p = "S0"; f.par.push_back(p); } };
  u32 lv = r.below(6), cv = r.below(6); if (r.coin()) lv = cv; M lib(r, st, f64), con(r, st, f64); lib.version = lv; con.version = cv; lib.n = 0; con.spec_base = 50; lib.debug(); con.debug(); lib.user_strings = r.chance(1, 4); con.user_strings = r.chance(1, 4);
  // the library
  std::vector<Gl> lg; std::vector<Fn> lf; u32 ng = r.below(5), nf = r.range(1, 5); for (u32 i = 0; i < ng; ++i) { char cl; std::string k = gkey(cl); Gl g = lib.global(cl, k, false); g.name = fmt("v%u", i); g.exported = r.coin(); lg.push_back(g); } // structs that only differ in their decorations: one here, one in the consumer
  if (!twins.empty() && r.chance(2, 3)) { auto& t = r.pick(twins); bool f = r.coin(); con.global('u', fmt("S%u", f ? t.first : t.second), false); lg.push_back(lib.global('u', fmt("S%u", f ? t.second : t.first), false)); lg.back().name = "twin"; lg.back().exported = false; }
  M lib2(r, st, f64); lib2.version = r.below(6); lib2.spec_base = 80; std::vector<Fn> bf; std::vector<Gl> bg; struct Ext { bool var; Fn f; Gl g; bool con_provides, con_imports; }; std::vector<Ext> ext; if (opt.chain) { lib2.debug(); for (u32 i = 0, e = r.range(1, 3); i < e; ++i) { Ext x; x.var = r.chance(1, 3); x.con_provides = r.chance(1, 4); x.con_imports = !x.con_provides && r.coin(); if (x.var) { char cl; std::string k = gkey(cl); x.g = lib.global(cl, k, true); x.g.name = fmt("ev%u", i); lib.link(x.g.id, x.g.name, false); lg.push_back(x.g); lg.back().exported = false; if (!x.con_provides) { Gl d = lib2.global(cl, k, false); d.name = x.g.name; lib2.link(d.id, d.name, true); bg.push_back(d); } } else { x.f.name = fmt("ef%u", i); sig(x.f); x.f.import = true; x.f.id = lib.id(); lib.name(x.f.id, 2); lib.declare(x.f); lib.link(x.f.id, x.f.name, false); lf.push_back(x.f); if (!x.con_provides) { Fn d = x.f; d.import = false; d.id = lib2.id(); lib2.name(d.id, 2); if (r.coin()) { Fn h; sig(h); h.id = lib2.id(); lib2.body(h, bf, bg, r.below(6)); bf.push_back(h); } lib2.body(d, bf, bg, r.below(10)); lib2.link(d.id, d.name, true); bf.push_back(d); } } ext.push_back(x); } }
  bool rec = r.chance(1, 8); u32 nexp = 0; for (u32 i = 0; i < nf; ++i) { Fn f; f.name = fmt("fn%u", i) + (r.chance(1, 4) ? std::string(r.below(9), 'q') : ""); sig(f); f.exported = nexp < opt.max_symbols && (r.coin() || (i + 1 == nf && !nexp)); nexp += f.exported; f.id = lib.id(); lib.name(f.id, 2); if (!rec) lib.body(f, lf, lg, r.range(0, 14)); lf.push_back(f); } // a function calls only earlier ones
  if (rec) for (auto& f : lf) if (!f.import) lib.body(f, lf, lg, r.range(0, 14));
  for (auto& g : lg) if (g.exported) lib.link(g.id, g.name, true); for (auto& f : lf) if (f.exported) lib.link(f.id, f.name, true);
  if (r.chance(1, 4)) { Fn f; f.name = "main"; f.ret = "v"; } // libraries have no entry points
  // the consumer
  std::vector<Gl> cg; std::vector<Fn> cf; std::vector<std::function<void()>> todo; for (auto& g : lg) if (g.exported && r.chance(3, 4)) { Sym s; s.name = g.name; s.var = true; Gl d; d.name = g.name; std::string k = g.key; char cl = g.cls[0]; if (opt.mismatch && r.chance(1, 2)) { s.broken = true; if (k == "T") { k = "f"; cl = 'p'; } else if (cl == 'p' && r.coin()) cl = 'w'; else if (cl == 'w' || cl == 'p') k = k == "f" ? "u" : "f"; else if (cl == 'u') { cl = 'p'; k = "f"; } else k = k == "f" ? "V4f" : "f"; } c.syms.push_back(s); size_t q = c.syms.size() - 1; (void)q; todo.push_back([&, d, k, cl]() mutable { Gl n = con.global(cl, k, true); n.name = d.name; con.link(n.id, n.name, false); cg.push_back(n); }); }
  for (auto& f : lf) if (f.exported && r.chance(5, 6)) { Sym s; s.name = f.name; Fn d = f; d.import = true; if (opt.mismatch && r.chance(1, 2)) { s.broken = true; if (d.par.empty() || r.chance(1, 3)) d.par.push_back("u"); else if (r.coin()) { auto& p = r.pick(d.par); const_cast<std::string&>(p) = p == "f" ? "u" : "f"; } else d.ret = d.ret == "f" ? "u" : "f"; } c.syms.push_back(s); todo.push_back([&, d]() mutable { d.id = con.id(); con.name(d.id, 2); con.declare(d); con.link(d.id, d.name, false); cf.push_back(d); }); }
  if (opt.missing) for (u32 k = r.range(1, 2); k; --k) { Sym s; s.name = fmt("missing%u", k); s.has_lib = false; s.var = r.coin(); c.syms.push_back(s); if (s.var) todo.push_back([&, s]() { Gl n = con.global('p', "f", true); n.name = s.name; con.link(n.id, n.name, false); cg.push_back(n); }); else todo.push_back([&, s]() { Fn d; d.name = s.name; d.import = true; sig(d); d.id = con.id(); con.declare(d); con.link(d.id, d.name, false); cf.push_back(d); }); }
  for (auto& x : ext) { if (x.con_imports) { Sym s; s.name = x.var ? x.g.name : x.f.name; s.var = x.var; s.has_lib = false; c.syms.push_back(s); if (x.var) todo.push_back([&, x]() { Gl n = con.global(x.g.cls[0], x.g.key, true); n.name = x.g.name; con.link(n.id, n.name, false); cg.push_back(n); }); else todo.push_back([&, x]() mutable { Fn d = x.f; d.id = con.id(); con.name(d.id, 2); con.declare(d); con.link(d.id, d.name, false); cf.push_back(d); }); } if (x.con_provides) { c.consumer_exports = true; if (x.var) todo.push_back([&, x]() { Gl n = con.global(x.g.cls[0], x.g.key, false); n.name = x.g.name; con.link(n.id, n.name, true); cg.push_back(n); }); else todo.push_back([&, x]() mutable { Fn d = x.f; d.import = false; d.id = con.id(); con.name(d.id, 2); con.body(d, {}, cg, r.below(6)); con.link(d.id, d.name, true); cf.push_back(d); }); } }
  for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[r.below((u32)i)]); for (u32 i = 0, e = r.below(3); i < e; ++i) { char cl; std::string k = gkey(cl); if (cl == 'i' || cl == 'o') continue; cg.push_back(con.global(cl, k, false)); } for (auto& t : todo) t();
  for (u32 i = 0, e = r.below(3); i < e; ++i) { Fn f; sig(f); f.id = con.id(); con.name(f.id, 2); con.body(f, cf, cg, r.range(1, 10)); if (r.chance(1, 8)) { con.link(f.id, fmt("own%u", i), true); c.consumer_exports = true; } cf.push_back(f); }
  std::string entries, modes; for (u32 i = 0, e = rec ? 0 : r.below(3); i < e; ++i) { Fn f; f.ret = "v"; f.entry = true; f.id = con.id(); con.body(f, cf, cg, r.range(2, 12)); bool frag = r.coin(); entries += std::string("OpEntryPoint ") + (frag ? "Fragment " : "GLCompute ") + f.id + fmt(" \"main%u\"", i); for (auto& g : cg) if (cv >= 4 || g.cls == "i" || g.cls == "o") entries += " " + g.id; entries += "\n"; modes += "OpExecutionMode " + f.id + (frag ? " OriginUpperLeft\n" : " LocalSize 1 1 1\n"); ++c.entry_points; if (frag) break; }
  if (r.chance(1, 6)) lib.group(); if (r.chance(1, 6)) con.group();
  c.lib_text = lib.text(""); c.consumer_text = con.text(entries + modes); std::string e; auto lw = finish(c.lib_text, lv, r, &e); if (lw.empty()) { if (err) *err = "lib: " + e; return false; } c.consumer = finish(c.consumer_text, cv, r, &e); if (c.consumer.empty()) { if (err) *err = "consumer: " + e; return false; } c.libs.push_back(lw); if (opt.chain) { lw = finish(lib2.text(""), lib2.version, r, &e); if (lw.empty()) { if (err) *err = "lib2: " + e; return false; } c.libs.push_back(lw); } return true; }
}
namespace lm {
View::View(const std::vector<u32>& w) { if (!sv::decode(w, m, &err)) return; ok = true; u32 f = 0; for (size_t k = 0; k < m.ins.size(); ++k) { auto& i = m.ins[k]; if (i.result) def[i.result] = k; if (i.op == 54) { f = i.result; fn[f].first = k; } if (i.op == 56) fn[f].second = k; if (i.op == 17) caps.insert(i.w[1]); if (i.op == 10) exts.insert(sv::literal(i, i.o[0]));
    if (i.op == 5) names[i.w[1]].push_back("~" + sv::literal(i, i.o[1])); if (i.op == 6) names[i.w[1]].push_back(fmt("%u:", i.w[2]) + sv::literal(i, i.o[2]));
    if (i.op == 71 && i.w[2] == 41) { u32 k2 = i.w.back(); linkage[i.w[1]] = {sv::literal(i, i.o[2]), k2 == 0}; continue; }
    if (i.op == 332) { continue; } if (i.op == 75) { for (size_t j = 2; j + 1 < i.w.size(); j += 2) member_grouped[i.w[j]].push_back({i.w[1], i.w[j + 1]}); continue; } if (i.op == 74) { for (size_t j = 2; j < i.w.size(); ++j) grouped[i.w[j]].push_back(i.w[1]); continue; } if (i.op == 71 || i.op == 72 || i.op == 5632 || i.op == 5633) { std::string s = fmt("%u", i.op); for (size_t j = 2; j < i.w.size(); ++j) s += fmt(" %u", i.w[j]); decos[i.w[1]].push_back(s); } } for (auto& i : m.ins) if (i.op == 332) { std::string s = fmt("332 %u", i.w[2]); for (size_t j = 3; j < i.w.size(); ++j) { auto d = def.find(i.w[j]); s += " c" + (d == def.end() ? std::string("?") : fmt("%u:%u", m.ins[d->second].op, m.ins[d->second].w.back())); } decos[i.w[1]].push_back(s); } }
std::vector<const sv::Ins*> View::ops(std::initializer_list<u32> l) const { std::vector<const sv::Ins*> o; for (auto& i : m.ins) for (u32 x : l) if (i.op == x) o.push_back(&i); return o; }
namespace {
struct Walk { const View &L, &C, &O; std::map<u32, u32> m; std::map<u32, std::set<u32>> back; std::string err; std::set<u32> imported, known; bool lines;
  bool fail(const std::string& s) { if (err.empty()) err = s; return false; }
  bool same(const sv::Ins& a, const sv::Ins& b, bool control) { if (a.op != b.op) return fail(std::string("instruction: ") + sv::str(a) + " became " + sv::str(b)); if (a.o.size() != b.o.size()) return fail("operands: " + sv::str(a) + " became " + sv::str(b)); for (size_t k = 0; k < a.o.size(); ++k) { auto &x = a.o[k], &y = b.o[k]; if (x.id() != y.id()) return fail("operand-kind: " + sv::str(a) + " became " + sv::str(b)); if (x.id()) { if (!map(a.w[x.off], b.w[y.off])) { err += " in " + sv::str(b); return false; } } else { if (!control && a.op == 54 && k == 2) continue; if (x.n != y.n || memcmp(&a.w[x.off], &b.w[y.off], x.n * 4)) return fail("literal: " + sv::str(a) + " became " + sv::str(b)); } } return true; }
  bool map(u32 l, u32 o) { auto it = m.find(l); if (it != m.end()) { if (it->second != o) return fail(fmt("two-copies: library id %u (%s) became %u and %u", l, sv::str(L.m.ins[L.def.at(l)]).c_str(), it->second, o)); return true; } m[l] = o; back[o].insert(l); return define(l, o); }
  bool define(u32 l, u32 o) { auto li = L.def.find(l), oi = O.def.find(o); if (li == L.def.end() || oi == O.def.end()) return fail(fmt("undefined: %u -> %u", l, o)); auto &a = L.m.ins[li->second], &b = O.m.ins[oi->second]; bool shared = sv::is_type(a.op) || sv::is_const(a.op) || a.op == 11; if (!shared && back[o].size() > 1) return fail(fmt("merged: library ids %u and %u became %u", l, *back[o].begin(), o)); bool imp = imported.count(l) > 0; if (known.count(l)) { if (a.op != b.op) return fail("kind: " + sv::str(a) + " is " + sv::str(b)); if (!map(a.type, b.type)) return false; return a.op == 54 ? map(a.w.back(), b.w.back()) : a.w[3] == b.w[3] || fail("class"); }
    if (a.op == 54) { auto x = L.fn.at(l), y = O.fn.at(o); std::vector<const sv::Ins*> p, q; for (size_t k = x.first; k <= x.second; ++k) p.push_back(&L.m.ins[k]); for (size_t k = y.first; k <= y.second; ++k) q.push_back(&O.m.ins[k]); for (size_t k = 0; k < std::min(p.size(), q.size()); ++k) { if (p[k]->result) { if (!q[k]->result) return fail("instruction: " + sv::str(*p[k]) + " became " + sv::str(*q[k])); auto mi = m.find(p[k]->result); if (mi != m.end() && mi->second != q[k]->result) return fail(fmt("two-copies: %u", p[k]->result)); m[p[k]->result] = q[k]->result; back[q[k]->result].insert(p[k]->result); } } for (size_t k = 0; k < std::min(p.size(), q.size()); ++k) if (!same(*p[k], *q[k], !imp)) return false; if (p.size() != q.size()) return fail(fmt("body: function of %zu instructions became %zu", p.size(), q.size())); return true; }
    return same(a, b, true); }
}; }
static std::multiset<std::string> ms(const std::vector<std::string>& v) { return {v.begin(), v.end()}; }
std::string check(const View& L, const View& C, const View& O, const Expect& e, Need* need, std::map<std::string, u64>* seen) {
  Walk w{L, C, O, {}, {}, "", {}, {}, true}; std::map<std::string, u32> ex;
  for (auto& [id, n] : L.linkage) if (n.second) ex[n.first] = id; std::map<u32, u32> imp; bool unresolved = false, exports = false; for (auto& [id, n] : C.linkage) { if (n.second) { exports = true; continue; } auto it = ex.find(n.first); if (it == ex.end()) unresolved = true; else { imp[id] = it->second; w.imported.insert(it->second); } }
  // imports come first: they fix what the library's symbols are in the linked module
  for (auto& [c, l] : imp) { w.m[l] = c; w.back[c].insert(l); }
  std::map<std::string, u32> cn; for (auto& [id, n] : C.linkage) cn[n.first] = id; for (auto& [l, n] : L.linkage) if (!n.second && cn.count(n.first)) { w.known.insert(l); w.m[l] = cn[n.first]; w.back[cn[n.first]].insert(l); if (seen) ++(*seen)["library_imports_known"]; } for (u32 l : w.known) if (!w.define(l, w.m[l])) return "library-import: " + w.err;
  for (auto& [c, l] : imp) if (!w.define(l, c)) return "import " + C.linkage.at(c).first + ": " + w.err;
  // copied debug information
  auto listed = [&](std::initializer_list<u32> ops, bool copied, bool only_used, const char* what) -> std::string { auto get = [&](const View& v) { auto x = v.ops(ops); std::vector<const sv::Ins*> y; for (auto* i : x) { bool in = false; for (auto& [id, f] : v.fn) in |= i >= &v.m.ins[f.first] && i <= &v.m.ins[f.second]; if (!in) y.push_back(i); } return y; }; auto l = get(L), c = get(C), o = get(O); std::vector<const sv::Ins*> want; if (copied) want = l; else if (only_used) for (auto* i : l) if (i->result && w.m.count(i->result)) want.push_back(i); size_t exact = c.size() + want.size(); if (o.size() != exact) return fmt("%s: %zu instead of %zu", what, o.size(), exact); for (size_t k = 0; k < c.size(); ++k) if (o[k]->w != c[k]->w) return std::string(what) + ": " + sv::str(*c[k]) + " of the consumer became " + sv::str(*o[k]); if (copied) for (size_t k = 0; k < l.size(); ++k) { auto* a = l[k]; auto* b = o[c.size() + k]; if (a->op != b->op) return std::string(what) + ": order"; if (a->result) { if (!w.map(a->result, b->result)) return std::string(what) + ": " + w.err; } else if (!w.same(*a, *b, true)) return std::string(what) + ": " + w.err; } return ""; };
  std::map<u32, std::string> limp; for (auto& [l, n] : L.linkage) if (!n.second && w.m.count(l)) { u32 o = w.m[l]; u32 want = 0; for (auto& [c2, n2] : C.linkage) if (n2.first == n.first) want = c2; if (want ? o != want : C.def.count(o)) return fmt("library-import: %s became %u", n.first.c_str(), o); if (!want) { limp[o] = n.first; unresolved = true; } }
  std::string s; if (!(s = listed({8, 317}, e.lines, false, "lines")).empty()) return s; if (!(s = listed({7, 3, 2, 4}, e.strings, true, "strings")).empty()) return s; if (!(s = listed({330}, e.processed, false, "processed")).empty()) return s;
  // consumer: every instruction is still there
  auto fun = [](const View& v) { std::vector<int> f(v.m.ins.size(), 0); for (auto& [id, r] : v.fn) for (size_t k = r.first; k <= r.second; ++k) f[k] = 1; return f; }; auto cf = fun(C), of = fun(O); u32 kept = 0;
  for (auto& [id, k] : C.def) { auto it = O.def.find(id); if (it == O.def.end()) return fmt("consumer-lost: %u %s", id, sv::str(C.m.ins[k]).c_str()); auto &a = C.m.ins[k], &b = O.m.ins[it->second]; if (imp.count(id)) { if (a.op == 59 && !(b.op == 59 && b.w[1] == a.w[1] && b.w[3] == a.w[3])) return "consumer-changed: " + sv::str(a) + " became " + sv::str(b); if (a.op == 54 && !(b.op == 54 && b.type == a.type && b.w.back() == a.w.back())) return "consumer-changed: " + sv::str(a) + " became " + sv::str(b); continue; } if (a.w != b.w) return "consumer-changed: " + sv::str(a) + " became " + sv::str(b); ++kept; }
  for (auto& [id, r] : C.fn) { if (imp.count(id)) continue; auto q = O.fn.at(id); if (q.second - q.first != r.second - r.first) return fmt("consumer-function: %zu instructions became %zu", r.second - r.first, q.second - q.first); for (size_t k = 0; k <= r.second - r.first; ++k) if (C.m.ins[r.first + k].w != O.m.ins[q.first + k].w) return "consumer-function: " + sv::str(C.m.ins[r.first + k]) + " became " + sv::str(O.m.ins[q.first + k]); }
  // entry points and modes
  { auto a = C.ops({15}), b = O.ops({15}); if (a.size() != b.size()) return "entry-points"; for (size_t k = 0; k < a.size(); ++k) { size_t nm = a[k]->o[2].off + a[k]->o[2].n; if (std::vector<u32>(a[k]->w.begin() + 1, a[k]->w.begin() + nm) != std::vector<u32>(b[k]->w.begin() + 1, b[k]->w.begin() + std::min(nm, b[k]->w.size()))) return "entry-point: " + sv::str(*b[k]); if (!e.interface) { if (a[k]->w != b[k]->w) return "interface-changed: " + sv::str(*a[k]) + " became " + sv::str(*b[k]); continue; }
      std::set<u32> vis, want, got(b[k]->w.begin() + nm, b[k]->w.end()); std::vector<u32> st{b[k]->w[2]}; while (!st.empty()) { u32 f = st.back(); st.pop_back(); if (!vis.insert(f).second) continue; auto r = O.fn.at(f); for (size_t i = r.first; i <= r.second; ++i) { auto& x = O.m.ins[i]; for (auto& o : x.o) if (o.id() && !o.result()) { u32 v = x.w[o.off]; auto d = O.def.find(v); if (d == O.def.end()) continue; auto& dx = O.m.ins[d->second]; if (dx.op == 54) st.push_back(v); if (dx.op == 59 && dx.w[3] != 7 && (O.m.version >= 0x10400 || dx.w[3] == 1 || dx.w[3] == 3)) want.insert(v); } } }
      if (got.size() != b[k]->w.size() - nm) return "interface-duplicate: " + sv::str(*b[k]); for (u32 v : want) if (!got.count(v)) return fmt("interface-missing: %u in ", v) + sv::str(*b[k]); for (u32 v : got) if (!want.count(v)) return fmt("interface-extra: %u in ", v) + sv::str(*b[k]); } a = C.ops({16, 331, 14}); b = O.ops({16, 331, 14}); if (a.size() != b.size()) return "execution-modes"; for (size_t k = 0; k < a.size(); ++k) if (a[k]->w != b[k]->w) return "execution-mode: " + sv::str(*b[k]); }
  // constants used by decorations
  for (auto& i : L.m.ins) if (i.op == 332 && w.m.count(i.w[1]) && e.decos) for (auto& q : O.m.ins) if (q.op == 332 && q.w[1] == w.m[i.w[1]] && q.w[2] == i.w[2] && q.w.size() == i.w.size()) { for (size_t k = 3; k < i.w.size(); ++k) if (!w.map(i.w[k], q.w[k])) return "decoration-id: " + w.err; break; }
  // nothing else was added
  Need nd; for (auto& [id, k] : O.def) { if (C.def.count(id)) continue; auto& i = O.m.ins[k]; if (!w.back.count(id)) return "extra: " + sv::str(i) + " is neither the consumer's nor needed"; if (of[k] && i.op != 54) continue; if (sv::is_type(i.op)) ++nd.types; else if (i.op == 1) continue; else if (sv::is_const(i.op)) ++nd.consts; else if (i.op == 11) ++nd.extsets; else if (i.op == 54) ++nd.functions; else if (i.op == 59) ++nd.variables; else if (i.op == 7) ++nd.strings; } if (need) *need = nd; for (auto& [id, r] : O.fn) if (!C.fn.count(id) && !w.back.count(id)) return "extra function";
  // names and decorations
  std::set<u32> ids; for (auto& [id, k] : O.def) ids.insert(id); for (auto& [id, v] : O.names) if (!ids.count(id)) return fmt("name of %u, which does not exist", id); for (auto& [id, v] : O.decos) if (!ids.count(id)) return fmt("decoration of %u, which does not exist", id);
  std::set<u32> declared; { std::vector<u32> q; auto sym = [&](u32 l) { auto& i = L.m.ins[L.def.at(l)]; q.push_back(i.type); if (i.op == 54) q.push_back(i.w.back()); }; for (auto& [c, l] : imp) sym(l); for (u32 l : w.known) sym(l); while (!q.empty()) { u32 x = q.back(); q.pop_back(); if (!declared.insert(x).second) continue; auto& i = L.m.ins[L.def.at(x)]; if (i.type) q.push_back(i.type); for (auto& o : i.o) if (o.id() && !o.result()) q.push_back(i.w[o.off]); } }
  if (seen) for (auto& [l, o] : w.m) if (!declared.count(l) && L.def.count(l)) { auto& i = L.m.ins[L.def.at(l)]; if (i.op == 30) for (auto& [c, k] : C.def) { auto& j = C.m.ins[k]; if (j.op != 30 || c == o || j.w.size() != i.w.size()) continue; bool eq = true; for (size_t x = 2; x < i.w.size(); ++x) { auto f = w.m.find(i.w[x]); eq &= f != w.m.end() && f->second == j.w[x]; } if (eq) ++(*seen)["twins_kept_apart"]; } }
  for (u32 id : ids) { auto get = [](const std::map<u32, std::vector<std::string>>& m, u32 i) { auto it = m.find(i); return it == m.end() ? std::vector<std::string>{} : it->second; }; auto decos = [&](const View& v, u32 i) { auto d = get(v.decos, i); auto it = v.grouped.find(i); if (it != v.grouped.end()) for (u32 gr : it->second) for (auto& x : get(v.decos, gr)) d.push_back(x); auto mt = v.member_grouped.find(i); if (mt != v.member_grouped.end()) for (auto& [gr, mem] : mt->second) for (auto& x : get(v.decos, gr)) d.push_back(fmt("72 %u", mem) + x.substr(2)); return d; }; auto is_member_grouped = [&](u32 id, const std::set<u32>* ls) { if (C.member_grouped.count(id)) return true; if (ls) for (u32 l : *ls) if (L.member_grouped.count(l)) return true; return false; }; auto con = C.def.count(id) ? get(C.names, id) : std::vector<std::string>{}, out = get(O.names, id); auto bk = w.back.find(id); std::vector<std::vector<std::string>> opts; if (con.empty() && e.names && bk != w.back.end()) { for (u32 l : bk->second) { auto v = get(L.names, l); if (!v.empty()) opts.push_back(v); } } if (opts.empty()) opts.push_back(con); bool hit = false; for (auto& v : opts) hit |= ms(v) == ms(out); auto list = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += " '" + x + "'"; return s; }; if (!hit) return fmt("names: of %%%u (%s) are%s instead of%s", id, sv::str(O.m.ins[O.def.at(id)]).c_str(), list(out).c_str(), list(opts[0]).c_str());
    auto cd = C.def.count(id) ? decos(C, id) : std::vector<std::string>{}, od = decos(O, id); std::vector<std::string> want = cd; if (e.decos && bk != w.back.end()) { std::set<std::string> h(cd.begin(), cd.end()); for (u32 l : bk->second) for (auto& d : decos(L, l)) if (h.insert(d).second) want.push_back(d); } if (is_member_grouped(id, bk != w.back.end() ? &bk->second : nullptr) ? std::set<std::string>(want.begin(), want.end()) != std::set<std::string>(od.begin(), od.end()) : ms(want) != ms(od)) return fmt("decorations: of %%%u (%s) are%s instead of%s", id, sv::str(O.m.ins[O.def.at(id)]).c_str(), list(od).c_str(), list(want).c_str()); if (seen) { (*seen)["names"] += out.size(); (*seen)["decorations"] += od.size(); }
    // a type is its decorations, too: only the types an imported symbol was declared with on both sides may differ in them
    if (e.decos && bk != w.back.end() && sv::is_type(O.m.ins[O.def.at(id)].op)) { auto set = [&](const View& v, u32 i) { auto d = decos(v, i); return std::set<std::string>(d.begin(), d.end()); }; std::optional<std::set<std::string>> have; if (C.def.count(id)) have = set(C, id); for (u32 l : bk->second) if (!declared.count(l)) { auto d = set(L, l); if (!have) have = d; else if (*have != d) return fmt("merged-types: %%%u of the library (%s) became %s, which is decorated differently", l, sv::str(L.m.ins[L.def.at(l)]).c_str(), sv::str(O.m.ins[O.def.at(id)]).c_str()); if (seen) ++(*seen)["decorated_types_compared"]; } }
    auto cl = C.linkage.find(id), ol = O.linkage.find(id); if (limp.count(id)) { if (ol == O.linkage.end() || ol->second != std::pair<std::string, bool>(limp[id], false)) return fmt("linkage: import %s of the library lost its decoration", limp[id].c_str()); continue; } bool have = cl != C.linkage.end() && !imp.count(id); if (have != (ol != O.linkage.end()) || (have && cl->second != ol->second)) return fmt("linkage: of %%%u", id); }
  // capabilities, extensions, version
  std::set<u32> want = C.caps; if (e.all_caps) want.insert(L.caps.begin(), L.caps.end()); bool keep = unresolved || exports || !e.remove_linkage; if (keep) want.insert(5); else want.erase(5); if (e.all_caps ? O.caps != want : !std::includes(O.caps.begin(), O.caps.end(), want.begin(), want.end()) || (!keep && O.caps.count(5))) { std::string t; for (u32 c : O.caps) t += fmt(" %u", c); t += " instead of"; for (u32 c : want) t += fmt(" %u", c); return "capabilities:" + t; } for (auto& x : C.exts) if (!O.exts.count(x)) return "extensions"; if (e.all_caps) for (auto& x : L.exts) if (!O.exts.count(x)) return "extensions"; if (O.m.version < std::max(L.m.version, C.m.version)) return fmt("version: %x", O.m.version); if (e.all_caps && O.m.version != std::max(L.m.version, C.m.version)) return fmt("version: %x", O.m.version);
  if (seen) { (*seen)["imports_resolved"] += imp.size(); (*seen)["consumer_kept"] += kept; (*seen)["library_ids_matched"] += w.m.size(); (*seen)["functions_brought"] += nd.functions; (*seen)["variables_brought"] += nd.variables; (*seen)["types_brought"] += nd.types; (*seen)["constants_brought"] += nd.consts; } return ""; }
}
