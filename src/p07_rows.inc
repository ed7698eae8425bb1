// ---- rows that need more than a pattern
void row(const std::string& name, std::function<void(Rng&, Case&)> gen, std::function<Instruction*(BasicBlock&, const Ops&, Instruction*, const Case&)> call, std::function<Exp(const Case&)> exp) { rows.push_back({name, std::move(gen), std::move(call), std::move(exp)}); }
Exp ex(u32 op, T rt, std::vector<O> ops) { Exp e; e.have = true; e.op = op; e.rt = std::move(rt); e.ops = std::move(ops); return e; }
Exp none(u32 op) { Exp e; e.op = op; return e; }
Exp noresult(u32 op, std::vector<O> ops) { Exp e; e.have = true; e.op = op; e.result = false; e.ops = std::move(ops); return e; }
std::vector<O> lits(std::vector<O> o, const Lits& l, u32 kind = OpndL) { for (u32 x : l) o.push_back({(int)kind, x}); return o; }
bool member(const T& t, const Lits& path, size_t from, T& out) { const T* p = &t; for (size_t i = from; i < path.size(); ++i) { if (p->kids.empty() || p->op == SpvOpTypePointer) return false; if (p->op == SpvOpTypeStruct) { if (path[i] >= p->kids.size()) return false; p = &p->kids[path[i]]; } else { if (p->op != SpvOpTypeRuntimeArray && path[i] >= p->lit[0]) return false; p = &p->kids[0]; } } out = *p; return true; }
Lits path(const T& t, Rng& r, size_t most) { Lits l; const T* p = &t; while (l.size() < most && !p->kids.empty() && p->op != SpvOpTypePointer && (l.empty() || !r.chance(1, 4))) { u32 n = p->op == SpvOpTypeStruct ? (u32)p->kids.size() : p->op == SpvOpTypeRuntimeArray ? 9 : p->lit[0]; u32 k = r.below(n); l.push_back(k); p = &p->kids[p->op == SpvOpTypeStruct ? k : 0]; } return l; }
void spoil(Lits& l, Rng& r) { if (l.empty() || r.coin()) { l.push_back(r.below(6)); return; } switch (r.below(4)) { case 0: l[r.below((u32)l.size())] = r.range(1, 9); break; case 1: l[r.below((u32)l.size())] = r.u(); break; case 2: l.push_back(r.below(3)); break; default: l.pop_back(); if (l.empty()) l.push_back(7); } }
T composite(Rng& r, int depth = 3) { for (;;) { T t = plainval(r, depth); if (!t.kids.empty()) return t; } }
Instruction* withlits(const Lits& l, std::function<Instruction*()> f1, std::function<Instruction*()> f2, std::function<Instruction*()> f3) { return l.size() == 1 ? f1() : l.size() == 2 ? f2() : f3(); }
// ---- images
u32 dims(const T& im) { static const u32 d[] = {1, 2, 3, 3, 2, 1, 2}; return d[im.lit[0] % 7]; }
T image(Rng& r, u32 sampled, bool ms_ok, const std::vector<u32>& dim) { T s = r.chance(1, 3) ? In(32, r.below(2)) : Fl(32); u32 d = r.pick(dim), arr = d == SpvDim3D || d == SpvDimRect || d == SpvDimBuffer ? 0 : r.below(2), ms = ms_ok && d == SpvDim2D && r.chance(1, 3); u32 f = 0; if (sampled == 2) { static const std::vector<u32> ff{0, 1, 2, 3, 5, 6, 7, 9}, fi{0, 21, 22, 24, 25}, fu{0, 30, 31, 33, 35}; f = s.op == SpvOpTypeFloat ? r.pick(ff) : s.lit[1] ? r.pick(fi) : r.pick(fu); } return mk(SpvOpTypeImage, {d, r.below(2), arr, ms, sampled, f}, {s}); }
const T* imageof(const T& t) { return t.op == SpvOpTypeImage ? &t : t.op == SpvOpTypeSampledImage ? &t.kids[0] : nullptr; }
u32 channels(u32 f) { static const std::map<u32, u32> m{{1, 4}, {2, 4}, {3, 1}, {4, 4}, {5, 4}, {6, 2}, {7, 2}, {8, 3}, {9, 1}, {10, 4}, {11, 4}, {12, 2}, {13, 2}, {14, 1}, {15, 1}, {16, 4}, {17, 4}, {18, 2}, {19, 2}, {20, 1}, {21, 4}, {22, 4}, {23, 4}, {24, 1}, {25, 2}, {26, 2}, {27, 2}, {28, 1}, {29, 1}, {30, 4}, {31, 4}, {32, 4}, {33, 1}, {34, 4}, {35, 2}, {36, 2}, {37, 2}, {38, 1}, {39, 1}}; auto i = m.find(f); return i == m.end() ? 4 : i->second; }
// operands of the mask bits, in bit order; extra: given by the helper before the others (Lod or first Grad)
std::vector<Val> maskops(u32 mask, const T& im, bool fetch, Rng& r) { std::vector<Val> v; u32 n = dims(im); T si = Ve(In(32, 1), n); if (mask & 1) v.push_back(Fl(32)); if (mask & 2) v.push_back(fetch ? In(32, r.below(2)) : Fl(32)); if (mask & 4) { v.push_back(Ve(Fl(32), n)); v.push_back(Ve(Fl(32), n)); } if (mask & 8) v.push_back(Val(si, r.below(5))); if (mask & 0x10) v.push_back(si); if (mask & 0x20) v.push_back(Val(mk(SpvOpTypeArray, {4}, {Ve(In(32, 1), 2)}), 1)); if (mask & 0x40) v.push_back(In(32, r.below(2))); if (mask & 0x80) v.push_back(Fl(32)); return v; }
template <class F> Instruction* spread(const Ops& v, size_t from, F f) { switch (v.size() - from) { case 0: return f(); case 1: return f(v[from]); case 2: return f(v[from], v[from + 1]); case 3: return f(v[from], v[from + 1], v[from + 2]); default: return f(v[from], v[from + 1], v[from + 2], v[from + 3]); } }
enum { Proj = 1, Dref = 2, Explicit = 4, Fetch = 8, GatherC = 16, Read = 32, Write = 64, Grad = 128 };
using ImgCall = std::function<Instruction*(BasicBlock&, const Ops&, u32 mask)>;
void imagerow(const std::string& name, u32 op, u32 kind, u32 given, ImgCall call) {
  row(name, [kind, given](Rng& r, Case& c) { static const std::vector<u32> all{0, 1, 2, 3}, proj{0, 1, 2, 4}, gat{1, 3, 4}, fet{0, 1, 2, 4, 5}, rd{0, 1, 2, 3, 4, 5}; T im = image(r, kind & (Read | Write) ? 2 : 1, kind & (Fetch | Read | Write), kind & Proj ? proj : kind & (GatherC) || (kind & Dref && !(kind & (Explicit | Proj)) && r.coin()) ? gat : kind & Fetch ? fet : kind & (Read | Write) ? rd : all); if (kind & Proj) im.lit[2] = 0; if (kind & Dref) { im.kids[0] = Fl(32); if (im.lit[0] == SpvDim3D) im.lit[0] = SpvDim2D; }
    bool sampledimage = !(kind & (Fetch | Read | Write)); bool ints = kind & (Fetch | Read | Write); u32 n = dims(im) + im.lit[2] + (kind & Proj ? 1 : 0); if (ints && im.lit[0] == SpvDimCube) n = 3; c.v.push_back(sampledimage ? mk(SpvOpTypeSampledImage, {}, {im}) : im); T co = Ve(ints ? In(32, r.below(2)) : Fl(32), n); if (n < 4 && r.chance(1, 6)) co = Ve(el(co), n + 1); c.v.push_back(co); if (kind & Dref) c.v.push_back(Fl(32)); if (kind & GatherC) c.v.push_back(Val(In(32, r.below(2)), r.below(4))); if (kind & Write) { T x = r.chance(1, 5) ? Ve(im.kids[0], r.range(1, 4)) : Ve(im.kids[0], channels(im.lit[5])); c.v.push_back(x); }
    u32 ok = kind & (Read | Write) ? 0u : kind & Fetch ? 0x1Au : kind & GatherC || !(given | (kind & Explicit)) ? 0x99u : 0x98u; if (kind & GatherC) ok = 0x38; if (given == 2) ok = 0x18; if (given == 4) ok = 0x98; u32 mask = given; if (im.lit[3]) { ok = 0; if (kind & (Fetch | Read | Write)) mask |= 0x40; } for (u32 b = 0; b < 8; ++b) if ((ok >> b & 1) && r.chance(1, 3)) mask |= 1u << b; if (im.lit[0] == SpvDimCube) mask &= ~0x38u; if (r.chance(1, 8)) mask ^= 1u << r.below(8); if ((mask & 0x18) == 0x18) mask &= ~0x10u; if (given) mask |= given; std::vector<Val> o = maskops(mask, im, kind & Fetch, r); if (o.size() > 4) { mask = given; o = maskops(mask, im, kind & Fetch, r); } for (auto& v : o) c.v.push_back(v); if (o.size() && r.chance(1, 20)) c.v.pop_back(); c.mask = mask; change(r, c); if ((kind & Explicit) && isint(c.v[1].t)) c.v[1] = Val(withel(c.v[1].t, Fl(32))); },
    [call, given](BasicBlock& b, const Ops& v, Instruction*, const Case& c) -> Instruction* { return call(b, v, c.mask & ~given); },
    [op, kind](const Case& c) { u32 fixedn = 2 + (kind & (Dref | GatherC | Write) ? 1 : 0); std::vector<O> o = inorder(fixedn); if (c.mask) { o.push_back({OpndL, c.mask}); for (size_t i = fixedn; i < c.v.size(); ++i) o.push_back({OpndI, (u32)i}); } if (kind & Write) return noresult(op, o); const T* im = imageof(c.v[0].t); if (!im || (im->lit[3] && c.mask & 2)) return none(op); const T& s = im->kids[0]; if (s.op == SpvOpTypeVoid) return none(op); bool one = kind & Dref && op != SpvOpImageDrefGather; u32 n = one ? 1 : 4; if (kind & Read) n = channels(im->lit[5]); return ex(op, Ve(s, n), o); });
}
Flag<spv::ImageOperandsMask> im(u32 m) { return static_cast<spv::ImageOperandsMask>(m); }
void make_rows() {
  // conversions
  U1(opConvertFToU, ConvertFToU, "F", intof(0, 0)); U1(opConvertFToS, ConvertFToS, "F", intof(0, 1)); U1(opConvertSToF, ConvertSToF, "S", flt(0)); U1(opConvertUToF, ConvertUToF, "U", flt(0)); U1(opQuantizeToF16, QuantizeToF16, "G", same(0)); // instructions of the Kernel capability, with which there are no signed integer types
  for (int k = 0; k < 2; ++k) row(k ? "opSatConvertUToS" : "opSatConvertSToU", [](Rng& r, Case& c) { c.v = pattern("U", r); change(r, c); c.v[0].t = normalise(c.v[0].t, 0); }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return k ? b->opSatConvertUToS(v[0]) : b->opSatConvertSToU(v[0]); }, [k](const Case& c) { return ex(k ? SpvOpSatConvertUToS : SpvOpSatConvertSToU, c.v[0].t, inorder(1)); });
  for (int k = 0; k < 3; ++k) row(k == 0 ? "opUConvert" : k == 1 ? "opSConvert" : "opFConvert", [k](Rng& r, Case& c) { c.v = pattern(k == 2 ? "F" : k ? "S" : "U", r); change(r, c); static const std::vector<u32> i{8, 16, 32, 64}, f{16, 32, 64}; c.lit = {k == 2 ? r.pick(f) : r.pick(i)}; if (r.chance(1, 30)) c.lit = {k == 2 ? 8u : 128u}; }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { return k == 0 ? b->opUConvert(v[0], c.lit[0]) : k == 1 ? b->opSConvert(v[0], c.lit[0]) : b->opFConvert(v[0], c.lit[0]); }, [k](const Case& c) { u32 op = k == 0 ? SpvOpUConvert : k == 1 ? SpvOpSConvert : SpvOpFConvert; const T& t = c.v[0].t; if (ism(t) || el(t).op == SpvOpTypeBool || !(isint(t) || isflt(t)) || c.lit[0] > 64 || c.lit[0] < (k == 2 ? 16u : 8u)) return none(op); return ex(op, withel(t, k == 2 ? Fl(c.lit[0]) : In(c.lit[0], k)), inorder(1)); });
  row("opBitcast", [](Rng& r, Case& c) { T a = r.coin() ? Ve(In(iw(r), r.below(2)), r.range(1, 4)) : Ve(Fl(fw(r)), r.range(1, 4)); u32 bits = el(a).lit[0] * len(a); std::vector<T> to; for (u32 w : {8u, 16u, 32u, 64u}) if (bits % w == 0 && bits / w <= 4 && bits / w >= 1) { to.push_back(Ve(In(w, r.below(2)), bits / w)); if (w > 8) to.push_back(Ve(Fl(w), bits / w)); } c.v = {a}; c.ty = r.pick(to); if (r.chance(1, 3)) c.ty = r.coin() ? tweak(c.ty, r) : plainval(r, 1); change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction* ty, const Case&) { return b->opBitcast(ty, v[0]); }, [](const Case& c) { return c.ty == c.v[0].t ? none(SpvOpBitcast) : ex(SpvOpBitcast, c.ty, inorder(1)); });
  // arithmetic
  U1(opSNegate, SNegate, "S", sign(0, 1)); U1(opFNegate, FNegate, "F", same(0)); U2(opIAdd, IAdd, "II", same(0)); U2(opFAdd, FAdd, "FF", same(0)); U2(opISub, ISub, "II", same(0)); U2(opFSub, FSub, "FF", same(0)); U2(opIMul, IMul, "II", same(0)); U2(opFMul, FMul, "FF", same(0)); U2(opUDiv, UDiv, "UU", same(0)); U2(opSDiv, SDiv, "SS", sign(0, 1)); U2(opFDiv, FDiv, "FF", same(0)); U2(opUMod, UMod, "UU", same(0)); U2(opSRem, SRem, "SS", sign(0, 1)); U2(opSMod, SMod, "SS", sign(0, 1)); U2(opFRem, FRem, "FF", same(0)); U2(opFMod, FMod, "FF", same(0));
  U2(opVectorTimesScalar, VectorTimesScalar, "Vf", same(0)); U2(opMatrixTimesScalar, MatrixTimesScalar, "Xf", same(0)); U2(opVectorTimesMatrix, VectorTimesMatrix, "VX", [](const std::vector<Val>& v, T& t) { if (!ism(v[1].t)) return false; t = Ve(el(v[1].t), v[1].t.lit[0]); return true; }); U2(opMatrixTimesVector, MatrixTimesVector, "XV", [](const std::vector<Val>& v, T& t) { if (!ism(v[0].t)) return false; t = v[0].t.kids[0]; return true; }); U2(opMatrixTimesMatrix, MatrixTimesMatrix, "XX", [](const std::vector<Val>& v, T& t) { if (!ism(v[0].t) || !ism(v[1].t)) return false; t = mk(SpvOpTypeMatrix, {v[1].t.lit[0]}, {v[0].t.kids[0]}); return true; }); U2(opOuterProduct, OuterProduct, "VV", [](const std::vector<Val>& v, T& t) { if (!isv(v[0].t) || !isv(v[1].t) || !isflt(v[0].t)) return false; t = mk(SpvOpTypeMatrix, {v[1].t.lit[0]}, {v[0].t}); return true; }); U2(opDot, Dot, "VV", elem(0)); U1(opTranspose, Transpose, "X", [](const std::vector<Val>& v, T& t) { if (!ism(v[0].t)) return false; t = Ma(el(v[0].t), v[0].t.lit[0], v[0].t.kids[0].lit[0]); return true; });
  auto nonsquare = [](const std::string& name, u32 op, int k, std::function<Instruction*(BasicBlock&, const Ops&)> f) { row(name, [k](Rng& r, Case& c) { T e = Fl(fw(r)); u32 rw = r.range(2, 4), co = r.range(2, 4), p = r.range(2, 4); T m = Ma(e, rw, co); if (k == 0) c.v = {Ve(e, rw), m}; else if (k == 1) c.v = {m, Ve(e, co)}; else if (k == 2) c.v = {m, Ma(e, co, p)}; else if (k == 3) c.v = {Ve(e, rw), Ve(e, co)}; else if (k == 4) c.v = {m}; else c.v = {m, e}; change(r, c); }, [f](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return f(b, v); }, [op, k](const Case& c) { auto& v = c.v; T t; switch (k) { case 0: if (!ism(v[1].t)) return none(op); t = Ve(el(v[1].t), v[1].t.lit[0]); break; case 1: if (!ism(v[0].t)) return none(op); t = v[0].t.kids[0]; break; case 2: if (!ism(v[0].t) || !ism(v[1].t)) return none(op); t = mk(SpvOpTypeMatrix, {v[1].t.lit[0]}, {v[0].t.kids[0]}); break; case 3: if (!isv(v[0].t) || !isv(v[1].t) || !isflt(v[0].t)) return none(op); t = mk(SpvOpTypeMatrix, {v[1].t.lit[0]}, {v[0].t}); break; case 4: if (!ism(v[0].t)) return none(op); t = Ma(el(v[0].t), v[0].t.lit[0], v[0].t.kids[0].lit[0]); break; default: t = v[0].t; } return ex(op, t, inorder(v.size())); }); };
  nonsquare("opVectorTimesMatrix/any", SpvOpVectorTimesMatrix, 0, [](BasicBlock& b, const Ops& v) { return b->opVectorTimesMatrix(v[0], v[1]); }); nonsquare("opMatrixTimesVector/any", SpvOpMatrixTimesVector, 1, [](BasicBlock& b, const Ops& v) { return b->opMatrixTimesVector(v[0], v[1]); }); nonsquare("opMatrixTimesMatrix/any", SpvOpMatrixTimesMatrix, 2, [](BasicBlock& b, const Ops& v) { return b->opMatrixTimesMatrix(v[0], v[1]); }); nonsquare("opOuterProduct/any", SpvOpOuterProduct, 3, [](BasicBlock& b, const Ops& v) { return b->opOuterProduct(v[0], v[1]); }); nonsquare("opTranspose/any", SpvOpTranspose, 4, [](BasicBlock& b, const Ops& v) { return b->opTranspose(v[0]); }); nonsquare("opMatrixTimesScalar/any", SpvOpMatrixTimesScalar, 5, [](BasicBlock& b, const Ops& v) { return b->opMatrixTimesScalar(v[0], v[1]); });
  U2(opIAddCarry, IAddCarry, "UU", pairof()); U2(opISubBorrow, ISubBorrow, "UU", pairof()); U2(opUMulExtended, UMulExtended, "UU", pairof()); U2(OpSMulExtended, SMulExtended, "SS", pairof());
  // logic and comparison
  U1(opAny, Any, "v", fixed(Bo())); U1(opAll, All, "v", fixed(Bo())); U1(opIsNan, IsNan, "F", boolean()); U1(opIsInf, IsInf, "F", boolean()); U1(opIsFinite, IsFinite, "F", boolean()); U1(opIsNormal, IsNormal, "F", boolean()); U1(opSignBitSet, SignBitSet, "F", boolean()); U2(opOrdered, Ordered, "FF", boolean()); U2(opUnordered, Unordered, "FF", boolean());
  U2(opLogicalEqual, LogicalEqual, "BB", same(0)); U2(opLogicalNotEqual, LogicalNotEqual, "BB", same(0)); U2(opLogicalOr, LogicalOr, "BB", same(0)); U2(opLogicalAnd, LogicalAnd, "BB", same(0)); U1(opLogicalNot, LogicalNot, "B", same(0));
  U2(opIEqual, IEqual, "II", boolean()); U2(opINotEqual, INotEqual, "II", boolean()); U2(opUGreaterThan, UGreaterThan, "II", boolean()); U2(opSGreaterThan, SGreaterThan, "II", boolean()); U2(opUGreaterThanEqual, UGreaterThanEqual, "II", boolean()); U2(opSGreaterThanEqual, SGreaterThanEqual, "II", boolean()); U2(opULessThan, ULessThan, "II", boolean()); U2(opSLessThan, SLessThan, "II", boolean()); U2(opULessThanEqual, ULessThanEqual, "II", boolean()); U2(opSLessThanEqual, SLessThanEqual, "II", boolean());
  U2(opFOrdEqual, FOrdEqual, "FF", boolean()); U2(opFUnordEqual, FUnordEqual, "FF", boolean()); U2(opFOrdNotEqual, FOrdNotEqual, "FF", boolean()); U2(opFUnordNotEqual, FUnordNotEqual, "FF", boolean()); U2(opFOrdLessThan, FOrdLessThan, "FF", boolean()); U2(opFUnordLessThan, FUnordLessThan, "FF", boolean()); U2(opFOrdGreaterThan, FOrdGreaterThan, "FF", boolean()); U2(opFUnordGreaterThan, FUnordGreaterThan, "FF", boolean()); U2(opFOrdLessThanEqual, FOrdLessThanEqual, "FF", boolean()); U2(opFUnordLessThanEqual, FUnordLessThanEqual, "FF", boolean()); U2(opFOrdGreaterThanEqual, FOrdGreaterThanEqual, "FF", boolean()); U2(opFUnordGreaterThanEqual, FUnordGreaterThanEqual, "FF", boolean());
  U3(opSelect, Select, "BFF", same(1)); U3(opSelect, Select, "BII", same(1));
  row("opSelect/scalar condition", [](Rng& r, Case& c) { T t = value(r, 2); c.v = {Bo(), t, t}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opSelect(v[0], v[1], v[2]); }, [](const Case& c) { return ex(SpvOpSelect, c.v[1].t, inorder(3)); });
  // bits
  U2(opShiftRightLogical, ShiftRightLogical, "Ii", same(0)); U2(opShiftRightArithmetic, ShiftRightArithmetic, "Ii", same(0)); U2(opShiftLeftLogical, ShiftLeftLogical, "Ii", same(0)); U2(opBitwiseOr, BitwiseOr, "II", same(0)); U2(opBitwiseXor, BitwiseXor, "II", same(0)); U2(opBitwiseAnd, BitwiseAnd, "II", same(0)); U1(opNot, Not, "I", same(0)); U4(opBitFieldInsert, BitFieldInsert, "IInn", same(0)); U3(opBitFieldSExtract, BitFieldSExtract, "Inn", same(0)); U3(opBitFieldUExtract, BitFieldUExtract, "Inn", same(0)); U1(opBitReverse, BitReverse, "I", same(0)); U1(opBitCount, BitCount, "I", same(0)); U4(opBitFieldInsert, BitFieldInsert, "KKnn", same(0)); U3(opBitFieldSExtract, BitFieldSExtract, "Knn", same(0)); U3(opBitFieldUExtract, BitFieldUExtract, "Knn", same(0)); U1(opBitReverse, BitReverse, "K", same(0)); U1(opBitCount, BitCount, "K", same(0));
  // derivatives
  U1(opDPdx, DPdx, "G", same(0)); U1(opDPdy, DPdy, "G", same(0)); U1(opFwidth, Fwidth, "G", same(0)); U1(opDPdxFine, DPdxFine, "G", same(0)); U1(opDPdyFine, DPdyFine, "G", same(0)); U1(opFwidthFine, FwidthFine, "G", same(0)); U1(opDPdxCoarse, DPdxCoarse, "G", same(0)); U1(opDPdyCoarse, DPdyCoarse, "G", same(0)); U1(opFwidthCoarse, FwidthCoarse, "G", same(0));
  // generic helpers: the operation depends on the operand types
  auto generic = [](const std::string& name, const std::string& pats, u32 iu, u32 is, u32 f, u32 bo, int res, Call call) { row(name, [pats](Rng& r, Case& c) { std::string p(2, pats[r.below((u32)pats.size())]); c.v = pattern(p, r); change(r, c); }, [call](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return call(b, v); }, [=](const Case& c) { const T& t = c.v[0].t; bool s0 = isint(t) && el(t).lit[1], s1 = isint(c.v[1].t) && el(c.v[1].t).lit[1]; u32 op = isint(t) ? (s0 || s1 ? is : iu) : isflt(t) ? f : isboolean(t) ? bo : 0; if (!op || ism(t) || !(t == c.v[1].t) ) return none(0); return ex(op, res ? Ve(Bo(), len(t)) : op == SpvOpSDiv ? sgn(t, 1) : t, inorder(2)); }); };
#define G2(fn, iu, is, f, bo, res) generic(#fn, bo ? "IFB" : "IF", iu, is, f, bo, res, [](BasicBlock& b, const Ops& v) { return b->fn(v[0], v[1]); })
  G2(Add, SpvOpIAdd, SpvOpIAdd, SpvOpFAdd, 0, 0); G2(Sub, SpvOpISub, SpvOpISub, SpvOpFSub, 0, 0); G2(Mul, SpvOpIMul, SpvOpIMul, SpvOpFMul, 0, 0); generic("Div", "IF", SpvOpUDiv, SpvOpSDiv, SpvOpFDiv, 0, 0, [](BasicBlock& b, const Ops& v) { return b->Div(v[0], v[1], false); });
  G2(Equal, SpvOpIEqual, SpvOpIEqual, SpvOpFOrdEqual, SpvOpLogicalEqual, 1); G2(NotEqual, SpvOpINotEqual, SpvOpINotEqual, SpvOpFOrdNotEqual, SpvOpLogicalNotEqual, 1); G2(Greater, SpvOpUGreaterThan, SpvOpSGreaterThan, SpvOpFOrdGreaterThan, 0, 1); G2(GreaterEqual, SpvOpUGreaterThanEqual, SpvOpSGreaterThanEqual, SpvOpFOrdGreaterThanEqual, 0, 1); G2(Less, SpvOpULessThan, SpvOpSLessThan, SpvOpFOrdLessThan, 0, 1); G2(LessEqual, SpvOpULessThanEqual, SpvOpSLessThanEqual, SpvOpFOrdLessThanEqual, 0, 1);
  row("Not", [](Rng& r, Case& c) { c.v = pattern(r.coin() ? "I" : "B", r); change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->Not(v[0]); }, [](const Case& c) { const T& t = c.v[0].t; u32 op = isint(t) ? SpvOpNot : isboolean(t) ? SpvOpLogicalNot : 0; return op ? ex(op, t, inorder(1)) : none(0); });
  for (int k = 0; k < 5; ++k) row(fmt("Mul/linear %d", k), [k](Rng& r, Case& c) { T e = Fl(fw(r)); u32 rw = r.range(2, 4), co = r.range(2, 4), p = r.range(2, 4); T m = Ma(e, rw, co); switch (k) { case 0: c.v = {Ve(e, rw), e}; break; case 1: c.v = {m, e}; break; case 2: c.v = {Ve(e, rw), m}; break; case 3: c.v = {m, Ve(e, co)}; break; default: c.v = {m, Ma(e, co, p)}; } if (k < 2 && r.coin()) std::swap(c.v[0], c.v[1]); if (r.chance(1, 3)) change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->Mul(v[0], v[1]); }, [](const Case& c) { const T &a = c.v[0].t, &b = c.v[1].t; auto sc = [](const T& t) { return t.op == SpvOpTypeFloat; }; std::vector<O> rev{{OpndI, 1}, {OpndI, 0}}; if (ism(a) && ism(b)) return ex(SpvOpMatrixTimesMatrix, mk(SpvOpTypeMatrix, {b.lit[0]}, {a.kids[0]}), inorder(2)); if (ism(a) && isv(b)) return ex(SpvOpMatrixTimesVector, a.kids[0], inorder(2)); if (isv(a) && ism(b)) return ex(SpvOpVectorTimesMatrix, Ve(el(b), b.lit[0]), inorder(2)); if (ism(a) && sc(b)) return ex(SpvOpMatrixTimesScalar, a, inorder(2)); if (isv(a) && isflt(a) && sc(b)) return ex(SpvOpVectorTimesScalar, a, inorder(2)); if (ism(b) && sc(a)) return ex(SpvOpMatrixTimesScalar, b, rev); if (isv(b) && isflt(b) && sc(a)) return ex(SpvOpVectorTimesScalar, b, rev); if (isflt(a)) return ex(SpvOpFMul, a, inorder(2)); if (isint(a)) return ex(SpvOpIMul, a, inorder(2)); return none(0); });
  // vectors and composites
  row("opVectorExtractDynamic", [](Rng& r, Case& c) { c.v = {Ve(scal(r), r.range(2, 4)), In(iw(r), r.below(2))}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opVectorExtractDynamic(v[0], v[1]); }, [](const Case& c) { return isv(c.v[0].t) ? ex(SpvOpVectorExtractDynamic, el(c.v[0].t), inorder(2)) : none(0); });
  row("opVectorInsertDynamic", [](Rng& r, Case& c) { T t = Ve(scal(r), r.range(2, 4)); c.v = {t, el(t), In(iw(r), r.below(2))}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opVectorInsertDynamic(v[0], v[1], v[2]); }, [](const Case& c) { return ex(SpvOpVectorInsertDynamic, c.v[0].t, inorder(3)); });
  row("opVectorShuffle", [](Rng& r, Case& c) { T e = scal(r); c.v = {Ve(e, r.range(2, 4)), Ve(e, r.range(2, 4))}; u32 n = c.v[0].t.lit[0] + c.v[1].t.lit[0]; for (u32 k = r.range(2, 4); k; --k) c.lit.push_back(r.chance(1, 12) ? 0xffffffffu : r.below(n)); if (r.chance(1, 5)) { if (r.coin()) c.lit[r.below((u32)c.lit.size())] = r.range(n, n + 2); } change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { auto& l = c.lit; switch (l.size()) { case 2: return b->opVectorShuffle(v[0], v[1], l[0], l[1]); case 3: return b->opVectorShuffle(v[0], v[1], l[0], l[1], l[2]); default: return b->opVectorShuffle(v[0], v[1], l[0], l[1], l[2], l[3]); } }, [](const Case& c) { if (!isv(c.v[0].t) || c.lit.size() < 2) return none(SpvOpVectorShuffle); return ex(SpvOpVectorShuffle, Ve(el(c.v[0].t), (u32)c.lit.size()), lits(inorder(2), c.lit)); });
  for (int k = 0; k < 2; ++k) row(k ? "opCompositeConstructDynamic" : "opCompositeConstruct", [k](Rng& r, Case& c) { T t; switch (r.below(4)) { case 0: { u32 n = r.range(2, 4); T e = scal(r); t = Ve(e, n); for (u32 left = n; left;) { u32 q = r.range(1, left); if (q == n) q = 1; c.v.push_back(Ve(e, q)); left -= q; } break; } case 1: t = Ma(Fl(fw(r)), r.range(2, 4), r.range(2, 4)); for (u32 i = 0; i < t.lit[0]; ++i) c.v.push_back(t.kids[0]); break; case 2: t = mk(SpvOpTypeArray, {r.range(1, 5)}, {plainval(r, 1)}); for (u32 i = 0; i < t.lit[0]; ++i) c.v.push_back(t.kids[0]); break; default: t = St({}); for (u32 n = r.range(1, 4); n; --n) { t.kids.push_back(plainval(r, 1)); c.v.push_back(t.kids.back()); } }
      c.ty = t; if (c.v.size() > 4 && !k) c.v.resize(4); change(r, c); if (r.chance(1, 6)) { if (r.coin() && c.v.size() > 1) c.v.pop_back(); else if (c.v.size() < 4) c.v.push_back(c.v.back()); } if (r.chance(1, 8)) { T q = tweak(c.ty, r); if (q.op != SpvOpTypePointer) c.ty = q; } },
    [k](BasicBlock& b, const Ops& v, Instruction* ty, const Case&) { if (k) { List<Instruction*> l(g_heap); for (auto* x : v) l.emplace_back(x); return b->opCompositeConstructDynamic(ty, l); } switch (v.size()) { case 1: return b->opCompositeConstruct(ty, v[0]); case 2: return b->opCompositeConstruct(ty, v[0], v[1]); case 3: return b->opCompositeConstruct(ty, v[0], v[1], v[2]); default: return b->opCompositeConstruct(ty, v[0], v[1], v[2], v[3]); } }, [](const Case& c) { return ex(SpvOpCompositeConstruct, c.ty, inorder(c.v.size())); });
  for (int k = 0; k < 2; ++k) row(k ? "opCompositeExtractDynamic" : "opCompositeExtract", [k](Rng& r, Case& c) { T t = composite(r); c.v = {t}; c.lit = path(t, r, k ? 4 : 3); if (r.chance(1, 4)) spoil(c.lit, r); if (!k && c.lit.size() > 3) c.lit.resize(3); if (r.chance(1, 6)) c.v[0] = Val(tweak(t, r)); }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { auto& l = c.lit; if (k) { List<unsigned int> q(g_heap); for (u32 x : l) q.emplace_back(x); return b->opCompositeExtractDynamic(v[0], q); } return withlits(l, [&] { return b->opCompositeExtract(v[0], l[0]); }, [&] { return b->opCompositeExtract(v[0], l[0], l[1]); }, [&] { return b->opCompositeExtract(v[0], l[0], l[1], l[2]); }); }, [](const Case& c) { T t; if (!member(c.v[0].t, c.lit, 0, t)) return none(SpvOpCompositeExtract); return ex(SpvOpCompositeExtract, t, lits(inorder(1), c.lit)); });
  row("opCompositeInsert", [](Rng& r, Case& c) { T t = composite(r), m; c.lit = path(t, r, 3); member(t, c.lit, 0, m); c.v = {t, m}; if (r.chance(1, 4)) spoil(c.lit, r); if (c.lit.size() > 3) c.lit.resize(3); if (r.chance(1, 4)) change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { auto& l = c.lit; return withlits(l, [&] { return b->opCompositeInsert(v[0], v[1], l[0]); }, [&] { return b->opCompositeInsert(v[0], v[1], l[0], l[1]); }, [&] { return b->opCompositeInsert(v[0], v[1], l[0], l[1], l[2]); }); }, [](const Case& c) { std::vector<O> o{{OpndI, 1}, {OpndI, 0}}; return ex(SpvOpCompositeInsert, c.v[0].t, lits(o, c.lit)); });
  row("opCopyObject", [](Rng& r, Case& c) { c.v = {value(r, 2)}; }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opCopyObject(v[0]); }, [](const Case& c) { return ex(SpvOpCopyObject, c.v[0].t, inorder(1)); });
  // memory
  auto pointer = [](Rng& r, const T& t) { return Pt(r.coin() ? SpvStorageClassFunction : SpvStorageClassPrivate, t); };
  for (int kk = 0; kk < 4; ++kk) { const int k = kk > 2 ? 2 : kk; const bool ib = kk == 3; row(kk == 0 ? "opAccessChain" : kk == 1 ? "opAccessChain/list" : kk == 2 ? "opAccessChain/instructions" : "opInBoundsAccessChain", [k, pointer](Rng& r, Case& c) { T t = composite(r); if (k != 2 && r.chance(1, 4)) { T s = St({scal(r), mk(SpvOpTypeRuntimeArray, {}, {r.coin() ? scal(r) : Ve(Fl(32), 4)})}); t = Pt(SpvStorageClassStorageBuffer, s); } else t = pointer(r, t); c.v = {t}; c.lit = path(t.kids[0], r, 3); if (r.chance(1, 4)) spoil(c.lit, r); if (c.lit.size() > 3) c.lit.resize(3); for (auto& x : c.lit) x &= 0x7fffffff; if (k != 2 && r.chance(1, 6)) c.v[0] = Val(tweak(t, r));
    // with index instructions the result type is given by the caller: it is the right one here; a base or an index that the walk cannot use has a type that is wrong by itself
    if (k == 2) { c.lit = path(t.kids[0], r, 3); T m; member(t.kids[0], c.lit, 0, m); c.ty = Pt(t.lit[0], m); if (r.chance(1, 10)) c.v[0] = Val(plainval(r, 1)); const T* w = &t.kids[0]; size_t bad = r.chance(1, 5) ? r.below((u32)c.lit.size()) : 99; for (size_t q = 0; q < c.lit.size(); ++q) { u32 x = c.lit[q]; bool st = w->op == SpvOpTypeStruct; T wrong; do wrong = plainval(r, 1); while (wrong.op == SpvOpTypeInt); c.v.push_back(q == bad ? Val(wrong) : st || r.coin() ? Val(In(32, r.below(2)), x) : Val(In(iw(r), r.below(2)))); w = &w->kids[st ? x : 0]; } c.lit.clear(); } },
    [k, ib](BasicBlock& b, const Ops& v, Instruction* ty, const Case& c) { auto& l = c.lit; if (ib) switch (v.size()) { case 2: return b->opInBoundsAccessChain(ty, v[0], v[1]); case 3: return b->opInBoundsAccessChain(ty, v[0], v[1], v[2]); default: return b->opInBoundsAccessChain(ty, v[0], v[1], v[2], v[3]); } if (k == 1) { List<unsigned int> q(g_heap); for (u32 x : l) q.emplace_back(x); return b->opAccessChain(v[0], q); } if (k == 2) switch (v.size()) { case 2: return b->opAccessChain(ty, v[0], v[1]); case 3: return b->opAccessChain(ty, v[0], v[1], v[2]); default: return b->opAccessChain(ty, v[0], v[1], v[2], v[3]); } return withlits(l, [&] { return b->opAccessChain(v[0], l[0]); }, [&] { return b->opAccessChain(v[0], l[0], l[1]); }, [&] { return b->opAccessChain(v[0], l[0], l[1], l[2]); }); },
    [k, ib](const Case& c) { const T& p = c.v[0].t; T m; if (k == 2) return ex(ib ? SpvOpInBoundsAccessChain : SpvOpAccessChain, c.ty, inorder(c.v.size())); if (p.op != SpvOpTypePointer || !member(p.kids[0], c.lit, 0, m)) return none(SpvOpAccessChain); return ex(SpvOpAccessChain, Pt(p.lit[0], m), lits(inorder(1), c.lit, OpndC)); }); }
  row("opSizeOf", [pointer](Rng& r, Case& c) { c.v = {pointer(r, plainval(r, 2))}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opSizeOf(v[0]); }, [](const Case& c) { return c.v[0].t.op == SpvOpTypePointer ? ex(SpvOpSizeOf, In(32, 0), inorder(1)) : none(SpvOpSizeOf); });
  row("opLoad", [pointer](Rng& r, Case& c) { c.v = {pointer(r, value(r, 2))}; if (c.v[0].t.kids[0].op == SpvOpTypePointer) c.v[0] = pointer(r, scal(r)); if (r.chance(1, 3)) { static const std::vector<u32> m{1, 2, 3, 4, 6}; c.mask = r.pick(m); if (c.mask & 2) c.lit = {r.chance(1, 8) ? 3u : 16u}; } if (r.chance(1, 4)) change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { Flag<spv::MemoryAccessMask> f = static_cast<spv::MemoryAccessMask>(c.mask); return c.mask & 2 ? b->opLoad(v[0], f, c.lit[0]) : b->opLoad(v[0], f); }, [](const Case& c) { const T& p = c.v[0].t; if (p.op != SpvOpTypePointer) return none(SpvOpLoad); Lits l{c.mask}; if (c.mask & 2) l.push_back(c.lit[0]); return ex(SpvOpLoad, p.kids[0], lits(inorder(1), l)); });
  row("opStore", [pointer](Rng& r, Case& c) { T t = plainval(r, 2); c.v = {pointer(r, t), t}; if (r.chance(1, 3)) { static const std::vector<u32> m{1, 2, 3, 4, 6}; c.mask = r.pick(m); if (c.mask & 2) c.lit = {16u}; } if (r.chance(2, 3)) change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { Flag<spv::MemoryAccessMask> f = static_cast<spv::MemoryAccessMask>(c.mask); Instruction* i = b.addInstruction(); if (c.mask & 2) i->opStore(v[0], v[1], f, c.lit[0]); else i->opStore(v[0], v[1], f); return i; }, [](const Case& c) { Lits l{c.mask}; if (c.mask & 2) l.push_back(c.lit[0]); return noresult(SpvOpStore, lits(inorder(2), l)); });
  row("opCopyMemory", [pointer](Rng& r, Case& c) { T t = plainval(r, 2); c.v = {pointer(r, t), pointer(r, t)}; c.lit = {r.chance(1, 3) ? 1u : 0u, r.chance(1, 3) ? 1u : 0u}; if (r.chance(2, 3)) change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { Instruction* i = b.addInstruction(); i->opCopyMemory(v[0], v[1], static_cast<spv::MemoryAccessMask>(c.lit[0]), static_cast<spv::MemoryAccessMask>(c.lit[1])); return i; }, [](const Case& c) { Exp e = noresult(SpvOpCopyMemory, {}); e.have = false; if (!c.lit[0] && !c.lit[1]) { e = noresult(SpvOpCopyMemory, inorder(2)); } else if (c.version >= 4 && c.lit[1]) e = noresult(SpvOpCopyMemory, lits(inorder(2), c.lit)); else if (!c.lit[1]) e = noresult(SpvOpCopyMemory, lits(inorder(2), {c.lit[0]})); return e; });
  row("opArrayLength", [](Rng& r, Case& c) { T s = St({}); for (u32 n = r.below(3); n; --n) s.kids.push_back(plainval(r, 1)); s.kids.push_back(mk(SpvOpTypeRuntimeArray, {}, {plainval(r, 1)})); c.lit = {(u32)s.kids.size() - 1}; c.v = {Pt(SpvStorageClassStorageBuffer, s)}; if (r.chance(1, 4)) c.lit[0] = r.below(4); if (r.chance(1, 5)) c.v[0] = Val(Pt(SpvStorageClassPrivate, r.coin() ? plainval(r, 2) : St({scal(r), mk(SpvOpTypeArray, {3}, {scal(r)})}))); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { return b->opArrayLength(v[0], c.lit[0]); }, [](const Case& c) { return ex(SpvOpArrayLength, In(32, 0), lits(inorder(1), c.lit)); });
  for (int k = 0; k < 2; ++k) row(k ? "opPtrNotEqual" : "opPtrEqual", [](Rng& r, Case& c) { T t = Pt(SpvStorageClassStorageBuffer, St({plainval(r, 1)})); if (r.chance(1, 3)) t = Pt(SpvStorageClassWorkgroup, plainval(r, 1)); if (r.chance(1, 5)) t = Pt(SpvStorageClassPrivate, plainval(r, 1)); c.v = {t, t}; change(r, c); }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return k ? b->opPtrNotEqual(v[0], v[1]) : b->opPtrEqual(v[0], v[1]); }, [k](const Case& c) { return ex(k ? SpvOpPtrNotEqual : SpvOpPtrEqual, Bo(), inorder(2)); });
  row("opConvertPtrToU", [](Rng& r, Case& c) { c.v = {Pt(SpvStorageClassPhysicalStorageBuffer, Fl(32))}; c.lit = {iw(r)}; if (r.chance(1, 4)) c.v[0] = Val(value(r, 1)); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case& c) { return b->opConvertPtrToU(v[0], c.lit[0]); }, [](const Case& c) { return ex(SpvOpConvertPtrToU, In(c.lit[0], 0), inorder(1)); });
  row("opConvertUToPtr", [](Rng& r, Case& c) { c.ty = Pt(SpvStorageClassPhysicalStorageBuffer, Fl(32)); c.v = {In(64, r.below(2))}; if (r.chance(1, 4)) c.v[0] = Val(plainval(r, 1)); if (r.chance(1, 5)) c.ty = r.coin() ? Pt(SpvStorageClassPrivate, Fl(32)) : scal(r); }, [](BasicBlock& b, const Ops& v, Instruction* ty, const Case&) { return b->opConvertUToPtr(ty, v[0]); }, [](const Case& c) { return ex(SpvOpConvertUToPtr, c.ty, inorder(1)); });
  for (int k = 0; k < 2; ++k) row(k ? "opEndStreamPrimitive" : "opEmitStreamVertex", [](Rng& r, Case& c) { c.v = {r.chance(1, 4) ? Val(r.coin() ? In(32, 0) : plainval(r, 1)) : Val(In(iw(r), r.below(2)), r.below(4))}; }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return k ? b->opEndStreamPrimitive(v[0]) : b->opEmitStreamVertex(v[0]); }, [k](const Case&) { return noresult(k ? SpvOpEndStreamPrimitive : SpvOpEmitStreamVertex, inorder(1)); });
  // images
  row("opSampledImage", [](Rng& r, Case& c) { static const std::vector<u32> d{0, 1, 2, 3, 4}; c.v = {image(r, r.chance(1, 5) ? 2 : 1, true, d), mk(SpvOpTypeSampler)}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opSampledImage(v[0], v[1]); }, [](const Case& c) { return ex(SpvOpSampledImage, mk(SpvOpTypeSampledImage, {}, {c.v[0].t}), inorder(2)); });
  row("opImage", [](Rng& r, Case& c) { static const std::vector<u32> d{0, 1, 2, 3, 4}; c.v = {mk(SpvOpTypeSampledImage, {}, {image(r, 1, true, d)})}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opImage(v[0]); }, [](const Case& c) { return c.v[0].t.op == SpvOpTypeSampledImage ? ex(SpvOpImage, c.v[0].t.kids[0], inorder(1)) : none(SpvOpImage); });
#define IQ(fn, OP) row(#fn, [](Rng& r, Case& c) { static const std::vector<u32> d{0, 1, 2, 3, 4, 5}; c.v = {image(r, r.range(1, 2), true, d)}; change(r, c); if (SpvOp##OP == SpvOpImageQueryFormat || SpvOp##OP == SpvOpImageQueryOrder) { c.v[0].t = normalise(c.v[0].t, 0); if (c.v[0].t.op == SpvOpTypeImage) c.v[0].t.lit[5] = 0; } }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->fn(v[0]); }, [](const Case& c) { const T& t = c.v[0].t; if (t.op != SpvOpTypeImage) return none(SpvOp##OP); u32 n = t.lit[0] == SpvDimCube ? 2 : dims(t); return ex(SpvOp##OP, SpvOp##OP == SpvOpImageQuerySize ? Ve(In(32, 0), n + t.lit[2]) : In(32, 0), inorder(1)); })
  IQ(opImageQueryFormat, ImageQueryFormat); IQ(opImageQueryOrder, ImageQueryOrder); IQ(opImageQuerySize, ImageQuerySize); IQ(opImageQueryLevels, ImageQueryLevels); IQ(opImageQuerySamples, ImageQuerySamples);
  row("opImageQuerySizeLod", [](Rng& r, Case& c) { static const std::vector<u32> d{0, 1, 2, 3, 4}; c.v = {image(r, 1, true, d), In(iw(r), r.below(2))}; change(r, c); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opImageQuerySizeLod(v[0], v[1]); }, [](const Case& c) { const T& t = c.v[0].t; if (t.op != SpvOpTypeImage) return none(SpvOpImageQuerySizeLod); u32 n = t.lit[0] == SpvDimCube ? 2 : dims(t); return ex(SpvOpImageQuerySizeLod, Ve(In(32, 0), n + t.lit[2]), inorder(2)); });
  row("opImageQueryLod", [](Rng& r, Case& c) { static const std::vector<u32> d{0, 1, 2, 3}; T i = image(r, 1, false, d); c.v = {mk(SpvOpTypeSampledImage, {}, {i}), Ve(Fl(32), dims(i) + (r.coin() ? i.lit[2] : 0))}; change(r, c); if (isint(c.v[1].t)) c.v[1] = Val(withel(c.v[1].t, Fl(32))); }, [](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return b->opImageQueryLod(v[0], v[1]); }, [](const Case& c) { const T* i = imageof(c.v[0].t); return i && i->lit[3] ? none(SpvOpImageQueryLod) : ex(SpvOpImageQueryLod, Ve(Fl(32), 2), inorder(2)); });
#define IMG(fn, OP, kind, given, lead, ...) imagerow(#fn, SpvOp##OP, kind, given, [](BasicBlock& b, const Ops& v, u32 m) -> Instruction* { if (v.size() < lead) return nullptr; return spread(v, lead, [&](auto... o) { return b->fn(__VA_ARGS__, im(m), o...); }); })
  IMG(opImageSampleImplictLod, ImageSampleImplicitLod, 0, 0, 2, v[0], v[1]); IMG(opImageSampleExplicitLodLevel, ImageSampleExplicitLod, Explicit, 2, 3, v[0], v[1], v[2]); IMG(opImageSampleExplicitLodGrad, ImageSampleExplicitLod, Explicit | Grad, 4, 3, v[0], v[1], v[2]); IMG(opImageSampleProjImplictLod, ImageSampleProjImplicitLod, Proj, 0, 2, v[0], v[1]); IMG(opImageSampleProjExplicitLodLevel, ImageSampleProjExplicitLod, Proj | Explicit, 2, 3, v[0], v[1], v[2]); IMG(opImageSampleProjExplicitLodGrad, ImageSampleProjExplicitLod, Proj | Explicit | Grad, 4, 3, v[0], v[1], v[2]);
  IMG(opImageSampleDrefImplictLod, ImageSampleDrefImplicitLod, Dref, 0, 3, v[0], v[1], v[2]); IMG(opImageSampleDrefExplicitLodLevel, ImageSampleDrefExplicitLod, Dref | Explicit, 2, 4, v[0], v[1], v[2], v[3]); IMG(opImageSampleDrefExplicitLodGrad, ImageSampleDrefExplicitLod, Dref | Explicit | Grad, 4, 4, v[0], v[1], v[2], v[3]); IMG(opImageSampleProjDrefImplictLod, ImageSampleProjDrefImplicitLod, Proj | Dref, 0, 3, v[0], v[1], v[2]); IMG(opImageSampleProjDrefExplicitLodLevel, ImageSampleProjDrefExplicitLod, Proj | Dref | Explicit, 2, 4, v[0], v[1], v[2], v[3]); IMG(opImageSampleProjDrefExplicitLodGrad, ImageSampleProjDrefExplicitLod, Proj | Dref | Explicit | Grad, 4, 4, v[0], v[1], v[2], v[3]);
  IMG(opImageFetch, ImageFetch, Fetch, 0, 2, v[0], v[1]); IMG(opImageGather, ImageGather, GatherC, 0, 3, v[0], v[1], v[2]); IMG(opImageDrefGather, ImageDrefGather, Dref, 0, 3, v[0], v[1], v[2]); IMG(opImageRead, ImageRead, Read, 0, 2, v[0], v[1]); IMG(opImageWrite, ImageWrite, Write, 0, 3, v[0], v[1], v[2]);
  // GLSL.std.450
#define EF(fn, OP) E1(fn, OP, "F", same(0))
  EF(opRound, Round); EF(opRoundEven, RoundEven); EF(opTrunc, Trunc); EF(opFAbs, FAbs); E1(opSAbs, SAbs, "S", same(0)); EF(opFSign, FSign); E1(opSSign, SSign, "S", same(0)); EF(opFloor, Floor); EF(opCeil, Ceil); EF(opFract, Fract); EF(opRadians, Radians); EF(opDegrees, Degrees); EF(opSin, Sin); EF(opCos, Cos); EF(opTan, Tan); EF(opASin, Asin); EF(opACos, Acos); EF(opATan, Atan); EF(opSinh, Sinh); EF(opCosh, Cosh); EF(opTanh, Tanh); EF(opAsinh, Asinh); EF(opAcosh, Acosh); EF(opAtanh, Atanh); E2(opAtan2, Atan2, "FF", same(0)); E2(opPow, Pow, "FF", same(0)); EF(opExp, Exp); EF(opLog, Log); EF(opExp2, Exp2); EF(opLog2, Log2); EF(opSqrt, Sqrt); EF(opInverseSqrt, InverseSqrt);
  E1(opDeterminant, Determinant, "X", elem(0)); E1(opMatrixInverse, MatrixInverse, "X", same(0)); E1(opModfStruct, ModfStruct, "F", pairof()); E2(opFMin, FMin, "FF", same(0)); E2(opUMin, UMin, "UU", same(0)); E2(opSMin, SMin, "SS", same(0)); E2(opFMax, FMax, "FF", same(0)); E2(opUMax, UMax, "UU", same(0)); E2(opSMax, SMax, "SS", same(0)); E3(opFClamp, FClamp, "FFF", same(0)); E3(opUClamp, UClamp, "UUU", same(0)); E3(opSClamp, SClamp, "SSS", same(0)); E3(opFMix, FMix, "FFF", same(0)); E2(opStep, Step, "FF", same(0)); E3(opSmoothStep, SmoothStep, "FFF", same(0)); E3(opFma, Fma, "FFF", same(0)); E1(opFrexpStruct, FrexpStruct, "F", pairof(1)); E2(opLdexp, Ldexp, "FK", same(0));
  E1(opPackSnorm4x8, PackSnorm4x8, "4", fixed(In(32, 1))); E1(opPackUnorm4x8, PackUnorm4x8, "4", fixed(In(32, 1))); E1(opPackSnorm2x16, PackSnorm2x16, "2", fixed(In(32, 1))); E1(opPackUnorm2x16, PackUnorm2x16, "2", fixed(In(32, 1))); E1(opPackHalf2x16, PackHalf2x16, "2", fixed(In(32, 1))); E1(opPackDouble2x32, PackDouble2x32, "w", fixed(Fl(64))); E1(opUnpackSnorm4x8, UnpackSnorm4x8, "u", fixed(Ve(Fl(32), 4))); E1(opUnpackUnorm4x8, UnpackUnorm4x8, "u", fixed(Ve(Fl(32), 4))); E1(opUnpackSnorm2x16, UnpackSnorm2x16, "u", fixed(Ve(Fl(32), 2))); E1(opUnpackUnorm2x16, UnpackUnorm2x16, "u", fixed(Ve(Fl(32), 2))); E1(opUnpackHalf2x16, UnpackHalf2x16, "u", fixed(Ve(Fl(32), 2))); E1(opUnpackDouble2x32, UnpackDouble2x32, "d", fixed(Ve(In(32, 1), 2)));
  E1(opLength, Length, "F", elem(0)); E2(opDistance, Distance, "FF", elem(0)); E2(opCross, Cross, "33", same(0)); E1(opNormalize, Normalize, "F", same(0)); E3(opFaceForward, FaceForward, "FFF", same(0)); E2(opReflect, Reflect, "FF", same(0)); E3(opRefract, Refract, "FFf", same(0)); E1(opFindILsb, FindILsb, "I", same(0)); E1(opFindSMsb, FindSMsb, "I", same(0)); E1(opFindUMsb, FindUMsb, "I", same(0)); E2(opNMin, NMin, "FF", same(0)); E2(opNMax, NMax, "FF", same(0)); E3(opNClamp, NClamp, "FFF", same(0)); E1(opFindILsb, FindILsb, "K", same(0)); E1(opFindSMsb, FindSMsb, "K", same(0)); E1(opFindUMsb, FindUMsb, "K", same(0)); 
  for (int k = 0; k < 3; ++k) row(k == 0 ? "glsl.opInterpolateAtCentroid" : k == 1 ? "glsl.opInterpolateAtSample" : "glsl.opInterpolateAtOffset", [k](Rng& r, Case& c) { c.v = {Pt(SpvStorageClassInput, Ve(Fl(r.chance(1, 8) ? fw(r) : 32), r.range(1, 4)))}; if (k == 1) c.v.push_back(In(32, r.below(2))); if (k == 2) c.v.push_back(Ve(Fl(32), 2)); if (r.chance(1, 6)) c.v[0].t.lit[0] = SpvStorageClassPrivate; if (k && r.chance(1, 3)) c.v[1] = Val(tweak(c.v[1].t, r)); }, [k](BasicBlock& b, const Ops& v, Instruction*, const Case&) { return k == 0 ? b.glsl()->opInterpolateAtCentroid(v[0]) : k == 1 ? b.glsl()->opInterpolateAtSample(v[0], v[1]) : b.glsl()->opInterpolateAtOffset(v[0], v[1]); }, [k](const Case& c) { Exp e; e.op = SpvOpExtInst; e.ext = k == 0 ? GLSLstd450InterpolateAtCentroid : k == 1 ? GLSLstd450InterpolateAtSample : GLSLstd450InterpolateAtOffset; e.ops = inorder(c.v.size()); if (c.v[0].t.op == SpvOpTypePointer) { e.have = true; e.rt = c.v[0].t.kids[0]; } return e; });
}
