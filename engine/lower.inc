// ---------------------------------------------------------------- lowering LLVM IR to the internal form (member functions of Engine)
void leaves(Type* t, std::vector<Leaf>& o, u64 off = 0) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), o, off + sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), o, off + i * s); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeSizeInBits(vt->getElementType()) / 8; if (!s) s = 1; for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), o, off + i * s); return; }
  Leaf l; l.off = off;
  if (t->isPointerTy()) { l.bits = 64; l.kind = K_PTR; } else if (t->isFloatTy()) { l.bits = 32; l.kind = K_F32; } else if (t->isDoubleTy()) { l.bits = 64; l.kind = K_F64; } else if (t->isX86_FP80Ty()) { l.bits = 80; l.kind = K_F80; }
  else if (t->isIntegerTy()) { l.bits = t->getIntegerBitWidth(); l.kind = K_INT; } else { l.bits = 64; l.kind = K_INT; }
  o.push_back(l);
}
std::vector<Leaf> leavesOf(Type* t) { std::vector<Leaf> o; if (!t->isVoidTy()) leaves(t, o); return o; }
unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) { unsigned n = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += leavesOf(st->getElementType(k)).size(); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); n += i * leavesOf(at->getElementType()).size(); t = at->getElementType(); } } return n; }
Func* getFunc(const std::string& name) { auto it = funcs.find(name); return it == funcs.end() ? nullptr : it->second; }
u64 funcAddr(const Function* F) { Func* f = byLLVM[F]; return addrOf(f); }
u64 addrOf(Func* f) { if (!f->F->isDeclaration() || f->builtin || !f->native) return (f->F->isDeclaration() && !f->builtin && f->F->hasExternalWeakLinkage()) ? 0 : f->tramp; return (u64)f->native; }
u64 globalAddr(const GlobalVariable* g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  errs() << "no address for global " << g->getName() << "\n"; abort();
}
void evalConst(const Constant* c, std::vector<u128>& o) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt v = ci->getValue(); u128 x = v.getLimitedValue(~0ull); if (v.getBitWidth() > 64) { x = v.trunc(64).getZExtValue(); x |= (u128)v.lshr(64).trunc(64).getZExtValue() << 64; } o.push_back(x); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); u128 x = v.getBitWidth() > 64 ? (u128)v.trunc(64).getZExtValue() | ((u128)v.lshr(64).getZExtValue() << 64) : (u128)v.getZExtValue(); o.push_back(x); return; }
  if (isa<ConstantPointerNull>(c)) { o.push_back(0); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0, n = leavesOf(t).size(); i < n; i++) o.push_back(0); return; }
  if (auto* f = dyn_cast<Function>(c)) { o.push_back(funcAddr(f)); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { if (g->isThreadLocal()) { o.push_back(tlsAddr(g)); return; } o.push_back(globalAddr(g)); return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { evalConst(a->getAliasee(), o); return; }
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) evalConst(ds->getElementAsConstant(i), o); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), o); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto one = [&](unsigned i) { std::vector<u128> v; evalConst(ce->getOperand(i), v); return v[0]; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); g->accumulateConstantOffset(*DL, off); o.push_back((u64)one(0) + off.getSExtValue()); return; }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: o.push_back(one(0) & maskw(t->isPointerTy() ? 64 : t->getIntegerBitWidth())); return;
      case Instruction::Add: o.push_back((one(0) + one(1)) & maskw(t->getIntegerBitWidth())); return;
      case Instruction::Sub: o.push_back((one(0) - one(1)) & maskw(t->getIntegerBitWidth())); return;
      case Instruction::Xor: o.push_back(one(0) ^ one(1)); return;
      case Instruction::ICmp: { u128 a = one(0), b = one(1); bool r; switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_ULT: r = a < b; break; default: errs() << *c << "\n"; abort(); } o.push_back(r); return; }
      default: errs() << "constexpr: " << *c << "\n"; abort();
    }
  }
  if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) { evalConst(de->getGlobalValue(), o); return; }
  errs() << "constant: " << *c << "\n"; abort();
}
void initMem(u64 a, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  std::vector<u128> v; evalConst(c, v); auto ls = leavesOf(c->getType());
  for (size_t i = 0; i < ls.size(); i++) memcpy((void*)(a + ls[i].off), &v[i], (ls[i].bits + 7) / 8);
}
u64 tlsAddr(const GlobalVariable* g) {
  auto& m = cur->tls; auto it = m.find(g); if (it != m.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(g->getValueType()); u64 a = allocRaw(sz, std::max<u64>(16, g->getAlign() ? g->getAlign()->value() : 16), 32, F_ADDR | F_INIT);
  m[g] = a; if (g->hasInitializer()) initMem(a, g->getInitializer()); return a;
}
struct LowerCtx { Func* f; DenseMap<const Value*, int> slot; std::map<std::vector<u64>, int> cpool; DenseMap<const BasicBlock*, int> bbi; int temps = 0; };
int constOp(LowerCtx& L, const std::vector<u128>& v) {
  std::vector<u64> k; for (u128 x : v) { k.push_back((u64)x); k.push_back((u64)(x >> 64)); }
  auto it = L.cpool.find(k); if (it != L.cpool.end()) return it->second;
  int base = L.f->consts.size(); for (u128 x : v) { Slot s; s.v = x; s.e = nullptr; s.pad = 0; L.f->consts.push_back(s); }
  // operands address leaf i as op - i when constant (op<0) and op + i otherwise
  int op = -1 - base; L.cpool[k] = op; return op;
}
static int leafOp(int op, int i) { return op >= 0 ? op + i : op - i; }
int operand(LowerCtx& L, const Value* v) {
  auto it = L.slot.find(v); if (it != L.slot.end()) return it->second;
  if (auto* c = dyn_cast<Constant>(v)) { std::vector<u128> o; evalConst(c, o); if (o.empty()) o.push_back(0); return constOp(L, o); }
  return constOp(L, {0}); // metadata etc.
}
Edge edge(LowerCtx& L, const BasicBlock* from, const BasicBlock* to) {
  Edge e{L.bbi[to], -1}; std::vector<std::pair<int,int>> cp;
  for (auto& phi : to->phis()) { int d = L.slot[&phi]; int s = operand(L, phi.getIncomingValueForBlock(from)); int n = leavesOf(phi.getType()).size(); for (int i = 0; i < n; i++) { int so = leafOp(s, i); if (so != d + i) cp.push_back({d + i, so}); } }
  if (!cp.empty()) { e.copies = L.f->copies.size(); L.f->copies.push_back(cp); }
  return e;
}
static bool isRefcountLoc(const Instruction& I) {
  if (auto dl = I.getDebugLoc()) for (const DILocation* l = dl.get(); l; l = l->getInlinedAt()) { if (auto* sp = l->getScope()->getSubprogram()) { StringRef n = sp->getLinkageName(); if (n.empty()) n = sp->getName(); if (n.contains("_Sp_counted") || n.contains("exchange_and_add") || n.contains("atomic_add") || n.contains("sp_counted")) return true; } }
  StringRef n = I.getFunction()->getName(); return n.contains("_Sp_counted") || n.contains("__exchange_and_add") || n.contains("_Sp_counted_base");
}
void lower(Func* f) {
  f->lowered = true; const Function& F = *f->F; LowerCtx L; L.f = f; int ns = 0;
  for (auto& a : F.args()) { L.slot[&a] = ns; auto ls = leavesOf(a.getType()); if (a.hasByValAttr()) f->argByval.push_back(DL->getTypeAllocSize(a.getParamByValType())); else f->argByval.push_back(0); for (size_t i = 1; i < ls.size(); i++) f->argByval.push_back(0); for (auto& l : ls) f->argKinds.push_back(l); ns += ls.size(); }
  f->nargs = ns; f->retKinds = leavesOf(F.getReturnType());
  int bi = 0; for (auto& B : F) { L.bbi[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { L.slot[&I] = ns; ns += std::max<size_t>(1, leavesOf(I.getType()).size()); } }
  f->nslots = ns; f->bbStart.resize(bi);
  auto emit = [&](u16 op, const Instruction& I) -> Inst& { f->code.push_back(Inst{}); Inst& x = f->code.back(); x.op = op; x.src = &I; x.n = 1; auto it = L.slot.find(&I); x.dst = it == L.slot.end() ? -1 : it->second; return x; };
  for (auto& B : F) {
    f->bbStart[L.bbi[&B]] = f->code.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      auto ls = leavesOf(I.getType()); int n = std::max<size_t>(1, ls.size());
      auto opn = [&](unsigned i) { return operand(L, I.getOperand(i)); };
      auto ow = [&](unsigned i) -> u16 { auto l = leavesOf(I.getOperand(i)->getType()); return l.empty() ? 0 : l[0].bits; };
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          int a = opn(0), b = opn(1); Inst& x = emit(I_BIN, I); x.n = n; x.w = ls[0].bits; x.a = a; x.b = b;
          static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
          x.aux = m.at(I.getOpcode()); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { int a = opn(0), b = opn(1); Inst& x = emit(I_FBIN, I); x.n = n; x.w = ls[0].bits; x.a = a; x.b = b; x.aux = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4; break; }
        case Instruction::FNeg: { int a = opn(0); Inst& x = emit(I_FNEG, I); x.n = n; x.w = ls[0].bits; x.a = a; break; }
        case Instruction::ICmp: { int a = opn(0), b = opn(1); u16 w = ow(0); Inst& x = emit(I_ICMP, I); x.n = n; x.a = a; x.b = b; x.w = w; x.aux = cast<ICmpInst>(I).getPredicate(); break; }
        case Instruction::FCmp: { int a = opn(0), b = opn(1); u16 w = ow(0); Inst& x = emit(I_FCMP, I); x.n = n; x.a = a; x.b = b; x.w = w; x.aux = cast<FCmpInst>(I).getPredicate(); break; }
        case Instruction::Select: { int a = opn(0), b = opn(1), c = opn(2); Inst& x = emit(I_SELECT, I); x.n = n; x.a = a; x.b = b; x.c = c; x.w = ls[0].bits; x.p = new std::vector<Leaf>(ls); x.flags = I.getOperand(0)->getType()->isVectorTy(); break; }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); int a = opn(0); Inst& x = emit(I_ALLOCA, I); x.a = a; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.b = A.getAlign().value(); break; }
        case Instruction::Load: { auto& Ld = cast<LoadInst>(I); int a = opn(0); Inst& x = emit(I_LOAD, I); x.a = a; x.n = n; x.w = ls[0].bits; x.p = new std::vector<Leaf>(ls); x.flags = Ld.isAtomic() && !isRefcountLoc(I) ? 1 : 0; x.w2 = (u16)Ld.getOrdering(); break; }
        case Instruction::Store: { auto& St = cast<StoreInst>(I); int a = opn(0), b = opn(1); auto vl = leavesOf(St.getValueOperand()->getType()); Inst& x = emit(I_STORE, I); x.a = a; x.b = b; x.n = vl.size(); x.w = vl.empty() ? 0 : vl[0].bits; x.p = new std::vector<Leaf>(vl); x.flags = St.isAtomic() && !isRefcountLoc(I) ? 1 : 0; x.w2 = (u16)St.getOrdering(); break; }
        case Instruction::GetElementPtr: {
          auto& G = cast<GetElementPtrInst>(I); if (G.getType()->isVectorTy()) { emit(I_UNSUPPORTED, I); break; }
          u64 off = 0; auto* idx = new std::vector<GepIdx>; 
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value* v = gi.getOperand();
            if (auto* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
            else { u64 s = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(v)) off += ci->getSExtValue() * s; else idx->push_back({operand(L, v), (int)v->getType()->getIntegerBitWidth(), s}); } }
          int a = opn(0); Inst& x = emit(I_GEP, I); x.a = a; x.imm = off; x.p = idx; x.n = idx->size(); break; }
        case Instruction::ZExt: { int a = opn(0); u16 w = ow(0); Inst& x = emit(I_ZEXT, I); x.n = n; x.a = a; x.w = w; x.w2 = ls[0].bits; break; }
        case Instruction::SExt: { int a = opn(0); u16 w = ow(0); Inst& x = emit(I_SEXT, I); x.n = n; x.a = a; x.w = w; x.w2 = ls[0].bits; break; }
        case Instruction::Trunc: { int a = opn(0); u16 w = ow(0); Inst& x = emit(I_TRUNC, I); x.n = n; x.a = a; x.w = w; x.w2 = ls[0].bits; break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: { int a = opn(0); u16 w = ow(0); Inst& x = emit(w < ls[0].bits ? I_ZEXT : w > ls[0].bits ? I_TRUNC : I_COPY, I); x.n = n; x.a = a; x.w = w; x.w2 = ls[0].bits; break; }
        case Instruction::BitCast: { int a = opn(0); auto sl = leavesOf(I.getOperand(0)->getType()); if (sl.size() == ls.size()) { Inst& x = emit(I_COPY, I); x.n = n; x.a = a; x.w = x.w2 = ls[0].bits; } else { Inst& x = emit(I_INTRIN, I); x.aux = 200; x.a = a; x.n = n; x.p = new std::pair<std::vector<Leaf>, std::vector<Leaf>>(sl, ls); } break; }
        case Instruction::Freeze: { int a = opn(0); Inst& x = emit(I_COPY, I); x.n = n; x.a = a; x.w = x.w2 = ls[0].bits; break; }
        case Instruction::AddrSpaceCast: { int a = opn(0); Inst& x = emit(I_COPY, I); x.n = 1; x.a = a; break; }
        case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: { int a = opn(0); auto sl = leavesOf(I.getOperand(0)->getType()); Inst& x = emit(I_FPCAST, I); x.n = n; x.a = a; x.w = sl[0].bits; x.w2 = ls[0].bits; x.aux = I.getOpcode() == Instruction::FPTrunc || I.getOpcode() == Instruction::FPExt ? 0 : I.getOpcode() == Instruction::FPToSI ? 1 : I.getOpcode() == Instruction::FPToUI ? 2 : I.getOpcode() == Instruction::SIToFP ? 3 : 4; break; }
        case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); int a = opn(0); int li = leafIndex(E.getAggregateOperand()->getType(), E.getIndices()); Inst& x = emit(I_COPY, I); x.a = leafOp(a, li); x.n = ls.size(); break; }
        case Instruction::InsertValue: { auto& V = cast<InsertValueInst>(I); int a = opn(0), b = opn(1); int li = leafIndex(I.getType(), V.getIndices()); int m = leavesOf(V.getInsertedValueOperand()->getType()).size();
          { Inst& x = emit(I_COPY, I); x.a = a; x.n = n; } Inst& y = emit(I_COPY, I); y.dst = L.slot[&I] + li; y.a = b; y.n = m; break; }
        case Instruction::ExtractElement: { int a = opn(0); auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { emit(I_UNSUPPORTED, I); break; } Inst& x = emit(I_COPY, I); x.a = leafOp(a, ci->getZExtValue()); x.n = 1; break; }
        case Instruction::InsertElement: { int a = opn(0), b = opn(1); auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { emit(I_UNSUPPORTED, I); break; } { Inst& x = emit(I_COPY, I); x.a = a; x.n = n; } Inst& y = emit(I_COPY, I); y.dst = L.slot[&I] + (int)ci->getZExtValue(); y.a = b; y.n = 1; break; }
        case Instruction::ShuffleVector: { auto& V = cast<ShuffleVectorInst>(I); int a = opn(0), b = opn(1); int m = leavesOf(I.getOperand(0)->getType()).size(); int k = 0; // destination never aliases sources (SSA)
          for (int mi : V.getShuffleMask()) { Inst& x = emit(I_COPY, I); x.dst = L.slot[&I] + k++; x.n = 1; x.a = mi < 0 ? constOp(L, {0}) : mi < m ? leafOp(a, mi) : leafOp(b, mi - m); } break; }
        case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isUnconditional()) { auto* e = new Edge[1]{edge(L, &B, Br.getSuccessor(0))}; Inst& x = emit(I_BR, I); x.p = e; } else { int a = opn(0); auto* e = new Edge[2]{edge(L, &B, Br.getSuccessor(0)), edge(L, &B, Br.getSuccessor(1))}; Inst& x = emit(I_CBR, I); x.a = a; x.p = e; } break; }
        case Instruction::Switch: { auto& Sw = cast<SwitchInst>(I); auto* s = new SwitchI; s->def = edge(L, &B, Sw.getDefaultDest()); for (auto& c : Sw.cases()) { std::vector<u128> v; evalConst(c.getCaseValue(), v); s->cases.push_back({v[0], edge(L, &B, c.getCaseSuccessor())}); } int a = opn(0); u16 w = ow(0); Inst& x = emit(I_SWITCH, I); x.a = a; x.w = w; x.p = s; break; }
        case Instruction::Ret: { int a = I.getNumOperands() ? opn(0) : 0; Inst& x = emit(I_RET, I); x.a = a; x.n = f->retKinds.size(); break; }
        case Instruction::Unreachable: emit(I_UNREACHABLE, I); break;
        case Instruction::Resume: { int a = opn(0); Inst& x = emit(I_RESUME, I); x.a = a; break; }
        case Instruction::LandingPad: { auto& P = cast<LandingPadInst>(I); auto* lp = new LPad; lp->cleanup = P.isCleanup(); for (unsigned i = 0; i < P.getNumClauses(); i++) { LPad::C c; c.filter = P.isFilter(i); std::vector<u128> v; if (c.filter) { if (!isa<ConstantAggregateZero>(P.getClause(i)) || leavesOf(P.getClause(i)->getType()).size()) evalConst(P.getClause(i), v); } else evalConst(P.getClause(i), v); for (u128 t : v) c.tis.push_back((u64)t); lp->clauses.push_back(c); } Inst& x = emit(I_LANDINGPAD, I); x.p = lp; break; }
        case Instruction::Fence: { Inst& x = emit(I_FENCE, I); x.w2 = (u16)cast<FenceInst>(I).getOrdering(); break; }
        case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); int a = opn(0), b = opn(1); Inst& x = emit(I_ATOMICRMW, I); x.a = a; x.b = b; x.w = ls[0].bits; x.aux = R.getOperation(); x.w2 = (u16)R.getOrdering(); x.flags = !isRefcountLoc(I); break; }
        case Instruction::AtomicCmpXchg: { int a = opn(0), b = opn(1), c = opn(2); u16 w = ow(1); Inst& x = emit(I_CMPXCHG, I); { auto& X = cast<AtomicCmpXchgInst>(I); x.w2 = (u16)X.getMergedOrdering(); } x.a = a; x.b = b; x.c = c; x.w = w; x.flags = !isRefcountLoc(I); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto& C = cast<CallBase>(I); auto* cs = new CallSite; 
          if (C.isInlineAsm()) { StringRef as = cast<InlineAsm>(C.getCalledOperand())->getAsmString(); if (as.trim().empty() || as.contains("pause") || as == "rep; nop") { emit(I_NOP, I); if (n && !I.getType()->isVoidTy()) {} break; } emit(I_UNSUPPORTED, I); break; }
          Function* cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
          if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
          for (unsigned i = 0; i < C.arg_size(); i++) { Value* v = C.getArgOperand(i); if (v->getType()->isMetadataTy()) { cs->args.push_back(constOp(L, {0})); cs->kinds.push_back({0, 64, K_INT}); cs->byval.push_back(0); continue; } int o = operand(L, v); auto al = leavesOf(v->getType()); for (size_t k = 0; k < al.size(); k++) { cs->args.push_back(leafOp(o, k)); cs->kinds.push_back(al[k]); cs->byval.push_back(k == 0 && C.isByValArgument(i) ? DL->getTypeAllocSize(C.getParamByValType(i)) : 0); } }
          cs->ret = ls; cs->vararg = C.getFunctionType()->isVarArg();
          if (cf) { cs->direct = byLLVM[cf]; } else cs->callee = operand(L, C.getCalledOperand());
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { cs->invoke = true; cs->normal = edge(L, &B, iv->getNormalDest()); cs->unwind = edge(L, &B, iv->getUnwindDest()); }
          if (cf && cf->isIntrinsic()) { cs->intrin = cf->getIntrinsicID(); Inst& x = emit(I_INTRIN, I); x.aux = 0; x.p = cs; x.n = n; if (cs->intrin == Intrinsic::threadlocal_address) x.imm = (u64)C.getArgOperand(0); if (cs->invoke) { auto* e = new Edge[1]{cs->normal}; Inst& y = emit(I_BR, I); y.p = e; } break; }
          Inst& x = emit(I_CALL, I); x.p = cs; x.n = ls.size(); break; }
        default: emit(I_UNSUPPORTED, I); break;
      }
    }
  }
}
