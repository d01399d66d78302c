// ------------------------------------------------------------------ translation of functions
static bool hasGlobal(const llvm::Constant *c) {
  if (isa<llvm::GlobalValue>(c)) return true; for (auto &o : c->operands()) if (auto *x = dyn_cast<llvm::Constant>(&o)) if (hasGlobal(x)) return true; return false; }
static OpR mkOp(FI *fi, const llvm::Value *v) {
  OpR r;
  if (auto *c = dyn_cast<llvm::Constant>(v)) {
    if (hasGlobal(c)) {
      if (auto *g = dyn_cast<llvm::GlobalValue>(c)) { r.t = 2; r.g = g; return r; }
      llvm::APInt off(64, 0); if (c->getType()->isPointerTy()) { const llvm::Value *b = c->stripAndAccumulateConstantOffsets(*DL, off, true); if (auto *g = dyn_cast<llvm::GlobalValue>(b)) { r.t = 2; r.g = g; r.off = off.getSExtValue(); return r; } }
      r.t = 3; r.slot = 0; r.g = (const llvm::GlobalValue *)c; return r;
    }
    r.t = 1;
    try { r.c = constVal(nullptr, c); } catch (Unsupported &) { r.t = 3; r.g = (const llvm::GlobalValue *)c; }
    return r;
  }
  r.t = 0; auto it = fi->slot.find(v); if (it == fi->slot.end()) { fi->slot[v] = fi->nslots; r.slot = fi->nslots++; } else r.slot = it->second;
  return r;
}
typedef int (*Handler)(State &, Thread &, InstI &, std::vector<Val> &, Val &);   // 0 done, 1 blocked (already advanced), 2 frames changed (callee pushed)
static std::unordered_map<std::string, Handler> handlers;
static FI *getFI(const llvm::Function *f) {
  auto &p = fis[f]; if (p) return p.get();
  p.reset(new FI); FI *fi = p.get(); fi->f = f;
  if (auto *sp = f->getSubprogram()) { fi->file = sp->getFilename().str(); if (fi->file.size() && fi->file[0] != '/') fi->file = sp->getDirectory().str() + "/" + fi->file; }
  for (auto &a : f->args()) { fi->slot[&a] = fi->nslots++; }
  int n = 0; for (auto &b : *f) { fi->bbIdx[&b] = n++; }
  fi->bb.resize(n); fi->nphi.assign(n, 0);
  for (auto &b : *f) {
    int bi = fi->bbIdx[&b];
    for (auto &I : b) {
      InstI x; x.op = I.getOpcode(); x.I = &I; llvm::Type *t = I.getType(); x.w = tyWidth(t);
      x.ty = t->isVoidTy() ? 4 : t->isFloatingPointTy() ? 1 : t->isPointerTy() ? 2 : (t->isAggregateType() || t->isVectorTy()) ? 3 : 0;
      if (!t->isVoidTy()) x.dst = mkOp(fi, &I).slot;
      if (isa<llvm::DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<llvm::IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == llvm::Intrinsic::lifetime_start || id == llvm::Intrinsic::lifetime_end || id == llvm::Intrinsic::assume || id == llvm::Intrinsic::experimental_noalias_scope_decl || id == llvm::Intrinsic::donothing || id == llvm::Intrinsic::prefetch) continue; }
      switch (x.op) {
      case llvm::Instruction::PHI: { fi->nphi[bi]++; auto *ph = cast<llvm::PHINode>(&I); for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { x.o.push_back(mkOp(fi, ph->getIncomingValue(i))); x.blocks.push_back(fi->bbIdx[ph->getIncomingBlock(i)]); } break; }
      case llvm::Instruction::Br: { auto *br = cast<llvm::BranchInst>(&I); if (br->isConditional()) { x.o.push_back(mkOp(fi, br->getCondition())); x.b0 = fi->bbIdx[br->getSuccessor(0)]; x.b1 = fi->bbIdx[br->getSuccessor(1)]; } else x.b0 = fi->bbIdx[br->getSuccessor(0)]; break; }
      case llvm::Instruction::Switch: { auto *sw = cast<llvm::SwitchInst>(&I); x.o.push_back(mkOp(fi, sw->getCondition())); x.b0 = fi->bbIdx[sw->getDefaultDest()]; for (auto &c : sw->cases()) { x.o.push_back(mkOp(fi, c.getCaseValue())); x.blocks.push_back(fi->bbIdx[c.getCaseSuccessor()]); } break; }
      case llvm::Instruction::GetElementPtr: {
        auto *g = cast<llvm::GetElementPtrInst>(&I); x.o.push_back(mkOp(fi, g->getPointerOperand()));
        for (auto it = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); it != e; ++it) {
          if (auto *st = it.getStructTypeOrNull()) { x.gepOff += DL->getStructLayout(st)->getElementOffset(cast<llvm::ConstantInt>(it.getOperand())->getZExtValue()); }
          else { i64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<llvm::ConstantInt>(it.getOperand())) x.gepOff += ci->getSExtValue() * sc; else x.gep.push_back({mkOp(fi, it.getOperand()), sc}); }
        } break; }
      case llvm::Instruction::Alloca: { auto *al = cast<llvm::AllocaInst>(&I); x.size = DL->getTypeAllocSize(al->getAllocatedType()); x.o.push_back(mkOp(fi, al->getArraySize())); break; }
      case llvm::Instruction::Load: x.o.push_back(mkOp(fi, I.getOperand(0))); x.size = DL->getTypeStoreSize(t); break;
      case llvm::Instruction::Store: x.o.push_back(mkOp(fi, I.getOperand(0))); x.o.push_back(mkOp(fi, I.getOperand(1))); x.size = DL->getTypeStoreSize(I.getOperand(0)->getType()); x.srcW = tyWidth(I.getOperand(0)->getType()); break;
      case llvm::Instruction::ICmp: case llvm::Instruction::FCmp: x.pred = cast<llvm::CmpInst>(&I)->getPredicate(); x.o.push_back(mkOp(fi, I.getOperand(0))); x.o.push_back(mkOp(fi, I.getOperand(1))); x.srcW = tyWidth(I.getOperand(0)->getType()); break;
      case llvm::Instruction::Call: case llvm::Instruction::Invoke: {
        auto *cb = cast<llvm::CallBase>(&I); for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { OpR r; r.t = 1; r.c = Val::undef(0); x.o.push_back(r); } else x.o.push_back(mkOp(fi, a)); }
        const llvm::Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto *cf = dyn_cast<llvm::Function>(cv)) { x.callee = cf; auto h = handlers.find(cf->getName().str()); if (h != handlers.end()) x.handler = (void *)h->second; } else x.o.push_back(mkOp(fi, cb->getCalledOperand()));
        if (x.op == llvm::Instruction::Invoke) { x.b0 = fi->bbIdx[cast<llvm::InvokeInst>(&I)->getNormalDest()]; }
        break; }
      case llvm::Instruction::ExtractValue: { auto *ev = cast<llvm::ExtractValueInst>(&I); x.o.push_back(mkOp(fi, ev->getAggregateOperand())); for (auto i : ev->indices()) x.idx.push_back(i); break; }
      case llvm::Instruction::InsertValue: { auto *ev = cast<llvm::InsertValueInst>(&I); x.o.push_back(mkOp(fi, ev->getAggregateOperand())); x.o.push_back(mkOp(fi, ev->getInsertedValueOperand())); for (auto i : ev->indices()) x.idx.push_back(i); break; }
      default: for (auto &o : I.operands()) if (!isa<llvm::BasicBlock>(o)) x.o.push_back(mkOp(fi, o)); if (I.getNumOperands()) x.srcW = tyWidth(I.getOperand(0)->getType()); break;
      }
      fi->bb[bi].push_back(std::move(x));
    }
  }
  fi->ready = true; return fi;
}
static inline Val opv(State &s, Frame &f, const OpR &o) {
  switch (o.t) {
  case 0: return f.r[o.slot];
  case 1: return o.c;
  case 2: return Val::conc(valueAddr(s, o.g) + o.off, 64);
  default: return constVal(&s, (const llvm::Constant *)o.g);
  }
}
