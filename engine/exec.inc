// ------------------------------------------------------------------ execution
std::vector<const llvm::Function *> ctorList;
void threadDone(State &s, int th, int on) {
  s.th[th].st = 2;
  if (on == 1) { endMember(s, th); return; }
  if (on == 3 || on == 4) { Mpi &m = mpiW(s); m.nLive--; if (m.nLive == 0) { s.th[m.parent].st = 0; s.th[m.parent].wait = ""; } return; }
}
static void dropAllocas(State &s, Frame &f) { for (u64 id : f.allocas) { ObjP *q = s.mem.slot(id >> 32); q->reset(); } }
static void doReturn(State &s, Thread &T, Val v) {
  Frame &f = T.fr.back(); dropAllocas(s, f); int slot = f.retSlot, on = f.onRet; T.fr.pop_back();
  if (on == 1 || on == 3) { if (T.fr.empty()) { threadDone(s, s.cur, on); } return; }
  if (T.fr.empty()) { T.st = 2; return; }
  if (slot >= 0) T.fr.back().r[slot] = std::move(v);
}
static void jump(State &s, Thread &T, int to) {
  Frame &f = T.fr.back(); int from = f.bb; f.prev = from; f.bb = to; f.pc = 0; int np = f.fn->nphi[to];
  if (np) {
    auto &B = f.fn->bb[to]; Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (np > 64) { big.resize(np); t = big.data(); }
    for (int i = 0; i < np; i++) { auto &ph = B[i]; bool ok = false; for (size_t k = 0; k < ph.blocks.size(); k++) if (ph.blocks[k] == from) { t[i] = opv(s, f, ph.o[k]); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
    for (int i = 0; i < np; i++) f.r[B[i].dst] = std::move(t[i]);
    f.pc = np;
  }
}
static Val loadTy(State &s, u64 addr, llvm::Type *t) {
  if (auto *st = dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, addr + sl->getElementOffset(i), st->getElementType(i))); return Val::aggregate(std::move(v)); }
  if (auto *at = dyn_cast<llvm::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, addr + i * es, at->getElementType())); return Val::aggregate(std::move(v)); }
  if (auto *vt = dyn_cast<llvm::FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(s, addr + i * es, vt->getElementType())); return Val::aggregate(std::move(v)); }
  if (t->isX86_FP80Ty()) throw Unsupported{"long double"};
  return loadMem(s, addr, (unsigned)DL->getTypeStoreSize(t), tyWidth(t));
}
static void storeTy(State &s, u64 addr, llvm::Type *t, const Val &v) {
  if (t->isAggregateType() || t->isVectorTy()) {
    if (v.k == VUndef) return;
    if (auto *st = dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, addr + sl->getElementOffset(i), st->getElementType(i), v.n->agg[i]); return; }
    llvm::Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<llvm::FixedVectorType>(t)->getElementType(); u64 es = DL->getTypeAllocSize(et); for (size_t i = 0; i < v.n->agg.size(); i++) storeTy(s, addr + i * es, et, v.n->agg[i]); return; }
  if (t->isX86_FP80Ty()) throw Unsupported{"long double"};
  storeMem(s, addr, v, (unsigned)DL->getTypeStoreSize(t));
}
static void schedule(State &s) {
  int n = (int)s.th.size();
  if (s.th[s.cur].st == 0) return;
  for (int k = 0; k < n; k++) { int i = s.order == 0 ? k : n - 1 - k; if (s.th[i].st == 0) { s.cur = i; return; } }
  if (s.th[0].st == 2) throw PathEnd();
  std::string m; for (auto &t : s.th) if (t.st == 1 && t.wait != "join" && t.wait != "ranks") m += (t.rank >= 0 ? "rank " + std::to_string(t.rank) : "thread " + std::to_string(t.tid)) + " waits in " + t.wait + "; ";
  for (auto &t : s.th) if (t.st == 2 && t.rank >= 0 && t.team < 0) m += "rank " + std::to_string(t.rank) + " has finished; ";
  for (auto &t : s.th) if (t.st == 1 && t.wait != "join" && t.wait != "ranks") { s.cur = t.id; break; }
  violation(s, "deadlock", "deadlock", "deadlock: " + m); throw PathEnd();
}
static std::vector<Val> argBuf;
// execute one instruction
static void step(State &s) {
  Thread &T = s.th[s.cur]; Frame &f = T.fr.back(); InstI &x = f.fn->bb[f.bb][f.pc]; curI = x.I; nInstr++; s.instr++; f.fn->instr++;
  using I = llvm::Instruction;
  switch (x.op) {
  case I::Add: case I::Sub: case I::Mul: case I::UDiv: case I::SDiv: case I::URem: case I::SRem: case I::Shl: case I::LShr: case I::AShr: case I::And: case I::Or: case I::Xor: {
    Val a = opv(s, f, x.o[0]), b = opv(s, f, x.o[1]); f.r[x.dst] = binop(s, x, a, b); f.pc++; return; }
  case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem: { Val a = opv(s, f, x.o[0]), b = opv(s, f, x.o[1]); if (a.k == VAgg) f.r[x.dst] = binop(s, x, a, b); else f.r[x.dst] = fpBin(s, x.op, a, b, x.w); f.pc++; return; }
  case I::FNeg: { Val a = opv(s, f, x.o[0]); if (a.k == VAgg) { std::vector<Val> v; for (auto &e : a.n->agg) v.push_back(fpNeg(s, e)); f.r[x.dst] = Val::aggregate(std::move(v)); } else f.r[x.dst] = fpNeg(s, a); f.pc++; return; }
  case I::ICmp: { Val a = opv(s, f, x.o[0]), b = opv(s, f, x.o[1]); if (a.k == VAgg) throw Unsupported{"vector compare"}; f.r[x.dst] = icmp(s, x.pred, a, b, x.srcW); f.pc++; return; }
  case I::FCmp: { Val a = opv(s, f, x.o[0]), b = opv(s, f, x.o[1]); if (a.k == VAgg) throw Unsupported{"vector compare"}; f.r[x.dst] = fcmp(s, x.pred, a, b); f.pc++; return; }
  case I::Load: { Val p = opv(s, f, x.o[0]); u64 a = concretize(s, p, "an address"); f.r[x.dst] = x.ty == 3 ? loadTy(s, a, x.I->getType()) : loadMem(s, a, (unsigned)x.size, x.w); f.pc++; return; }
  case I::Store: { Val v = opv(s, f, x.o[0]), p = opv(s, f, x.o[1]); u64 a = concretize(s, p, "an address"); if (x.srcW == 0 || v.k == VAgg) storeTy(s, a, x.I->getOperand(0)->getType(), v); else storeMem(s, a, v, (unsigned)x.size); f.pc++; return; }
  case I::GetElementPtr: {
    Val p = opv(s, f, x.o[0]);
    if (p.k == VConc) { u64 a = p.c + x.gepOff; bool ok = true; for (auto &g : x.gep) { Val i = opv(s, f, g.first); if (i.k != VConc) { ok = false; break; } a += (u64)(sx(i.c, i.w) * g.second); } if (ok) { f.r[x.dst] = Val::conc(a, 64); f.pc++; return; } }
    if (p.k == VAgg) throw Unsupported{"vector gep"};
    if (p.k == VUndef) { f.r[x.dst] = Val::undef(64); f.pc++; return; }
    expr e = toE(p) + Z->bv_val((uint64_t)x.gepOff, 64); bool und = false;
    for (auto &g : x.gep) { Val i = opv(s, f, g.first); if (i.k == VUndef) { und = true; break; } expr k = toE(i); if (i.w < 64) k = z3::sext(k, 64 - i.w); e = e + k * Z->bv_val((uint64_t)g.second, 64); }
    f.r[x.dst] = und ? Val::undef(64) : symVal(simp(e), 64); f.pc++; return; }
  case I::Alloca: { u64 n = concretize(s, opv(s, f, x.o[0]), "an array size") * x.size; u64 a = s.mem.alloc(n, OStack, x.I->hasName() ? x.I->getName().str() : std::string("local in ") + f.fn->f->getName().str()); Obj *o = s.mem.peek(a >> 32); o->proc = T.proc; o->thread = T.id; f.allocas.push_back(a); f.r[x.dst] = Val::conc(a, 64); f.pc++; return; }
  case I::Br: {
    if (x.o.empty()) { jump(s, T, x.b0); return; }
    Val c = opv(s, f, x.o[0]);
    if (c.k == VConc) { jump(s, T, c.c ? x.b0 : x.b1); return; }
    if (c.k == VUndef) fail(s, "uninit", "branch", "branch on an uninitialised value");
    u64 d = concretize(s, c, "a branch"); jump(s, T, d ? x.b0 : x.b1); return; }
  case I::Switch: {
    u64 c = concretize(s, opv(s, f, x.o[0]), "a switch"); for (size_t i = 0; i < x.blocks.size(); i++) if (x.o[i + 1].c.c == c) { jump(s, T, x.blocks[i]); return; } jump(s, T, x.b0); return; }
  case I::Select: { Val c = opv(s, f, x.o[0]), a = opv(s, f, x.o[1]), b = opv(s, f, x.o[2]); if (c.k == VAgg) throw Unsupported{"vector select"}; f.r[x.dst] = selectOp(s, c, a, b, x.w); f.pc++; return; }
  case I::BitCast: case I::PtrToInt: case I::IntToPtr: case I::AddrSpaceCast: case I::Trunc: case I::ZExt: case I::SExt: case I::SIToFP: case I::UIToFP: case I::FPToSI: case I::FPToUI: case I::FPTrunc: case I::FPExt: {
    Val a = opv(s, f, x.o[0]); f.r[x.dst] = castOp(s, x, a); f.pc++; return; }
  case I::Freeze: { Val a = opv(s, f, x.o[0]); if (a.k == VUndef && x.ty == 0) a = symVal(freshBV(x.w), x.w); else if (a.k == VUndef && x.ty == 1) a = fpUF ? Val::mk(VSym, x.w, freshBV(x.w)) : Val::mk(VReal, x.w, freshReal()); f.r[x.dst] = a; f.pc++; return; }
  case I::ExtractValue: { Val a = opv(s, f, x.o[0]); for (unsigned i : x.idx) { if (a.k != VAgg) { a = Val::undef(x.w); break; } Val t = a.n->agg[i]; a = t; } f.r[x.dst] = a; f.pc++; return; }
  case I::InsertValue: {
    Val a = opv(s, f, x.o[0]), v = opv(s, f, x.o[1]);
    std::function<Val(const Val &, size_t, llvm::Type *)> ins = [&](const Val &b, size_t d, llvm::Type *t) -> Val { if (d == x.idx.size()) return v; std::vector<Val> e; if (b.k == VAgg) e = b.n->agg; else { auto *u = llvm::UndefValue::get(t); Val z = constVal(&s, u); e = z.n->agg; } llvm::Type *ct = t->isStructTy() ? t->getStructElementType(x.idx[d]) : t->getArrayElementType(); e[x.idx[d]] = ins(e[x.idx[d]], d + 1, ct); return Val::aggregate(std::move(e)); };
    f.r[x.dst] = ins(a, 0, x.I->getType()); f.pc++; return; }
  case I::ExtractElement: { Val a = opv(s, f, x.o[0]); u64 i = concretize(s, opv(s, f, x.o[1]), "a vector index"); f.r[x.dst] = a.k == VAgg ? a.n->agg[i] : Val::undef(x.w); f.pc++; return; }
  case I::InsertElement: { Val a = opv(s, f, x.o[0]), v = opv(s, f, x.o[1]); u64 i = concretize(s, opv(s, f, x.o[2]), "a vector index"); std::vector<Val> e; if (a.k == VAgg) e = a.n->agg; else { Val z = constVal(&s, llvm::UndefValue::get(x.I->getType())); e = z.n->agg; } e[i] = v; f.r[x.dst] = Val::aggregate(std::move(e)); f.pc++; return; }
  case I::ShuffleVector: { auto *sv = cast<llvm::ShuffleVectorInst>(x.I); Val a = opv(s, f, x.o[0]), b = opv(s, f, x.o[1]); std::vector<Val> e; unsigned n = cast<llvm::FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); u32 ew = tyWidth(cast<llvm::FixedVectorType>(sv->getType())->getElementType()); for (int m : sv->getShuffleMask()) { if (m < 0) e.push_back(Val::undef(ew)); else if ((unsigned)m < n) e.push_back(a.k == VAgg ? a.n->agg[m] : Val::undef(ew)); else e.push_back(b.k == VAgg ? b.n->agg[m - n] : Val::undef(ew)); } f.r[x.dst] = Val::aggregate(std::move(e)); f.pc++; return; }
  case I::Ret: { Val v; if (!x.o.empty()) v = opv(s, f, x.o[0]); doReturn(s, T, std::move(v)); return; }
  case I::Unreachable: fail(s, "abort", "unreachable", "execution reaches code marked unreachable (for example the end of a function that returns no value)");
  case I::Fence: f.pc++; return;
  case I::AtomicRMW: {
    auto *rm = cast<llvm::AtomicRMWInst>(x.I); u64 p = concretize(s, opv(s, f, x.o[0]), "an address"); Val v = opv(s, f, x.o[1]); unsigned n = (unsigned)DL->getTypeStoreSize(v.w ? x.I->getType() : x.I->getType()); u64 sv = T.lock; T.lock = ~0ull; Val old = loadMem(s, p, n, x.w), nv; InstI y; y.I = x.I; y.w = x.w;
    switch (rm->getOperation()) { case llvm::AtomicRMWInst::Add: y.op = I::Add; nv = binop(s, y, old, v); break; case llvm::AtomicRMWInst::Sub: y.op = I::Sub; nv = binop(s, y, old, v); break; case llvm::AtomicRMWInst::Xchg: nv = v; break; case llvm::AtomicRMWInst::FAdd: nv = fpBin(s, I::FAdd, old, v, x.w); break; case llvm::AtomicRMWInst::FSub: nv = fpBin(s, I::FSub, old, v, x.w); break; case llvm::AtomicRMWInst::Or: y.op = I::Or; nv = binop(s, y, old, v); break; case llvm::AtomicRMWInst::And: y.op = I::And; nv = binop(s, y, old, v); break; default: throw Unsupported{"atomic operation"}; }
    storeMem(s, p, nv, n); T.lock = sv; f.r[x.dst] = old; f.pc++; return; }
  case I::AtomicCmpXchg: {
    u64 p = concretize(s, opv(s, f, x.o[0]), "an address"); Val e = opv(s, f, x.o[1]), v = opv(s, f, x.o[2]); u32 w = e.w; unsigned n = w / 8; u64 sv = T.lock; T.lock = ~0ull; Val old = loadMem(s, p, n, w); bool same = (old.k == VReal && e.k == VReal && z3::eq(old.e(), e.e())) || (old.k != VReal && e.k != VReal && concretize(s, icmp(s, llvm::CmpInst::ICMP_EQ, old, e, w), "a compare-exchange")); if (same) storeMem(s, p, v, n); T.lock = sv; f.r[x.dst] = Val::aggregate({old, Val::conc(same, 1)}); f.pc++; return; }
  case I::Call: case I::Invoke: {
    const llvm::Function *cf = x.callee; size_t na = x.o.size(); FI *fi = nullptr; Handler h = (Handler)x.handler;
    if (!cf) { na--; Val fp = opv(s, f, x.o[na]); u64 fa = concretize(s, fp, "a function pointer"); (void)fa; fi = fnAt(s, Val::conc(fa, 64)); cf = fi->f; auto hh = handlers.find(cf->getName().str()); if (hh != handlers.end()) h = hh->second; }
    std::vector<Val> a; a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(opv(s, f, x.o[i]));
    int cur = s.cur; size_t depth = T.fr.size();
    auto advance = [&](Val *r) { Frame &g = s.th[cur].fr[depth - 1]; if (x.op == I::Invoke) { if (r && x.dst >= 0) g.r[x.dst] = *r; Thread &T2 = s.th[cur]; if (T2.fr.size() == depth) jump(s, T2, x.b0); else { /* callee pushed: redirect the caller */ Frame keep = std::move(T2.fr.back()); T2.fr.pop_back(); jump(s, T2, x.b0); T2.fr.push_back(std::move(keep)); } } else { g.pc++; if (r && x.dst >= 0) g.r[x.dst] = *r; } };
    if (h) {
      Val r = Val::undef(x.w); int rc = h(s, T, x, a, r);
      if (rc == 3) return;                       // exit(): frames are gone
      if (s.th[cur].fr.size() >= depth) { Thread &T2 = s.th[cur]; bool store = rc == 0 || rc == 1; if (x.op == I::Invoke && rc == 2) advance(nullptr); else if (rc == 1) { Frame &g = T2.fr[depth - 1]; if (x.dst >= 0) g.r[x.dst] = r; if (x.op == I::Invoke) advance(nullptr); else g.pc++; } else advance(store ? &r : nullptr); }
      return;
    }
    if (cf->isIntrinsic()) { Val r = Val::undef(x.w); bool known; intrinsic(s, T, x, a, r, known); if (!known) throw Unsupported{"intrinsic " + cf->getName().str()}; advance(&r); return; }
    if (cf->isDeclaration()) throw Unsupported{"call of external function " + cf->getName().str()};
    if (!fi) fi = getFI(cf);
    if (T.fr.size() > 3000) fail(s, "abort", "recursion", "unbounded recursion");
    // by-value aggregates
    for (unsigned i = 0; i < cf->arg_size() && i < a.size(); i++) if (cf->getArg(i)->hasByValAttr()) { llvm::Type *bt = cf->getParamByValType(i); u64 n = DL->getTypeAllocSize(bt); Blob b = getBlob(s, a[i].c, n); u64 p = s.mem.alloc(n, OStack, "argument"); Obj *o = s.mem.peek(p >> 32); o->proc = T.proc; o->thread = T.id; putBlob(s, p, b, false); f.allocas.push_back(p); a[i] = Val::conc(p, 64); }
    Frame nf = mkFrame(s, fi, a); nf.retSlot = x.dst;
    advance(nullptr);
    s.th[cur].fr.push_back(std::move(nf)); return; }
  case I::LandingPad: case I::Resume: fail(s, "exception", "landing pad", "exception handling reached");
  case I::VAArg: throw Unsupported{"va_arg"};
  default: throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
  }
}
static volatile sig_atomic_t stopAsked = 0; static double tViol = 0;
static bool outOfTime() { double t = now(); if (!violationsJson.empty()) { if (!tViol) tViol = t; if (t - tViol > 20) return true; } return stopAsked || t - t0 > timeLimit; }
static void runState(SP sp) {
  State &s = *sp; u64 k = 0;
  try {
    for (;;) {
      if (s.th[s.cur].st) schedule(s);
      step(s);
      if (s.th[0].st == 2) { if (maxSamples) samplePath(s); throw PathEnd(); }
      if (((++k) & 0xffff) == 0) { if (outOfTime()) { problems.push_back("time limit reached"); return; } }
      if (s.instr > maxInstr) { problems.push_back("instruction limit reached on a path (" + loc(curI) + ")"); break; }
    }
  } catch (PathEnd &) {
  } catch (Unsupported &u) {
    std::string m = u.m + " at " + loc(curI) + " path: " + s.trail; bool dup = false; for (auto &p : problems) if (p.substr(0, u.m.size()) == u.m) dup = true; if (!dup || problems.size() < 3) problems.push_back(m);
    if (verbose) { fprintf(stderr, "UNSUPPORTED %s\n%s\n", m.c_str(), traceJson(s).c_str()); }
  } catch (z3::exception &e) { problems.push_back(std::string("z3: ") + e.msg() + " at " + loc(curI)); }
  nPaths++;
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: vpsym FILE.bc ENTRY [-p n=v] [-o out.json] [--fp=uf] [--keep-going N] [--time S] [--shard i/n] [--solver-ms N] [-v]\n"); return 2; }
  t0 = now(); std::string file = argv[1]; entryName = argv[2]; std::string repo = "/repo";
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-p") { std::string q = argv[++i]; auto e = q.find('='); params[q.substr(0, e)] = atoll(q.c_str() + e + 1); }
    else if (a == "-o") outPath = argv[++i]; else if (a == "--fp=uf") fpUF = true; else if (a == "--keep-going") { keepGoing = true; maxViol = atoi(argv[++i]); }
    else if (a == "--time") timeLimit = atof(argv[++i]); else if (a == "--max-instr") maxInstr = atoll(argv[++i]); else if (a == "--solver-ms") solverMs = atoi(argv[++i]);
    else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shardI, &shardN); else if (a == "--samples") maxSamples = atoi(argv[++i]); else if (a == "--seed") { sampleRng ^= (u64)atoll(argv[++i]) * 0x9E3779B97F4A7C15ull; if (!sampleRng) sampleRng = 1; }
    else if (a == "-v") verbose = true; else if (a == "--repo") repo = argv[++i];
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  signal(SIGTERM, [](int) { stopAsked = 1; });
  z3::set_param("memory_max_size", 3500);
  Z = new z3::context(); vsCache = new std::unordered_map<unsigned, std::pair<expr, VarSet>>(); qCache = new std::unordered_map<CKey, std::pair<R, std::vector<expr>>, CHash>();
  rbits64 = new z3::func_decl(Z->function("real_bits64", Z->real_sort(), Z->bv_sort(64))); rbits32 = new z3::func_decl(Z->function("real_bits32", Z->real_sort(), Z->bv_sort(32)));
  somP = new z3::params(*Z); somP->set("som", true); somP->set("som_blowup", 1000000u); somP->set("arith_lhs", false);
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; M = llvm::parseIRFile(file, err, ctx); if (!M) { err.print("vpsym", llvm::errs()); return 2; }
  DL = &M->getDataLayout(); regOmp(); regMpi(); regLib();
  const llvm::Function *ef = M->getFunction(entryName); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 2; }
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<llvm::ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, const llvm::Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<llvm::ConstantStruct>(o); if (auto *cf = dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), cf}); } std::stable_sort(v.begin(), v.end(), [](auto &p, auto &q) { return p.first < q.first; }); for (auto &p : v) ctorList.push_back(p.second); }
  {
    SP s(new State); s->glob = std::make_shared<std::map<std::pair<int, const llvm::GlobalVariable *>, u64>>();
    Thread T; Frame f; f.fn = getFI(ef); f.r.resize(f.fn->nslots); f.fn->calls++; T.fr.push_back(std::move(f));
    for (size_t i = ctorList.size(); i-- > 0;) { Frame g; g.fn = getFI(ctorList[i]); g.r.resize(g.fn->nslots); T.fr.push_back(std::move(g)); }
    s->th.push_back(std::move(T)); work.push_back(std::move(s));
  }
  try {
    while (!work.empty()) {
      if ((int)violationsJson.size() >= maxViol) break;
      if (outOfTime()) { problems.push_back("time limit reached with " + std::to_string(work.size()) + " paths left"); break; }
      SP s = std::move(work.back()); work.pop_back(); runState(std::move(s));
    }
  } catch (std::bad_alloc &) { problems.push_back("out of memory"); }
  std::string status = !violationsJson.empty() ? "violation" : !problems.empty() ? "inconclusive" : "ok";
  std::ostringstream o; o << "{\"status\":\"" << status << "\",\"entry\":\"" << jesc(entryName) << "\",\"params\":{"; bool first = true; for (auto &p : params) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  o << "},\"fp\":\"" << (fpUF ? "uf" : "real") << "\",\"paths\":" << nPaths << ",\"stopped\":" << nStopped << ",\"skipped\":" << nSkipped << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown << ",\"integer_encoding\":" << nAsInt << ",\"query_cache_hits\":" << nCacheHits << ",\"solver_s\":" << tSolver << ",\"asserts\":" << nAsserts << ",\"asserts_solver\":" << nAssertSolver << ",\"asserts_rewritten\":" << nAssertRewrite << ",\"asserts_concrete\":" << nAssertTrivial << ",\"race_checks\":" << nRaceChecks << ",\"regions\":" << nRegions << ",\"mpi_ops\":" << nMpiOps << ",\"wall_s\":" << now() - t0;
  o << ",\"covers\":{"; first = true; for (auto &c : covers) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  o << "},\"labels\":{"; first = true; for (auto &c : assertLabels) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  o << "},\"functions\":{"; first = true; for (auto &p : fis) if (p.second->instr && p.second->file.compare(0, repo.size(), repo) == 0) { o << (first ? "" : ",") << "\"" << jesc(p.second->f->getName().str()) << "\":" << p.second->instr; first = false; }
  o << "},\"problems\":["; first = true; for (auto &p : problems) { o << (first ? "" : ",") << "\"" << jesc(p) << "\""; first = false; }
  o << "],\"samples\":["; first = true; for (auto &p : samplesJson) { o << (first ? "" : ",") << p; first = false; }
  o << "],\"violations\":["; first = true; for (auto &p : violationsJson) { o << (first ? "" : ",") << p; first = false; } o << "]}\n";
  if (outPath.empty()) std::cout << o.str(); else { std::ofstream of(outPath); of << o.str(); }
  std::cout.flush(); _exit(status == "ok" ? 0 : status == "violation" ? 1 : 3);
}
