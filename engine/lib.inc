// ------------------------------------------------------------------ harness interface and library calls
static std::string readStr(State &s, u64 p) { std::string r; for (;;) { Obj *o = access(s, p, 1, false); u64 off = p & 0xffffffffu; if (o->st[off] != 1) throw Unsupported{"symbolic text where a constant string is needed"}; if (!o->b[off]) return r; r += (char)o->b[off]; p++; } }
static void addInput(State &s, const std::string &n, const Val &v, char k) { if (s.inIdx.count(n)) return; s.inIdx[n] = s.in.size(); s.in.push_back({n, v, k}); }
static std::string keyOf(const std::string &n, i64 i) { return n + "[" + std::to_string(i) + "]"; }
static Val mkReal(State &s, const std::string &n) {
  auto it = s.inIdx.find(n); if (it != s.inIdx.end()) return s.in[it->second].v;
  Val v = fpUF ? Val::mk(VSym, 64, Z->bv_const(n.c_str(), 64)) : Val::mk(VReal, 64, Z->real_const(n.c_str())); addInput(s, n, v, 'r'); return v; }
static Val mkInt(State &s, const std::string &n, i64 lo, i64 hi) {
  auto it = s.inIdx.find(n); if (it != s.inIdx.end()) return s.in[it->second].v;
  expr e = Z->bv_const(n.c_str(), 64); if (lo > INT64_MIN) addC(s, e >= Z->bv_val((int64_t)lo, 64)); if (hi < INT64_MAX) addC(s, e <= Z->bv_val((int64_t)hi, 64));
  if (lo >= 0) s.ub[Z3_get_ast_id(*Z, e)] = (u64)hi; s.sr[Z3_get_ast_id(*Z, e)] = {lo, hi}; Val v = Val::mk(VSym, 64, e); if (lo == hi) v = Val::conc((u64)lo, 64); addInput(s, n, v, 'i'); return v; }
static void hashIn(State &s, u64 v) { s.choiceHash = (s.choiceHash ^ v) * 1099511628211ull; s.choiceHash ^= s.choiceHash >> 29; }
MH(vParam) { std::string n = readStr(s, a[0].c); auto it = params.find(n); r = Val::conc(it == params.end() ? a[1].c : (u64)it->second, 64); return 0; }
MH(vInt) { r = mkInt(s, readStr(s, a[0].c), (i64)a[1].c, (i64)a[2].c); return 0; }
MH(vIntI) { r = mkInt(s, keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "an input index")), (i64)a[2].c, (i64)a[3].c); return 0; }
static int forkRange(State &s, const std::string &n, i64 lo, i64 hi, Val &r) {
  auto it = s.inIdx.find(n); if (it != s.inIdx.end()) { r = s.in[it->second].v; return 0; }
  if (lo > hi) throw PathEnd();
  for (i64 v = hi; v > lo; v--) { SP o = forkState(s); Val c = Val::conc((u64)v, 64); addInput(*o, n, c, 'i'); o->trail += n + "=" + std::to_string(v) + " "; hashIn(*o, (u64)v + 77); pushWork(std::move(o)); }
  r = Val::conc((u64)lo, 64); addInput(s, n, r, 'i'); s.trail += n + "=" + std::to_string(lo) + " "; hashIn(s, (u64)lo + 77); return 0;
}
MH(vFork) { return forkRange(s, readStr(s, a[0].c), (i64)concretize(s, a[1], "a range"), (i64)concretize(s, a[2], "a range"), r); }
MH(vForkI) { return forkRange(s, keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "an input index")), (i64)concretize(s, a[2], "a range"), (i64)concretize(s, a[3], "a range"), r); }
MH(vReal) { r = mkReal(s, readStr(s, a[0].c)); return 0; }
MH(vRealI) { r = mkReal(s, keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "an input index"))); return 0; }
MH(vBytes) { u64 n = concretize(s, a[1], "a size"); std::string nm = readStr(s, a[2].c); for (u64 i = 0; i < n; i++) { std::string k = keyOf(nm, (i64)i); Val v; auto it = s.inIdx.find(k); if (it != s.inIdx.end()) v = s.in[it->second].v; else { v = Val::mk(VSym, 8, Z->bv_const(k.c_str(), 8)); addInput(s, k, v, 'u'); } storeMem(s, a[0].c + i, v, 1); } return 0; }
MH(vAssume) {
  if (a[0].k == VUndef) fail(s, "uninit", "assume", "assumption on an uninitialised value");
  if (a[0].k == VConc) { if (!a[0].c) { nStopped++; throw PathEnd(); } return 0; }
  expr c = a[0].w == 1 ? a[0].e() : simp(a[0].e() != Z->bv_val(0, a[0].w)); int d = decide(s, c); if (d < 0) { addC(s, c); return 0; } if (d == 0) { nStopped++; throw PathEnd(); } if (d == 2) addC(s, c); return 0; }
static void doAssert(State &s, const expr &c0, const std::string &label, const std::string &msg, const std::vector<expr> *nice = nullptr) {
  nAsserts++; assertLabels[label]++;
  expr c = simp(c0); if (c.is_true()) { nAssertRewrite++; return; }
  expr n = simp(!c); R q = n.is_true() ? SAT : solve(s, n);
  nAssertSolver++;
  if (q == UNSAT) return;
  if (q == UNKNOWN) { problems.push_back("no answer from the solver for assertion " + label); throw PathEnd(); }
  violation(s, "assert", label, msg, &n, nice); throw PathEnd();
}
MH(vAssert) {
  std::string l = readStr(s, a[1].c);
  if (a[0].k == VUndef) fail(s, "uninit", l, "asserted value is uninitialised");
  if (a[0].k == VConc) { nAsserts++; nAssertTrivial++; assertLabels[l]++; if (!a[0].c) fail(s, "assert", l, "assertion fails: " + l); return 0; }
  doAssert(s, a[0].w == 1 ? a[0].e() : a[0].e() != Z->bv_val(0, a[0].w), l, "assertion fails: " + l); return 0; }
static std::vector<expr> niceC(State &s) { std::vector<expr> v; for (auto &i : s.in) if (i.v.k == VReal) { v.push_back(i.v.e() <= Z->real_val(8)); v.push_back(i.v.e() >= Z->real_val(-8)); } return v; }
static std::string short_(const Val &v) { if (v.k == VConc) { char b[40]; snprintf(b, 40, "%.10g", fpOf(v)); return b; } if (v.k == VUndef) return "uninitialised"; std::string t = simp(v.e()).to_string(); if (t.size() > 400) t = t.substr(0, 400) + "..."; for (auto &c : t) if (c == '\n') c = ' '; return t; }
static int cmpAssert(State &s, const Val &p0, const Val &q0, const std::string &l, bool le) {
  if (p0.k == VUndef || q0.k == VUndef) fail(s, "uninit", l, "asserted value is uninitialised");
  if (p0.k == VConc && q0.k == VConc) { double p = fpOf(p0), q = fpOf(q0); nAsserts++; nAssertTrivial++; assertLabels[l]++; if (!(le ? p <= q : p == q)) fail(s, "assert", l, l + ": " + short_(p0) + (le ? " > " : " != ") + short_(q0)); return 0; }
  if (fpUF) { expr p = toE(p0), q = toE(q0); doAssert(s, p == q, l, l + ": values differ bit for bit"); return 0; }
  for (auto *v : {&p0, &q0}) if (v->k == VConc && !std::isfinite(fpOf(*v))) fail(s, "assert", l, l + ": value is not finite");
  expr p = toReal(p0), q = toReal(q0), d = simpSom(p - q);
  if (d.is_numeral()) { nAsserts++; assertLabels[l]++; nAssertRewrite++; bool ok = le ? simp(d <= 0).is_true() : simp(d == 0).is_true(); if (ok) return 0; violation(s, "assert", l, l + ": " + short_(p0) + (le ? " > " : " != ") + short_(q0)); throw PathEnd(); }
  std::vector<expr> nice = niceC(s); nice.push_back(le ? d >= Z->real_val("1/8") : (d >= Z->real_val("1/8") || d <= Z->real_val("-1/8")));
  doAssert(s, le ? d <= Z->real_val(0) : d == Z->real_val(0), l, l + ": " + short_(p0) + (le ? " > " : " != ") + short_(q0), &nice); return 0;
}
MH(vEq) { return cmpAssert(s, a[0], a[1], readStr(s, a[2].c), false); }
MH(vLe) { return cmpAssert(s, a[0], a[1], readStr(s, a[2].c), true); }
// exact identity of two values, as a question (used to recognise values); true only if equal on every continuation
MH(vIsEq) {
  if (a[0].k == VUndef || a[1].k == VUndef) { r = Val::conc(0, 32); return 0; }
  if (a[0].k == VConc && a[1].k == VConc) { r = Val::conc(fpOf(a[0]) == fpOf(a[1]), 32); return 0; }
  if (fpUF) { r = Val::conc(z3::eq(toE(a[0]), toE(a[1])), 32); return 0; }
  expr d = simpSom(toReal(a[0]) - toReal(a[1])); if (d.is_numeral()) { r = Val::conc(simp(d == 0).is_true(), 32); return 0; } r = Val::conc(solve(s, d != Z->real_val(0)) == UNSAT, 32); return 0; }
MH(vCover) { covers[readStr(s, a[0].c)]++; return 0; }
MH(vUnsup) { throw Unsupported{readStr(s, a[0].c)}; }
MH(vStop) { nStopped++; throw PathEnd(); }
MH(vFail) { std::string l = readStr(s, a[0].c); nAsserts++; assertLabels[l]++; fail(s, "assert", l, "unexpected: " + l); }
MH(vSymbolic) { r = Val::conc(1, 32); return 0; }
MH(vRank) { r = Val::conc(T.rank < 0 ? 0 : T.rank, 32); return 0; }
MH(vPut) { s.rec[keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "a key"))] = a[2]; return 0; }
MH(vGet) { auto k = keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "a key")); auto it = s.rec.find(k); if (it == s.rec.end()) fail(s, "assert", "missing value " + k, "no value was produced for " + k); r = it->second; return 0; }
MH(vHas) { auto k = keyOf(readStr(s, a[0].c), (i64)concretize(s, a[1], "a key")); r = Val::conc(s.rec.count(k), 32); return 0; }
MH(vOmp) { s.ompN = (int)concretize(s, a[0], "a thread count"); return 0; }
MH(vOrder) { s.order = (int)concretize(s, a[0], "an order"); return 0; }
MH(vRacePush) { r = Val::conc(s.raceOff, 32); s.raceOff = a[0].c != 0; return 0; }
MH(vIsConst) { r = Val::conc(a[0].k == VConc, 32); return 0; }
MH(vRaceOff) { s.raceOff = a[0].c != 0; return 0; }
MH(vSpike) { // vp_find_spike(n, out, max): heap blocks of exactly n doubles holding 1,0,0,...
  u64 n = concretize(s, a[0], "a size"), mx = a[2].c, k = 0; int proc = T.proc;
  for (u64 i = 1; i < s.mem.next; i++) { Obj *o = s.mem.peek(i); if (!o || o->freed || o->kind != OHeap || o->proc != proc || o->size != n * 8) continue; bool ok = o->cells.empty(); for (u64 j = 0; ok && j < o->size; j++) if (o->st[j] != 1) ok = false;
    for (u64 j = 0; ok && j < n; j++) { double d; memcpy(&d, &o->b[j * 8], 8); if (d != (j == 0 ? 1.0 : 0.0)) ok = false; }
    if (ok && k < mx) { storeMem(s, a[1].c + 8 * k, Val::conc(i << 32, 64), 8); k++; } }
  r = Val::conc(k, 32); return 0; }
MH(vBlocks) { u64 n = 0; for (u64 i = 1; i < s.mem.next; i++) { Obj *o = s.mem.peek(i); if (o && !o->freed && o->kind == OHeap && o->proc == T.proc) n++; } r = Val::conc(n, 64); return 0; }
MH(vShard) { if (shardN > 1 && (int)(s.choiceHash % shardN) != shardI) { nSkipped++; throw PathEnd(); } return 0; }
MH(vRunMain) { FI *fi = fnAt(s, a[0]); std::vector<Val> v; if (fi->f->arg_size() >= 2) { v.push_back(Val::conc(concretize(s, a[1], "argc"), 32)); v.push_back(a[2]); } Frame f = mkFrame(s, fi, v); f.onRet = 2; f.retSlot = x.dst; f.retW = 32; T.fr.push_back(std::move(f)); return 2; }
MH(vLog) { fprintf(stderr, "[log] %s %s\n", readStr(s, a[0].c).c_str(), a[1].k == VConc ? std::to_string((i64)a[1].c).c_str() : short_(a[1]).c_str()); return 0; }
MH(vLogD) { fprintf(stderr, "[log] %s %s\n", readStr(s, a[0].c).c_str(), short_(a[1]).c_str()); return 0; }
// ---- C library
MH(hMalloc) { r = Val::conc(mallocObj(s, concretize(s, a[0], "an allocation size"), "malloc", 1), 64); return 0; }
MH(hCalloc) { u64 n = concretize(s, a[0], "an allocation size") * concretize(s, a[1], "an allocation size"); u64 p = mallocObj(s, n, "calloc", 1); Obj *o = s.mem.writable(p >> 32); std::fill(o->st.begin(), o->st.end(), 1); r = Val::conc(p, 64); return 0; }
MH(hFree) { freeObj(s, concretize(s, a[0], "a pointer"), 1); return 0; }
MH(hRealloc) { u64 p = concretize(s, a[0], "a pointer"), n = concretize(s, a[1], "an allocation size"); u64 q = mallocObj(s, n, "realloc", 1); if (p) { Obj *o = access(s, p, 0, false); u64 c = std::min<u64>(n, o->size); Blob b = getBlob(s, p, c); putBlob(s, q, b); freeObj(s, p, 1); } r = Val::conc(q, 64); return 0; }
MH(hNew) { r = Val::conc(mallocObj(s, concretize(s, a[0], "an allocation size"), "new", 2), 64); return 0; }
MH(hNewA) { r = Val::conc(mallocObj(s, concretize(s, a[0], "an allocation size"), "new[]", 3), 64); return 0; }
MH(hDel) { freeObj(s, concretize(s, a[0], "a pointer"), 2); return 0; }
MH(hDelA) { freeObj(s, concretize(s, a[0], "a pointer"), 3); return 0; }
MH(hMemcpy) { u64 n = concretize(s, a[2], "a copy length"), d = concretize(s, a[0], "a pointer"), q = concretize(s, a[1], "a pointer"); if (n) { Blob b = getBlob(s, q, n); putBlob(s, d, b); } if (x.dst >= 0) r = Val::conc(d, 64); return 0; }
MH(hMemset) { u64 n = concretize(s, a[2], "a length"), d = concretize(s, a[0], "a pointer"); if (n) { Val v = a[1]; if (v.w > 8) { InstI y = x; y.op = Instruction::Trunc; y.w = 8; y.srcW = v.w; v = castOp(s, y, v); } Obj *o = access(s, d, n, true); note(s, o, d, n, true); u64 off = d & 0xffffffffu; clearCells(o, off, n); if (v.k == VConc) for (u64 i = 0; i < n; i++) { o->b[off + i] = (u8)v.c; o->st[off + i] = 1; } else for (u64 i = 0; i < n; i++) rawStore(o, off + i, v, 1); } if (x.dst >= 0) r = Val::conc(d, 64); return 0; }
MH(hThrow) { fail(s, "exception", x.callee ? x.callee->getName().str() : "throw", "uncaught exception: " + (x.callee ? x.callee->getName().str() : std::string("throw"))); }
MH(hUnreach) { fail(s, "abort", "terminate", "the program aborts"); }
MH(hExit) {
  Val code = a.size() ? a[0] : Val::conc(134, 32);
  while (!T.fr.empty() && T.fr.back().onRet != 2 && T.fr.back().onRet != 3 && T.fr.back().onRet != 1) { for (u64 id : T.fr.back().allocas) { ObjP *q = s.mem.slot(id >> 32); q->reset(); } T.fr.pop_back(); }
  if (T.fr.empty()) throw PathEnd();
  // leave the boundary frame: behave as a return of the code
  Frame &f = T.fr.back(); if (f.onRet == 3) { f.onRet = 4; }
  for (u64 id : f.allocas) { ObjP *q = s.mem.slot(id >> 32); q->reset(); }
  int slot = f.retSlot, on = f.onRet; T.fr.pop_back();
  if (on == 2 && slot >= 0) { Val v = code; T.fr.back().r[slot] = v.w == 32 ? v : Val::conc(v.c, 32); }
  if (T.fr.empty()) { T.st = 2; extern void threadDone(State &, int, int); threadDone(s, s.cur, on); }
  return 3; }
MH(hMath1sin) { r = fpUn(s, "sin", a[0], sin); return 0; } MH(hMath1cos) { r = fpUn(s, "cos", a[0], cos); return 0; } MH(hMath1exp) { r = fpUn(s, "exp", a[0], exp); return 0; } MH(hMath1log) { r = fpUn(s, "log", a[0], log); return 0; }
MH(hSqrt) { r = fpSqrt(s, a[0]); return 0; } MH(hFabs) { r = fpAbs(s, a[0]); return 0; }
MH(hPow) { if (a[1].k == VConc) { double e = fpOf(a[1]); if (e == 0.5) { r = fpSqrt(s, a[0]); return 0; } if (e == (int)e && e >= 0 && e <= 16) { Val v = fpConc(1, a[0].w); for (int i = 0; i < (int)e; i++) v = fpBin(s, Instruction::FMul, v, a[0], a[0].w); r = v; return 0; } } if (a[0].isC() && a[1].isC()) { r = fpConc(pow(fpOf(a[0]), fpOf(a[1])), 64); return 0; } throw Unsupported{"pow with a symbolic exponent"}; }
static Val minmax(State &s, const Val &p, const Val &q, bool mn) { if (p.k == VUndef || q.k == VUndef) return p.k == VUndef ? q : p; if (p.isC() && q.isC()) return fpConc(mn ? fmin(fpOf(p), fpOf(q)) : fmax(fpOf(p), fpOf(q)), p.w); Val c = fcmp(s, mn ? llvm::CmpInst::FCMP_OLT : llvm::CmpInst::FCMP_OGT, p, q); return selectOp(s, c, p, q, p.w); }
MH(hFmin) { r = minmax(s, a[0], a[1], true); return 0; } MH(hFmax) { r = minmax(s, a[0], a[1], false); return 0; }
static Val roundV(State &s, const Val &v, double (*fn)(double)) { if (v.isC()) return fpConc(fn(fpOf(v)), v.w); if (v.k == VSym) throw Unsupported{"rounding in bitwise mode"}; expr e = simp(toReal(v)); if (!e.is_numeral()) throw Unsupported{"rounding a symbolic value"}; double d; bool ex; ratToDouble(e, d, &ex); return fpConc(fn(d), v.w); }
MH(hFloor) { r = roundV(s, a[0], floor); return 0; } MH(hCeil) { r = roundV(s, a[0], ceil); return 0; } MH(hRound) { r = roundV(s, a[0], round); return 0; } MH(hTrunc) { r = roundV(s, a[0], trunc); return 0; }
MH(hAtof) { // text to number: exact for constant text, an uninterpreted function of the bytes otherwise
  u64 p = concretize(s, a[0], "a pointer"); std::string t; bool sym = false; std::vector<Val> by;
  for (u64 q = p;; q++) { Val v = loadMem(s, q, 1, 8); if (v.k == VUndef) fail(s, "uninit", "atof", "text is uninitialised"); if (v.k == VConc) { if (!v.c) break; t += (char)v.c; } else { sym = true; if (concretize(s, symVal(simp(v.e() == Z->bv_val(0, 8)), 1), "end of text")) break; } by.push_back(v); }
  if (!sym) { r = fpConc(atof(t.c_str()), 64); return 0; }
  z3::sort_vector d(*Z); z3::expr_vector av(*Z); for (auto &v : by) { d.push_back(Z->bv_sort(8)); av.push_back(toE(v)); }
  r = Val::mk(VReal, 64, Z->function(("u_atof" + std::to_string(by.size())).c_str(), d, Z->real_sort())(av)); return 0; }
// llvm intrinsics with overflow etc.
static int intrinsic(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r, bool &known) {
  auto *ii = cast<llvm::IntrinsicInst>(x.I); using namespace llvm; known = true;
  auto id = ii->getIntrinsicID();
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return hMemcpy(s, T, x, a, r);
  case Intrinsic::memset: return hMemset(s, T, x, a, r);
  case Intrinsic::fabs: if (a[0].k == VAgg) { std::vector<Val> v; for (auto &e : a[0].n->agg) v.push_back(fpAbs(s, e)); r = Val::aggregate(std::move(v)); } else r = fpAbs(s, a[0]); return 0;
  case Intrinsic::sqrt: r = fpSqrt(s, a[0]); return 0;
  case Intrinsic::sin: return hMath1sin(s, T, x, a, r); case Intrinsic::cos: return hMath1cos(s, T, x, a, r); case Intrinsic::exp: return hMath1exp(s, T, x, a, r); case Intrinsic::log: return hMath1log(s, T, x, a, r); case Intrinsic::pow: return hPow(s, T, x, a, r);
  case Intrinsic::powi: { Val e = a[1]; if (!e.isC()) throw Unsupported{"powi"}; int k = (int)sx(e.c, e.w); std::vector<Val> b{a[0], fpConc(k, 64)}; return hPow(s, T, x, b, r); }
  case Intrinsic::floor: return hFloor(s, T, x, a, r); case Intrinsic::ceil: return hCeil(s, T, x, a, r); case Intrinsic::round: return hRound(s, T, x, a, r); case Intrinsic::trunc: return hTrunc(s, T, x, a, r); case Intrinsic::rint: case Intrinsic::nearbyint: r = roundV(s, a[0], nearbyint); return 0;
  case Intrinsic::minnum: case Intrinsic::minimum: return hFmin(s, T, x, a, r); case Intrinsic::maxnum: case Intrinsic::maximum: return hFmax(s, T, x, a, r);
  case Intrinsic::fmuladd: case Intrinsic::fma: r = fpBin(s, Instruction::FAdd, fpBin(s, Instruction::FMul, a[0], a[1], x.w), a[2], x.w); return 0;
  case Intrinsic::copysign: if (a[0].isC() && a[1].isC()) { r = fpConc(copysign(fpOf(a[0]), fpOf(a[1])), x.w); return 0; } { Val m = fpAbs(s, a[0]); Val c = fcmp(s, CmpInst::FCMP_OLT, a[1], fpConc(0, x.w)); r = selectOp(s, c, fpNeg(s, m), m, x.w); return 0; }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Val c = icmp(s, id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT, a[0], a[1], x.w); r = selectOp(s, c, a[0], a[1], x.w); return 0; }
  case Intrinsic::abs: { Val z = Val::conc(0, x.w); Val c = icmp(s, CmpInst::ICMP_SLT, a[0], z, x.w); InstI y = x; y.op = Instruction::Sub; r = selectOp(s, c, binop(s, y, z, a[0]), a[0], x.w); return 0; }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    u32 w = a[0].w; bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow; char op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? '*' : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? '+' : '-';
    Val res, ov;
    if (a[0].isC() && a[1].isC()) { __int128 p = sg ? (__int128)sx(a[0].c, w) : (__int128)a[0].c, q = sg ? (__int128)sx(a[1].c, w) : (__int128)a[1].c; __int128 v = op == '*' ? p * q : op == '+' ? p + q : p - q; if (op == '*' && !sg) { unsigned __int128 uv = (unsigned __int128)a[0].c * a[1].c; ov = Val::conc(w == 64 ? (uv >> 64) != 0 : (uv >> w) != 0, 1); res = Val::conc((u64)uv, w); } else { __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; ov = Val::conc(v < lo || v > hi, 1); res = Val::conc((u64)v, w); } }
    else { expr p = toE(a[0]), q = toE(a[1]); unsigned ew = op == '*' ? 2 * w : w + 2; expr P = sg ? z3::sext(p, ew - w) : z3::zext(p, ew - w), Q = sg ? z3::sext(q, ew - w) : z3::zext(q, ew - w); expr v = op == '*' ? P * Q : op == '+' ? P + Q : P - Q; expr t = v.extract(w - 1, 0); res = symVal(simp(t), w); ov = symVal(simp((sg ? z3::sext(t, ew - w) : z3::zext(t, ew - w)) != v), 1); }
    r = Val::aggregate({res, ov}); return 0; }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: r = a[0]; return 0;
  case Intrinsic::objectsize: r = Val::conc(~0ull, x.w); return 0;
  case Intrinsic::is_constant: r = Val::conc(0, 1); return 0;
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { u64 c = concretize(s, a[0], "a bit count"); u32 w = a[0].w; int n = 0; if (id == Intrinsic::ctpop) n = __builtin_popcountll(c); else if (id == Intrinsic::ctlz) { for (int i = w - 1; i >= 0 && !((c >> i) & 1); i--) n++; } else { for (u32 i = 0; i < w && !((c >> i) & 1); i++) n++; } r = Val::conc(n, x.w); return 0; }
  case Intrinsic::bswap: { u64 c = concretize(s, a[0], "a byte swap"); u64 o = 0; for (u32 i = 0; i < x.w / 8; i++) o |= ((c >> (8 * i)) & 255) << (x.w - 8 - 8 * i); r = Val::conc(o, x.w); return 0; }
  case Intrinsic::fshl: case Intrinsic::fshr: { if (a[0].isC() && a[1].isC() && a[2].isC()) { u32 w = x.w; u64 k = a[2].c % w; u64 v; if (id == Intrinsic::fshl) v = k ? (a[0].c << k) | (a[1].c >> (w - k)) : a[0].c; else v = k ? (a[1].c >> k) | (a[0].c << (w - k)) : a[1].c; r = Val::conc(v, w); return 0; } break; }
  case Intrinsic::stacksave: r = Val::conc(0, 64); return 0;
  case Intrinsic::stackrestore: return 0;
  case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "abort", "trap", "the program traps");
  case Intrinsic::is_fpclass: { if (a[0].isC()) { double d = fpOf(a[0]); u64 m = a[1].c; bool v = false; if (std::isnan(d)) v = m & 3; else if (std::isinf(d)) v = d < 0 ? (m >> 2) & 1 : (m >> 9) & 1; else if (d == 0) v = std::signbit(d) ? (m >> 5) & 1 : (m >> 6) & 1; else v = d < 0 ? (m >> 3) & 3 : (m >> 7) & 3; r = Val::conc(v, 1); return 0; } if ((a[1].c & 0x1f8) == 0) { r = Val::conc(0, 1); return 0; } if ((a[1].c & 0x1f8) == 0x1f8) { r = Val::conc(1, 1); return 0; } break; }
  case Intrinsic::vastart: { // every variable argument in the overflow area
    Frame &f = T.fr.back(); u64 n = f.va.size(), q = s.mem.alloc(n ? 8 * n : 8, OStack, "variable arguments"); Obj *o = s.mem.peek(q >> 32); o->proc = T.proc; o->thread = T.id; f.allocas.push_back(q);
    for (u64 i = 0; i < n; i++) { Val v = f.va[i]; unsigned w = v.k == VReal ? 8 : std::max(1u, v.w / 8); if (w > 8) throw Unsupported{"a wide variable argument"}; storeMem(s, q + 8 * i, v, w); }
    u64 l = concretize(s, a[0], "a pointer"); storeMem(s, l, Val::conc(48, 32), 4); storeMem(s, l + 4, Val::conc(176, 32), 4); storeMem(s, l + 8, Val::conc(q, 64), 8); storeMem(s, l + 16, Val::conc(0, 64), 8); return 0; }
  case Intrinsic::vaend: return 0;
  case Intrinsic::vacopy: { std::vector<Val> b{a[0], a[1], Val::conc(24, 64), Val::conc(0, 1)}; return hMemcpy(s, T, x, b, r); }
  case Intrinsic::eh_typeid_for: r = Val::conc(1, 32); return 0;
  default: break;
  }
  if (ii->getCalledFunction()->getName().starts_with("llvm.vector.reduce.fadd")) { Val acc = a[0]; for (auto &e : a[1].n->agg) acc = fpBin(s, Instruction::FAdd, acc, e, x.w); r = acc; return 0; }
  known = false; return 0;
}
static void regLib() {
  auto &h = handlers;
  h["vp_param"] = vParam; h["vp_int"] = vInt; h["vp_int_i"] = vIntI; h["vp_fork"] = vFork; h["vp_fork_i"] = vForkI; h["vp_real"] = vReal; h["vp_real_i"] = vRealI; h["vp_bytes"] = vBytes; h["vp_assume"] = vAssume; h["vp_assert"] = vAssert; h["vp_eq"] = vEq; h["vp_le"] = vLe; h["vp_is_eq"] = vIsEq; h["vp_cover"] = vCover; h["vp_stop"] = vStop; h["vp_unsupported"] = vUnsup; h["vp_fail"] = vFail; h["vp_symbolic"] = vSymbolic; h["vp_rank"] = vRank; h["vp_put"] = vPut; h["vp_get"] = vGet; h["vp_has"] = vHas; h["vp_omp"] = vOmp; h["vp_order"] = vOrder; h["vp_race_off"] = vRaceOff; h["vp_race_push"] = vRacePush; h["vp_isconst"] = vIsConst; h["vp_find_spike"] = vSpike; h["vp_heap_blocks"] = vBlocks; h["vp_shard"] = vShard; h["vp_run_main"] = vRunMain; h["vp_log"] = vLog; h["vp_log_d"] = vLogD;
  h["malloc"] = hMalloc; h["calloc"] = hCalloc; h["free"] = hFree; h["realloc"] = hRealloc;
  for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) h[n] = hNew; for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) h[n] = hNewA;
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) h[n] = hDel; for (auto n : {"_ZdaPv", "_ZdaPvm"}) h[n] = hDelA;
  for (auto n : {"memcpy", "memmove"}) h[n] = hMemcpy; h["memset"] = hMemset;
  for (auto n : {"__cxa_throw", "__cxa_rethrow", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt16__throw_bad_castv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt25__throw_bad_function_callv", "_ZSt21__throw_runtime_errorPKc"}) h[n] = hThrow;
  for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) h[n] = hUnreach;
  for (auto n : {"exit", "_exit", "quick_exit"}) h[n] = hExit;
  for (auto n : {"__cxa_atexit", "atexit", "__cxa_finalize"}) h[n] = hNop;
  h["sin"] = hMath1sin; h["cos"] = hMath1cos; h["exp"] = hMath1exp; h["log"] = hMath1log; h["sqrt"] = hSqrt; h["sqrtf"] = hSqrt; h["fabs"] = hFabs; h["fabsf"] = hFabs; h["pow"] = hPow; h["fmin"] = hFmin; h["fmax"] = hFmax; h["floor"] = hFloor; h["ceil"] = hCeil; h["round"] = hRound; h["trunc"] = hTrunc; h["atof"] = hAtof;
}
