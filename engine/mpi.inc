// ------------------------------------------------------------------ MPI
// Handles (see stubs/include/mpi.h): datatypes encode their size in the low byte.
enum { OP_SUM = 1, OP_MIN, OP_MAX, OP_PROD };
enum { M_NOCHECK = 1, M_NOPRECEDE = 2, M_NOPUT = 4, M_NOSTORE = 8, M_NOSUCCEED = 16 };
static Mpi &mpiW(State &s) { if (s.mpi.use_count() > 1) s.mpi = std::make_shared<Mpi>(*s.mpi); return *s.mpi; }
static void needMpi(State &s, Thread &T, const char *op) {
  if (!s.mpi || T.rank < 0) throw Unsupported{std::string(op) + " outside an MPI run"};
  nMpiOps++;
  if (!s.mpi->init[T.rank]) fail(s, "mpi", "not-initialised", std::string(op) + " before MPI_Init");
  if (s.mpi->fin[T.rank]) fail(s, "mpi", "after-finalize", std::string(op) + " after MPI_Finalize");
}
static u64 cint(State &s, const Val &v, const char *w) { return concretize(s, v, w); }
static void wrInt(State &s, u64 p, i64 v) { storeMem(s, p, Val::conc((u64)v, 32), 4); }
static Val combine(State &s, int op, const Val &a, const Val &b, u64 dt) {
  bool isF = (dt >> 8) == 1; u32 w = (u32)(dt & 0xff) * 8;
  if (isF) {
    if (op == OP_SUM) return fpBin(s, Instruction::FAdd, a, b, w); if (op == OP_PROD) return fpBin(s, Instruction::FMul, a, b, w);
    Val c = fcmp(s, op == OP_MIN ? llvm::CmpInst::FCMP_OLT : llvm::CmpInst::FCMP_OGT, a, b); return selectOp(s, c, a, b, w);
  }
  if (a.isC() && b.isC()) { i64 x = sx(a.c, w), y = sx(b.c, w); return Val::conc((u64)(op == OP_SUM ? x + y : op == OP_PROD ? x * y : op == OP_MIN ? std::min(x, y) : std::max(x, y)), w); }
  expr p = toE(a), q = toE(b); return symVal(simp(op == OP_SUM ? p + q : op == OP_PROD ? p * q : op == OP_MIN ? z3::ite(p < q, p, q) : z3::ite(p > q, p, q)), w);
}
static void asRank(State &s, int rank, std::function<void()> f) { int sv = s.cur; s.cur = s.mpi->th[rank]; f(); s.cur = sv; }
static void fenceSide(State &s, int wi, int rank, u64 as);
static void complete(State &s) {
  Mpi &m = mpiW(s); int n = m.n; auto &A = m.arr; const std::string op = A[0].op; std::vector<Val> ret(n, Val::conc(0, 32));
  auto argU = [&](int r, int i) { return A[r].a[i].c; };
  if (op == "MPI_Reduce" || op == "MPI_Allreduce") {
    u64 cnt = argU(0, 2), dt = argU(0, 3), o = argU(0, 4); bool all = op == "MPI_Allreduce"; u64 root = all ? 0 : argU(0, 5); unsigned sz = dt & 0xff;
    for (u64 i = 0; i < cnt; i++) {
      Val acc; for (int r = 0; r < n; r++) { Val v; asRank(s, r, [&] { u64 src = A[r].a[0].c; if (src == ~0ull) src = A[r].a[1].c; v = loadMem(s, src + i * sz, sz, sz * 8); }); acc = r ? combine(s, (int)o, acc, v, dt) : v; }
      for (int r = 0; r < n; r++) if (all || (u64)r == root) asRank(s, r, [&] { storeMem(s, A[r].a[1].c + i * sz, acc, sz); });
    }
  } else if (op == "MPI_Gather" || op == "MPI_Allgather") {
    bool all = op == "MPI_Allgather"; u64 root = all ? 0 : argU(0, 6), cnt = argU(0, 1), dt = argU(0, 2); unsigned sz = dt & 0xff;
    std::vector<Blob> bl(n); for (int r = 0; r < n; r++) asRank(s, r, [&] { bl[r] = getBlob(s, A[r].a[0].c, cnt * sz); });
    for (int r = 0; r < n; r++) if (all || (u64)r == root) asRank(s, r, [&] {
      u64 rc = A[r].a[4].c; if (rc != cnt || (A[r].a[5].c & 0xff) != sz) fail(s, "mpi", "gather-mismatch", "receive count of a gather differs from the send count");
      for (int q = 0; q < n; q++) putBlob(s, A[r].a[3].c + q * cnt * sz, bl[q]); });
  } else if (op == "MPI_Gatherv" || op == "MPI_Allgatherv") {
    bool all = op == "MPI_Allgatherv"; u64 root = all ? 0 : argU(0, 7); std::vector<Blob> bl(n);
    for (int r = 0; r < n; r++) if ((u64)A[r].a[0].c != ~0ull) asRank(s, r, [&] { bl[r] = getBlob(s, A[r].a[0].c, A[r].a[1].c * (A[r].a[2].c & 0xff)); });
    for (int r = 0; r < n; r++) if (all || (u64)r == root) asRank(s, r, [&] {
      unsigned rs = A[r].a[6].c & 0xff;
      for (int q = 0; q < n; q++) {
        if ((u64)A[q].a[0].c == ~0ull) { if (q != r) fail(s, "mpi", "gather-in-place", "MPI_IN_PLACE on a rank other than the root"); continue; }
        i64 cnt = sx(concretize(s, loadMem(s, A[r].a[4].c + 4 * q, 4, 32), "a receive count"), 32), dis = sx(concretize(s, loadMem(s, A[r].a[5].c + 4 * q, 4, 32), "a displacement"), 32);
        if (cnt < 0 || (u64)cnt * rs != A[q].a[1].c * (A[q].a[2].c & 0xff)) fail(s, "mpi", "gather-mismatch", "receive count of a gather differs from the send count");
        if (cnt) putBlob(s, A[r].a[3].c + dis * (i64)rs, bl[q]); } });
  } else if (op == "MPI_Bcast") {
    u64 root = argU(0, 3), cnt = argU(0, 1); unsigned sz = argU(0, 2) & 0xff; Blob b; asRank(s, (int)root, [&] { b = getBlob(s, A[root].a[0].c, cnt * sz); });
    for (int r = 0; r < n; r++) if ((u64)r != root) asRank(s, r, [&] { putBlob(s, A[r].a[0].c, b); });
  } else if (op == "MPI_Scatter") {
    u64 root = argU(0, 6), cnt = argU(0, 4); unsigned sz = argU(0, 5) & 0xff; std::vector<Blob> bl(n);
    asRank(s, (int)root, [&] { for (int r = 0; r < n; r++) bl[r] = getBlob(s, A[root].a[0].c + r * cnt * sz, cnt * sz); });
    for (int r = 0; r < n; r++) asRank(s, r, [&] { putBlob(s, A[r].a[3].c, bl[r]); });
  } else if (op == "MPI_Win_create" || op == "MPI_Win_allocate") {
    bool al = op == "MPI_Win_allocate"; Win w; w.base.resize(n); w.size.resize(n); w.disp.resize(n); w.stores.resize(n); w.access.assign(n, 0); w.in.assign(n, 0); w.owned = al; int wi = (int)m.wins.size(); m.wins.push_back(w);
    for (int r = 0; r < n; r++) asRank(s, r, [&] {
      auto &a = A[r].a; u64 base, size, disp, hp;
      if (!al) { base = a[0].c; size = a[1].c; disp = a[2].c; hp = a[5].c; } else { size = a[0].c; disp = a[1].c; hp = a[5].c; base = mallocObj(s, size, "window", 4, OMpi); storeMem(s, a[4].c, Val::conc(base, 64), 8); }
      if (size) { Obj *o = access(s, base, size, false); (void)o; Obj *q = s.mem.writable(base >> 32); if (q->win >= 0 && !m.wins[q->win].freed && (q->win != wi)) fail(s, "mpi", "window-overlap", "memory exposed through two windows at the same time"); q->win = wi; }
      auto &W = mpiW(s).wins[wi]; W.base[r] = base; W.size[r] = size; W.disp[r] = disp; storeMem(s, hp, Val::conc(wi + 101, 32), 4); });
  } else if (op == "MPI_Win_free") {
    for (int r = 0; r < n; r++) { u64 h = A[r].a[1].c; auto &W = m.wins[h - 101]; (void)W; }
    int wi = (int)A[0].a[1].c - 101; auto &W = m.wins[wi];
    if (!W.gets.empty()) fail(s, "mpi", "free-with-pending", "window freed while transfers are pending");
    W.freed = true;
    for (int r = 0; r < n; r++) asRank(s, r, [&] { if (W.size[r]) { Obj *o = s.mem.peek(W.base[r] >> 32); if (!o || o->freed) fail(s, "mpi", "window-memory-gone", "window freed after its memory was released"); s.mem.writable(W.base[r] >> 32)->win = -1; }
      if (W.owned && W.base[r]) freeObj(s, W.base[r], 4);
      storeMem(s, A[r].a[0].c, Val::conc(0, 32), 4); });
  } else if (op == "MPI_Win_fence") {
    int wi = (int)A[0].a[1].c - 101; u64 as = A[0].a[0].c; auto &W = m.wins[wi];
    bool prec = !(as & M_NOPRECEDE);
    if (!prec && !W.gets.empty()) fail(s, "mpi", "noprecede", "fence asserted that no transfer precedes it, but one is pending");
    // transfers of the epoch take place
    if (prec) {
      for (auto &g : W.gets) {
        Blob b; asRank(s, g.target, [&] { b = getBlob(s, g.src, g.n, false); });
        asRank(s, g.origin, [&] { u64 id = g.dst >> 32; Obj *o = s.mem.peek(id); if (!o || o->freed) fail(s, "mpi", "pending-get-freed", "destination of a pending transfer was released"); s.mem.writable(id)->hasPending = false; putBlob(s, g.dst, b, false); });
      }
      W.gets.clear(); for (auto &v : W.stores) v.clear();
    } else for (auto &v : W.stores) v.clear();
    for (int r = 0; r < n; r++) W.access[r] = (as & M_NOSUCCEED) ? 0 : 1;
  } else if (op == "MPI_Init" || op == "MPI_Init_thread") { for (int r = 0; r < n; r++) m.init[r] = 1; if (op == "MPI_Init_thread") for (int r = 0; r < n; r++) asRank(s, r, [&] { if (A[r].a.size() > 3 && A[r].a[3].c) wrInt(s, A[r].a[3].c, (i64)A[r].a[2].c); }); }
  else if (op == "MPI_Finalize") { for (int r = 0; r < n; r++) m.fin[r] = 1; for (auto &w : m.wins) if (!w.freed) { /* leak: reported by the harness through vp_mpi_open_windows */ } }
  else if (op == "MPI_Barrier") {}
  else throw Unsupported{"MPI operation " + op};
  for (int r = 0; r < n; r++) { Thread &t = s.th[m.th[r]]; t.st = 0; t.wait = ""; if (A[r].retSlot >= 0) t.fr.back().r[A[r].retSlot] = ret[r]; A[r].here = false; A[r].a.clear(); }
}
// a collective call: wait for the others; the last one performs it
static int arrive(State &s, Thread &T, InstI &x, const std::string &op, const std::string &key, std::vector<Val> a, Val &r) {
  Mpi &m = mpiW(s); Arr &A = m.arr[T.rank]; A.here = true; A.op = op; A.key = op + key; A.a = std::move(a); A.retSlot = x.dst; A.th = s.cur;
  r = Val::conc(0, 32); int me = T.rank; (void)me;
  T.st = 1; T.wait = op + key;
  bool all = true; for (auto &q : m.arr) if (!q.here) all = false;
  if (all) {
    for (int i = 1; i < m.n; i++) if (m.arr[i].key != m.arr[0].key) fail(s, "mpi", "collective-mismatch", "ranks disagree on the collective operation: rank 0 is in " + m.arr[0].key + ", rank " + std::to_string(i) + " is in " + m.arr[i].key);
    complete(s);
  }
  return 1;
}
static std::string K(std::initializer_list<u64> l) { std::string r = "("; for (auto x : l) r += std::to_string((i64)x) + ","; r.back() = ')'; return r; }
static void concAll(State &s, std::vector<Val> &a) { for (auto &v : a) if (v.k != VConc) v = Val::conc(concretize(s, v, "an MPI argument"), v.w); }
#define MH(n) static int n(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r)
MH(mInit) { if (!s.mpi || T.rank < 0) throw Unsupported{"MPI_Init outside an MPI run"}; concAll(s, a); return arrive(s, T, x, "MPI_Init", "", a, r); }
MH(mInitT) { if (!s.mpi || T.rank < 0) throw Unsupported{"MPI_Init outside an MPI run"}; concAll(s, a); return arrive(s, T, x, "MPI_Init_thread", "", a, r); }
MH(mFin) { needMpi(s, T, "MPI_Finalize"); return arrive(s, T, x, "MPI_Finalize", "", a, r); }
MH(mBar) { needMpi(s, T, "MPI_Barrier"); return arrive(s, T, x, "MPI_Barrier", "", a, r); }
MH(mRank) { needMpi(s, T, "MPI_Comm_rank"); wrInt(s, a[1].c, T.rank); r = Val::conc(0, 32); return 0; }
MH(mSize) { needMpi(s, T, "MPI_Comm_size"); wrInt(s, a[1].c, s.mpi->n); r = Val::conc(0, 32); return 0; }
MH(mReduce) { needMpi(s, T, "MPI_Reduce"); concAll(s, a); return arrive(s, T, x, "MPI_Reduce", K({a[2].c, a[3].c, a[4].c, a[5].c}), a, r); }
MH(mAllreduce) { needMpi(s, T, "MPI_Allreduce"); concAll(s, a); return arrive(s, T, x, "MPI_Allreduce", K({a[2].c, a[3].c, a[4].c}), a, r); }
MH(mGather) { needMpi(s, T, "MPI_Gather"); concAll(s, a); return arrive(s, T, x, "MPI_Gather", K({a[1].c, a[2].c, a[6].c}), a, r); }
MH(mAllgather) { needMpi(s, T, "MPI_Allgather"); concAll(s, a); return arrive(s, T, x, "MPI_Allgather", K({a[1].c, a[2].c}), a, r); }
MH(mGatherv) { needMpi(s, T, "MPI_Gatherv"); concAll(s, a); return arrive(s, T, x, "MPI_Gatherv", K({a[7].c}), a, r); }
MH(mAllgatherv) { needMpi(s, T, "MPI_Allgatherv"); concAll(s, a); return arrive(s, T, x, "MPI_Allgatherv", "", a, r); }
MH(mScatter) { needMpi(s, T, "MPI_Scatter"); concAll(s, a); return arrive(s, T, x, "MPI_Scatter", K({a[4].c, a[5].c, a[6].c}), a, r); }
MH(mBcast) { needMpi(s, T, "MPI_Bcast"); concAll(s, a); return arrive(s, T, x, "MPI_Bcast", K({a[1].c, a[2].c, a[3].c}), a, r); }
MH(mWinCreate) { needMpi(s, T, "MPI_Win_create"); concAll(s, a); return arrive(s, T, x, "MPI_Win_create", "", a, r); }
MH(mWinAlloc) { needMpi(s, T, "MPI_Win_allocate"); concAll(s, a); return arrive(s, T, x, "MPI_Win_allocate", "", a, r); }
static Win &winOf(State &s, u64 h, const char *op) {
  if (h < 101 || h - 101 >= s.mpi->wins.size()) fail(s, "mpi", "bad-window", std::string(op) + " on something that is not a window");
  if (s.mpi->wins[h - 101].freed) fail(s, "mpi", "window-used-after-free", std::string(op) + " on a window that was freed");
  return mpiW(s).wins[h - 101];
}
MH(mWinFree) { needMpi(s, T, "MPI_Win_free"); concAll(s, a); Val h = loadMem(s, a[0].c, 4, 32); u64 hh = concretize(s, h, "a window handle"); winOf(s, hh, "MPI_Win_free"); return arrive(s, T, x, "MPI_Win_free", K({hh}), {a[0], Val::conc(hh, 32)}, r); }
MH(mFence) { needMpi(s, T, "MPI_Win_fence"); concAll(s, a); winOf(s, a[1].c, "MPI_Win_fence"); return arrive(s, T, x, "MPI_Win_fence", K({a[1].c, a[0].c & (M_NOPRECEDE | M_NOSUCCEED)}), a, r); }
MH(mGet) { // origin, n, type, target, disp, n, type, win
  needMpi(s, T, "MPI_Get"); concAll(s, a); Win &W = winOf(s, a[7].c, "MPI_Get"); int wi = (int)a[7].c - 101;
  if (!W.access[T.rank]) fail(s, "mpi", "no-epoch", "MPI_Get outside an access epoch");
  i64 tg = sx(a[3].c, 32); if (tg < 0 || tg >= s.mpi->n) fail(s, "mpi", "bad-rank", "MPI_Get from rank " + std::to_string(tg) + " of " + std::to_string(s.mpi->n));
  u64 n = a[1].c * (a[2].c & 0xff), n2 = a[5].c * (a[6].c & 0xff); if (n != n2) fail(s, "mpi", "get-size-mismatch", "MPI_Get with different origin and target sizes");
  i64 off = (i64)a[4].c * (i64)W.disp[tg];
  if (off < 0 || (u64)off + n > W.size[tg]) fail(s, "mpi", "get-out-of-window", "MPI_Get of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of a window of " + std::to_string(W.size[tg]) + " bytes on rank " + std::to_string(tg));
  if (n) { access(s, a[0].c, n, true);
    u64 src = W.base[tg] + off;
    for (auto &st : W.stores[tg]) if (st.first < src + n && src < st.second) fail(s, "mpi", "epoch-race", "an exposed buffer of rank " + std::to_string(tg) + " is written and fetched in the same epoch");
    for (auto &w2 : s.mpi->wins) for (auto &g : w2.gets) if (g.origin == T.rank && g.dst < a[0].c + n && a[0].c < g.dst + g.n) fail(s, "mpi", "overlapping-gets", "two pending transfers into the same buffer");
    // the destination holds nothing usable until the closing fence
    Blob ub; ub.b.assign(n, 0); ub.st.assign(n, 0); putBlob(s, a[0].c, ub); s.mem.writable(a[0].c >> 32)->hasPending = true;
    mpiW(s).wins[wi].gets.push_back({T.rank, (int)tg, a[0].c, src, n, x.I}); }
  r = Val::conc(0, 32); return 0; }
MH(mAllocMem) { u64 n = concretize(s, a[0], "an allocation size"); u64 p = mallocObj(s, n, "MPI_Alloc_mem", 4, OMpi); storeMem(s, a[2].c, Val::conc(p, 64), 8); r = Val::conc(0, 32); return 0; }
MH(mFreeMem) { freeObj(s, concretize(s, a[0], "a pointer"), 4); r = Val::conc(0, 32); return 0; }
MH(mWtime) { // any non-decreasing instant: the next value is the previous one plus a non-negative step
  if (fpUF) { r = Val::mk(VSym, 64, freshBV(64, "wtime!")); return 0; }
  expr v = freshReal("wtime!"); std::string k = "wtime" + std::to_string(T.rank); auto it = s.rec.find(k); addC(s, it == s.rec.end() ? v >= Z->real_val(0) : v >= it->second.e()); r = Val::mk(VReal, 64, v); s.rec[k] = r; return 0; }
MH(mAbort) { fail(s, "mpi", "abort", "MPI_Abort called"); }
MH(mInitd) { wrInt(s, a[0].c, s.mpi && T.rank >= 0 ? s.mpi->init[T.rank] : 0); r = Val::conc(0, 32); return 0; }
MH(mFind) { wrInt(s, a[0].c, s.mpi && T.rank >= 0 ? s.mpi->fin[T.rank] : 0); r = Val::conc(0, 32); return 0; }
// vp_mpi_run(n, fn, preinit): run fn() on n ranks with separate globals
MH(vMpiRun) {
  int n = (int)concretize(s, a[0], "a rank count"); FI *fi = fnAt(s, a[1]); bool pre = a[2].c != 0; auto m = std::make_shared<Mpi>(); m->n = n; m->parent = s.cur; m->arr.resize(n); m->fin.assign(n, 0); m->init.assign(n, pre); m->nLive = n;
  int base = (int)s.th.size(); std::vector<Thread> nt;
  for (int i = 0; i < n; i++) { Thread w; w.id = base + i; w.proc = s.nextProc++; w.rank = i; Frame f; f.fn = fi; f.r.resize(fi->nslots); fi->calls++; f.onRet = 3; w.fr.push_back(std::move(f)); m->th.push_back(w.id); nt.push_back(std::move(w)); }
  extern std::vector<const llvm::Function *> ctorList;
  for (auto &w : nt) for (size_t i = ctorList.size(); i-- > 0;) { FI *c = getFI(ctorList[i]); Frame f; f.fn = c; f.r.resize(c->nslots); w.fr.push_back(std::move(f)); }
  s.mpi = m; T.st = 1; T.wait = "ranks"; for (auto &w : nt) s.th.push_back(std::move(w)); return 1;
}
MH(vMpiOpen) { int c = 0; if (s.mpi) for (auto &w : s.mpi->wins) if (!w.freed) c++; r = Val::conc(c, 32); return 0; }
MH(vMpiLeaks) { int c = 0; for (u64 i = 1; i < s.mem.next; i++) { Obj *o = s.mem.peek(i); if (o && !o->freed && o->kind == OMpi) c++; } r = Val::conc(c, 32); return 0; }
MH(vMpiFinalized) { int c = 0; if (s.mpi) for (auto v : s.mpi->fin) c += v; r = Val::conc(c, 32); return 0; }
static void regMpi() {
  auto &h = handlers;
  h["MPI_Init"] = mInit; h["MPI_Init_thread"] = mInitT; h["MPI_Finalize"] = mFin; h["MPI_Barrier"] = mBar; h["MPI_Comm_rank"] = mRank; h["MPI_Comm_size"] = mSize; h["MPI_Reduce"] = mReduce; h["MPI_Allreduce"] = mAllreduce; h["MPI_Gather"] = mGather; h["MPI_Allgather"] = mAllgather; h["MPI_Bcast"] = mBcast; h["MPI_Gatherv"] = mGatherv; h["MPI_Allgatherv"] = mAllgatherv; h["MPI_Finalized"] = mFind; h["MPI_Scatter"] = mScatter;
  h["MPI_Win_create"] = mWinCreate; h["MPI_Win_allocate"] = mWinAlloc; h["MPI_Win_free"] = mWinFree; h["MPI_Win_fence"] = mFence; h["MPI_Get"] = mGet; h["MPI_Alloc_mem"] = mAllocMem; h["MPI_Free_mem"] = mFreeMem; h["MPI_Wtime"] = mWtime; h["MPI_Abort"] = mAbort; h["MPI_Initialized"] = mInitd;
  h["vp_mpi_run"] = vMpiRun; h["vp_mpi_open_windows"] = vMpiOpen; h["vp_mpi_live_buffers"] = vMpiLeaks; h["vp_mpi_finalized"] = vMpiFinalized;
}
