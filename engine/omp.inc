// ------------------------------------------------------------------ OpenMP
static Frame mkFrame(State &s, FI *fi, const std::vector<Val> &args) {
  Frame f; f.fn = fi; f.r.resize(fi->nslots); unsigned na = fi->f->arg_size(); fi->calls++;
  for (unsigned i = 0; i < na; i++) { if (i < args.size()) f.r[i] = args[i]; }
  for (size_t i = na; i < args.size(); i++) f.va.push_back(args[i]);
  return f;
}
static FI *fnAt(State &s, const Val &v) {
  if (v.k != VConc) throw Unsupported{"symbolic function pointer"};
  u64 i = (v.c - FUNCBASE) >> 4; if (v.c < FUNCBASE || i >= funcByIdx.size()) fail(s, "memory", "bad-call", "call through an invalid function pointer");
  const llvm::Function *f = funcByIdx[i]; return getFI(f);
}
// start n threads, one per argument list; the current thread waits for them
static void startTeam(State &s, Thread &T, FI *fi, std::vector<std::vector<Val>> &args, bool league) {
  int n = (int)args.size(), parent = s.cur, tm = (int)s.teams.size(); Team t; t.n = n; t.parent = parent; t.live = n; t.league = league; nRegions++;
  std::vector<Thread> nt;
  for (int i = 0; i < n; i++) {
    Thread w; w.id = (int)s.th.size() + i; w.proc = T.proc; w.rank = T.rank; w.team = tm; w.tid = league ? 0 : i; w.league = league ? i : T.league; w.leagueN = league ? n : T.leagueN; w.seq = 0;
    Frame f = mkFrame(s, fi, args[i]); f.onRet = 1; w.fr.push_back(std::move(f)); t.mem.push_back(w.id); nt.push_back(std::move(w)); }
  s.teams.push_back(t); s.par++; s.phase[T.league]++;
  T.st = 1; T.wait = "join";
  for (auto &w : nt) s.th.push_back(std::move(w));   // T may dangle from here on
}
static void endMember(State &s, int th) {
  Thread &T = s.th[th]; T.st = 2; Team &t = s.teams[T.team]; t.live--;
  if (t.live == 0) { s.par--; s.phase[T.league]++; if (s.par == 0) { s.shadow.clear(); s.phase.clear(); } s.th[t.parent].st = 0; s.th[t.parent].wait = ""; }
  else if (t.arrived && t.arrived >= t.live) { violation(s, "deadlock", "barrier", "a thread left the parallel region while others wait at a barrier"); throw PathEnd(); }
}
static int barrierOp(State &s, Thread &T) {
  if (T.team < 0 || s.teams[T.team].league) return 0;
  Team &t = s.teams[T.team]; if (t.n == 1) { s.phase[T.league]++; return 0; }
  t.arrived++;
  if (t.arrived == t.n) { t.arrived = 0; s.phase[T.league]++; bool only = true; for (auto &x : s.phase) if (x.first) only = false; if (only && s.par == 1) s.shadow.clear(); for (int m : t.mem) { s.th[m].st = 0; s.th[m].wait = ""; } return 0; }
  T.st = 1; T.wait = "barrier"; return 1;
}
static u64 newCell(State &s, u64 v, unsigned n) { u64 a = mallocObj(s, n, "omp id", 1, OHarness); Obj *o = s.mem.writable(a >> 32); rawStore(o, 0, Val::conc(v, n * 8), n); return a; }
static int kForkCall(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  FI *fi = fnAt(s, a[2]); int n = s.ompN; if (T.pushThreads > 0) n = T.pushThreads; T.pushThreads = 0;
  bool nested = T.team >= 0 && !s.teams[T.team].league;
  if (nested) { std::vector<Val> v{Val::conc(newCell(s, T.tid, 4), 64), Val::conc(newCell(s, 0, 4), 64)}; for (size_t k = 3; k < a.size(); k++) v.push_back(a[k]); T.fr.push_back(mkFrame(s, fi, v)); return 2; }
  std::vector<std::vector<Val>> as;
  for (int i = 0; i < n; i++) { std::vector<Val> v; u64 c = newCell(s, i, 4); v.push_back(Val::conc(c, 64)); v.push_back(Val::conc(newCell(s, 0, 4), 64)); for (size_t k = 3; k < a.size(); k++) v.push_back(a[k]); as.push_back(v); }
  startTeam(s, T, fi, as, false); return 1;
}
static int kForkTeams(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  FI *fi = fnAt(s, a[2]); int n = T.pushTeams > 0 ? T.pushTeams : (int)std::min<i64>(s.ompN, 3); T.pushTeams = 0;
  std::vector<std::vector<Val>> as;
  for (int i = 0; i < n; i++) { std::vector<Val> v; v.push_back(Val::conc(newCell(s, i, 4), 64)); v.push_back(Val::conc(newCell(s, 0, 4), 64)); for (size_t k = 3; k < a.size(); k++) v.push_back(a[k]); as.push_back(v); }
  startTeam(s, T, fi, as, true); return 1;
}
static int gompParallel(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  FI *fi = fnAt(s, a[0]); int n = a[2].c ? (int)a[2].c : s.ompN; bool sr = fi->f->hasStructRetAttr();   // lifted code returns its registers in memory
  auto argv = [&]() { std::vector<Val> v; if (sr) v.push_back(Val::conc(newCell(s, 0, 64), 64)); v.push_back(a[1]); return v; };
  if (T.team >= 0 && !s.teams[T.team].league) { T.fr.push_back(mkFrame(s, fi, argv())); return 2; }
  std::vector<std::vector<Val>> as; for (int i = 0; i < n; i++) as.push_back(argv());
  startTeam(s, T, fi, as, false); return 1;
}
static int teamN(State &s, Thread &T) { return T.team >= 0 && !s.teams[T.team].league ? s.teams[T.team].n : 1; }
template <int BYTES, bool SGN> static int kStaticInit(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  // loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk
  u32 w = BYTES * 8; i64 sched = (i64)a[2].c & 0xffff;
  auto ld = [&](const Val &p) -> i64 { Val v = loadMem(s, p.c, BYTES, w); u64 c = concretize(s, v, "a loop bound"); return SGN ? sx(c, w) : (i64)c; };
  i64 lo = ld(a[4]), up = ld(a[5]); i64 inc = sx(concretize(s, a[7], "loop increment"), w), chunk = sx(concretize(s, a[8], "chunk"), w);
  bool dist = sched == 91 || sched == 92; int nth = dist ? T.leagueN : teamN(s, T), tid = dist ? T.league : T.tid;
  i64 tc = inc == 1 ? up - lo + 1 : inc == -1 ? lo - up + 1 : inc > 0 ? (up - lo) / inc + 1 : (lo - up) / (-inc) + 1; if ((inc > 0 && up < lo) || (inc < 0 && up > lo)) tc = 0;
  i64 l, u, st, last = 0;
  if (tc == 0) { l = lo; u = up; st = inc; last = 0; }
  else if (sched == 33 || sched == 91 || sched == 45) { if (chunk < 1) chunk = 1; i64 span = chunk * inc; st = span * nth; l = lo + span * tid; u = l + span - inc; last = tid == ((tc - 1) / chunk) % nth; }
  else { i64 small = tc / nth, ext = tc % nth; l = lo + inc * (tid * small + std::min<i64>(tid, ext)); u = l + small * inc - (tid < ext ? 0 : inc); st = inc * tc; last = (tc < nth ? tid == tc - 1 : tid == nth - 1);
    if (tc < nth && tid >= tc) { l = up + inc; u = up; last = 0; } }
  storeMem(s, a[4].c, Val::conc((u64)l, w), BYTES); storeMem(s, a[5].c, Val::conc((u64)u, w), BYTES); storeMem(s, a[6].c, Val::conc((u64)st, w), BYTES); storeMem(s, a[3].c, Val::conc((u64)last, 32), 4);
  return 0;
}
template <int BYTES, bool SGN> static int kDispInit(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  u32 w = BYTES * 8; i64 lo = sx(concretize(s, a[3], "loop bound"), w), up = sx(concretize(s, a[4], "loop bound"), w), inc = sx(concretize(s, a[5], "loop increment"), w), ch = sx(concretize(s, a[6], "chunk"), w);
  T.dLo = lo; T.dInc = inc; T.dChunk = ch < 1 ? 1 : ch; T.dTrip = inc > 0 ? (up >= lo ? (up - lo) / inc + 1 : 0) : (lo >= up ? (lo - up) / (-inc) + 1 : 0); T.dNext = T.tid; return 0;
}
template <int BYTES> static int kDispNext(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  u32 w = BYTES * 8; i64 b = T.dNext * T.dChunk; if (b >= T.dTrip) { r = Val::conc(0, 32); return 0; }
  i64 e = std::min(T.dTrip, b + T.dChunk) - 1; T.dNext += teamN(s, T);
  if (a[2].c) storeMem(s, a[2].c, Val::conc(e == T.dTrip - 1, 32), 4); storeMem(s, a[3].c, Val::conc((u64)(T.dLo + b * T.dInc), w), BYTES); storeMem(s, a[4].c, Val::conc((u64)(T.dLo + e * T.dInc), w), BYTES); if (a[5].c) storeMem(s, a[5].c, Val::conc((u64)T.dInc, w), BYTES);
  r = Val::conc(1, 32); return 0;
}
static int gLoopStart(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { // start,end,incr,chunk,*istart,*iend
  i64 lo = (i64)concretize(s, a[0], "loop bound"), end = (i64)concretize(s, a[1], "loop bound"), inc = (i64)concretize(s, a[2], "loop increment"), ch = a.size() > 5 ? (i64)concretize(s, a[3], "chunk") : 1; size_t k = a.size() > 5 ? 4 : 3;
  T.dLo = lo; T.dInc = inc; T.dChunk = ch < 1 ? 1 : ch; T.dTrip = inc > 0 ? (end > lo ? (end - lo + inc - 1) / inc : 0) : (lo > end ? (lo - end - inc - 1) / (-inc) : 0); T.dNext = T.tid;
  i64 b = T.dNext * T.dChunk; if (b >= T.dTrip) { r = Val::conc(0, x.w ? x.w : 8); return 0; } i64 e = std::min(T.dTrip, b + T.dChunk); T.dNext += teamN(s, T);
  storeMem(s, a[k].c, Val::conc((u64)(T.dLo + b * T.dInc), 64), 8); storeMem(s, a[k + 1].c, Val::conc((u64)(T.dLo + e * T.dInc), 64), 8); r = Val::conc(1, x.w ? x.w : 8); return 0;
}
static int gLoopNext(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  i64 b = T.dNext * T.dChunk; if (b >= T.dTrip) { r = Val::conc(0, x.w); return 0; } i64 e = std::min(T.dTrip, b + T.dChunk); T.dNext += teamN(s, T);
  storeMem(s, a[0].c, Val::conc((u64)(T.dLo + b * T.dInc), 64), 8); storeMem(s, a[1].c, Val::conc((u64)(T.dLo + e * T.dInc), 64), 8); r = Val::conc(1, x.w); return 0;
}
static int hBarrier(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { return barrierOp(s, T); }
static int hNop(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { if (x.dst >= 0 && x.w) r = Val::conc(0, x.w); return 0; }
static int hTid(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(T.tid, 32); return 0; }
static int hNth(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(teamN(s, T), 32); return 0; }
static int hMaxTh(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(s.ompN, 32); return 0; }
static int hSetTh(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { s.ompN = (int)concretize(s, a[0], "a thread count"); return 0; }
static int hTeamNum(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(T.league, 32); return 0; }
static int hNumTeams(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(T.leagueN, 32); return 0; }
static int hInPar(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(teamN(s, T) > 1, 32); return 0; }
static int hPushTh(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.pushThreads = (int)concretize(s, a[2], "a thread count"); return 0; }
static int hPushTeams(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.pushTeams = (int)concretize(s, a[2], "a team count"); return 0; }
static int hMaster(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(T.tid == 0, 32); return 0; }
static int hSingle(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) {
  if (T.team < 0) { r = Val::conc(1, x.w); return 0; } int k = T.singleSeq[T.team]++; Team &t = s.teams[T.team]; bool first = !t.singles.count(k); if (first) t.singles[k] = T.id; r = Val::conc(first, x.w); return 0; }
static int hLock(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.lock = 1; return 0; }
static int hUnlock(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.lock = 0; return 0; }
static int hCritK(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.lock = a.size() > 2 && a[2].isC() ? a[2].c : 1; return 0; }
static int hReduce(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.lock = a.size() > 6 && a[6].isC() ? a[6].c : 1; r = Val::conc(1, 32); return 0; }
static int hEndReduce(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { T.lock = 0; return barrierOp(s, T); }
static int hTrue(State &s, Thread &T, InstI &x, std::vector<Val> &a, Val &r) { r = Val::conc(1, x.w); return 0; }
static void regOmp() {
  auto &h = handlers;
  h["__kmpc_fork_call"] = kForkCall; h["__kmpc_fork_teams"] = kForkTeams; h["__kmpc_global_thread_num"] = hTid;
  h["__kmpc_for_static_init_4"] = kStaticInit<4, true>; h["__kmpc_for_static_init_4u"] = kStaticInit<4, false>; h["__kmpc_for_static_init_8"] = kStaticInit<8, true>; h["__kmpc_for_static_init_8u"] = kStaticInit<8, false>;
  h["__kmpc_for_static_fini"] = hNop; h["__kmpc_barrier"] = hBarrier; h["__kmpc_flush"] = hNop; h["__kmpc_push_num_threads"] = hPushTh; h["__kmpc_push_num_teams"] = hPushTeams; h["__kmpc_push_num_teams_51"] = hPushTeams; h["__kmpc_push_proc_bind"] = hNop;
  h["__kmpc_serialized_parallel"] = hNop; h["__kmpc_end_serialized_parallel"] = hNop;
  h["__kmpc_reduce"] = hReduce; h["__kmpc_reduce_nowait"] = hReduce; h["__kmpc_end_reduce"] = hEndReduce; h["__kmpc_end_reduce_nowait"] = hUnlock;
  h["__kmpc_critical"] = hCritK; h["__kmpc_critical_with_hint"] = hCritK; h["__kmpc_end_critical"] = hUnlock;
  h["__kmpc_master"] = hMaster; h["__kmpc_end_master"] = hNop; h["__kmpc_masked"] = hMaster; h["__kmpc_end_masked"] = hNop; h["__kmpc_single"] = hSingle; h["__kmpc_end_single"] = hNop;
  h["__kmpc_dispatch_init_4"] = kDispInit<4, true>; h["__kmpc_dispatch_init_4u"] = kDispInit<4, false>; h["__kmpc_dispatch_init_8"] = kDispInit<8, true>; h["__kmpc_dispatch_init_8u"] = kDispInit<8, false>;
  h["__kmpc_dispatch_next_4"] = kDispNext<4>; h["__kmpc_dispatch_next_4u"] = kDispNext<4>; h["__kmpc_dispatch_next_8"] = kDispNext<8>; h["__kmpc_dispatch_next_8u"] = kDispNext<8>;
  for (auto n : {"4", "4u", "8", "8u"}) h[std::string("__kmpc_dispatch_fini_") + n] = hNop; h["__kmpc_dispatch_deinit"] = hNop;
  h["omp_get_thread_num"] = hTid; h["omp_get_num_threads"] = hNth; h["omp_get_max_threads"] = hMaxTh; h["omp_set_num_threads"] = hSetTh; h["omp_get_num_procs"] = hMaxTh; h["omp_in_parallel"] = hInPar; h["omp_get_team_num"] = hTeamNum; h["omp_get_num_teams"] = hNumTeams; h["omp_set_dynamic"] = hNop; h["omp_set_nested"] = hNop; h["omp_get_level"] = hInPar; h["omp_get_num_devices"] = hNop; h["omp_is_initial_device"] = hTrue;
  h["GOMP_parallel"] = gompParallel; h["GOMP_barrier"] = hBarrier; h["GOMP_critical_start"] = hLock; h["GOMP_critical_end"] = hUnlock; h["GOMP_critical_name_start"] = hLock; h["GOMP_critical_name_end"] = hUnlock; h["GOMP_atomic_start"] = hLock; h["GOMP_atomic_end"] = hUnlock; h["GOMP_single_start"] = hSingle;
  for (auto k : {"dynamic", "guided", "nonmonotonic_dynamic", "nonmonotonic_guided", "static", "runtime", "nonmonotonic_runtime", "maybe_nonmonotonic_runtime"}) { h[std::string("GOMP_loop_") + k + "_start"] = gLoopStart; h[std::string("GOMP_loop_") + k + "_next"] = gLoopNext; }
  h["GOMP_loop_end"] = hBarrier; h["GOMP_loop_end_nowait"] = hNop;
}
