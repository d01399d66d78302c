// vpsym: a symbolic executor for LLVM IR (LLVM 18 + Z3).
//
// usage: vpsym FILE.bc ENTRY [-p name=value]... [-o out.json] [options]
//
// Explores every path of ENTRY depth first.  Integers are bit-vectors, floating
// point is either exact real arithmetic (default) or uninterpreted functions
// (--fp=uf, for bit-for-bit comparisons).  OpenMP regions and MPI ranks are run
// as threads of one state, with data-race, deadlock and epoch checks.
#include "vpsym.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <csignal>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <array>

using llvm::dyn_cast; using llvm::cast; using llvm::isa;
z3::context *Z;
using z3::expr;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
static std::map<std::string, i64> params;
static std::string entryName, outPath;
static bool fpUF = false, keepGoing = false, verbose = false, lazyUninit = true;
static double timeLimit = 600; static u64 maxInstr = 400000000ull; static unsigned solverMs = 20000;
static int shardI = 0, shardN = 1;
static int maxViol = 1;
static double t0;

// ------------------------------------------------------------------ statistics
static u64 nInstr, nPaths, nForks, nQueries, nSat, nUnsat, nUnknown, nAsserts, nAssertSolver, nAssertRewrite, nAssertTrivial, nStopped, nSkipped, nAsInt;
static u64 nCacheHits;
static double tSolver;
static std::map<std::string, u64> covers;
static std::map<std::string, u64> assertLabels;
static std::vector<std::string> violationsJson;
static std::vector<std::string> problems;   // reasons why the result is inconclusive
static std::vector<std::string> sampleQueries;
static u64 nRaceChecks, nMpiOps, nRegions;
static u64 nRaceViol;

// ------------------------------------------------------------------ program
struct OpR { u8 t = 0; int slot = 0; Val c; const llvm::GlobalValue *g = nullptr; i64 off = 0; };  // t: 0 slot, 1 const, 2 global, 3 aggregate w/ global
struct InstI {
  unsigned op = 0; const llvm::Instruction *I = nullptr; int dst = -1; u32 w = 0; u8 ty = 0; // ty: 0 int 1 fp 2 ptr 3 agg 4 void
  std::vector<OpR> o; int b0 = 0, b1 = 0; unsigned pred = 0; u32 srcW = 0; u64 size = 0;
  i64 gepOff = 0; std::vector<std::pair<OpR, i64>> gep; std::vector<int> blocks;
  const llvm::Function *callee = nullptr; void *handler = nullptr; std::vector<unsigned> idx;
};
struct FI {
  const llvm::Function *f = nullptr; int nslots = 0; std::vector<std::vector<InstI>> bb; std::vector<int> nphi;
  u64 calls = 0, instr = 0; bool repo = false; std::string file; bool ready = false;
  std::unordered_map<const llvm::BasicBlock *, int> bbIdx; std::unordered_map<const llvm::Value *, int> slot;
};
static std::unique_ptr<llvm::Module> M;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, std::unique_ptr<FI>> fis;
static std::vector<const llvm::Function *> funcByIdx; static std::unordered_map<const llvm::Function *, u64> funcIdx;
static const u64 FUNCBASE = 1ull << 60;

struct Frame {
  FI *fn = nullptr; int bb = 0, pc = 0, prev = -1; std::vector<Val> r; std::vector<u64> allocas; int retSlot = -1; u32 retW = 0;
  std::vector<Val> va; u8 onRet = 0;   // onRet: 1 = thread ends a team member
};
struct Thread {
  int id = 0, proc = 0; u8 st = 0; // 0 run 1 blocked 2 done
  std::vector<Frame> fr; int team = -1, tid = 0, league = 0, leagueN = 1; i64 dNext = 0, dLo = 0, dTrip = 0, dChunk = 1, dInc = 1; u64 lock = 0; int rank = -1; std::string wait; std::vector<std::pair<int,int>> teamStack;
  int pushThreads = 0, pushTeams = 0; std::map<int,int> singleSeq; u64 seq = 0; int retSlot = -1;
};
struct Team { int n = 1, parent = 0, live = 0, arrived = 0; std::vector<int> mem; bool league = false; std::map<int,int> singles; };
struct Acc { int g, t, phase; bool w; u8 mask; u64 lock; const llvm::Instruction *I; };
struct PGet { int origin, target; u64 dst, src, n; const llvm::Instruction *I; };
struct Win { std::vector<u64> base, size, disp; std::vector<u8> in; bool freed = false; std::vector<PGet> gets; std::vector<std::vector<std::pair<u64,u64>>> stores; std::vector<u8> access; std::vector<u8> have; bool owned = false;};
struct Arr { bool here = false; std::string op, key; std::vector<Val> a; int retSlot = -1; int th = -1; };
struct Mpi { int n = 0, parent = -1; std::vector<int> th; std::vector<Arr> arr; std::vector<Win> wins; std::vector<u8> fin, init; u64 nLive = 0; };
struct Input { std::string name; Val v; char kind; };
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<expr> pc; std::vector<Team> teams; std::shared_ptr<Mpi> mpi;
  std::shared_ptr<std::map<std::pair<int, const llvm::GlobalVariable *>, u64>> glob;
  std::map<std::string, Val> rec; std::vector<Input> in; std::unordered_map<unsigned, u64> conc; std::map<std::string, size_t> inIdx;
  std::shared_ptr<z3::model> model; bool modelOk = true;
  std::unordered_map<u64, std::vector<Acc>> shadow; int par = 0; std::map<int, int> phase; u64 instr = 0; int ompN = 1, order = 0; std::string trail; u64 choiceHash = 1469598103934665603ull;
  bool sharded = false; std::vector<expr> keep; int nextProc = 1; std::shared_ptr<std::map<std::string,u64>> files; u64 uninitUse = 0; bool inPar = false;
  std::map<std::string, Val> sqrtMemo; std::vector<int> freeTh;
  bool raceOff = false; std::map<unsigned, u64> ub; std::map<unsigned, std::pair<i64, i64>> sr; // ranges of the integer inputs; // largest value of input variables that are never negative
  std::unordered_map<unsigned, std::pair<expr, expr>> inv;
};
typedef std::unique_ptr<State> SP;
static std::vector<SP> work;

struct PathEnd { };                       // path finished (for any reason)
struct Unsupported { std::string m; };
struct Retry { };                          // state was constrained: re-execute the instruction

// ------------------------------------------------------------------ helpers
static std::string jesc(const std::string &s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string loc(const llvm::Instruction *I) {
  if (!I) return "?";
  std::string r;
  if (auto &d = I->getDebugLoc()) { r = d->getFilename().str() + ":" + std::to_string(d.getLine()); }
  else r = I->getFunction()->getName().str();
  return r;
}
static unsigned freshN = 0;
static expr freshBV(unsigned w, const char *p = "uninit!") { std::string n = std::string(p) + std::to_string(freshN++); return w == 1 ? Z->bool_const(n.c_str()) : Z->bv_const(n.c_str(), w); }
static expr freshReal(const char *p = "uninitr!") { std::string n = std::string(p) + std::to_string(freshN++); return Z->real_const(n.c_str()); }

// exact rational of a double
static std::string mul2(std::string d, int k) { // decimal string times 2^k
  for (int i = 0; i < k; i++) { int c = 0; for (int j = (int)d.size() - 1; j >= 0; j--) { int x = (d[j] - '0') * 2 + c; d[j] = '0' + x % 10; c = x / 10; } if (c) d.insert(d.begin(), '0' + c); } return d; }
static expr realOf(double x) {
  if (x == 0) return Z->real_val(0);
  int ex; double m = frexp(x, &ex); i64 mi = (i64)ldexp(m, 53); ex -= 53; while (!(mi & 1)) { mi /= 2; ex++; }
  if (ex == 0) return Z->real_val((int64_t)mi);
  bool neg = mi < 0; std::string s = std::to_string(neg ? -mi : mi);
  std::string q = ex > 0 ? mul2(s, ex) : s + "/" + mul2("1", -ex);
  return Z->real_val(((neg ? "-" : "") + q).c_str());
}
static double bits2d(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 d2bits(double d) { u64 c; memcpy(&c, &d, 8); return c; }
static float bits2f(u64 c) { u32 x = (u32)c; float d; memcpy(&d, &x, 4); return d; }
static u64 f2bits(float d) { u32 c; memcpy(&c, &d, 4); return c; }
static double fpOf(const Val &v) { return v.w == 32 ? (double)bits2f(v.c) : bits2d(v.c); }
static Val fpConc(double d, u32 w) { return w == 32 ? Val::conc(f2bits((float)d), 32) : Val::conc(d2bits(d), 64); }
static bool ratToDouble(const expr &e, double &d, bool *exact) {
  if (!e.is_numeral()) return false;
  expr n = e.numerator(), m = e.denominator();
  std::string a = n.get_decimal_string(0), b = m.get_decimal_string(0);
  if (!a.empty() && a.back() == '.') a.pop_back(); if (!b.empty() && b.back() == '.') b.pop_back();
  long double x = strtold(a.c_str(), nullptr), y = strtold(b.c_str(), nullptr);
  d = (double)(x / y);
  if (exact) { *exact = std::isfinite(d) && z3::eq(realOf(d), e); }
  return true;
}
static Val realVal(const expr &e0, u32 w) {   // wrap a real expression, folding numerals that are doubles
  expr e = e0;
  if (e.is_numeral()) { double d; bool ex; if (ratToDouble(e, d, &ex) && ex && (w == 64 || (double)(float)d == d)) return fpConc(d, w); }
  return Val::mk(VReal, w, e);
}
static z3::func_decl *rbits64, *rbits32;
static expr realBits(const expr &r, u32 w) { return w == 64 ? (*rbits64)(r) : (*rbits32)(r); }

static expr toE(const Val &v) { // bit-vector (or Bool for width 1)
  switch (v.k) {
  case VConc: if (v.w == 1) return Z->bool_val(v.c != 0); return Z->bv_val((uint64_t)v.c, v.w);
  case VSym: return v.e();
  case VReal: return realBits(v.e(), v.w);
  case VUndef: return freshBV(v.w);
  default: throw Unsupported{"aggregate used as a scalar"};
  }
}
static Val symVal(const expr &e0, u32 w) {
  expr e = e0;
  if (w == 1) { if (e.is_true()) return Val::conc(1, 1); if (e.is_false()) return Val::conc(0, 1); }
  else if (w <= 64 && e.is_numeral()) { return Val::conc(e.get_numeral_uint64(), w); }
  return Val::mk(VSym, w, e);
}
static expr toReal(const Val &v) {
  switch (v.k) {
  case VConc: { double d = fpOf(v); if (!std::isfinite(d)) throw Unsupported{"non-finite constant in exact arithmetic"}; return realOf(d); }
  case VReal: return v.e();
  case VUndef: return freshReal();
  case VSym: {
    // a raw bit pattern used as a number: allowed when it is a selection between payloads
    expr e = v.e();
    if (e.is_app() && e.num_args() == 1 && (z3::eq(e.decl(), *rbits64) || z3::eq(e.decl(), *rbits32))) return e.arg(0);
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) return z3::ite(e.arg(0), toReal(symVal(e.arg(1), v.w)), toReal(symVal(e.arg(2), v.w)));
    throw Unsupported{"symbolic bit pattern used as floating point"}; }
  default: throw Unsupported{"bad floating point operand"};
  }
}

// ------------------------------------------------------------------ solver
struct VarSet { std::vector<unsigned> v; bool uf = false, real = false, bv = false, nl = false, dv = false; };
static std::unordered_map<unsigned, std::pair<expr, VarSet>> *vsCache;
static const VarSet &varsOf(const expr &e) {
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = vsCache->find(id); if (it != vsCache->end()) return it->second.second;
  VarSet s; std::vector<expr> stack{e}; std::unordered_set<unsigned> seen; std::set<unsigned> vs;
  while (!stack.empty()) {
    expr x = stack.back(); stack.pop_back(); if (!seen.insert(Z3_get_ast_id(*Z, x)).second) continue;
    if (!x.is_app()) continue;
    if (x.get_sort().is_real()) s.real = true; else if (x.get_sort().is_bv()) s.bv = true;
    if (x.num_args() == 0) { if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vs.insert(Z3_get_ast_id(*Z, x)); }
    else {
      auto k = x.decl().decl_kind();
      if (k == Z3_OP_UNINTERPRETED) { s.uf = true; vs.insert(Z3_get_ast_id(*Z, (expr)x) * 0 + Z3_get_func_decl_id(*Z, x.decl()) + 0x40000000u); }
      if (k == Z3_OP_MUL) { int c = 0; for (unsigned i = 0; i < x.num_args(); i++) if (!x.arg(i).is_numeral()) c++; if (c > 1) s.nl = true; }
      if (k == Z3_OP_DIV && !x.arg(1).is_numeral()) s.nl = true;
      if (k == Z3_OP_POWER) s.nl = true;
      if (k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I || k == Z3_OP_BUREM || k == Z3_OP_BUREM_I || k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I || k == Z3_OP_BSREM || k == Z3_OP_BSREM_I) s.dv = true;
      for (unsigned i = 0; i < x.num_args(); i++) stack.push_back(x.arg(i));
    }
  }
  s.v.assign(vs.begin(), vs.end());
  return vsCache->emplace(id, std::make_pair(e, s)).first->second.second;
}
enum R { UNSAT, SAT, UNKNOWN };
static std::vector<expr> slice(State &s, const std::vector<expr> &extra) {
  std::set<unsigned> vs; for (auto &e : extra) for (auto v : varsOf(e).v) vs.insert(v);
  std::vector<char> used(s.pc.size(), 0); std::vector<expr> out; bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      auto &x = varsOf(s.pc[i]).v; bool hit = false; for (auto v : x) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; out.push_back(s.pc[i]); for (auto v : x) if (vs.insert(v).second) ch = true; }
    }
  }
  return out;
}
struct CKey { std::vector<unsigned> ids; bool operator==(const CKey &o) const { return ids == o.ids; } };
struct CHash { size_t operator()(const CKey &k) const { u64 h = 1469598103934665603ull; for (auto i : k.ids) { h ^= i; h *= 1099511628211ull; } return h; } };
static std::unordered_map<CKey, std::pair<R, std::vector<expr>>, CHash> *qCache;

#include "bvint.inc"
static R rawCheck(const std::vector<expr> &cs, std::shared_ptr<z3::model> *m, unsigned ms = 0) {
  bool uf = false, real = false, bv = false, nl = false, dv = false;
  for (auto &e : cs) { auto &v = varsOf(e); uf |= v.uf; real |= v.real; bv |= v.bv; nl |= v.nl; dv |= v.dv; }
  nQueries++; double a = now(); R res = UNKNOWN;
  auto tryS = [&](z3::solver sv, unsigned t) {
    z3::params p(*Z); p.set("timeout", t); sv.set(p);
    for (auto &e : cs) sv.add(e);
    z3::check_result r = z3::unknown;
    try { r = sv.check(); } catch (z3::exception &ex) { r = z3::unknown; }
    if (r == z3::sat) { res = SAT; if (m) *m = std::make_shared<z3::model>(sv.get_model()); }
    else if (r == z3::unsat) res = UNSAT;
  };
  if (!ms) ms = solverMs;
  if (real && nl && !uf && !bv) {
    tryS(z3::tactic(*Z, "qfnra-nlsat").mk_solver(), ms);
    if (res == UNKNOWN) tryS(z3::solver(*Z), ms);
  } else if (bv && !real && !uf && ms > 4000) { // divisions: integer encoding first; otherwise bit-blasting first
    auto ints = [&](unsigned t) {
      std::vector<expr> vals; R q = bvAsInt(cs, t, vals); if (q != UNKNOWN) nAsInt++;
      if (q == UNSAT || (q == SAT && !m)) res = q;
      else if (q == SAT) { z3::solver sv(*Z); for (auto &e : cs) sv.add(e); for (auto &v : vals) sv.add(v); if (sv.check() == z3::sat) { res = SAT; *m = std::make_shared<z3::model>(sv.get_model()); } } };
    if (dv) ints(2000); if (res == UNKNOWN) tryS(z3::solver(*Z), 2000); if (res == UNKNOWN) ints(ms); if (res == UNKNOWN) tryS(z3::solver(*Z), ms);
  } else {
    tryS(z3::solver(*Z), ms);
  }
  tSolver += now() - a; static const bool slow = getenv("VPSYM_SLOW"); if (slow && now() - a > 0.5) { fprintf(stderr, "SLOW %.1fs res %d dv %d\n", now() - a, res, dv); for (auto &e : cs) fprintf(stderr, "   %s\n", e.to_string().c_str()); }
  if (res == SAT) nSat++; else if (res == UNSAT) nUnsat++; else nUnknown++;
  return res;
}
static R solve(State &s, const expr &extra, std::shared_ptr<z3::model> *m = nullptr) {
  if (extra.is_true()) return SAT; if (extra.is_false()) return UNSAT;
  std::vector<expr> ex{extra}, cs = slice(s, ex); cs.push_back(extra);
  CKey k; for (auto &e : cs) k.ids.push_back(Z3_get_ast_id(*Z, e)); std::sort(k.ids.begin(), k.ids.end());
  if (!m) { auto it = qCache->find(k); if (it != qCache->end()) { nCacheHits++; return it->second.first; } }
  R r = rawCheck(cs, m);
  if (r != UNKNOWN) qCache->emplace(k, std::make_pair(r, cs));
  return r;
}
static expr simp(const expr &e) { return e.simplify(); }
static z3::params *somP;
static expr simpSom(const expr &e) { return e.simplify(*somP); }

// decide a condition: 1 always true, 0 always false, 2 both, -1 unknown
static int decide(State &s, const expr &c0) {
  expr c = simp(c0); if (c.is_true()) return 1; if (c.is_false()) return 0;
  R t = solve(s, c); if (t == UNSAT) return 0;
  R f = solve(s, !c); if (f == UNSAT) return t == UNKNOWN ? -1 : 1;
  if (t == UNKNOWN || f == UNKNOWN) return -1;
  return 2;
}
static void addC(State &s, const expr &c) { if (!c.is_true()) s.pc.push_back(c); }

// ------------------------------------------------------------------ reporting
static std::string traceJson(State &s) {
  std::string r = "["; bool first = true;
  auto &t = s.th[s.cur];
  for (int i = (int)t.fr.size() - 1; i >= 0; i--) { auto &f = t.fr[i]; std::string l = "?";
    if (f.bb < (int)f.fn->bb.size() && f.pc < (int)f.fn->bb[f.bb].size()) l = loc(f.fn->bb[f.bb][f.pc].I);
    r += std::string(first ? "" : ",") + "\"" + jesc(f.fn->f->getName().str()) + " " + jesc(l) + "\""; first = false; }
  return r + "]";
}
static std::string valStr(const z3::model *m, const Val &v, char kind) {
  if (v.k == VConc) { if (kind == 'r') { char b[64]; snprintf(b, 64, "%.17g", fpOf(v)); return b; } return std::to_string((i64)(v.w < 64 && kind == 'i' && (v.c >> (v.w - 1)) ? v.c | (~0ull << v.w) : v.c)); }
  if (v.k == VUndef || !m) return "0";
  if (kind == 'r' && v.k == VSym) { u64 h = 1469598103934665603ull; for (char c : v.e().to_string()) h = (h ^ (u8)c) * 1099511628211ull; char b[64]; snprintf(b, 64, "%.17g", 0.1 + (double)(h >> 40 & 0x3ff) / 1024); return b; } // uninterpreted arithmetic: any generic value
  expr e = m->eval(v.e(), true);
  if (kind == 'r') { if (e.is_algebraic() && !e.is_numeral()) { std::string d = e.get_decimal_string(20); if (!d.empty() && d.back() == '?') d.pop_back(); return d; } double d = 0; if (e.is_numeral()) ratToDouble(e, d, nullptr); else { std::string q = e.get_decimal_string(20); if (!q.empty() && q.back() == '?') q.pop_back(); return q; } char b[64]; snprintf(b, 64, "%.17g", d); return b; }
  if (e.is_bool()) return e.is_true() ? "1" : "0";
  u64 x = e.is_numeral() ? e.get_numeral_uint64() : 0; if (v.w < 64 && kind == 'i' && (x >> (v.w - 1))) x |= ~0ull << v.w;
  return std::to_string((i64)x);
}
static void violation(State &s, const std::string &kind, const std::string &label, const std::string &msg, const expr *neg = nullptr, const std::vector<expr> *nice = nullptr) {
  // find a model of the whole path condition
  std::vector<expr> cs = s.pc; if (neg) cs.push_back(*neg);
  std::shared_ptr<z3::model> m; R r = UNKNOWN;
  if (nice) { auto c2 = cs; for (auto &e : *nice) c2.push_back(e); r = rawCheck(c2, &m, 4000); }
  if (r != SAT && !cs.empty()) {
    r = rawCheck(cs, &m);
    if (r == UNSAT) { problems.push_back("path condition became unsatisfiable at " + label); throw PathEnd(); }
  }
  std::string j = "{\"kind\":\"" + jesc(kind) + "\",\"label\":\"" + jesc(label) + "\",\"message\":\"" + jesc(msg) + "\",\"model_found\":" + (r == SAT || cs.empty() ? "true" : "false") + ",\"inputs\":{";
  bool first = true; std::set<std::string> done;
  for (auto &i : s.in) { if (!done.insert(i.name).second) continue; j += std::string(first ? "" : ",") + "\"" + jesc(i.name) + "\":\"" + valStr(m.get(), i.v, i.kind) + "\""; first = false; }
  j += "},\"stack\":" + traceJson(s) + ",\"trail\":\"" + jesc(s.trail) + "\"}";
  violationsJson.push_back(j);
  if (verbose) fprintf(stderr, "VIOL %s %s %s\n", kind.c_str(), label.c_str(), msg.c_str());
}
// inputs of a completed path, for native re-execution
static int maxSamples = 0; static std::vector<std::string> samplesJson; static u64 sampleRng = 88172645463325252ull;
static void samplePath(State &s) {
  if (fpUF || (int)samplesJson.size() >= maxSamples || s.in.empty()) return; static u64 seen = 0, nextAt = 1; if (++seen < nextAt) return; nextAt = nextAt * 3 / 2 + 1;
  auto rnd = [&]() { sampleRng ^= sampleRng << 13; sampleRng ^= sampleRng >> 7; sampleRng ^= sampleRng << 17; return sampleRng; };
  std::vector<expr> cs = s.pc, c2 = cs; for (auto &i : s.in) if (i.v.k == VReal) c2.push_back(i.v.e() == Z->real_val((int)(rnd() % 63) - 31, 16));
  std::shared_ptr<z3::model> m; R r = c2.empty() ? SAT : rawCheck(c2, &m, 1500);
  if (r != SAT) { r = rawCheck(cs, &m, 3000); if (r != SAT) return; }
  std::string j = "{"; bool first = true; std::set<std::string> done;
  for (auto &i : s.in) { if (!done.insert(i.name).second) continue; j += std::string(first ? "" : ",") + "\"" + jesc(i.name) + "\":\"" + valStr(m.get(), i.v, i.kind) + "\""; first = false; }
  samplesJson.push_back(j + "}");
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &label, const std::string &msg) { violation(s, kind, label, msg); throw PathEnd(); }

// ------------------------------------------------------------------ forking
static SP forkState(State &s) { nForks++; return SP(new State(s)); }
static void pushWork(SP p) { work.push_back(std::move(p)); }

// concretise a bit-vector value; forks over the other feasible values (each re-executes the instruction)
static u64 concretize(State &s, const Val &v, const char *why) {
  if (v.k == VConc) return v.c;
  if (v.k == VUndef) { violation(s, "uninit", why, std::string("uninitialised value used as ") + why); throw PathEnd(); }
  if (v.k == VReal) throw Unsupported{std::string("floating payload used as ") + why};
  expr e = v.e(); unsigned id = Z3_get_ast_id(*Z, e);
  auto it = s.conc.find(id); if (it != s.conc.end()) return it->second;
  if (v.w == 1) {
    int d = decide(s, e); if (d < 0) throw Unsupported{"solver gave no answer (branch)"};
    if (d == 2) { SP o = forkState(s); addC(*o, !e); o->conc[id] = 0; o->keep.push_back(e); pushWork(std::move(o)); addC(s, e); s.conc[id] = 1; s.keep.push_back(e); return 1; }
    return d;
  }
  std::vector<u64> vals; std::vector<expr> cs = slice(s, {e == e ? e == freshBV(v.w, "cz!") : e}); // slice by e's variables
  expr block = Z->bool_val(true);
  z3::solver sv(*Z); { z3::params p(*Z); p.set("timeout", solverMs); sv.set(p); }
  for (auto &c : cs) sv.add(c);
  double a = now();
  for (;;) {
    nQueries++; auto r = sv.check();
    if (r == z3::unsat) { nUnsat++; break; }
    if (r == z3::unknown) { nUnknown++; tSolver += now() - a; throw Unsupported{std::string("solver gave no answer while enumerating ") + why}; }
    nSat++;
    expr x = sv.get_model().eval(e, true); u64 c = x.get_numeral_uint64(); vals.push_back(c); sv.add(e != Z->bv_val((uint64_t)c, v.w));
    if (vals.size() > 4096) { tSolver += now() - a; throw Unsupported{std::string("more than 4096 values for ") + why}; }
  }
  tSolver += now() - a;
  if (vals.empty()) { throw PathEnd(); }
  std::sort(vals.begin(), vals.end());
  for (size_t i = vals.size(); i-- > 1;) {
    SP o = forkState(s); addC(*o, e == Z->bv_val((uint64_t)vals[i], v.w)); o->conc[id] = vals[i]; o->keep.push_back(e); pushWork(std::move(o)); }
  if (vals.size() > 1) addC(s, e == Z->bv_val((uint64_t)vals[0], v.w));
  s.conc[id] = vals[0]; s.keep.push_back(e);
  return vals[0];
}

// ------------------------------------------------------------------ memory
static std::string objName(const Obj *o, u64 id) { return (o && !o->name.empty() ? o->name : std::string("object")) + "#" + std::to_string(id); }
static const char *kindName(OKind k) { switch (k) { case OHeap: return "heap block"; case OStack: return "local variable"; case OGlobal: return "global"; case OMpi: return "MPI buffer"; default: return "object"; } }

static Obj *access(State &s, u64 addr, u64 n, bool write, bool peekOnly = false) {
  u64 id = addr >> 32, off = addr & 0xffffffffu;
  const char *rw = write ? "write" : "read";
  if (id == 0 || id >= s.mem.next) fail(s, "memory", "invalid-pointer", std::string(rw) + " of " + std::to_string(n) + " bytes through an invalid pointer " + std::to_string(addr));
  Obj *o = s.mem.peek(id);
  if (!o) fail(s, "memory", "dead-object", std::string(rw) + " of an object that no longer exists");
  if (o->freed) fail(s, "memory", "use-after-free", std::string(rw) + " of a freed " + kindName(o->kind) + " " + objName(o, id));
  if (off + n > o->size) fail(s, "memory", "out-of-bounds", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int)off) + " of " + kindName(o->kind) + " " + objName(o, id) + " of " + std::to_string(o->size) + " bytes");
  if (write && o->ro) fail(s, "memory", "write-to-constant", "write to constant " + objName(o, id));
  if (write) o = s.mem.writable(id);
  return o;
}
static const llvm::Instruction *curI;
static void race(State &s, const Acc &a, Thread &T, bool w, const Obj *o, u64 addr) {
  nRaceViol++;
  std::string who = a.g != T.league ? "teams " + std::to_string(a.g) + " and " + std::to_string(T.league) : "threads " + std::to_string(a.t) + " and " + std::to_string(T.tid);
  fail(s, "race", "data-race", std::string("data race on ") + kindName(o->kind) + " " + objName(o, addr >> 32) + " offset " + std::to_string(addr & 0xffffffffu) + " between " + who + ": " + (a.w ? "write" : "read") + " at " + loc(a.I) + " and " + (w ? "write" : "read") + " at " + loc(curI) + " are not ordered");
}
static void note(State &s, Obj *o, u64 addr, u64 n, bool write) {
  // MPI rules
  if (o->win >= 0 || o->hasPending) {
    auto &T = s.th[s.cur];
    if (s.mpi && T.rank >= 0) {
      if (o->hasPending) for (auto &w : s.mpi->wins) for (auto &g : w.gets)
        if (g.origin == T.rank && addr < g.dst + g.n && g.dst < addr + n)
          fail(s, "mpi", "pending-get-access", std::string(write ? "write to" : "read of") + " the destination of a transfer before the fence that completes it (get at " + loc(g.I) + ")");
      if (o->win >= 0 && write) { if (s.mpi.use_count() > 1) s.mpi = std::make_shared<Mpi>(*s.mpi); auto &W = s.mpi->wins[o->win];
        for (auto &g : W.gets) if (g.target == T.rank && addr < g.src + g.n && g.src < addr + n)
          fail(s, "mpi", "epoch-race", "write to an exposed buffer while rank " + std::to_string(g.origin) + " may be reading it (get at " + loc(g.I) + ")");
        W.stores[T.rank].push_back({addr, addr + n}); }
    }
  }
  if (s.par > 0 && !s.raceOff) {
    auto &T = s.th[s.cur]; if (T.team < 0) return;
    int ph = s.phase[T.league]; u64 L = T.lock; nRaceChecks++;
    for (u64 g = addr >> 3; g <= (addr + n - 1) >> 3; g++) {
      u64 lo = std::max(addr, g << 3), hi = std::min(addr + n, (g + 1) << 3); u8 mask = 0; for (u64 i = lo; i < hi; i++) mask |= 1 << (i & 7);
      auto &v = s.shadow[g]; bool have = false;
      for (auto &a : v) {
        if (a.g == T.league && a.t == T.tid) { if (a.w == write && a.phase == ph && a.lock == L && (a.mask & mask) == mask) have = true; continue; }
        if (!(a.w || write) || !(a.mask & mask)) continue;
        if (a.g == T.league && a.phase != ph) continue;
        if (L && L == a.lock) continue;
        race(s, a, T, write, o, g << 3);
      }
      if (!have) v.push_back({T.league, T.tid, ph, write, mask, L, curI});
    }
  }
}
// make sure no cell straddles offset `off`
static void splitAt(Obj *o, u64 off) {
  if (off >= o->size || o->st[off] != 3) return;
  u64 st = off; while (o->st[st] == 3) st--;
  Val v = o->cells[(u32)st]; o->cells.erase((u32)st); unsigned nb = v.w / 8; expr e = toE(v);
  for (unsigned i = 0; i < nb; i++) { expr x = simp(e.extract(8 * i + 7, 8 * i)); Val b = symVal(x, 8); u64 p = st + i;
    if (b.isC()) { o->st[p] = 1; o->b[p] = (u8)b.c; } else { o->st[p] = 2; o->cells[(u32)p] = b; } }
}
static void clearCells(Obj *o, u64 off, u64 n) {
  if (o->cells.empty()) return;
  splitAt(o, off); if (off + n < o->size) splitAt(o, off + n);
  auto a = o->cells.lower_bound((u32)off), b = o->cells.lower_bound((u32)(off + n)); o->cells.erase(a, b);
}
static void rawStore(Obj *o, u64 off, const Val &v0, unsigned n) {
  clearCells(o, off, n);
  if (v0.k == VConc) { u64 c = v0.c; for (unsigned i = 0; i < n; i++) { o->b[off + i] = (u8)(c >> (8 * i)); o->st[off + i] = 1; } return; }
  if (v0.k == VUndef) { for (unsigned i = 0; i < n; i++) o->st[off + i] = 0; return; }
  Val v = v0;
  if (v.k == VSym && v.w != n * 8) { expr e = v.w == 1 ? z3::ite(v.e(), Z->bv_val(1, n * 8), Z->bv_val(0, n * 8)) : z3::zext(v.e(), n * 8 - v.w); v = Val::mk(VSym, n * 8, e); }
  o->cells[(u32)off] = v; o->st[off] = 2; for (unsigned i = 1; i < n; i++) o->st[off + i] = 3;
}
static Val rawLoad(State &s, Obj *o, u64 off, unsigned n, u64 id) {
  bool allc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { allc = false; break; }
  if (allc) { u64 c = 0; for (unsigned i = 0; i < n; i++) c |= (u64)o->b[off + i] << (8 * i); return Val::conc(c, n * 8); }
  if (o->st[off] == 2) { auto &v = o->cells[(u32)off]; if (v.w == n * 8) return v; }
  bool allu = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 0) { allu = false; break; }
  if (allu) { return Val::undef(n * 8); }
  // assemble from bytes
  auto byteAt = [&](u64 p) -> expr {
    if (o->st[p] == 1) return Z->bv_val((unsigned)o->b[p], 8);
    if (o->st[p] == 0) return freshBV(8);
    u64 q = p; while (o->st[q] == 3) q--; const Val &v = o->cells[(u32)q]; unsigned k = (unsigned)(p - q); return toE(v).extract(8 * k + 7, 8 * k); };
  expr e = byteAt(off); for (unsigned i = 1; i < n; i++) e = z3::concat(byteAt(off + i), e);
  return symVal(simp(e), n * 8);
}
static Val loadMem(State &s, u64 addr, unsigned n, u32 w) {
  Obj *o = access(s, addr, n, false); note(s, o, addr, n, false);
  u64 id = addr >> 32, off = addr & 0xffffffffu;
  Val v = rawLoad(s, o, off, n, id);
  if (v.k == VUndef && n <= 8) { // pin the arbitrary value so that later reads agree
    o = s.mem.writable(id); Val f = Val::undef(n * 8); f.w = n * 8; v = f; }
  if (w != v.w) { // i1 or odd widths
    if (v.k == VConc) return Val::conc(v.c, w);
    if (v.k == VUndef) return Val::undef(w);
    expr e = toE(v); if (w == 1) return symVal(simp(e.extract(0, 0) == Z->bv_val(1, 1)), 1);
    if (w < v.w) return symVal(simp(e.extract(w - 1, 0)), w);
  }
  return v;
}
static void storeMem(State &s, u64 addr, const Val &v, unsigned n) {
  Obj *o = access(s, addr, n, true); note(s, o, addr, n, true); rawStore(o, addr & 0xffffffffu, v, n);
}
struct Blob { std::vector<u8> b, st; std::map<u32, Val> cells; };
static Blob getBlob(State &s, u64 addr, u64 n, bool noteIt = true) {
  Blob r; if (!n) return r; Obj *o = access(s, addr, n, false); if (noteIt) note(s, o, addr, n, false);
  u64 off = addr & 0xffffffffu;
  if (!o->cells.empty() && (o->st[off] == 3 || (off + n < o->size && o->st[off + n] == 3))) { o = s.mem.writable(addr >> 32); splitAt(o, off); if (off + n < o->size) splitAt(o, off + n); }
  r.b.assign(o->b.begin() + off, o->b.begin() + off + n); r.st.assign(o->st.begin() + off, o->st.begin() + off + n);
  for (auto it = o->cells.lower_bound((u32)off); it != o->cells.end() && it->first < off + n; ++it) r.cells[(u32)(it->first - off)] = it->second;
  return r;
}
static void putBlob(State &s, u64 addr, const Blob &bl, bool noteIt = true) {
  u64 n = bl.b.size(); if (!n) return; Obj *o = access(s, addr, n, true); if (noteIt) note(s, o, addr, n, true);
  u64 off = addr & 0xffffffffu; clearCells(o, off, n);
  std::copy(bl.b.begin(), bl.b.end(), o->b.begin() + off); std::copy(bl.st.begin(), bl.st.end(), o->st.begin() + off);
  for (auto &c : bl.cells) o->cells[(u32)(off + c.first)] = c.second;
}
static u64 mallocObj(State &s, u64 n, const char *nm, u8 al, OKind k = OHeap) {
  if (n > (1ull << 31)) throw Unsupported{"allocation of " + std::to_string(n) + " bytes"};
  u64 a = s.mem.alloc(n, k, nm); Obj *o = s.mem.peek(a >> 32); o->alloc = al; o->proc = s.th[s.cur].proc; o->thread = s.th[s.cur].id; return a;
}
static void freeObj(State &s, u64 addr, u8 al) {
  if (addr == 0) return; u64 id = addr >> 32; Obj *o = id < s.mem.next ? s.mem.peek(id) : nullptr;
  if (!o || (addr & 0xffffffffu) || (o->kind != OHeap && o->kind != OMpi)) fail(s, "memory", "bad-free", "release of a pointer that was not allocated");
  if (o->freed) fail(s, "memory", "double-free", "release of memory that was already released");
  if (o->alloc != al) fail(s, "memory", "mismatched-free", "memory released by a different family than it was allocated with");
  if (o->win >= 0 && s.mpi && !s.mpi->wins[o->win].freed) fail(s, "mpi", "free-open-window", "memory released while its communication window is still open");
  note(s, o, addr, o->size, true);
  o = s.mem.writable(id); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->cells.clear();
}

// ------------------------------------------------------------------ globals
static u64 globalAddr(State &s, const llvm::GlobalVariable *g);
static u64 valueAddr(State &s, const llvm::GlobalValue *g) {
  if (auto *a = dyn_cast<llvm::GlobalAlias>(g)) return valueAddr(s, cast<llvm::GlobalValue>(a->getAliasee()->stripPointerCasts()));
  if (auto *f = dyn_cast<llvm::Function>(g)) {
    auto it = funcIdx.find(f); if (it == funcIdx.end()) { funcIdx[f] = funcByIdx.size(); funcByIdx.push_back(f); it = funcIdx.find(f); }
    return FUNCBASE + (it->second << 4);
  }
  return globalAddr(s, cast<llvm::GlobalVariable>(g));
}
static Val constVal(State *s, const llvm::Constant *c);
static void writeInit(State &s, u64 base, u64 off, const llvm::Constant *c) {
  llvm::Type *t = c->getType(); Obj *o = s.mem.writable(base >> 32); u64 sz = DL->getTypeStoreSize(t);
  if (isa<llvm::ConstantAggregateZero>(c) || c->isNullValue()) { for (u64 i = 0; i < DL->getTypeAllocSize(t) && off + i < o->size; i++) { o->b[off + i] = 0; o->st[off + i] = 1; } return; }
  if (isa<llvm::UndefValue>(c)) return;
  if (auto *d = dyn_cast<llvm::ConstantDataSequential>(c)) { u64 es = d->getElementByteSize(); for (unsigned i = 0; i < d->getNumElements(); i++) writeInit(s, base, off + i * es, d->getElementAsConstant(i)); return; }
  if (auto *a = dyn_cast<llvm::ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(s, base, off + i * es, a->getOperand(i)); return; }
  if (auto *a = dyn_cast<llvm::ConstantStruct>(c)) { auto *sl = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(s, base, off + sl->getElementOffset(i), a->getOperand(i)); return; }
  if (auto *a = dyn_cast<llvm::ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(s, base, off + i * es, a->getOperand(i)); return; }
  Val v = constVal(&s, c); o = s.mem.writable(base >> 32); rawStore(o, off, v, (unsigned)sz);
}
static u64 globalAddr(State &s, const llvm::GlobalVariable *g) {
  int proc = s.th.empty() ? 0 : s.th[s.cur].proc;
  if (g->getSection() == "vpshared" || (g->isConstant() && g->hasInitializer() && !g->getInitializer()->needsDynamicRelocation())) proc = 0;
  auto key = std::make_pair(proc, g); auto it = s.glob->find(key); if (it != s.glob->end()) return it->second;
  if (s.glob.use_count() > 1) s.glob = std::make_shared<std::map<std::pair<int, const llvm::GlobalVariable *>, u64>>(*s.glob);
  u64 sz = DL->getTypeAllocSize(g->getValueType()); u64 a = s.mem.alloc(sz, OGlobal, g->getName().str());
  s.mem.peek(a >> 32)->proc = proc; (*s.glob)[key] = a;
  if (!g->hasInitializer()) {
    if (g->getName().starts_with("_ZTV") || g->getName().starts_with("_ZTI") || g->getName().starts_with("_ZTS") || g->getName() == "__dso_handle") { Obj *o = s.mem.peek(a >> 32); std::fill(o->st.begin(), o->st.end(), 1); }
    else throw Unsupported{"external global " + g->getName().str()};
  }
  else writeInit(s, a, 0, g->getInitializer());
  if (g->isConstant()) s.mem.writable(a >> 32)->ro = true;
  return a;
}
static u32 tyWidth(llvm::Type *t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80; return 0;
}
static Val constVal(State *s, const llvm::Constant *c) {
  llvm::Type *t = c->getType();
  if (auto *i = dyn_cast<llvm::ConstantInt>(c)) { if (i->getBitWidth() <= 64) return Val::conc(i->getZExtValue(), i->getBitWidth()); llvm::SmallString<64> st; i->getValue().toString(st, 10, false); return Val::mk(VSym, i->getBitWidth(), Z->bv_val(st.c_str(), i->getBitWidth())); }
  if (auto *f = dyn_cast<llvm::ConstantFP>(c)) { if (t->isDoubleTy()) return Val::conc(f->getValueAPF().bitcastToAPInt().getZExtValue(), 64); if (t->isFloatTy()) return Val::conc(f->getValueAPF().bitcastToAPInt().getZExtValue(), 32); throw Unsupported{"long double constant"}; }
  if (isa<llvm::ConstantPointerNull>(c)) return Val::conc(0, 64);
  if (auto *st = dyn_cast<llvm::StructType>(t)) { std::vector<Val> a; for (unsigned i = 0; i < st->getNumElements(); i++) a.push_back(constVal(s, c->getAggregateElement(i))); return Val::aggregate(std::move(a)); }
  if (auto *at = dyn_cast<llvm::ArrayType>(t)) { std::vector<Val> a; for (unsigned i = 0; i < at->getNumElements(); i++) a.push_back(constVal(s, c->getAggregateElement(i))); return Val::aggregate(std::move(a)); }
  if (auto *vt = dyn_cast<llvm::FixedVectorType>(t)) { std::vector<Val> a; for (unsigned i = 0; i < vt->getNumElements(); i++) a.push_back(constVal(s, c->getAggregateElement(i))); return Val::aggregate(std::move(a)); }
  if (isa<llvm::UndefValue>(c)) return Val::undef(tyWidth(t));
  if (auto *g = dyn_cast<llvm::GlobalValue>(c)) { if (!s) throw Unsupported{"global constant"}; return Val::conc(valueAddr(*s, g), 64); }
  if (auto *e = dyn_cast<llvm::ConstantExpr>(c)) {
    if (e->getOpcode() == llvm::Instruction::GetElementPtr) { llvm::APInt off(64, 0); const llvm::Value *b = e->stripAndAccumulateConstantOffsets(*DL, off, true); if (auto *bc = dyn_cast<llvm::Constant>(b)) if (bc != c) { Val v = constVal(s, bc); return Val::conc(v.c + off.getSExtValue(), 64); } }
    if (e->getOpcode() == llvm::Instruction::PtrToInt || e->getOpcode() == llvm::Instruction::IntToPtr || e->getOpcode() == llvm::Instruction::BitCast) { Val v = constVal(s, e->getOperand(0)); return Val::conc(v.c, tyWidth(t)); }
    if (e->getOpcode() == llvm::Instruction::Sub || e->getOpcode() == llvm::Instruction::Add) { Val a = constVal(s, e->getOperand(0)), b = constVal(s, e->getOperand(1)); return Val::conc(e->getOpcode() == llvm::Instruction::Sub ? a.c - b.c : a.c + b.c, tyWidth(t)); }
    if (e->getOpcode() == llvm::Instruction::Trunc) { Val a = constVal(s, e->getOperand(0)); return Val::conc(a.c, tyWidth(t)); }
    if (e->getOpcode() == llvm::Instruction::ICmp) { Val a = constVal(s, e->getOperand(0)), b = constVal(s, e->getOperand(1)); bool r = false; switch (e->getPredicate()) { case llvm::CmpInst::ICMP_EQ: r = a.c == b.c; break; case llvm::CmpInst::ICMP_NE: r = a.c != b.c; break; default: throw Unsupported{"constant compare"}; } return Val::conc(r, 1); }
  }
  std::string m; llvm::raw_string_ostream os(m); c->print(os); throw Unsupported{"constant " + m};
}

#include "prog.inc"
#include "ops.inc"
#include "omp.inc"
#include "mpi.inc"
#include "lib.inc"
#include "exec.inc"
