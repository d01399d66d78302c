// ------------------------------------------------------------------ integer and floating point operators
using llvm::Instruction;
static i64 sx(u64 c, u32 w) { return w >= 64 ? (i64)c : (i64)(c << (64 - w)) >> (64 - w); }
static Val mkUndefArith(u32 w) { return Val::undef(w); }
static bool isAllOnes(const Val &v) { return v.isC() && v.c == (v.w >= 64 ? ~0ull : (1ull << v.w) - 1); }

static Val fpBin(State &s, unsigned op, const Val &a, const Val &b, u32 w);
static Val fpNeg(State &s, const Val &a);
static Val fpAbs(State &s, const Val &a);

// an upper bound (unsigned) of a bit-vector term, from the ranges of the inputs in it
static std::pair<__int128, __int128> srange(State &s, const expr &e, int depth);
static u64 ubound(State &s, const expr &e, int depth = 12) {
  u32 w = e.get_sort().bv_size(); u64 top = w >= 64 ? ~0ull : (1ull << w) - 1; if (w > 64) return ~0ull;
  if (e.is_numeral()) return e.get_numeral_uint64();
  if (!e.is_app() || depth == 0) return top;
  auto k = e.decl().decl_kind(); auto sub = [&](unsigned i) { return ubound(s, e.arg(i), depth - 1); };
  switch (k) {
  case Z3_OP_UNINTERPRETED: { if (e.num_args()) return top; auto it = s.ub.find(Z3_get_ast_id(*Z, e)); return it == s.ub.end() ? top : std::min(top, it->second); }
  case Z3_OP_ZERO_EXT: return sub(0);
  case Z3_OP_CONCAT: { if (e.num_args() == 2 && e.arg(0).is_numeral() && e.arg(0).get_numeral_uint64() == 0) return sub(1); return top; }
  case Z3_OP_EXTRACT: if (e.arg(0).get_sort().bv_size() > 64) return top; return e.lo() == 0 ? std::min(top, sub(0)) : std::min(top, sub(0) >> e.lo());
  case Z3_OP_ITE: return std::max(sub(1), sub(2));
  case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: if (e.arg(1).is_numeral()) { u64 c = e.arg(1).get_numeral_uint64(); return c ? sub(0) / c : top; } return top;
  case Z3_OP_BUREM: case Z3_OP_BUREM_I: if (e.arg(1).is_numeral()) { u64 c = e.arg(1).get_numeral_uint64(); return c ? std::min(sub(0), c - 1) : top; } return top;
  case Z3_OP_BADD: { unsigned __int128 t = 0; for (unsigned i = 0; i < e.num_args(); i++) t += sub(i); return t > top ? top : (u64)t; }
  case Z3_OP_BMUL: { unsigned __int128 t = 1; for (unsigned i = 0; i < e.num_args(); i++) { t *= sub(i); if (t > top) return top; } return (u64)t; }
  case Z3_OP_BLSHR: if (e.arg(1).is_numeral()) { u64 c = e.arg(1).get_numeral_uint64(); return c >= w ? 0 : sub(0) >> c; } return top;
  default: return top;
  }
}
// the range of a term read as a signed number
typedef __int128 i128;
static std::pair<i128, i128> srange(State &s, const expr &e, int depth) {
  u32 w = e.get_sort().bv_size(); if (w > 64) return {0, -1};
  i128 half = (i128)1 << (w - 1); std::pair<i128, i128> top{-half, half - 1};
  if (e.is_numeral()) { i128 v = (i128)e.get_numeral_uint64(); if (v >= half) v -= 2 * half; return {v, v}; }
  if (!e.is_app() || depth == 0) return top;
  auto fit = [&](i128 lo, i128 hi) { return lo < -half || hi >= half ? top : std::make_pair(lo, hi); };
  auto sub = [&](unsigned i) { return srange(s, e.arg(i), depth - 1); };
  auto k = e.decl().decl_kind();
  switch (k) {
  case Z3_OP_UNINTERPRETED: { if (e.num_args()) return top; auto it = s.sr.find(Z3_get_ast_id(*Z, e)); return it == s.sr.end() ? top : std::make_pair((i128)it->second.first, (i128)it->second.second); }
  case Z3_OP_SIGN_EXT: return sub(0);
  case Z3_OP_CONCAT: { // a sign extension spelt out: copies of a top bit in front of the value
    unsigned n = e.num_args(); if (n < 2) break; expr f = e.arg(0); if (f.get_sort().bv_size() != 1 || !f.is_app() || f.decl().decl_kind() != Z3_OP_EXTRACT) break;
    expr l = e.arg(n - 1); bool same = true; for (unsigned i = 1; i + 1 < n && same; i++) same = z3::eq(f, e.arg(i)); if (!same) break;
    if ((z3::eq(l, f.arg(0)) && f.hi() + 1 == l.get_sort().bv_size()) || (l.is_app() && l.decl().decl_kind() == Z3_OP_EXTRACT && z3::eq(l.arg(0), f.arg(0)) && l.hi() == f.hi())) return sub(n - 1);
    break; }
  case Z3_OP_EXTRACT: { if (e.lo() || e.arg(0).get_sort().bv_size() > 64) break; auto a = sub(0); if (a.first >= -half && a.second < half) return a; break; }
  case Z3_OP_ITE: { auto a = sub(1), b = sub(2); return {std::min(a.first, b.first), std::max(a.second, b.second)}; }
  case Z3_OP_BADD: { i128 lo = 0, hi = 0; for (unsigned i = 0; i < e.num_args(); i++) { auto a = sub(i); lo += a.first; hi += a.second; } return fit(lo, hi); }
  case Z3_OP_BNEG: { auto a = sub(0); return fit(-a.second, -a.first); }
  case Z3_OP_BMUL: { std::pair<i128, i128> r{1, 1}; for (unsigned i = 0; i < e.num_args(); i++) { auto a = sub(i); i128 c[4] = {r.first * a.first, r.first * a.second, r.second * a.first, r.second * a.second}; r = {*std::min_element(c, c + 4), *std::max_element(c, c + 4)}; if (r.first < -half || r.second >= half) return top; } return r; }
  case Z3_OP_BSREM: case Z3_OP_BSREM_I: { if (!e.arg(1).is_numeral()) break; auto c = sub(1), a = sub(0); i128 m = c.first < 0 ? -c.first : c.first; if (m == 0) break; return {a.first >= 0 ? (i128)0 : std::max(a.first, 1 - m), a.second <= 0 ? (i128)0 : std::min(a.second, m - 1)}; }
  case Z3_OP_BSDIV: case Z3_OP_BSDIV_I: { if (!e.arg(1).is_numeral()) break; auto c = sub(1), a = sub(0); if (c.first <= 0) break; return {a.first / c.first, a.second / c.first}; }
  default: break;
  }
  if (w <= 64) { u64 u = ubound(s, e, depth - 1); if ((i128)u < half) return {0, (i128)u}; }
  return top;
}
// unsigned division of bounded terms, in as few bits as they need
static std::pair<__int128, __int128> srange(State &s, const expr &e, int depth);
static expr divNarrow(State &s, const expr &p, const expr &q, bool rem) {
  u32 w = p.get_sort().bv_size(); auto most = [&](const expr &x) { u64 u = ubound(s, x); auto r = srange(s, x, 12); return r.first >= 0 ? std::min(u, (u64)r.second) : u; };
  u64 m = w <= 64 ? std::max(most(p), most(q)) : ~0ull; u32 k = 1; while (k < w && k < 64 && (m >> k)) k++;
  if (k >= w) return simp(rem ? z3::urem(p, q) : z3::udiv(p, q));
  expr a = simp(p.extract(k - 1, 0)), b = simp(q.extract(k - 1, 0)); return simp(z3::zext(rem ? z3::urem(a, b) : z3::udiv(a, b), w - k));
}

static Val binop(State &s, InstI &x, const Val &a, const Val &b) {
  u32 w = x.w; unsigned op = x.op;
  if (a.k == VAgg || b.k == VAgg) { // vectors
    std::vector<Val> r; auto *vt = cast<llvm::FixedVectorType>(x.I->getType()); u32 ew = tyWidth(vt->getElementType());
    InstI y; y.op = op; y.I = x.I; y.w = ew; y.ty = vt->getElementType()->isFloatingPointTy() ? 1 : 0;
    for (size_t i = 0; i < a.n->agg.size(); i++) r.push_back(y.ty == 1 ? fpBin(s, op, a.n->agg[i], b.n->agg[i], ew) : binop(s, y, a.n->agg[i], b.n->agg[i]));
    return Val::aggregate(std::move(r));
  }
  if (a.k == VConc && b.k == VConc && w <= 64) {
    u64 p = a.c, q = b.c;
    switch (op) {
    case Instruction::Add: return Val::conc(p + q, w);
    case Instruction::Sub: return Val::conc(p - q, w);
    case Instruction::Mul: return Val::conc(p * q, w);
    case Instruction::And: return Val::conc(p & q, w);
    case Instruction::Or: return Val::conc(p | q, w);
    case Instruction::Xor: return Val::conc(p ^ q, w);
    case Instruction::Shl: return q >= w ? Val::undef(w) : Val::conc(p << q, w);
    case Instruction::LShr: return q >= w ? Val::undef(w) : Val::conc(p >> q, w);
    case Instruction::AShr: return q >= w ? Val::undef(w) : Val::conc((u64)(sx(p, w) >> q), w);
    case Instruction::UDiv: if (!q) fail(s, "arith", "division-by-zero", "integer division by zero"); return Val::conc(p / q, w);
    case Instruction::URem: if (!q) fail(s, "arith", "division-by-zero", "integer remainder by zero"); return Val::conc(p % q, w);
    case Instruction::SDiv: case Instruction::SRem: {
      i64 i = sx(p, w), j = sx(q, w); if (!j) fail(s, "arith", "division-by-zero", "integer division by zero");
      if (j == -1) return Val::conc(op == Instruction::SDiv ? (u64)0 - (u64)i : 0, w);
      return Val::conc((u64)(op == Instruction::SDiv ? i / j : i % j), w); }
    }
  }
  // floating point payloads under bit masks
  if (a.k == VReal || b.k == VReal) {
    const Val &r = a.k == VReal ? a : b; const Val &m = a.k == VReal ? b : a; u64 sgn = 1ull << (w - 1);
    if (m.k == VConc) {
      if (op == Instruction::And) { if (m.c == 0) return Val::conc(0, w); if (isAllOnes(m)) return r; if (m.c == (sgn - 1)) return fpAbs(s, r); }
      if (op == Instruction::Or && m.c == 0) return r;
      if (op == Instruction::Xor) { if (m.c == 0) return r; if (m.c == sgn) return fpNeg(s, r); }
    }
    if (m.k == VSym && op == Instruction::And) { expr e = m.e(); if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) {
        auto pick = [&](const expr &k) -> Val { Val v = symVal(k, w); InstI y; y.op = op; y.w = w; y.I = x.I; return binop(s, y, r, v); };
        Val t = pick(e.arg(1)), f = pick(e.arg(2)); return realVal(z3::ite(e.arg(0), toReal(t), toReal(f)), w); } }
    if (op == Instruction::Or && a.k == VReal && b.k == VReal) { // blend produced by two complementary masks
      expr ea = a.e(), eb = b.e(); return realVal(simp(ea + eb), w); }
  }
  if (a.k == VUndef || b.k == VUndef) {
    if (op == Instruction::And) { if ((a.isC() && a.c == 0) || (b.isC() && b.c == 0)) return Val::conc(0, w); }
    if (op == Instruction::Mul && ((a.isC() && a.c == 0) || (b.isC() && b.c == 0))) return Val::conc(0, w);
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) { if (b.k == VUndef) fail(s, "uninit", "division", "division by an uninitialised value"); }
    return Val::undef(w);
  }
  if (b.k == VConc) { // cheap identities
    if ((op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && b.c == 0) return a;
    if (op == Instruction::Mul && b.c == 1) return a;
    if ((op == Instruction::UDiv || op == Instruction::SDiv) && b.c == 1) return a;
    if ((op == Instruction::URem || op == Instruction::SRem) && b.c == 1) return Val::conc(0, w);
    if (op == Instruction::And && b.c == 0) return Val::conc(0, w);
  }
  if (a.k == VConc) { if (op == Instruction::Add && a.c == 0) return b; if (op == Instruction::Mul && a.c == 1) return b; if ((op == Instruction::Mul || op == Instruction::And) && a.c == 0) return Val::conc(0, w); }
  expr p = toE(a), q = toE(b);
  if (w == 1) {
    switch (op) { case Instruction::And: return symVal(simp(p && q), 1); case Instruction::Or: return symVal(simp(p || q), 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return symVal(simp(p != q), 1); case Instruction::Mul: return symVal(simp(p && q), 1); }
    throw Unsupported{"1-bit operator"};
  }
  switch (op) {
  case Instruction::Add: return symVal(simp(p + q), w);
  case Instruction::Sub: return symVal(simp(p - q), w);
  case Instruction::Mul: return symVal(simp(p * q), w);
  case Instruction::And: return symVal(simp(p & q), w);
  case Instruction::Or: return symVal(simp(p | q), w);
  case Instruction::Xor: return symVal(simp(p ^ q), w);
  case Instruction::Shl: return symVal(simp(z3::shl(p, q)), w);
  case Instruction::LShr: return symVal(simp(z3::lshr(p, q)), w);
  case Instruction::AShr: return symVal(simp(z3::ashr(p, q)), w);
  }
  // division: the divisor must not be zero
  if (b.k != VConc || b.c == 0) {
    int d = decide(s, q == Z->bv_val(0, w)); if (d < 0) throw Unsupported{"solver gave no answer (divisor)"};
    if (d == 1) fail(s, "arith", "division-by-zero", "integer division by zero");
    if (d == 2) { expr z = q == Z->bv_val(0, w); violation(s, "arith", "division-by-zero", "integer division by zero", &z); throw PathEnd(); }
  }
  switch (op) {
  case Instruction::UDiv: return symVal(divNarrow(s, p, q, false), w);
  case Instruction::URem: return symVal(divNarrow(s, p, q, true), w);
  case Instruction::SDiv: case Instruction::SRem: if (w <= 64 && srange(s, p, 12).first >= 0 && srange(s, q, 12).first >= 0) return symVal(divNarrow(s, p, q, op == Instruction::SRem), w);
    if (w <= 64) { // signed division in as few bits as the operands need
      auto a = srange(s, p, 12), d = srange(s, q, 12); u32 k = 2; while (k < w && (std::min(a.first, d.first) <= -((i128)1 << (k - 1)) || std::max(a.second, d.second) >= ((i128)1 << (k - 1)))) k++;
      if (k < w) { expr x = simp(p.extract(k - 1, 0)), y = simp(q.extract(k - 1, 0)); return symVal(simp(z3::sext(op == Instruction::SRem ? z3::srem(x, y) : x / y, w - k)), w); } }
  }
  switch (op) {
  case Instruction::SDiv: return symVal(simp(p / q), w);
  case Instruction::SRem: return symVal(simp(z3::srem(p, q)), w);
  }
  throw Unsupported{std::string("operator ") + x.I->getOpcodeName()};
}
static Val icmp(State &s, unsigned pr, const Val &a, const Val &b, u32 w) {
  using P = llvm::CmpInst;
  if (a.k == VConc && b.k == VConc) {
    u64 p = a.c, q = b.c; i64 i = sx(p, w), j = sx(q, w); bool r = false;
    switch (pr) { case P::ICMP_EQ: r = p == q; break; case P::ICMP_NE: r = p != q; break; case P::ICMP_UGT: r = p > q; break; case P::ICMP_UGE: r = p >= q; break; case P::ICMP_ULT: r = p < q; break; case P::ICMP_ULE: r = p <= q; break;
    case P::ICMP_SGT: r = i > j; break; case P::ICMP_SGE: r = i >= j; break; case P::ICMP_SLT: r = i < j; break; case P::ICMP_SLE: r = i <= j; break; }
    return Val::conc(r, 1);
  }
  if (a.k == VUndef || b.k == VUndef) return Val::undef(1);
  expr p = toE(a), q = toE(b), r = Z->bool_val(false);
  if (w == 1) { switch (pr) { case P::ICMP_EQ: return symVal(simp(p == q), 1); case P::ICMP_NE: return symVal(simp(p != q), 1); case P::ICMP_ULT: return symVal(simp(!p && q), 1); case P::ICMP_UGT: return symVal(simp(p && !q), 1); default: throw Unsupported{"1-bit compare"}; } }
  switch (pr) { case P::ICMP_EQ: r = p == q; break; case P::ICMP_NE: r = p != q; break; case P::ICMP_UGT: r = z3::ugt(p, q); break; case P::ICMP_UGE: r = z3::uge(p, q); break; case P::ICMP_ULT: r = z3::ult(p, q); break; case P::ICMP_ULE: r = z3::ule(p, q); break;
  case P::ICMP_SGT: r = p > q; break; case P::ICMP_SGE: r = p >= q; break; case P::ICMP_SLT: r = p < q; break; case P::ICMP_SLE: r = p <= q; break; }
  return symVal(simp(r), 1);
}

// ---- floating point
static z3::func_decl ufOf(const char *n, u32 w, int ar, bool boolRes = false) {
  z3::sort_vector d(*Z); for (int i = 0; i < ar; i++) d.push_back(Z->bv_sort(w));
  return Z->function((std::string(n) + std::to_string(w)).c_str(), d, boolRes ? Z->bool_sort() : Z->bv_sort(w)); }
static Val ufBin(const char *n, const Val &a, const Val &b, u32 w) { expr p = toE(a), q = toE(b); if ((!strcmp(n, "fadd") || !strcmp(n, "fmul")) && Z3_get_ast_id(*Z, p) > Z3_get_ast_id(*Z, q)) std::swap(p, q); return Val::mk(VSym, w, ufOf(n, w, 2)(p, q)); }

static expr invOf(State &s, const expr &b0) {
  expr b = simpSom(b0);
  if (b.is_numeral()) return simp(Z->real_val(1) / b);
  expr coef = Z->real_val(1), rest = Z->real_val(1); bool prod = b.is_app() && b.decl().decl_kind() == Z3_OP_MUL;
  if (prod) { for (unsigned i = 0; i < b.num_args(); i++) { expr a = b.arg(i); if (a.is_numeral()) coef = simp(coef * a); else { expr ia = invOf(s, a); rest = rest.is_numeral() ? ia : rest * ia; } } return simp(simp(Z->real_val(1) / coef) * rest); }
  unsigned id = Z3_get_ast_id(*Z, b);
  auto it = s.inv.find(id); if (it != s.inv.end()) return it->second.second;
  expr v = freshReal("inv!");
  s.inv.emplace(id, std::make_pair(b, v)); s.inv.emplace(Z3_get_ast_id(*Z, v), std::make_pair(v, b));
  addC(s, b * v == Z->real_val(1));
  return v;
}
static bool isZeroC(const Val &v) { return v.isC() && fpOf(v) == 0; }
static Val fpBin(State &s, unsigned op, const Val &a, const Val &b, u32 w) {
  if (a.k == VConc && b.k == VConc) {
    feclearexcept(FE_ALL_EXCEPT); double r; volatile double x = fpOf(a), y = fpOf(b); volatile double z;
    volatile float fx = (float)x, fy = (float)y, fz;
    if (w == 64) switch (op) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
    else { switch (op) { case Instruction::FAdd: fz = fx + fy; break; case Instruction::FSub: fz = fx - fy; break; case Instruction::FMul: fz = fx * fy; break; case Instruction::FDiv: fz = fx / fy; break; default: fz = fmodf(fx, fy); } z = fz; }
    r = z; int ex = fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW);
    if (fpUF || !ex || !std::isfinite(x) || !std::isfinite(y) || (op == Instruction::FDiv && y == 0)) return fpConc(r, w);
  } else if (fpUF && a.k != VReal && b.k != VReal) {
    switch (op) { case Instruction::FAdd: return ufBin("fadd", a, b, w); case Instruction::FSub: return ufBin("fsub", a, b, w); case Instruction::FMul: return ufBin("fmul", a, b, w); case Instruction::FDiv: return ufBin("fdiv", a, b, w); default: return ufBin("frem", a, b, w); }
  }
  if (a.k == VConc && b.k != VConc && !std::isfinite(fpOf(a))) throw Unsupported{"non-finite constant combined with a symbolic value"};
  // cheap identities
  switch (op) {
  case Instruction::FAdd: if (isZeroC(a)) return b.k == VUndef ? realVal(toReal(b), w) : b; if (isZeroC(b)) return a.k == VUndef ? realVal(toReal(a), w) : a; break;
  case Instruction::FSub: if (isZeroC(b)) return a.k == VUndef ? realVal(toReal(a), w) : a; break;
  case Instruction::FMul: if (isZeroC(a) || isZeroC(b)) return fpConc(0, w); if (a.isC() && fpOf(a) == 1) return b.k == VUndef ? realVal(toReal(b), w) : b; if (b.isC() && fpOf(b) == 1) return a.k == VUndef ? realVal(toReal(a), w) : a; break;
  case Instruction::FDiv: if (b.isC() && fpOf(b) == 1) return a; break;
  }
  expr p = toReal(a), q = toReal(b);
  bool num = p.is_numeral() && q.is_numeral();
  switch (op) {
  case Instruction::FAdd: return realVal(num ? simp(p + q) : p + q, w);
  case Instruction::FSub: return realVal(num ? simp(p - q) : p - q, w);
  case Instruction::FMul: return realVal(num ? simp(p * q) : p * q, w);
  case Instruction::FDiv: {
    if (q.is_numeral()) { if (isZeroC(b)) throw Unsupported{"division of a symbolic value by zero"}; expr i = simp(Z->real_val(1) / q); return realVal(num ? simp(p * i) : p * i, w); }
    int d = decide(s, q == Z->real_val(0)); if (d == 1) fail(s, "arith", "fp-division-by-zero", "floating point division by zero");
    if (d == 2 || d < 0) addC(s, q != Z->real_val(0));   // stated assumption: divisors are not zero
    expr i = invOf(s, q); return realVal(p.is_numeral() && z3::eq(p, Z->real_val(1)) ? i : p * i, w); }
  }
  throw Unsupported{"floating point remainder"};
}
static Val fpNeg(State &s, const Val &a) {
  if (a.k == VConc) return Val::conc(a.c ^ (1ull << (a.w - 1)), a.w);
  if (a.k == VSym) return Val::mk(VSym, a.w, ufOf("fneg", a.w, 1)(a.e()));
  return realVal(-toReal(a), a.w);
}
static Val fpAbs(State &s, const Val &a) {
  if (a.k == VConc) return Val::conc(a.c & ~(1ull << (a.w - 1)), a.w);
  if (a.k == VSym && fpUF) return Val::mk(VSym, a.w, ufOf("fabs", a.w, 1)(a.e()));
  expr e = toReal(a); if (e.is_numeral()) return realVal(simp(z3::ite(e >= 0, e, -e)), a.w);
  return realVal(z3::ite(e >= Z->real_val(0), e, -e), a.w);
}
static Val fpSqrt(State &s, const Val &a) {
  if (a.k == VConc) { feclearexcept(FE_ALL_EXCEPT); volatile double z = sqrt(fpOf(a)); if (fpUF || !fetestexcept(FE_INEXACT)) return fpConc(z, a.w); }
  if (a.k == VSym && fpUF) return Val::mk(VSym, a.w, ufOf("fsqrt", a.w, 1)(a.e()));
  expr e = simpSom(toReal(a)); std::string key = e.to_string();
  auto it = s.sqrtMemo.find(key); if (it != s.sqrtMemo.end()) return it->second;
  expr v = freshReal("sqrt!"); addC(s, v >= Z->real_val(0)); addC(s, v * v == e);
  Val r = Val::mk(VReal, a.w, v); s.sqrtMemo[key] = r; return r;
}
static Val fpUn(State &s, const char *n, const Val &a, double (*fn)(double)) { // transcendental: uninterpreted
  if (a.k == VSym && fpUF) return Val::mk(VSym, a.w, ufOf(n, a.w, 1)(a.e()));
  if (a.k == VConc && (fpUF || fpOf(a) == 0)) { return fpConc(fn(fpOf(a)), a.w); }
  expr e = simpSom(toReal(a)); z3::func_decl f = Z->function((std::string("u_") + n).c_str(), Z->real_sort(), Z->real_sort());
  return Val::mk(VReal, a.w, f(e));
}
static Val fcmp(State &s, unsigned pr, const Val &a, const Val &b) {
  using P = llvm::CmpInst;
  if (pr == P::FCMP_TRUE) return Val::conc(1, 1); if (pr == P::FCMP_FALSE) return Val::conc(0, 1);
  if (a.k == VUndef || b.k == VUndef) return Val::undef(1);
  if (a.k == VConc && b.k == VConc) {
    double p = fpOf(a), q = fpOf(b); bool un = std::isnan(p) || std::isnan(q), r = false;
    switch (pr) { case P::FCMP_OEQ: r = !un && p == q; break; case P::FCMP_ONE: r = !un && p != q; break; case P::FCMP_OGT: r = p > q; break; case P::FCMP_OGE: r = p >= q; break; case P::FCMP_OLT: r = p < q; break; case P::FCMP_OLE: r = p <= q; break; case P::FCMP_ORD: r = !un; break; case P::FCMP_UNO: r = un; break;
    case P::FCMP_UEQ: r = un || p == q; break; case P::FCMP_UNE: r = un || p != q; break; case P::FCMP_UGT: r = un || p > q; break; case P::FCMP_UGE: r = un || p >= q; break; case P::FCMP_ULT: r = un || p < q; break; case P::FCMP_ULE: r = un || p <= q; break; }
    return Val::conc(r, 1);
  }
  if (pr == P::FCMP_ORD) return Val::conc(1, 1); if (pr == P::FCMP_UNO) return Val::conc(0, 1);
  if (fpUF && a.k != VReal && b.k != VReal) {
    expr p = toE(a), q = toE(b); auto lt = ufOf("flt", a.w, 2, true), le = ufOf("fle", a.w, 2, true), eq = ufOf("feq", a.w, 2, true);
    switch (pr) { case P::FCMP_OEQ: case P::FCMP_UEQ: return symVal(eq(p, q), 1); case P::FCMP_ONE: case P::FCMP_UNE: return symVal(!eq(p, q), 1); case P::FCMP_OLT: return symVal(lt(p, q), 1); case P::FCMP_OLE: return symVal(le(p, q), 1); case P::FCMP_OGT: return symVal(lt(q, p), 1); case P::FCMP_OGE: return symVal(le(q, p), 1);
    case P::FCMP_ULT: return symVal(!le(q, p), 1); case P::FCMP_ULE: return symVal(!lt(q, p), 1); case P::FCMP_UGT: return symVal(!le(p, q), 1); case P::FCMP_UGE: return symVal(!lt(p, q), 1); }
  }
  // infinities are beyond every real
  auto inf = [&](const Val &v) { return v.k == VConc && std::isinf(fpOf(v)) ? (fpOf(v) > 0 ? 1 : -1) : 0; };
  int ia = inf(a), ib = inf(b);
  if (ia || ib) { double p = ia ? ia : 0, q = ib ? ib : 0; return fcmp(s, pr, fpConc(p, 64), fpConc(q, 64)); }
  expr p = toReal(a), q = toReal(b);
  switch (pr) { case P::FCMP_OEQ: case P::FCMP_UEQ: return symVal(simp(p == q), 1); case P::FCMP_ONE: case P::FCMP_UNE: return symVal(simp(p != q), 1);
  case P::FCMP_OGT: case P::FCMP_UGT: return symVal(simp(p > q), 1); case P::FCMP_OGE: case P::FCMP_UGE: return symVal(simp(p >= q), 1); case P::FCMP_OLT: case P::FCMP_ULT: return symVal(simp(p < q), 1); case P::FCMP_OLE: case P::FCMP_ULE: return symVal(simp(p <= q), 1); }
  throw Unsupported{"floating point comparison"};
}
// zero extension; of the low part of a wider value that fits, that value itself
static expr widen(State &s, const expr &e, u32 w) {
  u32 sw = e.get_sort().bv_size();
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_EXTRACT && e.lo() == 0) { expr y = e.arg(0); if (y.get_sort().bv_size() == w && w <= 64 && !(ubound(s, y) >> sw)) return y; }
  return simp(z3::zext(e, w - sw));
}
static Val castOp(State &s, InstI &x, const Val &a) {
  u32 w = x.w, sw = x.srcW;
  if (a.k == VAgg) {
    if (x.op == Instruction::BitCast) throw Unsupported{"vector bitcast"};
    auto *vt = cast<llvm::FixedVectorType>(x.I->getType()); auto *svt = cast<llvm::FixedVectorType>(x.I->getOperand(0)->getType());
    InstI y; y.op = x.op; y.I = x.I; y.w = tyWidth(vt->getElementType()); y.srcW = tyWidth(svt->getElementType()); std::vector<Val> r; for (auto &e : a.n->agg) r.push_back(castOp(s, y, e)); return Val::aggregate(std::move(r)); }
  switch (x.op) {
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    if (w == sw) { Val r = a; return r; }
    if (a.k == VConc) return Val::conc(a.c, w);
    if (a.k == VUndef) return Val::undef(w);
    return w < sw ? symVal(simp(toE(a).extract(w - 1, 0)), w) : symVal(simp(z3::zext(toE(a), w - sw)), w);
  case Instruction::Trunc:
    if (a.k == VConc) return Val::conc(a.c, w); if (a.k == VUndef) return Val::undef(w);
    { expr e = toE(a); if (w == 1) return symVal(simp(e.extract(0, 0) == Z->bv_val(1, 1)), 1); return symVal(simp(e.extract(w - 1, 0)), w); }
  case Instruction::ZExt:
    if (a.k == VConc) { if (w <= 64) return Val::conc(a.c, w); return Val::mk(VSym, w, z3::zext(toE(a), w - sw)); } if (a.k == VUndef) return Val::undef(w);
    { expr e = toE(a); if (sw == 1) return symVal(z3::ite(e, Z->bv_val(1, w), Z->bv_val(0, w)), w); return symVal(widen(s, e, w), w); }
  case Instruction::SExt:
    if (a.k == VConc && w <= 64) return Val::conc((u64)sx(a.c, sw), w); if (a.k == VUndef) return Val::undef(w);
    { expr e = toE(a); if (sw == 1) return symVal(z3::ite(e, Z->bv_val((int64_t)-1, w), Z->bv_val(0, w)), w); if (sw <= 64 && (!(ubound(s, e) >> (sw - 1)) || srange(s, e, 12).first >= 0)) return symVal(widen(s, e, w), w);
      if (w <= 64 && e.is_app() && e.decl().decl_kind() == Z3_OP_EXTRACT && e.lo() == 0) { expr y = e.arg(0); if (y.get_sort().bv_size() == w) { auto r = srange(s, y, 12); if (r.first >= -((i128)1 << (sw - 1)) && r.second < ((i128)1 << (sw - 1))) return symVal(y, w); } }
      return symVal(simp(z3::sext(e, w - sw)), w); }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (fpUF && a.k != VConc) { expr e = toE(a); if (sw < 64) e = x.op == Instruction::SIToFP ? z3::sext(e, 64 - sw) : z3::zext(e, 64 - sw); z3::func_decl f = Z->function(x.op == Instruction::SIToFP ? "sitofp" : "uitofp", Z->bv_sort(64), Z->bv_sort(w)); return Val::mk(VSym, w, f(e)); }
    u64 c = concretize(s, a, "an integer converted to floating point");
    i64 i = sx(c, sw); bool neg = x.op == Instruction::SIToFP && i < 0; u64 mag = neg ? (u64)0 - (u64)i : (x.op == Instruction::SIToFP ? (u64)i : c);
    double d = neg ? -(double)mag : (double)mag; if (w == 32) d = neg ? -(double)(float)mag : (double)(float)mag;
    bool exact = d < 1.8e19 && d > -1.8e19 && (u64)(neg ? -d : d) == mag;
    if (exact || fpUF) return fpConc(d, w);
    return realVal(Z->real_val(((neg ? "-" : "") + std::to_string(mag)).c_str()), w); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (a.k == VUndef) return Val::undef(w);
    if (a.k == VConc) { double d = trunc(fpOf(a)); if (!(std::fabs(d) < 1.9e19)) return Val::undef(w); if (x.op == Instruction::FPToSI) return Val::conc((u64)(i64)d, w); return Val::conc((u64)d, w); }
    expr e = simp(toReal(a)); if (e.is_numeral()) { bool neg = simp(e < 0).is_true(); expr m = neg ? simp(-e) : e; expr z = simp(z3::expr(*Z, Z3_mk_real2int(*Z, m))); int64_t v; if (z.is_numeral_i64(v)) return Val::conc((u64)(neg ? -v : v), w); }
    throw Unsupported{"symbolic floating point to integer conversion"}; }
  case Instruction::FPTrunc: {
    if (a.k == VConc) { double d = fpOf(a); float f = (float)d; if (fpUF || (double)f == d || !std::isfinite(d)) return fpConc(f, w); return realVal(realOf(d), w); }
    if (a.k == VUndef) return Val::undef(w); if (a.k == VSym) { z3::func_decl f = Z->function("fptrunc", Z->bv_sort(64), Z->bv_sort(32)); return Val::mk(VSym, w, f(a.e())); }
    return Val::mk(VReal, w, a.e()); }
  case Instruction::FPExt: {
    if (a.k == VConc) return fpConc(fpOf(a), w); if (a.k == VUndef) return Val::undef(w); if (a.k == VSym) { z3::func_decl f = Z->function("fpext", Z->bv_sort(32), Z->bv_sort(64)); return Val::mk(VSym, w, f(a.e())); }
    return realVal(a.e(), w); }
  }
  throw Unsupported{std::string("conversion ") + x.I->getOpcodeName()};
}
static Val selectOp(State &s, const Val &c, const Val &a, const Val &b, u32 w) {
  if (c.k == VConc) return c.c ? a : b;
  if (c.k == VUndef) { fail(s, "uninit", "select", "selection on an uninitialised value"); }
  if (a.k == VConc && b.k == VConc && a.c == b.c) return a;
  if (a.k == VAgg || b.k == VAgg) { return concretize(s, c, "aggregate selection") ? a : b; }
  if (a.k == VUndef || b.k == VUndef) return a.k == VUndef ? b : a;
  if (a.k == VReal || b.k == VReal) return realVal(z3::ite(c.e(), toReal(a), toReal(b)), w);
  expr p = toE(a), q = toE(b); return symVal(simp(z3::ite(c.e(), p, q)), w);
}
