// ------------------------------------------------------------------ bit-vector constraints as integer arithmetic
// A second encoding for queries the bit-blasting solver leaves open (chains of divisions and remainders, mostly):
// every bit-vector term becomes an integer in [0, 2^w) together with an interval that bounds it; an operator
// reduces modulo 2^w only where the interval says it can wrap. Exact: same answers, different search.
struct BvInt {
  struct T { expr e; __int128 lo, hi; };
  struct No {}; std::map<std::string, std::pair<T, T>> dm; /* quotients and remainders by constants */ std::vector<std::pair<expr, expr>> vars;
  std::unordered_map<unsigned, T> memo; std::vector<expr> side, keep; std::unordered_map<unsigned, std::pair<__int128, __int128>> rng; // bounds of variables
  static std::string str(__int128 v) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return n ? "-" + s : s; }
  static __int128 p2(u32 w) { return (__int128)1 << w; }
  expr num(__int128 v) { return Z->int_val(str(v).c_str()); }
  expr fresh() { static unsigned n = 0; return Z->int_const(("bi!" + std::to_string(n++)).c_str()); }
  // q, r with a = q*d + r, 0 <= r < d
  std::pair<T, T> divmod(const T &a, __int128 d) {
    if (d <= 0) throw No();
    if (a.hi < d && a.lo >= 0) return {T{num(0), 0, 0}, a};
    std::string key = std::to_string(Z3_get_ast_id(*Z, a.e)) + "/" + str(d); auto it = dm.find(key); if (it != dm.end()) return it->second; keep.push_back(a.e);
    expr q = fresh(), r = fresh(); __int128 lo = a.lo >= 0 ? a.lo / d : -((-a.lo + d - 1) / d), hi = a.hi >= 0 ? a.hi / d : -((-a.hi + d - 1) / d);
    side.push_back(a.e == num(d) * q + r); side.push_back(r >= 0 && r < num(d)); side.push_back(q >= num(lo) && q <= num(hi));
    auto res = std::make_pair(T{q, lo, hi}, T{r, 0, d - 1}); dm.emplace(key, res); return res;
  }
  T wrap(const T &a, u32 w) { if (a.lo >= 0 && a.hi < p2(w)) return a; return divmod(a, p2(w)).second; }
  T sgn(const T &a, u32 w) { // signed value
    if (a.hi < p2(w - 1)) return a; if (a.lo >= p2(w - 1)) return T{a.e - num(p2(w)), a.lo - p2(w), a.hi - p2(w)};
    return T{z3::ite(a.e >= num(p2(w - 1)), a.e - num(p2(w)), a.e), -p2(w - 1), p2(w - 1) - 1}; }
  T bv(const expr &x) {
    unsigned id = Z3_get_ast_id(*Z, x); auto it = memo.find(id); if (it != memo.end()) return it->second;
    T t = bv0(x); keep.push_back(x); memo.emplace(id, t); return t;
  }
  T bv0(const expr &x) {
    u32 w = x.get_sort().bv_size(); if (w > 64) throw No();
    if (x.is_numeral()) { __int128 v = (__int128)x.get_numeral_uint64(); return T{num(v), v, v}; }
    if (!x.is_app()) throw No();
    auto k = x.decl().decl_kind(); auto a = [&](unsigned i) { return bv(x.arg(i)); };
    switch (k) {
    case Z3_OP_UNINTERPRETED: {
      if (x.num_args()) throw No();
      __int128 lo = 0, hi = p2(w) - 1; auto it = rng.find(Z3_get_ast_id(*Z, x)); if (it != rng.end()) { lo = it->second.first; hi = it->second.second; }
      expr v = fresh(); vars.push_back({x, v}); side.push_back(v >= num(lo) && v <= num(hi)); return T{v, lo, hi}; }
    case Z3_OP_BADD: { T r = a(0); for (unsigned i = 1; i < x.num_args(); i++) { // a constant close to 2^w is a negative number
          T b = a(i); if (b.lo == b.hi && b.lo >= p2(w - 1)) b = T{num(b.lo - p2(w)), b.lo - p2(w), b.hi - p2(w)}; r = T{r.e + b.e, r.lo + b.lo, r.hi + b.hi}; }
        return wrap(r, w); }
    case Z3_OP_BSUB: { T p = a(0), q = a(1); return wrap(T{p.e - q.e, p.lo - q.hi, p.hi - q.lo}, w); }
    case Z3_OP_BNEG: { T p = a(0); return wrap(T{-p.e, -p.hi, -p.lo}, w); }
    case Z3_OP_BMUL: { T r = a(0); for (unsigned i = 1; i < x.num_args(); i++) { T b = a(i);
          auto neg = [&](T &t) { if (t.lo == t.hi && t.lo >= p2(w - 1)) t = T{num(t.lo - p2(w)), t.lo - p2(w), t.hi - p2(w)}; }; neg(r); neg(b);
          bool rc = r.lo == r.hi, bc = b.lo == b.hi; if (!rc && !bc && (r.hi >= p2(62) || b.hi >= p2(62))) throw No();
          if (rc || bc) { __int128 c = rc ? r.lo : b.lo; T &o = rc ? b : r; if ((c < 0 ? -c : c) >= p2(60)) throw No(); T n{num(c) * o.e, c >= 0 ? o.lo * c : o.hi * c, c >= 0 ? o.hi * c : o.lo * c}; r = n; }
          else r = T{r.e * b.e, r.lo * b.lo, r.hi * b.hi};
          r = wrap(r, w); }
        return r; }
    case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: case Z3_OP_BUREM: case Z3_OP_BUREM_I: {
      T p = a(0), d = a(1); if (d.lo != d.hi || d.lo == 0) throw No(); auto qr = divmod(p, d.lo); return k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I ? qr.first : qr.second; }
    case Z3_OP_BSDIV: case Z3_OP_BSDIV_I: case Z3_OP_BSREM: case Z3_OP_BSREM_I: {
      T p = a(0), d = a(1); if (d.lo != d.hi || d.lo == 0 || d.lo >= p2(w - 1)) throw No(); bool q = k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I;
      if (p.hi < p2(w - 1)) { auto r = divmod(p, d.lo); return q ? r.first : r.second; }
      T s = sgn(p, w); expr neg = s.e < 0; __int128 m = p2(w - 1); auto r = divmod(T{z3::ite(neg, -s.e, s.e), 0, m}, d.lo); T &v = q ? r.first : r.second;
      return wrap(T{z3::ite(neg, -v.e, v.e), -v.hi, v.hi}, w); }
    case Z3_OP_ZERO_EXT: return a(0);
    case Z3_OP_SIGN_EXT: { T p = a(0); return wrap(sgn(p, x.arg(0).get_sort().bv_size()), w); }
    case Z3_OP_CONCAT: {
      unsigned n = x.num_args(); if (n >= 2) { // a sign extension spelt out: copies of the top bit in front
        expr l = x.arg(n - 1), f = x.arg(0); bool same = f.get_sort().bv_size() == 1 && f.is_app() && f.decl().decl_kind() == Z3_OP_EXTRACT; for (unsigned i = 1; i + 1 < n && same; i++) same = z3::eq(f, x.arg(i)); u32 lw = l.get_sort().bv_size();
        if (same && ((l.is_app() && l.decl().decl_kind() == Z3_OP_EXTRACT && z3::eq(l.arg(0), f.arg(0)) && l.hi() == f.hi()) || (z3::eq(l, f.arg(0)) && f.hi() == lw - 1))) return wrap(sgn(bv(l), lw), w); }
      T r{num(0), 0, 0}; for (unsigned i = 0; i < x.num_args(); i++) { T b = a(i); __int128 m = p2(x.arg(i).get_sort().bv_size()); r = T{r.hi == 0 ? b.e : num(m) * r.e + b.e, r.lo * m + b.lo, r.hi * m + b.hi}; } return r; }
    case Z3_OP_EXTRACT: { T p = a(0); unsigned lo = x.lo(), hi = x.hi(); if (lo) p = divmod(p, p2(lo)).first; return wrap(p, hi - lo + 1); }
    case Z3_OP_BSHL: { T p = a(0), q = a(1); if (q.lo != q.hi || q.lo >= (int)w) throw No(); if (q.lo >= 60) throw No(); return wrap(T{num(p2((u32)q.lo)) * p.e, p.lo << (int)q.lo, p.hi << (int)q.lo}, w); }
    case Z3_OP_BLSHR: { T p = a(0), q = a(1); if (q.lo != q.hi || q.lo >= (int)w) throw No(); return divmod(p, p2((u32)q.lo)).first; }
    case Z3_OP_ITE: { expr c = bo(x.arg(0)); T p = a(1), q = a(2); return T{z3::ite(c, p.e, q.e), std::min(p.lo, q.lo), std::max(p.hi, q.hi)}; }
    default: throw No();
    }
  }
  expr bo(const expr &x) {
    if (!x.is_app()) throw No();
    auto k = x.decl().decl_kind();
    auto cmp = [&](bool sg) { T p = bv(x.arg(0)), q = bv(x.arg(1)); if (sg) { u32 w = x.arg(0).get_sort().bv_size(); p = sgn(p, w); q = sgn(q, w); } return std::make_pair(p.e, q.e); };
    switch (k) {
    case Z3_OP_TRUE: case Z3_OP_FALSE: return x;
    case Z3_OP_UNINTERPRETED: if (x.num_args()) throw No(); return x;
    case Z3_OP_NOT: return !bo(x.arg(0));
    case Z3_OP_AND: { z3::expr_vector v(*Z); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(bo(x.arg(i))); return z3::mk_and(v); }
    case Z3_OP_OR: { z3::expr_vector v(*Z); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(bo(x.arg(i))); return z3::mk_or(v); }
    case Z3_OP_IMPLIES: return z3::implies(bo(x.arg(0)), bo(x.arg(1)));
    case Z3_OP_XOR: return bo(x.arg(0)) != bo(x.arg(1));
    case Z3_OP_ITE: return z3::ite(bo(x.arg(0)), bo(x.arg(1)), bo(x.arg(2)));
    case Z3_OP_IFF: return bo(x.arg(0)) == bo(x.arg(1));
    case Z3_OP_EQ: case Z3_OP_DISTINCT: {
      if (k == Z3_OP_DISTINCT && x.num_args() != 2) throw No();
      expr r(*Z); if (x.arg(0).is_bool()) r = bo(x.arg(0)) == bo(x.arg(1)); else { if (!x.arg(0).get_sort().is_bv()) throw No(); auto c = cmp(false); r = c.first == c.second; }
      return k == Z3_OP_EQ ? r : !r; }
    case Z3_OP_ULEQ: { auto c = cmp(false); return c.first <= c.second; } case Z3_OP_ULT: { auto c = cmp(false); return c.first < c.second; }
    case Z3_OP_UGEQ: { auto c = cmp(false); return c.first >= c.second; } case Z3_OP_UGT: { auto c = cmp(false); return c.first > c.second; }
    case Z3_OP_SLEQ: { auto c = cmp(true); return c.first <= c.second; } case Z3_OP_SLT: { auto c = cmp(true); return c.first < c.second; }
    case Z3_OP_SGEQ: { auto c = cmp(true); return c.first >= c.second; } case Z3_OP_SGT: { auto c = cmp(true); return c.first > c.second; }
    default: throw No();
    }
  }
  static bool isVar(const expr &x) { return x.is_app() && x.num_args() == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED && x.get_sort().is_bv() && x.get_sort().bv_size() <= 64; }
  // bounds of variables stated by single constraints; signed lower bounds >= 0 make the variable non-negative
  void ranges(const std::vector<expr> &cs) {
    std::map<unsigned, std::array<__int128, 4>> b; std::map<unsigned, u32> W; // signed lo, hi; unsigned lo, hi
    std::vector<expr> q = cs;
    for (size_t i = 0; i < q.size(); i++) {
      expr c = q[i]; bool pos = true; if (!c.is_app()) continue;
      if (c.decl().decl_kind() == Z3_OP_AND) { for (unsigned j = 0; j < c.num_args(); j++) q.push_back(c.arg(j)); continue; }
      while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { pos = !pos; c = c.arg(0); }
      if (!c.is_app() || c.num_args() != 2 || !c.arg(0).get_sort().is_bv()) continue;
      auto k = c.decl().decl_kind(); expr l = c.arg(0), r = c.arg(1); bool sg, strict;
      switch (k) { case Z3_OP_ULEQ: sg = false; strict = false; break; case Z3_OP_ULT: sg = false; strict = true; break; case Z3_OP_SLEQ: sg = true; strict = false; break; case Z3_OP_SLT: sg = true; strict = true; break;
      case Z3_OP_UGEQ: sg = false; strict = false; std::swap(l, r); break; case Z3_OP_UGT: sg = false; strict = true; std::swap(l, r); break; case Z3_OP_SGEQ: sg = true; strict = false; std::swap(l, r); break; case Z3_OP_SGT: sg = true; strict = true; std::swap(l, r); break; default: continue; }
      if (!pos) { std::swap(l, r); strict = !strict; } // not (l <= r) is r < l
      bool lv = isVar(l), rv = isVar(r); if (lv == rv || !(lv ? r : l).is_numeral()) continue;
      const expr &v = lv ? l : r; u32 w = v.get_sort().bv_size(); u64 raw = (lv ? r : l).get_numeral_uint64(); __int128 c0 = sg && (raw >> (w - 1) & 1) ? (__int128)raw - p2(w) : (__int128)raw;
      unsigned id = Z3_get_ast_id(*Z, v); W[id] = w; auto &a = b.emplace(id, std::array<__int128, 4>{-p2(w - 1), p2(w - 1) - 1, 0, p2(w) - 1}).first->second;
      int o = sg ? 0 : 2; if (lv) a[o + 1] = std::min(a[o + 1], strict ? c0 - 1 : c0); else a[o] = std::max(a[o], strict ? c0 + 1 : c0);
    }
    for (auto &x : b) { auto &a = x.second; u32 w = W[x.first]; if (a[3] < p2(w - 1)) a[0] = std::max(a[0], (__int128)0);
      if (a[0] >= 0) { a[2] = std::max(a[2], a[0]); a[3] = std::min(a[3], a[1]); } if (a[2] <= a[3]) rng[x.first] = {a[2], a[3]}; }
  }
};
// one query to the cvc5 program; UNKNOWN when it is missing or gives up
static R cvc5Check(const std::string &q, const std::vector<std::string> &names, std::vector<std::string> &vals, unsigned ms) {
  static bool missing = false; static unsigned n = 0; if (missing) return UNKNOWN;
  std::string f = (outPath.empty() ? "/tmp/vpsym" : outPath) + "." + std::to_string(getpid()) + "-" + std::to_string(n++) + ".smt2";
  { std::ofstream o(f); o << "(set-option :produce-models true)\n(set-logic QF_LIA)\n" << q; for (auto &v : names) o << "(get-value (" << v << "))\n"; }
  FILE *p = popen(("exec cvc5 --tlimit=" + std::to_string(ms) + " '" + f + "' 2>/dev/null").c_str(), "r"); std::string out; if (p) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k); int rc = pclose(p); if (WIFEXITED(rc) && WEXITSTATUS(rc) == 127) missing = true; }
  unlink(f.c_str());
  if (out.compare(0, 5, "unsat") == 0) return UNSAT; if (out.compare(0, 3, "sat")) return UNKNOWN;
  std::istringstream is(out); std::string l; std::getline(is, l);
  for (size_t i = 0; i < names.size() && std::getline(is, l); i++) { // ((name value))
    std::string d; bool neg = false; size_t a = l.find(' '); for (size_t j = a == std::string::npos ? l.size() : a; j < l.size(); j++) { if (l[j] == '-') neg = true; if (isdigit(l[j])) d += l[j]; } vals.push_back(neg ? "-" + d : d); }
  return SAT;
}
static R bvAsInt(const std::vector<expr> &cs, unsigned ms, std::vector<expr> &vals) {
  try {
    BvInt b; b.ranges(cs); std::vector<expr> out; for (auto &c : cs) out.push_back(b.bo(c));
    z3::solver sv(*Z); z3::params p(*Z); p.set("timeout", ms); sv.set(p);
    for (auto &c : out) sv.add(c); for (auto &c : b.side) sv.add(c);
    std::vector<std::string> names, v; for (auto &x : b.vars) names.push_back(x.second.to_string());
    std::string q = sv.to_smt2();
    R r = cvc5Check(q, names, v, ms);
    if (r == SAT) for (size_t i = 0; i < v.size() && i < b.vars.size(); i++) vals.push_back(b.vars[i].first == Z->bv_val(v[i].c_str(), b.vars[i].first.get_sort().bv_size()));
    if (r != UNKNOWN) return r;
    auto k = sv.check(); if (k == z3::sat) { auto m = sv.get_model(); for (auto &v : b.vars) { expr x = m.eval(v.second, true); vals.push_back(v.first == Z->bv_val(x.to_string().c_str(), v.first.get_sort().bv_size())); } }
    return k == z3::sat ? SAT : k == z3::unsat ? UNSAT : UNKNOWN;
  } catch (BvInt::No &) { return UNKNOWN; } catch (z3::exception &ex) { return UNKNOWN; }
}
