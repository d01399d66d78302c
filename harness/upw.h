// Common part of the harnesses of the C++ upwind programs. VARIANT names the program.
#pragma once
#include "vp.h"
#ifdef FORTRAN
#include "upwf.h"
#else
#define main upwind_program_main
#include VARIANT
#undef main
#endif
#include <vector>
// converts to a vector of whatever integer type the constructor takes
struct Cells { std::vector<long> n; template <class T> operator std::vector<T>() const { return std::vector<T>(n.begin(), n.end()); } };
template <class U> auto steps(U &u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) { u.advect(n, dt); }
template <class U> void steps(U &u, int n, double dt, long) { for (int i = 0; i < n; ++i) u.advect(dt); }
static long prodOf(const Cells &c) { long p = 1; for (size_t i = 0; i < c.n.size(); ++i) p *= c.n[i]; return p; }
static Cells cells(size_t n) {
  Cells c; for (size_t i = 0; i < n; ++i) c.n.push_back(vp_fork_i("numCells", (long)i, 1, vp_param("maxe", 3)));
  vp_assume(prodOf(c) <= vp_param("maxtot", 1000)); return c; }
typedef std::vector<double> Dbl;
#ifdef FORTRAN
static int iterMode = 0;
static void anyOrder() { iterMode = (int)vp_fork("iteration order", 0, vp_param("iter", 0)); vp_any_order(iterMode); }
static void iterate(bool any) { vp_any_order(any ? iterMode : 0); }
template <class U> Dbl fieldOf(U &u, long ntot) { Dbl f; for (long i = 0; i < ntot; ++i) f.push_back(u.get(i)); return f; }
#else
static void anyOrder() {}
[[maybe_unused]] static void iterate(bool) {}
// the field as the program prints it
template <class U> Dbl fieldOf(U &u, long ntot) {
  vp_doc *before = vp_open_console(1); long skip = 0; while (vp_next(before)) skip++;
  u.print();
  vp_doc *d = vp_open_console(1); for (long i = 0; i < skip; ++i) vp_next(d);
  Dbl f((size_t)ntot); long seen = 0;
  for (;;) { int k = vp_next(d); if (!k) break; vp_assert(k == 2, "print lists numbers"); long i = (long)vp_num(d); vp_assert(i == seen && i < ntot, "print lists every cell once, in order"); k = vp_next(d); vp_assert(k == 2, "print gives a value for every cell"); f[(size_t)i] = vp_num(d); seen++; }
  vp_assert(seen == ntot, "print lists every cell");
  return f;
}
#endif
// one step of the scheme
static Dbl scheme(const Dbl &f, const Cells &c, const Dbl &v, const Dbl &len, double dt) {
  size_t nd = c.n.size(); long ntot = prodOf(c); Dbl r((size_t)ntot);
  for (long i = 0; i < ntot; ++i) {
    double x = f[i]; long st = ntot;
    for (size_t j = 0; j < nd; ++j) {
      st /= c.n[j]; long k = i / st % c.n[j]; long up = v[j] < 0. ? (k + 1 == c.n[j] ? 0 : k + 1) : (k == 0 ? c.n[j] - 1 : k - 1);
      double a = v[j] < 0. ? -v[j] : v[j];
      x -= a * dt * (double)c.n[j] / len[j] * (f[i] - f[i + (up - k) * st]);
    }
    r[i] = x;
  }
  return r;
}
// replaces the field by arbitrary values; true if it could be done
static bool havoc(long ntot, Dbl &f) {
  f.assign((size_t)ntot, 0.0); f[0] = 1.0;
  if (ntot == 1) return false;
#ifdef FORTRAN
  for (long i = 0; i < ntot; ++i) { f[i] = vp_real_i("f", i); f_set(f_current, (int)i + 1, f[i]); }
  return true;
#endif
  double *p[8]; long k = vp_find_spike((size_t)ntot, p, 8);
  if (k < 1) return false;
  for (long i = 0; i < ntot; ++i) { f[i] = vp_real_i("f", i); for (long q = 0; q < k && q < 8; ++q) p[q][i] = f[i]; }
  return true;
}
struct Problem { Cells c; Dbl v, len; double dt; };
static Problem problem(size_t nd) {
  Problem p; p.c = cells(nd);
  for (size_t j = 0; j < nd; ++j) { p.v.push_back(vp_real_i("velocity", (long)j)); double l = vp_real_i("length", (long)j); vp_assume(l > 0.); p.len.push_back(l); }
  p.dt = vp_real("dt"); vp_assume(p.dt >= 0.); anyOrder();
  return p;
}
