// Upwind scheme, initial condition, step count; conservation and maximum principle.
#include "upw.h"
#ifndef NDMIN
#define NDMIN 1
#endif
template <size_t ND> void run() {
  Problem p = problem(ND); long ntot = prodOf(p.c); vp_shard();
  int n = (int)vp_param("steps", 1);
  Upwind<ND> up(p.v, p.len, p.c);
  Dbl f0 = fieldOf(up, ntot);
  for (long i = 0; i < ntot; ++i) vp_eq(f0[i], i == 0 ? 1.0 : 0.0, "the field starts as one in the lowest-corner cell");
  Dbl f; if (havoc(ntot, f)) vp_cover("arbitrary field"); else { vp_cover("initial field"); n++; }
  steps(up, n, p.dt, 0);
  Dbl g = fieldOf(up, ntot);
  for (int s = 0; s < n; ++s) f = scheme(f, p.c, p.v, p.len, p.dt);
  for (long i = 0; i < ntot; ++i) vp_eq(g[i], f[i], "a time step is the upwind update");
  if (vp_param("again", 0)) { // a second call continues from the field it finds
    steps(up, 1, p.dt, 0); f = scheme(f, p.c, p.v, p.len, p.dt);
    Dbl h = fieldOf(up, ntot); for (long i = 0; i < ntot; ++i) vp_eq(h[i], f[i], "a further step continues from the field reached");
  }
  vp_cover("done");
}
extern "C" void harness() {
  long nd = vp_fork("ndims", vp_param("mind", 3), vp_param("maxd", 3));
#if NDMIN < 3
  if (nd == 1) run<1>(); else if (nd == 2) run<2>(); else
#endif
  run<3>();
}
template <size_t ND> void conserve() {
  Problem p = problem(ND); long ntot = prodOf(p.c); vp_shard();
  Upwind<ND> up(p.v, p.len, p.c); Dbl f; if (havoc(ntot, f)) vp_cover("arbitrary field");
  double a = 0; for (long i = 0; i < ntot; ++i) a += f[i];
  vp_eq(up.checksum(), a, "the check sum is the total of the field");
  steps(up, 1, p.dt, 0);
  Dbl g = fieldOf(up, ntot); double b = 0; for (long i = 0; i < ntot; ++i) b += g[i];
  vp_eq(b, a, "a time step leaves the total unchanged");
  vp_eq(up.checksum(), a, "a time step leaves the check sum unchanged");
}
extern "C" void conservation() {
  long nd = vp_fork("ndims", vp_param("mind", 3), vp_param("maxd", 3));
#if NDMIN < 3
  if (nd == 1) conserve<1>(); else if (nd == 2) conserve<2>(); else
#endif
  conserve<3>();
}
// the Courant number of axis j is given by the velocity: unit cells and unit time step, or general ones
template <size_t ND> void bounded() {
  Problem p; p.c = cells(ND); long ntot = prodOf(p.c); double sum = 0;
  bool gen = vp_param("general", 0) != 0; p.dt = gen ? vp_real("dt") : 1.0; vp_assume(p.dt >= 0.);
  for (size_t j = 0; j < ND; ++j) {
    double v = vp_real_i("velocity", (long)j), l = gen ? vp_real_i("length", (long)j) : (double)p.c.n[j]; if (gen) vp_assume(l > 0.); p.v.push_back(v); p.len.push_back(l);
    sum += (v < 0. ? -v : v) * p.dt * (double)p.c.n[j] / l; }
  vp_assume(sum <= 1.0); vp_shard();
  Upwind<ND> up(p.v, p.len, p.c); Dbl f; if (havoc(ntot, f)) vp_cover("arbitrary field");
  for (long i = 0; i < ntot; ++i) { vp_assume(f[i] >= 0.); vp_assume(f[i] <= 1.); }
  steps(up, 1, p.dt, 0);
  Dbl g = fieldOf(up, ntot);
  for (long i = 0; i < ntot; ++i) { vp_le(0.0, g[i], "no new minimum"); vp_le(g[i], 1.0, "no new maximum"); }
}
extern "C" void maximum() {
  long nd = vp_fork("ndims", vp_param("mind", 3), vp_param("maxd", 3));
#if NDMIN < 3
  if (nd == 1) bounded<1>(); else if (nd == 2) bounded<2>(); else
#endif
  bounded<3>();
}
