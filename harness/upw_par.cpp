// Parallel regions: no races, and the result of any schedule is that of the sequential run.
#include "upw.h"
template <size_t ND> static Dbl result(Problem &p, const Dbl &f0, int n, bool &arb) {
  Upwind<ND> up(p.v, p.len, p.c); long ntot = prodOf(p.c); Dbl f; arb = havoc(ntot, f);
  steps(up, n, p.dt, 0); return fieldOf(up, ntot);
}
template <size_t ND> void run() {
  Problem p = problem(ND); long ntot = prodOf(p.c);
  int n = (int)vp_param("steps", 2); long th = vp_fork("threads", 1, vp_param("maxt", 4)), ord = vp_fork("order", 0, 1);
  if (th == vp_param("maxt", 4)) th = ntot > th ? ntot : th; // one iteration per thread
  vp_shard();
  bool arb; vp_omp(1); vp_order(0); iterate(false); Dbl a = result<ND>(p, a, n, arb);
  vp_omp((int)th); vp_order((int)ord); iterate(true); Dbl b = result<ND>(p, b, n, arb);
  if (arb) vp_cover("arbitrary field");
  for (long i = 0; i < ntot; ++i) vp_eq(a[i], b[i], "the field does not depend on threads or order");
  vp_cover("done"); if (th > 1) vp_cover("parallel");
}
extern "C" void harness() {
  long nd = vp_fork("ndims", vp_param("mind", 3), vp_param("maxd", 3));
#ifndef NDMIN
  if (nd == 1) run<1>(); else if (nd == 2) run<2>(); else
#endif
  run<3>();
}
