// Check sum, spread and VTK output of the C++ upwind classes.
#include "upw.h"
#include "vtk.h"
#ifndef NDMIN
#define NDMIN 1
#endif
template <class U> auto spread(U &u, int) -> decltype(u.std()) { vp_cover("spread"); return u.std(); }
template <class U> double spread(U &u, long) { return -1.0; }
template <size_t ND> void run() {
  Problem p = problem(ND); long ntot = prodOf(p.c); vp_shard();
  Upwind<ND> up(p.v, p.len, p.c);
  Dbl f; if (havoc(ntot, f)) vp_cover("arbitrary field"); else if (ntot > 1) { steps(up, 1, p.dt, 0); f = fieldOf(up, ntot); }
#ifndef FORTRAN
  double sum = 0; for (long i = 0; i < ntot; ++i) sum += f[i];
  vp_eq(up.checksum(), sum, "the check sum is the sum of all cells");
  double sd = spread(up, 0);
  if (sd != -1.0 || vp_param("spread", 0)) { double q = 0; for (long i = 0; i < ntot; ++i) { double d = (double)ntot * f[i] - sum; q += d * d; } vp_le(0.0, sd, "the spread is not negative"); vp_eq(sd * sd * (double)ntot * (double)ntot * (double)ntot, q, "the spread is the population standard deviation"); }
#endif
  up.saveVTK("field.vtk");
  Vtk v = vtkRead(vp_open_file("field.vtk"));
  vtkRectilinear(v, p.c.n, p.len, f);
  if (vp_param("twice", 0)) { // saving again under another name, then over the same file, describes the field of that moment
    steps(up, 1, p.dt, 0); Dbl g = fieldOf(up, ntot);
    up.saveVTK("later.vtk"); vtkRectilinear(vtkRead(vp_open_file("later.vtk")), p.c.n, p.len, g);
    up.saveVTK("field.vtk"); vtkRectilinear(vtkRead(vp_open_file("field.vtk")), p.c.n, p.len, g); }
  vp_cover("done");
}
extern "C" void harness() {
  long nd = vp_fork("ndims", vp_param("mind", 3), vp_param("maxd", 3));
#if NDMIN < 3
  if (nd == 1) run<1>(); else if (nd == 2) run<2>(); else
#endif
  run<3>();
}
