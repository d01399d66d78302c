// Fortran upwind programs from the command line.
#include "prog.h"
typedef std::vector<double> Dbl;
extern "C" void vp_any_order(int mode);
// unit velocity on a unit cube, a tenth of a cell per step
static Dbl pulse(long n, long steps) {
  long tot = n * n * n; Dbl f((size_t)tot); for (long i = 0; i < tot; ++i) f[i] = i == 0 ? 1.0 : 0.0; double c = 0.1;
  for (long s = 0; s < steps; ++s) { Dbl g(f); long st = tot; for (int j = 0; j < 3; ++j) { st /= n; for (long i = 0; i < tot; ++i) { long k = i / st % n; g[i] -= c * (f[i] - f[i + ((k == 0 ? n - 1 : k - 1) - k) * st]); } } f = g; }
  return f; }
static void checkRun(long n, long s, bool vtk) {
  Dbl f = pulse(n, s); double sum = 0, v = 0; for (double x : f) sum += x;
  vp_assert(afterWords(1, {"check", "sum:"}, v), "the check sum is printed"); vp_eq(v, sum, "the check sum is that of the field after the steps asked for");
  if (afterWords(1, {"number", "of", "cells:"}, v)) vp_eq(v, (double)n, "the number of cells printed is the one asked for");
  if (afterWords(1, {"number", "of", "time", "steps:"}, v)) vp_eq(v, (double)s, "the number of time steps printed is the one asked for");
  if (vtk) { vp_doc *d = vp_open_file("up.vtk"); vp_assert(d != 0, "the VTK file is written"); vtkRectilinear(vtkRead(d), {n, n, n}, {1.0, 1.0, 1.0}, f); vp_cover("file"); }
  else vp_assert(vp_files_written() == 0, "no file is written unless asked for");
}
extern "C" void harness() {
  Args a; vp_omp((int)vp_param("threads", 1)); long n, s = 100; bool vtk = false;
  n = a.number("cells", vp_param("minn", 1), vp_param("maxn", 3));
  if (vp_param("default", 0)) vp_cover("default number of steps");
  else {
    static const long many[] = {16, 31, 53, 99, 128}, huge[] = {1234, 40000};
    if (vp_param("huge", 0)) { s = huge[vp_fork("steps", 0, vp_param("huge", 0) - 1)]; a.word(std::to_string(s)); } else if (vp_param("long", 0)) { s = many[vp_fork("steps", 0, vp_param("long", 0) - 1)]; a.word(std::to_string(s)); } else s = a.symbolic("steps", 0, vp_param("maxs", 4));
    long third = vp_fork("third", 0, vp_param("thirds", 2));
    if (third == 1) { a.word("vtk"); vtk = true; }
    else if (third == 2) { char t[4] = {0}; vp_bytes(t, 3, "word"); vp_assume(((t[0] >= 'a' && t[0] <= 'z') || (t[0] >= 'A' && t[0] <= 'Z')) && t[1] != ' ' && t[2] != ' '); vp_assume(!(t[0] == 'v' && t[1] == 't' && t[2] == 'k')); a.word(t); vp_cover("another third argument"); } }
  vp_any_order((int)vp_fork("iteration order", 0, vp_param("iter", 0)));
  vp_shard();
  int rc = a.run(); vp_assert(rc == 0, "the program succeeds");
  checkRun(n, s, vtk); vp_cover("run");
}
// without arguments
extern "C" void refused() {
  Args a; vp_omp((int)vp_fork("threads", 1, 2)); a.run(); double v; vp_shard();
  vp_assert(!afterWords(1, {"check", "sum:"}, v), "nothing is run without arguments");
  vp_assert(vp_files_written() == 0, "no file is written without arguments");
  vp_assert(consoleHas("must") && consoleHas("specify"), "a message says what is missing"); vp_cover("message");
}
