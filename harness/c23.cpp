// C++ upwind programs from the command line.
#include "prog.h"
typedef std::vector<double> Dbl;
// unit velocity on a unit cube, a tenth of a cell per step
static Dbl pulse(long n, long steps) {
  long tot = n * n * n; Dbl f((size_t)tot); for (long i = 0; i < tot; ++i) f[i] = i == 0 ? 1.0 : 0.0; double c = 0.1;
  for (long s = 0; s < steps; ++s) { Dbl g(f); long st = tot; for (int j = 0; j < 3; ++j) { st /= n; for (long i = 0; i < tot; ++i) { long k = i / st % n; g[i] -= c * (f[i] - f[i + ((k == 0 ? n - 1 : k - 1) - k) * st]); } } f = g; }
  return f; }
static void checkRun(long n, long s, bool vtk, bool sd) {
  Dbl f = pulse(n, s); double sum = 0, v = 0; for (double x : f) sum += x;
  vp_assert(afterWords(1, {"check", "sum:"}, v), "the check sum is printed"); vp_eq(v, sum, "the check sum is that of the field after the steps asked for");
  if (afterWords(1, {"number", "of", "cells:"}, v)) vp_eq(v, (double)n, "the number of cells printed is the one asked for");
  if (afterWords(1, {"number", "of", "time", "steps:"}, v)) vp_eq(v, (double)s, "the number of time steps printed is the one asked for");
  if (sd) { vp_assert(afterWords(1, {"std", ":"}, v), "the spread is printed"); double t = (double)f.size(), q = 0; for (double x : f) q += (t * x - sum) * (t * x - sum); vp_eq(v * v * t * t * t, q, "the spread is that of the field after the steps asked for"); vp_cover("spread"); }
  if (vtk) { vp_doc *d = vp_open_file("up1.vtk"); if (!d) d = vp_open_file("up.vtk"); vp_assert(d != 0, "the VTK file is written"); vtkRectilinear(vtkRead(d), {n, n, n}, {1.0, 1.0, 1.0}, f); vp_cover("file"); }
  else vp_assert(vp_files_written() == 0, "no file is written unless asked for");
}
extern "C" void harness() {
  Args a; bool hasStd = vp_param("std", 1) != 0; vp_omp((int)vp_param("threads", 1));
  long order = vp_fork("order", 0, vp_param("orders", 3)), n = 0, s = 10; bool vtk = vp_fork("vtk", 0, 1) != 0, sd = hasStd && vp_fork("spread", 0, 1) != 0;
  long maxn = vp_param("maxn", 3), maxs = vp_param("maxs", 4);
  auto cells = [&] { a.word("-numCells"); n = a.number("cells", vp_param("minn", 1), maxn); }; auto stepsOpt = [&] { a.word("-numSteps"); static const long many[] = {16, 31, 53, 100, 128}, huge[] = {1234, 40000}; if (vp_param("huge", 0)) { s = huge[vp_fork("steps", 0, vp_param("huge", 0) - 1)]; a.word(std::to_string(s)); } else if (vp_param("long", 0)) { s = many[vp_fork("steps", 0, vp_param("long", 0) - 1)]; a.word(std::to_string(s)); } else s = a.symbolic("steps", 0, maxs); }; auto flags = [&] { if (sd) a.word("-std"); if (vtk) a.word("-vtk"); };
  if (order == 0) { cells(); stepsOpt(); flags(); } else if (order == 1) { flags(); stepsOpt(); cells(); } else if (order == 2) { stepsOpt(); flags(); cells(); } else { flags(); cells(); vp_cover("default number of steps"); }
  vp_shard();
  int rc = a.run(); vp_assert(rc == 0, "the program succeeds");
  checkRun(n, s, vtk, sd); vp_cover("run");
}
// unknown options and -h
extern "C" void refused() {
  Args a; long k = vp_fork("case", 0, 3); vp_omp(1); bool bad = k < 2; std::string b;
  if (k == 0) { a.word("-numCells"); a.number("cells", 1, 3); a.word("-vtk"); }
  if (bad) { char t[4] = {'-', 0, 0, 0}; vp_bytes(t + 1, 2, "option"); vp_assume(t[1] != 0 && !(t[1] >= '0' && t[1] <= '9') && t[2] != 0); vp_assume(!(t[1] == 'h' && t[2] == 0)); b = t; a.word(b); if (k == 0) { a.word("-numSteps"); a.word("1"); } }
  else if (k == 2) a.word("-h"); else { a.word("-vtk"); a.word("-h"); a.word("-numSteps"); a.symbolic("steps", 0, 9); }
  a.run(); double v;
  vp_assert(!afterWords(1, {"check", "sum:"}, v), "nothing is run when an option is unknown or help is asked for");
  vp_assert(vp_files_written() == 0, "no file is written when an option is unknown or help is asked for");
  vp_assert(consoleHas("-numCells") && consoleHas("-numSteps"), "the help text is printed"); vp_cover(bad ? "unknown option" : "help");
}
