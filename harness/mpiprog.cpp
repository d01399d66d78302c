// MPI programs from the command line: upwindMpi.cxx and laplacian.cxx.
#include "prog.h"
#include "CubeDecomp.h"
#include <math.h>
typedef std::vector<double> Dbl;
struct Run { Args a; long n = 0, s = 10, nd = 0; int np = 1; bool vtk = false, valid = true, lap = false; };
static Run setup() {
  Run r; r.lap = vp_param("laplacian", 0) != 0; r.nd = r.lap ? 2 : 3; long maxn = vp_param("maxn", 3);
  auto cells = [&] { r.a.word("-numCells"); r.n = r.a.number("cells", vp_param("minn", 1), maxn); };
  auto second = [&] { if (r.lap) { r.a.word("-numDims"); r.nd = r.a.number("dims", vp_param("mind", 1), vp_param("maxd", 3)); } else { r.a.word("-numSteps"); static const long many[] = {16, 31, 53, 100, 128}, huge[] = {1234, 40000}; if (vp_param("huge", 0)) { r.s = huge[vp_fork("steps", 0, vp_param("huge", 0) - 1)]; r.a.word(std::to_string(r.s)); } else if (vp_param("long", 0)) { r.s = many[vp_fork("steps", 0, vp_param("long", 0) - 1)]; r.a.word(std::to_string(r.s)); } else r.s = vp_param("big", 0) ? r.a.number("steps", 0, vp_param("maxs", 4)) : r.a.symbolic("steps", 0, vp_param("maxs", 4)); } };
  long order = vp_fork("order", 0, vp_param("orders", 3)); r.vtk = vp_fork("vtk", 0, 1) != 0; auto flags = [&] { if (r.vtk) r.a.word("-vtk"); };
  if (order == 0) { cells(); second(); flags(); } else if (order == 1) { flags(); second(); cells(); } else if (order == 2) { second(); flags(); cells(); } else { flags(); cells(); }
  r.np = (int)vp_fork("nprocs", vp_param("minp", 1), vp_param("maxp", 4)); long tot = 1; for (long j = 0; j < r.nd; ++j) tot *= r.n; vp_assume(tot <= vp_param("maxtot", 1000));
  CubeDecomp dc; r.valid = dc.build(r.np, std::vector<size_t>((size_t)r.nd, (size_t)r.n)); vp_assume(r.valid || vp_param("invalid", 0)); return r; }
static long ipow(long n, long k) { long t = 1; while (k-- > 0) t *= n; return t; }
// storage: axis 0 fastest, as in the file
static Dbl oracle(const Run &r) {
  long tot = ipow(r.n, r.nd), n = r.n; Dbl f((size_t)tot);
  for (long i = 0; i < tot; ++i) { if (!r.lap) { f[i] = i == 0 ? 1.0 : 0.0; continue; } double v = 1; for (long j = 0, k = i; j < r.nd; ++j, k /= n) v *= sin(2.0 * M_PI * (((double)(k % n) + 0.5) * (1.0 / (double)n))); f[i] = v; }
  double c = 0.1;
  for (long s = 0; s < (r.lap ? 10 : r.s); ++s) { Dbl g(f); if (r.lap) for (long i = 0; i < tot; ++i) g[i] = -2.0 * (double)r.nd * f[i];
    for (long j = 0, st = 1; j < r.nd; ++j, st *= n) for (long i = 0; i < tot; ++i) { long k = i / st % n, lo = i + ((k == 0 ? n - 1 : k - 1) - k) * st, hi = i + ((k == n - 1 ? 0 : k + 1) - k) * st; if (r.lap) g[i] += f[lo] + f[hi]; else g[i] -= c * (f[i] - f[lo]); }
    f = g; }
  return f; }
static void rankMain() {
  Run r = setup(); int rc = r.a.run(); vp_assert(rc == 0, "the program succeeds"); double v, w; bool said;
  if (r.lap) said = afterWords(1, {"Check", "sums:", "input", "="}, v) & afterWords(1, {"output", "="}, w); else said = afterWords(1, {"Check", "sum:"}, v);
  if (vp_rank()) { vp_assert(!said, "only rank 0 reports"); vp_assert(vp_files_written() == 0, "only rank 0 writes the file"); return; }
  if (!r.valid) { vp_assert(!said && vp_files_written() == 0, "nothing is run without a decomposition"); vp_doc *d = vp_open_console(2); vp_assert(vp_next(d) != 0, "a missing decomposition is reported"); vp_cover("no decomposition"); return; }
  Dbl f = oracle(r); double sum = 0; for (double x : f) sum += x; double scale = 1; for (int i = 0; r.lap && i < 10; ++i) scale *= 4.0 * (double)r.nd;
  vp_assert(said, "the check sum is printed");
  if (r.vtk) {
    Vtk k = vtkRead(vp_open_file(r.lap ? "laplacian.vtk" : "upMpi.vtk")); vp_assert((long)k.values.size() == (long)f.size(), "the file lists every cell");
    for (size_t i = 0; i < f.size(); ++i) vp_eq(k.values[i] / scale, f[i] / scale, "the file holds the field after the iterations asked for");
    for (long j = 0; j < 3; ++j) vp_assert(k.dims[j] == (j < r.nd ? r.n + 1 : 2), "the file declares the extents of the grid"); vp_cover("file"); }
  else { vp_assert(vp_files_written() == 0, "no file is written unless asked for"); vp_cover("run"); }
  vp_eq(v / scale, sum / scale, "the check sum is that of the field after the iterations asked for"); if (r.lap) vp_eq(w / scale, sum / scale, "the output check sum is that of the field after ten iterations"); }
extern "C" void harness() { Run r = setup(); vp_shard(); vp_mpi_run(r.np, rankMain, 0); vp_assert(vp_mpi_finalized() == r.np, "every rank finalises MPI"); vp_cover(r.np > 1 ? "several ranks" : "one rank"); }
// unknown options and -h
static void refusedRank() {
  bool lap = vp_param("laplacian", 0) != 0; Args a; long k = vp_fork("case", 0, 3); if (k == 0) { a.word("-numCells"); a.number("cells", 1, 2); a.word("-vtk"); }
  if (k < 2) { char t[4] = {'-', 0, 0, 0}; vp_bytes(t + 1, 2, "option"); vp_assume(t[1] != 0 && !(t[1] >= '0' && t[1] <= '9') && t[2] != 0); vp_assume(!(t[1] == 'h' && t[2] == 0)); a.word(t); if (k == 0) { a.word(lap ? "-numDims" : "-numSteps"); a.word("1"); } }
  else if (k == 2) a.word("-h"); else { a.word("-vtk"); a.word("-h"); a.word(lap ? "-numDims" : "-numSteps"); a.word("2"); }
  a.run(); double v; vp_assert(!afterWords(1, {"Check", "sum:"}, v) && !afterWords(1, {"Check", "sums:", "input", "="}, v), "nothing is run when an option is unknown or help is asked for");
  vp_assert(vp_files_written() == 0, "no file is written when an option is unknown or help is asked for");
  if (!vp_rank()) { vp_assert(consoleHas("-numCells") && consoleHas("-vtk"), "the help text is printed"); vp_cover(k < 2 ? "unknown option" : "help"); } }
extern "C" void refused() { vp_fork("case", 0, 3); int np = (int)vp_fork("nprocs", 1, 3); vp_shard(); vp_mpi_run(np, refusedRank, 0); vp_assert(vp_mpi_finalized() == np, "every rank finalises MPI"); }
