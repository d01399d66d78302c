// Structured-grid VTK writer.
#include "writeVTK.h"
#include "vtk.h"
extern "C" void harness() {
  size_t nd = (size_t)vp_fork("ndims", vp_param("mind", 1), vp_param("maxd", 3)); std::vector<size_t> n; std::vector<double> lo, hi, f; long tot = 1;
  for (size_t j = 0; j < nd; ++j) { n.push_back((size_t)vp_fork_i("dims", (long)j, 1, vp_param("maxe", 3))); tot *= (long)n[j]; lo.push_back(vp_real_i("lo", (long)j)); hi.push_back(vp_real_i("hi", (long)j)); }
  vp_assume(tot <= vp_param("maxtot", 100)); vp_shard();
  for (long i = 0; i < tot; ++i) f.push_back(vp_real_i("f", i));
  static const char *names[] = {"outData", "a"}; long w = vp_fork("name", 0, 1);
  writeVTK("some.vtk", n, lo, hi, f, names[w]);
  if (nd > 3) { vp_assert(vp_files_written() == 0, "more than three dimensions are refused without writing"); vp_cover("refused"); return; }
  Vtk v = vtkRead(vp_open_file("some.vtk")); vp_assert(v.set == "STRUCTURED_GRID", "the dataset is a structured grid");
  long d[3], np = 1, nc = 1; for (int j = 0; j < 3; ++j) { d[j] = j < (int)nd ? (long)n[j] : 1; vp_assert(v.dims[j] == d[j] + 1, "declared dimensions are the cells plus one"); np *= d[j] + 1; nc *= d[j]; }
  vp_assert(v.npoints == np, "declared points agree with the dimensions"); vp_assert(v.ncells == nc && nc == tot, "declared cells agree with the dimensions"); vp_assert((long)v.points.size() == 3 * np && (long)v.values.size() == nc, "as many numbers as declared");
  vp_assert(v.name == names[w], "the field has the given name");
  for (long k = 0, q = 0; k <= d[2]; ++k) for (long j = 0; j <= d[1]; ++j) for (long i = 0; i <= d[0]; ++i, ++q) { long c[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) { double l = a < (int)nd ? lo[a] : 0.0, h = a < (int)nd ? hi[a] : 1.0; vp_eq(v.points[3 * q + a], l + (h - l) * (double)c[a] / (double)d[a], "points are the cell corners, first axis fastest"); } }
  for (long i = 0; i < nc; ++i) vp_eq(v.values[i], f[i], "cell values are the field in order"); vp_cover("written"); }
