// Reader of legacy ASCII VTK files, as a program would read them.
#pragma once
#include "vp.h"
#include <vector>
#include <string>
#include <string.h>
struct Vtk {
  bool ok = false; std::string set; long dims[3] = {0, 0, 0}; bool haveDims = false;
  std::vector<double> xyz[3], points, values; bool have[3] = {false, false, false}; long npoints = -1, ncells = -1, npd = -1; std::string name; bool scalars = false;
};
static bool isWord(vp_doc *d, int k, const char *w) { return k == 1 && !strcmp(vp_text(d), w); }
static long vtkCount(vp_doc *d, const char *what) { int k = vp_next(d); vp_assert(k == 2, what); return (long)vp_num(d); }
static void vtkNumbers(vp_doc *d, std::vector<double> &v, long n, const char *what) { for (long i = 0; i < n; ++i) { int k = vp_next(d); vp_assert(k == 2, what); v.push_back(vp_num(d)); } }
static Vtk vtkRead(vp_doc *d) {
  Vtk v; vp_assert(d != 0, "the VTK file is written");
  int k = vp_next(d); vp_assert(isWord(d, k, "#"), "VTK file begins with its magic line"); const char *mg[] = {"vtk", "DataFile", "Version"}; for (int i = 0; i < 3; ++i) { k = vp_next(d); vp_assert(isWord(d, k, mg[i]), "VTK file begins with its magic line"); }
  k = vp_next(d); vp_assert(k == 2, "VTK file begins with its magic line");
  // the title is one line of any text
  do { k = vp_next(d); vp_assert(k != 0, "VTK file says ASCII on its third line"); } while (vp_line(d) < 3);
  vp_assert(vp_line(d) == 3 && isWord(d, k, "ASCII"), "VTK file says ASCII on its third line");
  k = vp_next(d); vp_assert(isWord(d, k, "DATASET"), "VTK file declares its dataset"); k = vp_next(d); vp_assert(k == 1, "VTK file declares its dataset"); v.set = vp_text(d);
  for (;;) {
    k = vp_next(d); if (!k) break; vp_assert(k == 1, "VTK sections hold as many numbers as they declare");
    std::string w = vp_text(d);
    if (w == "DIMENSIONS") { for (int i = 0; i < 3; ++i) v.dims[i] = vtkCount(d, "DIMENSIONS has three numbers"); v.haveDims = true; }
    else if (w == "X_COORDINATES" || w == "Y_COORDINATES" || w == "Z_COORDINATES") { int a = w[0] - 'X'; vp_assert(!v.have[a], "each coordinate list appears once"); v.have[a] = true; long n = vtkCount(d, "coordinate list declares its length"); k = vp_next(d); vp_assert(k == 1, "coordinate list declares its type"); vtkNumbers(d, v.xyz[a], n, "coordinate list is as long as declared"); }
    else if (w == "POINTS") { vp_assert(v.npoints < 0, "POINTS appears once"); v.npoints = vtkCount(d, "POINTS declares its number"); k = vp_next(d); vp_assert(k == 1, "POINTS declares its type"); vtkNumbers(d, v.points, 3 * v.npoints, "POINTS lists as many points as declared"); }
    else if (w == "CELL_DATA") { vp_assert(v.ncells < 0, "CELL_DATA appears once"); v.ncells = vtkCount(d, "CELL_DATA declares its number"); }
    else if (w == "SCALARS") { vp_assert(v.ncells >= 0 && !v.scalars, "SCALARS follows CELL_DATA"); v.scalars = true; k = vp_next(d); vp_assert(k != 0, "SCALARS has a name"); v.name = k == 1 ? vp_text(d) : "?"; long ln = vp_line(d); k = vp_next(d); vp_assert(k == 1, "SCALARS has a type");
      k = vp_next(d); if (k == 2 && vp_line(d) == ln) { vp_assert(vp_num(d) == 1.0, "SCALARS has one component"); k = vp_next(d); }
      vp_assert(isWord(d, k, "LOOKUP_TABLE"), "SCALARS names a lookup table"); k = vp_next(d); vp_assert(isWord(d, k, "default"), "SCALARS names a lookup table"); vtkNumbers(d, v.values, v.ncells, "CELL_DATA lists as many values as declared"); }
    else vp_fail("VTK file has an unknown section");
  }
  vp_assert(v.haveDims && v.ncells >= 0 && v.scalars, "VTK file has its sections"); v.ok = true; return v;
}
// a rectilinear grid of n cells with the last axis as X
[[maybe_unused]] static void vtkRectilinear(const Vtk &v, const std::vector<long> &n, const std::vector<double> &len, const std::vector<double> &f) {
  vp_assert(v.set == "RECTILINEAR_GRID", "VTK dataset is a rectilinear grid"); size_t nd = n.size();
  long ntot = 1; for (size_t j = 0; j < nd; ++j) ntot *= n[j];
  for (size_t a = 0; a < 3; ++a) { // Z is axis 0
    long j = 2 - (long)a; bool there = j < (long)nd; long want = there ? n[j] + 1 : 1;
    vp_assert(v.have[a], "VTK file has three coordinate lists"); vp_assert(v.dims[a] == want, "VTK dimensions are the cells plus one, last axis as X"); vp_assert((long)v.xyz[a].size() == v.dims[a], "VTK coordinate list matches the declared dimension");
    for (long i = 0; there && i < want; ++i) vp_eq(v.xyz[a][i] * (double)n[j], len[j] * (double)i, "VTK coordinates are spaced length/numCells from zero"); }
  vp_assert(v.ncells == ntot, "VTK file declares every cell"); vp_assert((long)v.values.size() == ntot, "VTK file lists every cell");
  for (long i = 0; i < ntot; ++i) vp_eq(v.values[i], f[i], "VTK file lists the field in storage order");
}
