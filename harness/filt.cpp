// The distributed filter: stencil, histories, life cycle, gathered output.
// Every rank rebuilds the problem below from the same named inputs.
#include "Filter.h"
#include "vp.h"
#include "vtk.h"
typedef std::vector<int> Off; typedef std::vector<double> Dbl;
struct Pb {
  size_t nd; std::vector<size_t> dims; int np; std::vector<size_t> dec; bool valid; std::map<Off, double> st; std::vector<double> lo, hi; long ntot;
  long flat(const std::vector<size_t> &c) const { long f = 0; for (size_t j = 0; j < nd; ++j) f = f * (long)dims[j] + (long)c[j]; return f; }
  std::vector<size_t> cell(long f) const { std::vector<size_t> c(nd); for (size_t j = nd; j-- > 0;) { c[j] = (size_t)(f % (long)dims[j]); f /= (long)dims[j]; } return c; }
  long shifted(long f, const Off &o) const { std::vector<size_t> c = cell(f); for (size_t j = 0; j < nd; ++j) { long n = (long)dims[j]; c[j] = (size_t)((((long)c[j] + o[j]) % n + n) % n); } return flat(c); }
  Dbl filter(const Dbl &f) const { Dbl g(f.size()); for (long i = 0; i < ntot; ++i) { double s = 0; for (auto &b : st) s += b.second * f[shifted(i, b.first)]; g[i] = s; } return g; }
};
static Pb problem(bool head) {
  Pb p; p.nd = (size_t)vp_fork("ndims", vp_param("mind", 1), vp_param("maxd", 2)); p.ntot = 1; long maxtot = vp_param("maxtot", 1000);
  for (size_t j = 0; j < p.nd; ++j) { p.dims.push_back((size_t)vp_fork_i("dims", (long)j, vp_param("mine", 1), vp_param("maxe", 4))); p.ntot *= (long)p.dims[j]; }
  vp_assume(p.ntot <= maxtot);
  p.np = (int)vp_fork("nprocs", vp_param("minp", 1), vp_param("maxp", 4));
  CubeDecomp dc; p.valid = dc.build(p.np, p.dims); if (p.valid) p.dec = dc.getDecomp();
  vp_assume(p.valid || vp_param("invalid", 0));
  if (head) vp_shard();
  bool subset = vp_param("subset", 0) != 0, uneven = vp_param("uneven", 0) != 0; long reach = vp_param("reach", 1), k = 0, mode = uneven ? 0 : vp_fork("shape", 0, subset ? 0 : 3); // all, downstream only, upstream only, one axis only
  if (!subset || vp_fork("centre", 0, 1)) p.st[Off(p.nd, 0)] = vp_real_i("w", k++);
  for (size_t j = 0; j < p.nd && p.valid; ++j) {
    long sub = (long)(p.dims[j] / p.dec[j]), R = reach < sub ? reach : sub;
    for (long r = -R; r <= R; ++r) { if (!r) continue;
      if (subset && !vp_fork_i("branch", (long)j * 100 + r + 50, 0, 1)) continue;
      if ((mode == 1 && r > 0) || (mode == 2 && r < 0) || (mode == 3 && j != 0)) continue;
      if (vp_param("far", 0) && r != -R && r != R) continue; // the longest branches only
      Off o(p.nd, 0); o[j] = (int)r; p.st[o] = vp_real_i("w", k++); } }
  for (size_t j = 0; j < p.nd; ++j) { p.lo.push_back(vp_param("box", 0) ? vp_real_i("lo", (long)j) : 0.0); p.hi.push_back(vp_param("box", 0) ? vp_real_i("hi", (long)j) : 1.0 + (double)j); }
  return p; }
static Pb *cur; static const char *field;
static double byIndex(const std::vector<size_t> &c) {
  vp_assert(c.size() == cur->nd, "one index per axis"); for (size_t j = 0; j < cur->nd; ++j) vp_assert(c[j] < cur->dims[j], "the initialising function is called for cells of the grid");
  return vp_real_i(field, cur->flat(c)); }
static double byPosition(const std::vector<double> &x) {
  vp_assert(x.size() == cur->nd, "one coordinate per axis"); std::vector<size_t> c(cur->nd);
  for (size_t j = 0; j < cur->nd; ++j) { size_t n = cur->dims[j], i = 0; for (; i < n; ++i) if (vp_is_eq(x[j], cur->lo[j] + (cur->hi[j] - cur->lo[j]) * ((double)i + 0.5) / (double)n)) break; vp_assert(i < n, "the position is the centre of a cell"); c[j] = i; }
  return vp_real_i(field, cur->flat(c)); }
// compares what the filter prints of this rank's cells (the newest listing) with the model; every cell of the rank is listed once
static void compare(const Pb &p, const char *what, const Dbl &f, const char *msg, int listing) {
  CubeDecomp dc; dc.build(p.np, p.dims); std::vector<size_t> b = dc.getBegIndices(vp_rank()), e = dc.getEndIndices(vp_rank()); long mine = 1; for (size_t j = 0; j < p.nd; ++j) mine *= (long)(e[j] - b[j]);
  vp_doc *d = vp_open_console(2); std::vector<char> seen((size_t)p.ntot, 0); long n = 0, skip = mine * listing; std::vector<size_t> c; int t; std::string prev, last;
  while ((t = vp_next(d))) {
    if (t == 1) { prev = last; last = vp_text(d); if (last == "inds") c.clear(); continue; }
    if (prev == "inds" && last == "=") { c.push_back((size_t)vp_num(d)); continue; }
    if (!(prev == what && last == "=")) continue;
    if (skip-- > 0) { c.clear(); continue; }
    vp_assert(n < mine, "each cell is listed once");
    vp_assert(c.size() == p.nd, "cells are listed with their indices"); for (size_t j = 0; j < p.nd; ++j) vp_assert(c[j] >= b[j] && c[j] < e[j], "a rank lists its own cells");
    long i = p.flat(c); vp_assert(!seen[i], "each cell is listed once"); seen[i] = 1; n++; vp_eq(vp_num(d), f[i], msg); c.clear(); last = prev = ""; }
  vp_assert(n == mine, "every cell of the rank is listed"); }
static Dbl reals(const Pb &p, const char *name) { Dbl f((size_t)p.ntot); for (long i = 0; i < p.ntot; ++i) f[i] = vp_real_i(name, i); return f; }
// ---- one application
static void applyRank() {
  Pb p = problem(false); cur = &p; field = "f"; Filter flt(p.dims, p.lo, p.hi, p.st);
  if (!p.valid) { vp_assert(!flt.isDecompValid(), "no decomposition is reported as such"); if (!vp_rank()) vp_cover("no decomposition"); return; }
  vp_assert(flt.isDecompValid(), "the decomposition is valid"); vp_assert(flt.getRank() == vp_rank() && flt.getNumProcs() == p.np, "rank and number of processes");
  flt.setInDataByIndices(byIndex); flt.applyFilter(); flt.printOutData();
  compare(p, "outData", p.filter(reals(p, "f")), "output is the weighted sum of the periodic neighbours", 0);
  vp_cover(p.np > 1 ? "several ranks" : "one rank"); }
extern "C" void apply() { Pb p = problem(true); vp_mpi_run(p.np, applyRank, 1); }
// ---- histories of set, apply and copy
static void historyRank() {
  Pb p = problem(false); cur = &p; Filter flt(p.dims, p.lo, p.hi, p.st); int len = (int)vp_param("len", 5), nset = 0, nout = 0, nin = 0; bool applied = false; Dbl in, out; static const char *nm[] = {"f0", "f1", "f2", "f3"};
  for (int s = 0; s < len; ++s) {
    long op = vp_fork_i("op", s, s ? 0 : 2, 3); // apply, copy, set by index, set by position
    if (op == 0) { flt.applyFilter(); out = p.filter(in); applied = true; flt.printOutData(); compare(p, "outData", out, "output is the iterate of the operator on the last input", nout++); }
    else if (op == 1) { vp_assume(applied); flt.copyOutToIn(); in = out; flt.printInData(); compare(p, "inData", in, "input after the copy is the last output", nin++); }
    else { vp_assume(nset < (int)vp_param("sets", 2)); field = nm[nset++]; if (op == 2) flt.setInDataByIndices(byIndex); else flt.setInData(byPosition); in = reals(p, field); flt.printInData(); compare(p, "inData", in, "input is the value of the function at each cell", nin++); out = in; flt.printOutData(); compare(p, "outData", in, "the output of no application is the input", nout++); if (op == 3) vp_cover("set by position"); } }
  if (applied) vp_cover("applied"); if (nset > 1) vp_cover("set again"); }
extern "C" void history() {
  Pb p = problem(false); for (size_t j = 0; j < p.nd && vp_param("box", 0); ++j) vp_assume(p.lo[j] < p.hi[j]);
  long nset = 0, len = vp_param("len", 5); bool applied = false, tail = false; // histories that end in a set or copy are prefixes of the others
  for (long s = 0; s < len; ++s) { long op = vp_fork_i("op", s, s ? 0 : 2, 3); if (op > 1) { vp_assume(nset < vp_param("sets", 2)); nset++; } if (op == 1) vp_assume(applied); if (op == 0) applied = true; tail = op == 0; }
  vp_assume(tail); vp_shard(); vp_mpi_run(p.np, historyRank, 1); }
// ---- life cycle of windows and buffers
static void lifeRank() {
  Pb p = problem(false); cur = &p; field = "f"; long n = vp_fork("filters", 1, 2), it = vp_param("iter", 2);
  for (long k = 0; k < n; ++k) { Filter flt(p.dims, p.lo, p.hi, p.st); if (!p.valid) continue; if (k == 0 && vp_fork("unused", 0, 1)) continue;
    flt.setInDataByIndices(byIndex);
    for (long i = 0; i < it; ++i) { flt.applyFilter(); flt.computeCheckSum("output"); flt.copyOutToIn(); } flt.applyFilter(); flt.setInDataByIndices(byIndex); flt.applyFilter(); }
  if (vp_rank() == p.np - 1) vp_cover(p.np > 1 ? "several ranks" : "one rank"); }
extern "C" void life() { Pb p = problem(true); vp_fork("filters", 1, 2); vp_mpi_run(p.np, lifeRank, 1); vp_assert(vp_mpi_open_windows() == 0, "every communication window is closed"); vp_assert(vp_mpi_live_buffers() == 0, "every communication buffer is released"); vp_cover("destroyed"); }
// ---- check sums and gathered file
static void sumsRank() {
  Pb p = problem(false); cur = &p; field = "f"; Filter flt(p.dims, p.lo, p.hi, p.st); flt.setInDataByIndices(byIndex); Dbl in = reals(p, "f"), out = p.filter(in); flt.applyFilter();
  bool first = vp_param("first", 0) != 0; if (first) flt.saveVTK("out.vtk");
  double a = flt.computeCheckSum("input"), b = flt.computeCheckSum("output"); if (!first) flt.saveVTK("out.vtk");
  if (vp_rank()) { vp_assert(vp_files_written() == 0, "only rank 0 writes"); return; }
  double si = 0, so = 0; for (double x : in) si += x; for (double x : out) so += x; vp_eq(a, si, "input check sum is the sum over all cells"); vp_eq(b, so, "output check sum is the sum over all cells");
  vp_doc *d = vp_open_file("out.vtk"); vp_assert(d != 0, "rank 0 writes the file"); Vtk v = vtkRead(d); vp_assert((long)v.values.size() == p.ntot, "the file lists every cell");
  for (long i = 0; i < p.ntot; ++i) { std::vector<size_t> c = p.cell(i); long k = 0; for (size_t j = p.nd; j-- > 0;) k = k * (long)p.dims[j] + (long)c[j]; vp_eq(v.values[k], out[i], "the file holds each cell's output at its place"); }
  for (size_t j = 0; j < 3; ++j) vp_assert(v.dims[j] == (j < p.nd ? (long)p.dims[j] + 1 : 2), "the file declares the extents of the global grid"); vp_cover(p.np > 1 ? "several ranks" : "one rank"); }
extern "C" void sums() { Pb p = problem(true); vp_mpi_run(p.np, sumsRank, 1); }
