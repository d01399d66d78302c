// The Fortran upwind programs behind the interface of the C++ ones.
#pragma once
#include "vp.h"
#include <stddef.h>
#include <string>
#include <vector>
extern "C" {
void f_new(void **p, int nd, const double *v, const double *len, const int *nc); void f_del(void *p); int f_size(void *p);
void f_set(void *p, int i, double x); double f_get(void *p, int i); void f_advect(void *p, double dt); void f_save(void *p, int later); void f_print(void *p);
void vp_any_order(int mode);
}
static void *f_current = 0;
template <size_t ND> struct Upwind {
  void *p = 0; long n = 1;
  Upwind(const std::vector<double> &v, const std::vector<double> &len, const std::vector<int> &c) { f_new(&p, (int)ND, v.data(), len.data(), c.data()); f_current = p; for (int x : c) n *= x; vp_assert(f_size(p) == n, "the field has one value per cell"); }
  ~Upwind() { f_del(p); if (f_current == p) f_current = 0; }
  void advect(double dt) { f_advect(p, dt); }
  double get(long i) { return f_get(p, (int)i + 1); }
  double checksum() { double s = 0; for (long i = 0; i < n; ++i) s += get(i); return s; }
  void saveVTK(const std::string &s) { f_save(p, s == "later.vtk"); }
};
