// Matrix multiplication, naive and with concurrent columns; the program around it.
#include "prog.h"
extern "C" { void m_init(int n, int m, int el, double *a, double *b); void m_mult(int which, int n, int m, int el, double *a, double *b, double *c); void m_mult_sect(int which, int n, int m, int el, double *a, double *b, double *c); void vp_any_order(int mode); }
typedef std::vector<double> Dbl;
static Dbl values(const char *name, long n) { Dbl v; for (long i = 0; i < n; ++i) v.push_back(vp_real_i(name, i)); return v; }
static long fact(long n) { return n < 2 ? 1 : n * fact(n - 1); }
static void order(long el, long most) { long q = el < 5 ? el : 5, last = el > 1 ? (el <= most ? 2 + fact(q) : 2) : 0; vp_any_order((int)vp_fork("iteration order", 0, last)); }
extern "C" void product() {
  long top = vp_param("top", 3); int n = (int)vp_fork("n", vp_param("low", 0), top), m = (int)vp_fork("m", vp_param("low", 0), top), el = (int)vp_fork("el", vp_param("low", 0), top), w = (int)vp_fork("which", 0, 1); bool sect = vp_param("sections", 0) != 0;
  if (w == 1) order(el, vp_param("perm", 4)); else vp_any_order(0);
  vp_shard();
  long ra = sect ? 2 * n : n, ca = sect ? m + 1 : m, rb = sect ? m + 2 : m, cc = sect ? 2 * el : el;
  Dbl a = values("a", ra * ca), b = values("b", rb * el), c = values("c", n * cc), a0 = a, b0 = b, c0 = c; a.push_back(0); b.push_back(0); c.push_back(0);
  if (sect) m_mult_sect(w, n, m, el, a.data(), b.data(), c.data()); else m_mult(w, n, m, el, a.data(), b.data(), c.data());
  for (long k = 0; k < el; ++k) for (long i = 0; i < n; ++i) {
    double s = 0; for (long j = 0; j < m; ++j) s += sect ? a0[2 * i + (j + 1) * ra] * b0[j + 1 + (el - 1 - k) * rb] : a0[i + j * ra] * b0[j + k * rb];
    vp_eq(c[i + (sect ? 2 * k + 1 : k) * n], s, "an entry of the product is the sum over the inner index"); }
  for (size_t i = 0; i < a0.size(); ++i) vp_eq(a[i], a0[i], "the first factor is left alone");
  for (size_t i = 0; i < b0.size(); ++i) vp_eq(b[i], b0[i], "the second factor is left alone");
  if (sect) for (long k = 0; k < el; ++k) for (long i = 0; i < n; ++i) vp_eq(c[i + 2 * k * n], c0[i + 2 * k * n], "nothing outside the result is written");
  if (w == 1) vp_cover("concurrent columns"); else vp_cover("naive"); if (n > 0 && m == 0) vp_cover("no inner index");
}
extern "C" void initial() {
  long top = vp_param("top", 4); int n = (int)vp_fork("n", 0, top), m = (int)vp_fork("m", 0, top), el = (int)vp_fork("el", 0, top); vp_any_order(0); vp_shard();
  Dbl a((size_t)(n * m + 1), -7.0), b((size_t)(m * el + 1), -7.0); m_init(n, m, el, a.data(), b.data()); long k = 0;
  for (long i = 0; i < n * m; ++i) vp_eq(a[i], (double)++k, "the first matrix holds consecutive numbers in column order");
  for (long i = 0; i < m * el; ++i) vp_eq(b[i], (double)++k, "the second matrix goes on in column order");
  vp_eq(a[n * m], -7.0, "nothing beyond the first matrix is written"); vp_eq(b[m * el], -7.0, "nothing beyond the second matrix is written"); vp_cover("filled");
}
// sizes from the command line
extern "C" void program() {
  long given = vp_fork("given", 0, 3); long size[3] = {3, 4, 5}; Args a; bool junk = false; vp_any_order(0);
  for (long i = 0; i < given; ++i) {
    if (vp_param("junk", 1) && vp_fork_i("junk", i, 0, 1)) { char t[3] = {0}; vp_bytes(t, 2, i == 0 ? "w0" : i == 1 ? "w1" : "w2"); vp_assume((t[0] >= 'a' && t[0] <= 'z') && t[1] != ' '); a.word(t); junk = true; }
    else size[i] = a.symbolic(i == 0 ? "s0" : i == 1 ? "s1" : "s2", vp_param("low", 1), vp_param("top", 3)); }
  vp_shard(); int rc = a.run(); vp_assert(rc == 0, "the program succeeds");
  vp_doc *d = vp_open_console(1); long k = 0; bool ok = false; double got[3] = {-1, -1, -1};
  for (int t; (t = vp_next(d));) { if (t == 2 && k < 3) got[k++] = vp_num(d); else if (t == 1 && !strcmp(vp_text(d), "SUCCESS.")) ok = true; }
  vp_assert(k == 3, "the program prints the three sizes"); for (int i = 0; i < 3; ++i) vp_eq(got[i], (double)size[i], "the sizes are those asked for");
  vp_assert(ok, "the two products agree"); vp_assert(vp_files_written() == 0, "no file is written"); if (junk) vp_cover("not a number"); if (given == 3) vp_cover("three sizes"); if (given == 0) vp_cover("default sizes");
}
