// Runs a whole program: its own main() with symbolic argument text.
#pragma once
#include "vp.h"
#include "vtk.h"
#include <string>
#include <vector>
#ifdef VP_SYM
extern "C" int vp_prog_main(int, char **) __asm__("main");
#else
extern "C" int vp_prog_main(int, char **);
#endif
struct Args {
  std::vector<std::string> a;
  void word(const std::string &s) { a.push_back(s); }
  // a decimal number as text: every value in the range is tried ...
  long number(const char *name, long lo, long hi) { long v = vp_fork(name, lo, hi); a.push_back(std::to_string(v)); return v; }
  // ... or its digits are symbolic
  long symbolic(const char *name, long lo, long hi) {
    long n = lo < 10 && hi > 9 ? vp_fork_i("digits", (long)a.size(), 1, 2) : hi > 9 ? 2 : 1; char t[4] = {0}; vp_bytes(t, (size_t)n, name); long v = 0;
    for (long i = 0; i < n; ++i) { vp_assume(t[i] >= '0' && t[i] <= '9'); v = 10 * v + (t[i] - '0'); } if (n == 2) vp_assume(v >= 10);
    vp_assume(v >= lo && v <= hi); a.push_back(std::string(t, t + n)); return v; }
  int run() {
    std::vector<std::vector<char>> s; std::string p = "./program"; s.push_back(std::vector<char>(p.begin(), p.end())); for (auto &x : a) s.push_back(std::vector<char>(x.begin(), x.end()));
    std::vector<char *> v; for (auto &x : s) { x.push_back(0); } for (auto &x : s) v.push_back(x.data()); v.push_back(0);
    return vp_run_main(vp_prog_main, (int)s.size(), v.data()); }
};
// the number after the words given, the first time they appear on the console; false if they do not
static bool afterWords(int fd, const std::vector<std::string> &w, double &v) {
  vp_doc *d = vp_open_console(fd); size_t k = 0;
  for (;;) { int t = vp_next(d); if (!t) return false; if (k == w.size()) { if (t != 2) return false; v = vp_num(d); return true; } if (t == 1 && w[k] == vp_text(d)) k++; else k = t == 1 && w[0] == vp_text(d) ? 1 : 0; }
}
static bool consoleHas(const char *word) { for (int fd = 1; fd <= 2; ++fd) { vp_doc *d = vp_open_console(fd); int t; while ((t = vp_next(d))) if (t == 1 && !strcmp(vp_text(d), word)) return true; } return false; }
