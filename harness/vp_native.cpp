// Runs a harness natively, against the real libraries, with the input values of a
// counterexample (or of a sampled path). Exit status:
//   0 completed, nothing failed    5 an assertion of the harness failed ("REPRODUCED ...")
//   7 an assumption of the harness does not hold for these values   99 sanitizer report
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <string>
#include <map>
#include <vector>
#include <fstream>
#include <sstream>
#include <new>
#ifdef _OPENMP
#include <omp.h>
#endif
#ifdef VP_MPI
#include <mpi.h>
#endif
extern "C" void VP_ENTRY(void);
typedef std::map<std::string, std::string> SM;
static SM *inputs, *parms; static std::string *base; static int myRank = 0, rankMode = -1, runCount = 0, report = 2;
static std::string keyOf(const char *n, long i) { return std::string(n) + "[" + std::to_string(i) + "]"; }
static void say(const std::string &s) { std::string t = s + "\n"; if (write(report, t.data(), t.size())) {} }
static void mark(const char *what) { FILE *f = fopen((*base + "/mark").c_str(), "a"); fprintf(f, "%s\n", what); fclose(f); }
static void bad(const std::string &s) { say("REPRODUCED " + s); mark("5"); fflush(0); _exit(5); }
static void load(SM &m, const char *fn) { std::ifstream f(fn); std::string l; while (std::getline(f, l)) { auto p = l.rfind(' '); if (p != std::string::npos) m[l.substr(0, p)] = l.substr(p + 1); } }
static void setRank(int r) {
  myRank = r; std::string d = *base + "/rank" + std::to_string(r); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) _exit(3);
  int o = open((*base + "/out" + std::to_string(r)).c_str(), O_RDWR | O_CREAT | O_APPEND, 0644), e = open((*base + "/err" + std::to_string(r)).c_str(), O_RDWR | O_CREAT | O_APPEND, 0644);
  fflush(0); dup2(o, 1); dup2(e, 2); close(o); close(e);
}
// ---- tracking of heap blocks, so that vp_find_spike can look at the live ones
struct Blk { void *p; size_t n; }; static Blk blks[1 << 16]; static int nb = 0; static volatile int lk = 0;
static void lock() { while (__sync_lock_test_and_set(&lk, 1)) {} } static void unlock() { __sync_lock_release(&lk); }
static void *get(size_t n) { void *p = malloc(n ? n : 1); lock(); if (nb < (1 << 16)) blks[nb++] = {p, n}; unlock(); return p; }
static void drop(void *p) { if (!p) return; lock(); for (int i = nb; i-- > 0;) if (blks[i].p == p) { blks[i] = blks[--nb]; break; } unlock(); free(p); }
void *operator new(size_t n) { return get(n); } void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { drop(p); } void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); } void operator delete[](void *p, size_t) noexcept { drop(p); }
static long intOf(const std::string &k, long lo, long hi) { auto it = inputs->find(k); if (it != inputs->end()) return strtol(it->second.c_str(), 0, 10); return lo > 0 ? lo : hi < 0 ? hi : 0; }
static double realOf(const std::string &k) { auto it = inputs->find(k); return it == inputs->end() ? 0.0 : strtod(it->second.c_str(), 0); }
static std::map<std::string, double> *store;
static void loadStore() { DIR *d = opendir(base->c_str()); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "store", 5)) { std::ifstream f(*base + "/" + e->d_name); std::string l; while (std::getline(f, l)) { auto p = l.rfind(' '); (*store)[l.substr(0, p)] = strtod(l.c_str() + p, 0); } } closedir(d); }
#ifdef VP_MPI
static int winsOpen = 0, bufs = 0, fins = 0;
extern "C" {
int MPI_Win_allocate(MPI_Aint s, int d, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) { winsOpen++; return PMPI_Win_allocate(s, d, i, c, b, w); }
int MPI_Win_create(void *b, MPI_Aint s, int d, MPI_Info i, MPI_Comm c, MPI_Win *w) { winsOpen++; return PMPI_Win_create(b, s, d, i, c, w); }
int MPI_Win_free(MPI_Win *w) { winsOpen--; return PMPI_Win_free(w); }
int MPI_Alloc_mem(MPI_Aint s, MPI_Info i, void *p) { bufs++; return PMPI_Alloc_mem(s, i, p); }
int MPI_Free_mem(void *p) { bufs--; return PMPI_Free_mem(p); }
int MPI_Finalize(void) { FILE *f = fopen((*base + "/store_fin" + std::to_string(myRank)).c_str(), "w"); fprintf(f, "!fin%d 1\n!wins%d %d\n!bufs%d %d\n", myRank, myRank, winsOpen, myRank, bufs); fclose(f); return PMPI_Finalize(); }
}
#endif
extern "C" {
long vp_param(const char *n, long d) { auto it = parms->find(n); return it == parms->end() ? d : strtol(it->second.c_str(), 0, 10); }
long vp_int(const char *n, long lo, long hi) { return intOf(n, lo, hi); }
long vp_int_i(const char *n, long i, long lo, long hi) { return intOf(keyOf(n, i), lo, hi); }
long vp_fork(const char *n, long lo, long hi) { return intOf(n, lo, hi); }
long vp_fork_i(const char *n, long i, long lo, long hi) { return intOf(keyOf(n, i), lo, hi); }
double vp_real(const char *n) { return realOf(n); }
double vp_real_i(const char *n, long i) { return realOf(keyOf(n, i)); }
void vp_bytes(char *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) p[i] = (char)intOf(keyOf(nm, (long)i), 0, 255); }
void vp_assume(int c) { if (!c) { say("ASSUMPTION"); mark("7"); fflush(0); _exit(7); } }
void vp_assert(int c, const char *l) { if (!c) bad(std::string("assert ") + l); }
static std::string two(double a, double b) { char t[100]; snprintf(t, 100, ": %.17g vs %.17g", a, b); return t; }
static double tol(double a, double b) { return 2e-5 * fmax(fmax(fabs(a), fabs(b)), 1e-3); }
void vp_eq(double a, double b, const char *l) { if (!(fabs(a - b) <= tol(a, b))) bad(std::string("assert ") + l + two(a, b)); }
void vp_le(double a, double b, const char *l) { if (!(a <= b + tol(a, b))) bad(std::string("assert ") + l + two(a, b)); }
int vp_is_eq(double a, double b) { return fabs(a - b) <= tol(a, b); }
void vp_cover(const char *) {}
void vp_stop(void) { say("STOPPED"); mark("7"); fflush(0); _exit(7); }
void vp_fail(const char *l) { bad(std::string("assert ") + l); }
int vp_symbolic(void) { return 0; }
int vp_rank(void) { return myRank; }
void vp_put(const char *k, long i, double v) { std::string q = keyOf(k, i); (*store)[q] = v; FILE *f = fopen((*base + "/store" + std::to_string(myRank)).c_str(), "a"); fprintf(f, "%s %.17g\n", q.c_str(), v); fclose(f); }
double vp_get(const char *k, long i) { loadStore(); auto it = store->find(keyOf(k, i)); if (it == store->end()) bad("assert missing value " + keyOf(k, i)); return it->second; }
int vp_has(const char *k, long i) { loadStore(); return store->count(keyOf(k, i)) != 0; }
void vp_omp(int n) { (void)n;
#ifdef _OPENMP
  omp_set_num_threads(n);
#endif
}
void vp_order(int) {}
void vp_any_order(int) {}
int vp_race_push(int) { return 0; }
void vp_race_off(int) {}
int vp_isconst(long) { return 1; }
long vp_heap_blocks(void) { return nb; }
long vp_find_spike(size_t n, double **out, size_t max) {
  size_t k = 0; lock();
  for (int i = 0; i < nb; i++) if (blks[i].n == n * sizeof(double)) { const double *d = (const double *)blks[i].p; bool ok = d[0] == 1.0; for (size_t j = 1; ok && j < n; j++) if (d[j] != 0.0) ok = false; if (ok && k < max) out[k++] = (double *)blks[i].p; }
  unlock(); return (long)k; }
void vp_shard(void) {}
int vp_run_main(int (*f)(int, char **), int argc, char **argv) {
  fflush(0); int pid = fork();
  if (!pid) { int r = f(argc, argv); fflush(0); exit(r); }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGABRT) return 134; say("signal " + std::to_string(WTERMSIG(st))); mark("99"); _exit(99); }
  if (WEXITSTATUS(st) == 99) { mark("99"); _exit(99); }
  return WEXITSTATUS(st); }
void vp_log(const char *s, long v) { say(std::string("[log] ") + s + " " + std::to_string(v)); }
void vp_log_d(const char *s, double v) { char t[60]; snprintf(t, 60, "%.17g", v); say(std::string("[log] ") + s + " " + t); }
void vp_mpi_run(int n, void (*f)(void), int preinit) {
#ifdef VP_MPI
  int me = runCount++;
  if (rankMode >= 0) {
    if (me < rankMode) return;
    if (preinit) MPI_Init(0, 0);
    f(); fflush(0);
    int fin = 0; MPI_Finalized(&fin); if (preinit && !fin) MPI_Finalize();
    exit(0);
  }
  // launcher: start the ranks and wait for them
  std::string cmd = "VP_RANKMODE=" + std::to_string(me) + " timeout -k 5 120 mpiexec --oversubscribe -n " + std::to_string(n) + " '" + getenv("VP_SELF") + "' 2>'" + *base + "/mpierr' >&2";
  fflush(0); int rc = system(cmd.c_str());
  std::ifstream mk(*base + "/mark"); std::string w; std::string last; while (std::getline(mk, w)) if (w == "99" || w == "5" || last.empty()) last = w;
  if (last == "5") _exit(5); if (last == "99") _exit(99); if (last == "7") _exit(7);
  if (rc) { say("the MPI run failed or hung: status " + std::to_string(WIFEXITED(rc) ? WEXITSTATUS(rc) : -1)); std::ifstream e(*base + "/mpierr"); std::stringstream ss; ss << e.rdbuf(); say(ss.str()); _exit(98); }
#else
  (void)n; (void)preinit; f();
#endif
}
#ifdef VP_MPI
static int sumOf(const char *p) { loadStore(); int s = 0; for (auto &q : *store) if (q.first.compare(0, strlen(p), p) == 0) s += (int)q.second; return s; }
int vp_mpi_open_windows(void) { return sumOf("!wins"); }
int vp_mpi_live_buffers(void) { return sumOf("!bufs"); }
int vp_mpi_finalized(void) { return sumOf("!fin"); }
#else
int vp_mpi_open_windows(void) { return 0; } int vp_mpi_live_buffers(void) { return 0; } int vp_mpi_finalized(void) { return 0; }
#endif
struct vp_doc { std::string t, w; size_t p; int line, next; double num; };
static vp_doc *docOf(const std::string &fn) { fflush(0); std::ifstream f(fn); if (!f) return 0; std::stringstream ss; ss << f.rdbuf(); vp_doc *d = new vp_doc; d->t = ss.str(); d->p = 0; d->line = d->next = 1; d->num = 0; return d; }
extern "C++" void vp_flush_cxx(); void _gfortran_flush_i4(int *) __attribute__((weak));
vp_doc *vp_open_file(const char *n) { vp_flush_cxx(); return docOf(n); }
vp_doc *vp_open_console(int fd) { vp_flush_cxx(); return docOf(*base + (fd == 1 ? "/out" : "/err") + std::to_string(myRank)); }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int vp_next(vp_doc *d) {
  while (d->p < d->t.size() && blank(d->t[d->p])) { if (d->t[d->p] == '\n') d->next++; d->p++; }
  d->line = d->next; if (d->p >= d->t.size()) return 0; size_t q = d->p; while (d->p < d->t.size() && !blank(d->t[d->p])) d->p++;
  d->w = d->t.substr(q, d->p - q); char *e; const char *s = d->w.c_str();
  if (strchr("+-.0123456789", s[0])) { double v = strtod(s, &e); if (*e == 0 && e != s) { d->num = v; return 2; } }
  else if (d->w == "nan" || d->w == "inf") { d->num = NAN; return 2; }
  return 1; }
int vp_peek_char(vp_doc *d) { size_t p = d->p; while (p < d->t.size() && blank(d->t[p])) { if (d->t[p] == '\n') return 1; p++; } return p < d->t.size() ? 2 : 0; }
const char *vp_text(vp_doc *d) { return d->w.c_str(); }
double vp_num(vp_doc *d) { return d->num; }
int vp_line(vp_doc *d) { return d->line; }
void vp_rewind(vp_doc *d) { d->p = 0; d->line = d->next = 1; }
int vp_files_written(void) { int n = 0; DIR *d = opendir("."); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
int vp_exists(const char *n) { return access(n, F_OK) == 0; }
}
#include <iostream>
void vp_flush_cxx() { if (_gfortran_flush_i4) _gfortran_flush_i4(0); std::cout.flush(); std::cerr.flush(); std::clog.flush(); }
int main() {
  inputs = new SM; parms = new SM; store = new std::map<std::string, double>; base = new std::string(getenv("VP_SCRATCH"));
  load(*inputs, getenv("VP_INPUTS")); if (getenv("VP_PARAMS")) load(*parms, getenv("VP_PARAMS"));
  report = open((*base + "/report").c_str(), O_RDWR | O_CREAT | O_APPEND, 0644);
  if (const char *m = getenv("VP_RANKMODE")) { rankMode = atoi(m); const char *r = getenv("OMPI_COMM_WORLD_RANK"); setRank(r ? atoi(r) : 0); }
  else setRank(0);
  VP_ENTRY(); vp_flush_cxx(); fflush(0);
  say("COMPLETED"); _exit(0);
}
