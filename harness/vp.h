// Interface between a harness and the machine that runs it: the symbolic
// executor (engine/vpsym), or natively with the values of a counterexample.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
long vp_param(const char *name, long dflt);
long vp_int(const char *name, long lo, long hi);
long vp_int_i(const char *name, long i, long lo, long hi);
long vp_fork(const char *name, long lo, long hi);
long vp_fork_i(const char *name, long i, long lo, long hi);
double vp_real(const char *name);
double vp_real_i(const char *name, long i);
void vp_bytes(char *p, size_t n, const char *name);
void vp_assume(int c);
void vp_assert(int c, const char *label);
void vp_eq(double a, double b, const char *label);
void vp_le(double a, double b, const char *label);
int vp_is_eq(double a, double b);
void vp_cover(const char *label);
void vp_stop(void);
void vp_fail(const char *label);
int vp_symbolic(void);
int vp_rank(void);
void vp_put(const char *key, long i, double v);
double vp_get(const char *key, long i);
int vp_has(const char *key, long i);
void vp_omp(int n);
void vp_order(int x);
int vp_race_push(int x);
long vp_find_spike(size_t n, double **out, size_t max);
void vp_shard(void);
int vp_run_main(int (*f)(int, char **), int argc, char **argv);
void vp_log(const char *s, long v);
void vp_log_d(const char *s, double v);
void vp_mpi_run(int n, void (*f)(void), int preinit);
int vp_mpi_open_windows(void);
int vp_mpi_live_buffers(void);
int vp_mpi_finalized(void);
// text written by the code under test: words separated by blanks
struct vp_doc;
struct vp_doc *vp_open_file(const char *name);       // null if it was not written; own file of this rank
struct vp_doc *vp_open_console(int fd);              // what this rank wrote to 1 or 2 so far
int vp_next(struct vp_doc *d);                       // 0 none, 1 text, 2 number
int vp_peek_char(struct vp_doc *d);                  // 0 end of text, 1 end of line reached before next word, else 2
const char *vp_text(struct vp_doc *d);
double vp_num(struct vp_doc *d);
int vp_line(struct vp_doc *d);                       // line on which the current word begins
void vp_rewind(struct vp_doc *d);
int vp_files_written(void);
int vp_exists(const char *name);
#ifdef __cplusplus
}
#endif
