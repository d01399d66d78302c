// The parts of the gfortran run-time library the programs use: formatted and list-directed output,
// list-directed input from text, the command line, strings, termination.
#include <vector>
extern "C" {
void exit(int) noexcept; void abort(void) noexcept; void vp_unsupported(const char *);
struct FUnit { int unit; vp_buf *b; char name[64]; };
static FUnit f_units[16]; static int f_nunits = 0, f_newunit = -10, f_argc = 0; static char **f_argv = 0;
static int f_ld4(const char *p, long o) { int v; memcpy(&v, p + o, 4); return v; }
static char *f_ldp(const char *p, long o) { char *v; memcpy(&v, p + o, 8); return v; }
static long f_ld8(const char *p, long o) { long v; memcpy(&v, p + o, 8); return v; }
void _gfortran_set_args(int n, char **v) { f_argc = n; f_argv = v; }
void _gfortran_set_options(int, void *) {}
static void f_stderr(const char *s, long n) { vp_buf_put(vp_console(2), s, (size_t)n); }
static void f_die(const char *s, int code) { f_stderr(s, (long)strlen(s)); f_stderr("\n", 1); exit(code); }
void _gfortran_stop_string(const char *s, long n, int) { if (n) { f_stderr("STOP ", 5); f_stderr(s, n); f_stderr("\n", 1); } exit(0); }
void _gfortran_error_stop_string(const char *s, long n, int) { f_stderr("ERROR STOP ", 11); f_stderr(s, n); f_stderr("\n", 1); exit(1); }
void _gfortran_stop_numeric(int c, int) { exit(c); }
void _gfortran_error_stop_numeric(int c, int) { exit(c); }
void _gfortran_exit_i4(int *c) { exit(c ? *c : 0); }
void _gfortran_runtime_error(const char *s) { f_die(s, 2); }
void _gfortran_runtime_error_at(const char *, const char *s) { f_die(s, 2); }
void _gfortran_os_error(const char *s) { f_die(s, 1); }
void _gfortran_os_error_at(const char *, const char *s) { f_die(s, 1); }
int _gfortran_iargc(void) { return f_argc - 1; }
void _gfortran_get_command_argument_i4(int *num, char *val, int *len, int *stat, long vlen) {
  int st = 0; long n = 0; const char *a = 0; if (*num < 0 || *num >= f_argc) st = 42; else { a = f_argv[*num]; n = (long)strlen(a); }
  if (val && vlen > 0) { if (n > vlen && !st) st = -1; for (long i = 0; i < vlen; i++) val[i] = i < n ? a[i] : ' '; }
  if (len) *len = (int)n; if (stat) *stat = st; }
void _gfortran_getarg_i4(int *num, char *val, long vlen) { _gfortran_get_command_argument_i4(num, val, 0, 0, vlen); }
void _gfortran_get_command_i4(char *, int *, int *, long) { vp_unsupported("get_command"); }
long _gfortran_string_len_trim(long n, const char *s) { while (n > 0 && s[n - 1] == ' ') n--; return n; }
int _gfortran_compare_string(long n, const char *a, long m, const char *b) {
  for (long i = 0; i < n || i < m; i++) { unsigned char x = i < n ? (unsigned char)a[i] : ' ', y = i < m ? (unsigned char)b[i] : ' '; if (x != y) return x < y ? -1 : 1; } return 0; }
void _gfortran_string_trim(long *len, char **d, long n, const char *s) { n = _gfortran_string_len_trim(n, s); *len = n; if (!n) { static char z; *d = &z; return; } void *malloc(size_t) noexcept; *d = (char *)malloc((size_t)n); memcpy(*d, s, (size_t)n); }
void _gfortran_concat_string(long n, char *d, long a, const char *p, long b, const char *q) { for (long i = 0; i < n; i++) d[i] = i < a ? p[i] : i - a < b ? q[i - a] : ' '; }
void _gfortran_adjustl(char *d, long n, const char *s) { long k = 0; while (k < n && s[k] == ' ') k++; for (long i = 0; i < n; i++) d[i] = i + k < n ? s[i + k] : ' '; }
long _gfortran_string_index(long n, const char *s, long m, const char *t, int back) { long r = 0; if (m == 0) return back ? n + 1 : 1; for (long i = 0; i + m <= n; i++) { long k = 0; while (k < m && s[i + k] == t[k]) k++; if (k == m) { r = i + 1; if (!back) return r; } } return r; }
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void); int omp_in_parallel(void); int omp_get_num_procs(void); void omp_set_num_threads(int);
int omp_get_num_threads_(void) { return omp_get_num_threads(); } int omp_get_thread_num_(void) { return omp_get_thread_num(); } int omp_get_max_threads_(void) { return omp_get_max_threads(); } int omp_in_parallel_(void) { return omp_in_parallel(); } int omp_get_num_procs_(void) { return omp_get_num_procs(); } void omp_set_num_threads_(int *n) { omp_set_num_threads(*n); } double omp_get_wtime_(void) { return 0; }
void _gfortran_cpu_time_8(double *t) { *t = 0; }
void _gfortran_system_clock_4(int *c, int *r, int *m) { if (c) *c = 0; if (r) *r = 1000; if (m) *m = 2147483647; }
void _gfortran_system_clock_8(long *c, long *r, long *m) { if (c) *c = 0; if (r) *r = 1000000000; if (m) *m = 9223372036854775807l; }
// ---- units
static FUnit *f_unit(int u) { for (int i = 0; i < f_nunits; i++) if (f_units[i].unit == u) return &f_units[i]; return 0; }
static vp_buf *f_buf(int u) {
  if (FUnit *q = f_unit(u)) return q->b;
  if (u == 6) return vp_console(1); if (u == 0) return vp_console(2);
  char n[24] = "fort."; int k = 5; char t[12]; int p = 0; do { t[p++] = (char)('0' + u % 10); u /= 10; } while (u); while (p) n[k++] = t[--p]; n[k] = 0; return vp_file_open(n, 0); }
void _gfortran_st_open(char *p) {
  int o = vp_race_push(1); int fl = f_ld4(p, 0), u = f_ld4(p, 4); char n[64]; long len = 0;
  if (fl & (1 << 23)) { u = --f_newunit; *(int *)f_ldp(p, 296) = u; }
  if (fl & (1 << 8)) { const char *s = f_ldp(p, 64); len = _gfortran_string_len_trim(f_ld8(p, 56), s); if (len > 63) len = 63; memcpy(n, s, (size_t)len); } else { memcpy(n, "fort.unit", 9); len = 9; }
  n[len] = 0; bool app = false; if (fl & (1 << 13)) { const char *s = f_ldp(p, 136); app = s[0] == 'a' || s[0] == 'A'; if ((app && s[1] != 'p' && s[1] != 'P')) app = false; }
  FUnit *q = f_unit(u); if (q) vp_file_close(q->name); else { if (f_nunits >= 16) vp_unsupported("more than 16 units"); q = &f_units[f_nunits++]; }
  q->unit = u; memcpy(q->name, n, 64); q->b = vp_file_open(n, !app); if (fl & 32) *(int *)f_ldp(p, 40) = 0; vp_race_push(o); }
void _gfortran_st_close(char *p) { int o = vp_race_push(1); int fl = f_ld4(p, 0); FUnit *q = f_unit(f_ld4(p, 4)); if (q) { vp_file_close(q->name); *q = f_units[--f_nunits]; } if (fl & 32) *(int *)f_ldp(p, 40) = 0; vp_race_push(o); }
void _gfortran_st_flush(char *) {} void _gfortran_flush_i4(int *) {} void _gfortran_flush_i8(long *) {}
// ---- formats
struct FItem { char k; int w, d, n; const char *s; };
struct FDt { char *dt; vp_buf *b; bool list, adv, first; std::vector<FItem> it; size_t at, back; const char *in; long pos, len; int err; vp_buf own; char *out; long olen; };
static FDt *f_dts[8];
static bool f_dig(char c) { return c >= '0' && c <= '9'; }
static char f_low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static const char *f_parse(FDt *f, const char *s, const char *e, int depth) {
  if (depth == 1) f->back = f->it.size();
  while (s < e) {
    char c = f_low(*s);
    if (c == ' ' || c == ',') { s++; continue; }
    if (c == ')') return s + 1;
    if (c == '/') { f->it.push_back({'/', 0, 0, 0, 0}); s++; continue; }
    if (c == '\'' || c == '"') { const char *b = s + 1; long n = 0; while (b + n < e && b[n] != c) n++; f->it.push_back({'"', 0, 0, (int)n, b}); s = b + n + 1; continue; }
    if (c == '$') { f->adv = false; s++; continue; }
    int r = 0; bool hasr = false; bool star = c == '*'; if (star) { s++; r = 1000; hasr = true; } while (s < e && f_dig(*s)) { r = 10 * r + (*s++ - '0'); hasr = true; } if (!hasr) r = 1;
    while (s < e && *s == ' ') s++; c = f_low(*s);
    if (c == '(') { const char *n = s; size_t b = f->it.size(); for (int i = 0; i < r; i++) { if (star && i == 1) break; n = f_parse(f, s + 1, e, depth + 1); } if (depth == 0 || star) f->back = b; s = n; continue; }
    if (c == 'x') { for (int i = 0; i < r; i++) f->it.push_back({'"', 0, 0, 1, " "}); s++; continue; }
    if (c == 't' || c == ':' || c == 'b' || c == 's' || c == 'p') { vp_unsupported("a format item"); }
    s++; char k = c; if (c == 'e' && s < e && (f_low(*s) == 's' || f_low(*s) == 'n')) { k = 'S'; s++; }
    int w = 0, d = 0; while (s < e && f_dig(*s)) w = 10 * w + (*s++ - '0');
    if (s < e && *s == '.') { s++; while (s < e && f_dig(*s)) d = 10 * d + (*s++ - '0'); if (s < e && f_low(*s) == 'e' && k != 'i') { s++; while (s < e && f_dig(*s)) s++; } }
    for (int i = 0; i < r; i++) f->it.push_back({k, w, d, 0, 0}); }
  return s; }
static FDt *f_of(char *p) { for (int i = 0; i < 8; i++) if (f_dts[i] && f_dts[i]->dt == p) return f_dts[i]; return 0; }
static FDt *f_start(char *p) {
  FDt *f = f_of(p); if (!f) { f = new FDt(); int i = 0; while (i < 7 && f_dts[i]) i++; f_dts[i] = f; }
  int fl = f_ld4(p, 0); f->dt = p; f->first = true; f->adv = true; f->list = !(fl & 4096); f->at = f->back = 0; f->err = 0; f->out = 0; f->b = 0; f->own = {0, 0, 0, 0}; f->it.clear();
  if (fl & (1 << 13)) { const char *a = f_ldp(p, 104); long n = f_ld8(p, 96); if (n > 0 && (a[0] == 'n' || a[0] == 'N')) f->adv = false; }
  if (fl & 4096) { const char *s = f_ldp(p, 80), *e = s + f_ld8(p, 88); while (s < e && *s != '(') s++; if (s < e) f_parse(f, s + 1, e, 0); f->back = f->back; }
  return f; }
static void f_end(FDt *f) { for (int i = 0; i < 8; i++) if (f_dts[i] == f) f_dts[i] = 0; delete f; }
static void f_put(FDt *f, const char *s, long n) { vp_buf_put(f->b, s, (size_t)n); }
// goes on to the next item that takes a value; 0 at the end of the format when no value is left to write
static FItem *f_next(FDt *f, bool value) {
  bool turned = false;
  for (;;) {
    if (f->at >= f->it.size()) { if (!value) return 0; if (turned) vp_unsupported("a format without an item for the value"); turned = true; f_put(f, "\n", 1); f->at = f->back; if (f->at >= f->it.size()) f->at = 0; continue; }
    FItem *q = &f->it[f->at];
    if (q->k == '"') { f_put(f, q->s, q->n); f->at++; continue; }
    if (q->k == '/') { f_put(f, "\n", 1); f->at++; continue; }
    if (!value) return 0;
    f->at++; return q; } }
static void f_pad(FDt *f, long n) { while (n-- > 0) f_put(f, " ", 1); }
static void f_stars(FDt *f, int w) { while (w-- > 0) f_put(f, "*", 1); }
void _gfortran_st_write(char *p) {
  int o = vp_race_push(1); FDt *f = f_start(p); int fl = f_ld4(p, 0);
  if (fl & (1 << 14)) { f->out = f_ldp(p, 112); f->olen = f_ld8(p, 120); f->b = &f->own; f->adv = false; } else f->b = f_buf(f_ld4(p, 4));
  if (fl & 32) *(int *)f_ldp(p, 40) = 0; if (f->list) f_put(f, " ", 1); vp_race_push(o); }
void _gfortran_st_write_done(char *p) {
  int o = vp_race_push(1); FDt *f = f_of(p); if (!f->list) f_next(f, false); if (f->adv) f_put(f, "\n", 1);
  if (f->out) { for (long i = 0; i < f->olen; i++) { f->out[i] = i < (long)f->own.n ? f->own.d[i] : ' '; if (f->out[i] == 1) vp_unsupported("a symbolic number in an internal file"); } }
  f_end(f); vp_race_push(o); }
void _gfortran_transfer_character_write(char *p, const char *s, long n) {
  int o = vp_race_push(1); FDt *f = f_of(p);
  if (f->list) { f_put(f, s, n); f->first = false; } else { FItem *q = f_next(f, true); if (q->k != 'a' && q->k != 'g') f_die("Expected another type in formatted transfer, got CHARACTER", 2); int w = q->w; if (w > n) f_pad(f, w - n); f_put(f, s, w && w < n ? w : n); }
  vp_race_push(o); }
void _gfortran_transfer_integer_write(char *p, const void *v, int kind) {
  int o = vp_race_push(1); FDt *f = f_of(p); long x = kind == 4 ? *(const int *)v : kind == 8 ? *(const long *)v : kind == 2 ? *(const short *)v : *(const signed char *)v; int w = kind == 4 ? 12 : 21, m = 0;
  if (!f->list) { FItem *q = f_next(f, true); if (q->k != 'i' && q->k != 'g') f_die("Expected another type in formatted transfer, got INTEGER", 2); w = q->w; m = q->d; }
  if (vp_isconst(x)) { char t[24]; int k = 24; bool neg = x < 0; unsigned long u = neg ? 0ul - (unsigned long)x : (unsigned long)x; do { t[--k] = (char)('0' + u % 10); u /= 10; } while (u); while (24 - k < m && k > 1) t[--k] = '0'; if (neg) t[--k] = '-'; if (w && 24 - k > w) f_stars(f, w); else { f_pad(f, w - (24 - k)); f_put(f, t + k, 24 - k); } }
  else { if (w > 10) f_put(f, " ", 1); vp_buf_num(f->b, 'i', 0, x, 20, 0); }
  f->first = false; vp_race_push(o); }
void _gfortran_transfer_real_write(char *p, const void *v, int kind) {
  int o = vp_race_push(1); FDt *f = f_of(p); double x; if (kind == 4) x = (double)*(const float *)v; else memcpy(&x, v, 8); int w = 26, d = kind == 4 ? 9 : 17, need = 0;
  int fixed = 0;
  if (!f->list) { // the least width: an exponent of four characters, a sign when negative, no leading zero
    FItem *q = f_next(f, true); w = q->w; d = q->d;
    if (q->k == 'e' || q->k == 'd' || q->k == 'g') need = d + 5; else if (q->k == 'S') { need = d + 6; d++; } else if (q->k == 'f') { need = d + 1; fixed = 4; } else f_die("Expected another type in formatted transfer, got REAL", 2);
    if (w && (fixed || w == need)) { bool neg = x < 0; if (neg) need++; if (fixed && w >= need) { double lim = 1, ax = neg ? -x : x; for (int i = need; i < w; i++) lim *= 10; if (ax >= lim) w = -w; } } }
  if (w < 0) f_stars(f, -w); else if (w && w < need) f_stars(f, w); else { if (w > need + 2) f_put(f, " ", 1); vp_buf_num(f->b, 'd', x, 0, d, fixed); }
  f->first = false; vp_race_push(o); }
void _gfortran_transfer_logical_write(char *p, const void *v, int) { int o = vp_race_push(1); FDt *f = f_of(p); int w = 2; if (!f->list) w = f_next(f, true)->w; f_pad(f, w - 1); f_put(f, *(const int *)v ? "T" : "F", 1); vp_race_push(o); }
// arrays: descriptor base, offset, element length, version, rank, type, ..., dims (stride, lower, upper)
void _gfortran_transfer_array_write(char *p, char *desc, int kind, long clen) {
  char *base = f_ldp(desc, 0); long el = f_ld8(desc, 16); int rank = (signed char)desc[28], type = (signed char)desc[29]; long span = f_ld8(desc, 32); (void)span; long st[7], n[7], ix[7]; bool none = false;
  for (int i = 0; i < rank; i++) { st[i] = f_ld8(desc, 40 + 24 * i); n[i] = f_ld8(desc, 56 + 24 * i) - f_ld8(desc, 48 + 24 * i) + 1; if (n[i] <= 0) none = true; ix[i] = 0; }
  if (none) return;
  for (;;) { long off = 0; for (int i = 0; i < rank; i++) off += ix[i] * st[i]; char *q = base + off * el;
    if (type == 1) _gfortran_transfer_integer_write(p, q, kind); else if (type == 3) _gfortran_transfer_real_write(p, q, kind); else if (type == 6) _gfortran_transfer_character_write(p, q, clen ? clen : el); else vp_unsupported("output of an array of this type");
    int i = 0; while (i < rank && ++ix[i] == n[i]) ix[i++] = 0; if (i == rank) break; } }
// ---- list-directed input from text
static bool f_sep(char c) { return c == ' ' || c == ',' || c == '/' || c == '\t' || c == '\n' || c == ';'; }
void _gfortran_st_read(char *p) { FDt *f = f_start(p); int fl = f_ld4(p, 0); if (!(fl & (1 << 14))) vp_unsupported("reading from a file"); f->in = f_ldp(p, 112); f->len = f_ld8(p, 120); f->pos = 0; if (fl & 32) *(int *)f_ldp(p, 40) = 0; }
static void f_fail(FDt *f, int code) { if (f->err) return; f->err = code; int fl = f_ld4(f->dt, 0); if (fl & 32) *(int *)f_ldp(f->dt, 40) = code; if (!(fl & 32) && !(fl & (code == -1 ? 8 : 4))) f_die(code == -1 ? "Fortran runtime error: End of file" : "Fortran runtime error: Bad value during read", 2); int g = (fl & ~3) | (code == -1 ? 2 : 1); memcpy(f->dt, &g, 4); }
void _gfortran_transfer_integer(char *p, void *v, int kind) {
  FDt *f = f_of(p); if (f->err) return; const char *s = f->in; long n = f->len, i = f->pos;
  if (!f->list) { // blanks are ignored, a short record is padded with them
    while (f->at < f->it.size() && f->it[f->at].k == '"') { f->pos += f->it[f->at].n; f->at++; } if (f->at >= f->it.size()) vp_unsupported("going back in a format"); FItem *q = &f->it[f->at++]; if (q->k != 'i' || q->w <= 0) vp_unsupported("this format item in input");
    long x = 0; bool neg = false, any = false, sg = false; i = f->pos; for (int k = 0; k < q->w; k++, i++) { char c = i < n ? s[i] : ' '; if (c == ' ') continue; if ((c == '+' || c == '-') && !sg && !any) { neg = c == '-'; sg = true; continue; } if (!f_dig(c)) { f_fail(f, 5010); return; } any = true; x = 10 * x + (c - '0'); if (x > 2147483647l + (neg ? 1 : 0) && kind == 4) { f_fail(f, 5010); return; } }
    if (sg && !any) { f_fail(f, 5010); return; }
    f->pos = i; if (neg) x = -x; if (kind == 4) *(int *)v = (int)x; else if (kind == 8) *(long *)v = x; else vp_unsupported("integer kind"); return; }
  while (i < n && (s[i] == ' ' || s[i] == '\t')) i++;
  if (i >= n) { f_fail(f, -1); return; }
  if (s[i] == '/' || s[i] == ',' || s[i] == ';') { f->pos = i + 1; return; }   // null value
  bool neg = false; if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-'; if (i >= n || !f_dig(s[i])) { f_fail(f, 5010); return; }
  long x = 0; bool big = false; while (i < n && f_dig(s[i])) { x = 10 * x + (s[i++] - '0'); if (x > (kind == 4 ? 2147483648l : 922337203685477580l)) { big = true; x = 0; } }
  if (i < n && s[i] == '*') vp_unsupported("a repeat count in list-directed input"); if (i < n && !f_sep(s[i])) { f_fail(f, 5010); return; }
  if (big || (kind == 4 && x > 2147483647l + (neg ? 1 : 0))) { f_fail(f, 5010); return; }
  if (neg) x = -x; if (kind == 4) *(int *)v = (int)x; else if (kind == 8) *(long *)v = x; else vp_unsupported("integer kind"); f->pos = i; }
void _gfortran_transfer_real(char *, void *, int) { vp_unsupported("reading a real number"); }
void _gfortran_transfer_character(char *, char *, long) { vp_unsupported("reading text"); }
void _gfortran_st_read_done(char *p) { FDt *f = f_of(p); if (f) f_end(f); }
// ---- concurrent loops: any order of the iterations
struct FLoop { void *var; long a, n, k; int mode; };
static FLoop f_loops[8]; static int f_nloops = 0; static int f_anyOrder = 0;
void vp_any_order(int on) { f_anyOrder = on; f_nloops = 0; }
int vp_dc_next_(int *i, int *a, int *b, int *st) {
  FLoop *l = 0; for (int q = 0; q < f_nloops; q++) if (f_loops[q].var == i) l = &f_loops[q];
  if (!l) { l = &f_loops[f_nloops++]; l->var = i; l->a = *a; l->n = (*b - *a + *st) / *st; l->k = 0; l->mode = f_anyOrder; }
  if (l->k >= l->n) { *l = f_loops[--f_nloops]; return 0; }
  long k = l->k++, n = l->n, m = k;
  if (l->mode == 1) m = n - 1 - k;                                      // backwards
  else if (l->mode == 2) { long h = (n + 1) / 2; m = k < h ? 2 * k : 2 * (k - h) + 1; }   // even ones first
  else if (l->mode >= 3) { // permutation number mode - 3 (factorial number system) of the first 5
    long q = n < 5 ? n : 5, r = l->mode - 3, pool[5] = {0, 1, 2, 3, 4}; for (long s = 0; s < q; s++) { long fct = 1; for (long t = 2; t < q - s; t++) fct *= t; long c = r / fct % (q - s); r %= fct; long x = pool[c]; for (long t = c; t + 1 < q; t++) pool[t] = pool[t + 1]; if (s == k) m = x; } if (k >= q) m = k; }
  *i = (int)(l->a + m * *st); return 1; }
}
