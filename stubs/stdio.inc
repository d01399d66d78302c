// C stdio: files and formatted output. Numbers that are not known stay numbers (see vp_buf_num).
#include <stdarg.h>
extern "C" {
struct _IO_FILE; typedef struct _IO_FILE VFILE;
struct SFile { int fd; char name[64]; };
static SFile s_in = {3, {0}}, s_out = {1, {0}}, s_err = {2, {0}};
VFILE *vp_stdin __asm__("stdin") = (VFILE *)&s_in; VFILE *vp_stdout __asm__("stdout") = (VFILE *)&s_out; VFILE *vp_stderr __asm__("stderr") = (VFILE *)&s_err;
static vp_buf *s_buf(VFILE *f) { SFile *q = (SFile *)f; if (!f) vp_fail("a null FILE is used"); if (q->fd == 3) vp_unsupported("stdin"); return q->fd ? vp_console(q->fd) : vp_file_find(q->name); }
VFILE *vp_fopen(const char *n, const char *m) __asm__("fopen"); VFILE *vp_fopen(const char *n, const char *m) {
  if (m[0] == 'r') vp_unsupported("reading a file"); SFile *f = (SFile *)::operator new(sizeof(SFile)); f->fd = 0; size_t k = strlen(n); if (k > 63) k = 63; memcpy(f->name, n, k); f->name[k] = 0; vp_file_open(f->name, m[0] == 'w'); return (VFILE *)f; }
int vp_fclose(VFILE *f) __asm__("fclose"); int vp_fclose(VFILE *f) { SFile *q = (SFile *)f; if (!q->fd) { vp_file_close(q->name); ::operator delete(q); } return 0; }
int vp_fflush(VFILE *) __asm__("fflush"); int vp_fflush(VFILE *) { return 0; }
static void s_put(vp_buf *b, const char *s, size_t n) { int o = vp_race_push(1); vp_buf_put(b, s, n); vp_race_push(o); }
size_t vp_fwrite(const void *p, size_t s, size_t n, VFILE *f) __asm__("fwrite"); size_t vp_fwrite(const void *p, size_t s, size_t n, VFILE *f) { s_put(s_buf(f), (const char *)p, s * n); return n; }
int vp_fputs(const char *s, VFILE *f) __asm__("fputs"); int vp_fputs(const char *s, VFILE *f) { s_put(s_buf(f), s, strlen(s)); return 1; }
int vp_fputc(int c, VFILE *f) __asm__("fputc"); int vp_fputc(int c, VFILE *f) { char k = (char)c; s_put(s_buf(f), &k, 1); return c; }
int vp_putc(int c, VFILE *f) __asm__("putc"); int vp_putc(int c, VFILE *f) { return vp_fputc(c, f); }
static void s_pad(vp_buf *b, long n, char c = ' ') { while (n-- > 0) vp_buf_put(b, &c, 1); }
static int s_fmt(vp_buf *b, const char *f, va_list *ap) {
  size_t start = b->n; int o = vp_race_push(1);
  while (*f) {
    if (*f != '%') { const char *e = f; while (*e && *e != '%') e++; vp_buf_put(b, f, (size_t)(e - f)); f = e; continue; }
    f++; if (*f == '%') { vp_buf_put(b, "%", 1); f++; continue; }
    bool left = false, zero = false, plus = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f != ' ' && *f != '#') break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(*ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (isdigit(*f)) w = 10 * w + (*f++ - '0');
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(*ap, int); f++; } else while (isdigit(*f)) pr = 10 * pr + (*f++ - '0'); }
    int l = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') l = 1; else if (*f == 'h') l = -1; else if (*f == 'L') vp_unsupported("long double"); else break; }
    char c = *f++; 
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x') {
      bool sg = c == 'd' || c == 'i'; long x = l > 0 ? va_arg(*ap, long) : sg ? (long)va_arg(*ap, int) : (long)va_arg(*ap, unsigned);
      if (vp_isconst(x)) { char t[24]; int k = 24; bool neg = sg && x < 0; unsigned long u = neg ? 0ul - (unsigned long)x : (unsigned long)x, bs = c == 'x' ? 16 : 10; do { unsigned long d = u % bs; t[--k] = (char)(d < 10 ? '0' + d : 'a' + d - 10); u /= bs; } while (u); if (zero && !left) while (24 - k < w - (neg || plus) && k > 1) t[--k] = '0'; if (neg) t[--k] = '-'; else if (plus && sg) t[--k] = '+';
        if (!left) s_pad(b, w - (24 - k)); vp_buf_put(b, t + k, (size_t)(24 - k)); if (left) s_pad(b, w - (24 - k)); }
      else { if (w > 20 && !left) s_pad(b, 1); vp_buf_num(b, sg ? 'i' : 'u', 0, x, 20, 0); if (w > 20 && left) s_pad(b, 1); } }
    else if (c == 's') { const char *s = va_arg(*ap, const char *); size_t n = 0; while ((pr < 0 || n < (size_t)pr) && s[n]) n++; if (!left) s_pad(b, w - (long)n); vp_buf_put(b, s, n); if (left) s_pad(b, w - (long)n); }
    else if (c == 'c') { char k = (char)va_arg(*ap, int); if (!left) s_pad(b, w - 1); vp_buf_put(b, &k, 1); if (left) s_pad(b, w - 1); }
    else if (c == 'g' || c == 'e' || c == 'f' || c == 'G' || c == 'E' || c == 'F') { double v = va_arg(*ap, double); bool e = c == 'e' || c == 'E', fx = c == 'f' || c == 'F'; int p = pr < 0 ? 6 : pr; if (e) p++; else if (!fx && p == 0) p = 1;
      bool wide = !fx && w > p + 6; if (wide && !left) s_pad(b, 1); vp_buf_num(b, 'd', v, 0, p, fx ? 4 : 0); if (wide && left) s_pad(b, 1); }
    else vp_unsupported("a conversion of printf"); }
  vp_race_push(o); return (int)(b->n - start); }
int vp_vfprintf(VFILE *f, const char *m, va_list ap) __asm__("vfprintf"); int vp_vfprintf(VFILE *f, const char *m, va_list ap) { va_list c; va_copy(c, ap); int r = s_fmt(s_buf(f), m, &c); va_end(c); return r; }
int vp_fprintf(VFILE *f, const char *m, ...) __asm__("fprintf"); int vp_fprintf(VFILE *f, const char *m, ...) { va_list ap; va_start(ap, m); int r = s_fmt(s_buf(f), m, &ap); va_end(ap); return r; }
int vp_printf(const char *m, ...) __asm__("printf"); int vp_printf(const char *m, ...) { va_list ap; va_start(ap, m); int r = s_fmt(vp_console(1), m, &ap); va_end(ap); return r; }
static int s_text(char *d, size_t n, const char *m, va_list *ap) { vp_buf b = {0, 0, 0, 0}; s_fmt(&b, m, ap); for (size_t i = 0; i < b.n; i++) if (b.d[i] == 1) vp_unsupported("a number that is not known, printed to memory"); for (size_t i = 0; i < b.n && i + 1 < n; i++) d[i] = b.d[i]; if (n) d[b.n < n - 1 ? b.n : n - 1] = 0; int r = (int)b.n; if (b.d) ::operator delete(b.d); return r; }
int vp_snprintf(char *d, size_t n, const char *m, ...) __asm__("snprintf"); int vp_snprintf(char *d, size_t n, const char *m, ...) { va_list ap; va_start(ap, m); int r = s_text(d, n, m, &ap); va_end(ap); return r; }
int vp_sprintf(char *d, const char *m, ...) __asm__("sprintf"); int vp_sprintf(char *d, const char *m, ...) { va_list ap; va_start(ap, m); int r = s_text(d, (size_t)1 << 40, m, &ap); va_end(ap); return r; }
int vp_vsnprintf(char *d, size_t n, const char *m, va_list ap) __asm__("vsnprintf"); int vp_vsnprintf(char *d, size_t n, const char *m, va_list ap) { va_list c; va_copy(c, ap); int r = s_text(d, n, m, &c); va_end(c); return r; }
}
