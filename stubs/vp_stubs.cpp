// Library code the symbolic executor needs as IR: streams, red-black trees, a few C functions.
#include <iostream>
#include <fstream>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <list>
#include "../harness/vp.h"
#define SHARED __attribute__((section("vpshared")))
extern "C" {
long strtol(const char *, char **, int) noexcept;
// ---- buffers and files
static void grow(vp_buf *b, size_t n) { if (b->n + n > b->cap) { size_t c = b->cap ? b->cap * 2 : 64; while (c < b->n + n) c *= 2; char *q = (char *)::operator new(c); if (b->n) memcpy(q, b->d, b->n); if (b->d) ::operator delete(b->d); b->d = q; b->cap = c; } }
void vp_buf_put(vp_buf *b, const char *s, size_t n) { if (!n) return; grow(b, n); memcpy(b->d + b->n, s, n); b->n += n; }
void vp_buf_num(vp_buf *b, int kind, double v, long i, int prec, int flags) { grow(b, 12); char *p = b->d + b->n; p[0] = 1; p[1] = (char)kind; p[2] = (char)(prec > 100 ? 100 : prec); p[3] = (char)(flags >> 2); if (kind == 'd') memcpy(p + 4, &v, 8); else memcpy(p + 4, &i, 8); b->n += 12; }
struct vp_file { int rank, used, open, fd; char name[120]; vp_buf b; };
SHARED vp_file vp_files[96] = {};
static vp_file *slot(int fd, const char *name) {
  int r = vp_rank();
  for (int i = 0; i < 96; i++) { vp_file *f = &vp_files[i]; if (f->used && f->rank == r && f->fd == fd && (fd || strcmp(f->name, name) == 0)) return f; }
  return 0;
}
static vp_file *mk(int fd, const char *name) {
  vp_file *f = slot(fd, name); if (f) return f;
  for (int i = 0; i < 96; i++) { f = &vp_files[i]; if (!f->used) { f->used = 1; f->rank = vp_rank(); f->fd = fd; size_t n = strlen(name); if (n > 119) n = 119; memcpy(f->name, name, n); f->name[n] = 0; return f; } }
  return 0;
}
vp_buf *vp_file_open(const char *name, int trunc) { vp_file *f = mk(0, name); if (trunc) { f->b.n = 0; f->b.rd = 0; } f->open = 1; return &f->b; }
vp_buf *vp_file_find(const char *name) { vp_file *f = slot(0, name); if (!f) return 0; f->b.rd = 0; return &f->b; }
void vp_file_close(const char *name) { vp_file *f = slot(0, name); if (f) f->open = 0; }
vp_buf *vp_console(int fd) { return &mk(fd, fd == 1 ? "stdout" : "stderr")->b; }
int vp_exists(const char *name) { return slot(0, name) != 0; }
int vp_files_written(void) { int n = 0; int r = vp_rank(); for (int i = 0; i < 96; i++) if (vp_files[i].used && vp_files[i].fd == 0 && vp_files[i].rank == r) n++; return n; }
// ---- reading back
struct vp_doc { const char *p, *e, *b; int line, nextLine; char w[96]; double num; };
vp_doc *vp_open_buf(vp_buf *b) { vp_doc *d = (vp_doc *)::operator new(sizeof(vp_doc)); d->b = d->p = b->d; d->e = b->d + b->n; d->line = d->nextLine = 1; d->num = 0; d->w[0] = 0; return d; }
vp_doc *vp_open_file(const char *name) { vp_file *f = slot(0, name); return f ? vp_open_buf(&f->b) : 0; }
vp_doc *vp_open_console(int fd) { return vp_open_buf(vp_console(fd)); }
void vp_rewind(vp_doc *d) { d->p = d->b; d->line = d->nextLine = 1; }
static int blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int vp_next(vp_doc *d) {
  const char *p = d->p, *e = d->e;
  while (p < e && blank(*p)) { if (*p == '\n') d->nextLine++; p++; }
  d->line = d->nextLine; if (p >= e) { d->p = p; return 0; }
  const char *s = p; int k = 0, toks = 0, chars = 0; char kind = 0; const char *tp = 0;
  while (p < e && !blank(*p)) {
    if (*p == 1) { toks++; kind = p[1]; tp = p; if (k < 94) d->w[k++] = '#'; p += 12; }
    else { chars++; if (k < 94) d->w[k++] = *p; p++; } }
  d->w[k] = 0; d->p = p; (void)s;
  if (toks == 1 && chars == 0) {
    if (kind == 'd') { double v; memcpy(&v, tp + 4, 8); d->num = v; if (tp[2] < 6) vp_fail("numbers are written with at least six digits"); if (tp[3] == 1 && tp[2] <= 7) { double u = v < 0 ? -v : v, t = tp[2] == 6 ? 1e-6 : 1e-7; if (u > 0.2 * t && u < 0.4 * t) d->num = 0; } return 2; }
    long i; memcpy(&i, tp + 4, 8); d->num = kind == 'u' ? (double)(unsigned long)i : (double)i; return 2; }
  if (toks == 0) { // literal number?
    int i = 0, dig = 0; if (d->w[i] == '-' || d->w[i] == '+') i++;
    while (d->w[i] >= '0' && d->w[i] <= '9') { i++; dig++; } if (d->w[i] == '.') { i++; while (d->w[i] >= '0' && d->w[i] <= '9') { i++; dig++; } }
    if (dig && (d->w[i] == 'e' || d->w[i] == 'E')) { i++; if (d->w[i] == '-' || d->w[i] == '+') i++; while (d->w[i] >= '0' && d->w[i] <= '9') i++; }
    if (dig && d->w[i] == 0 && k < 94) { d->num = atof(d->w); return 2; } }
  return 1;
}
int vp_peek_char(vp_doc *d) { const char *p = d->p; while (p < d->e && blank(*p)) { if (*p == '\n') return 1; p++; } return p < d->e ? 2 : 0; }
const char *vp_text(vp_doc *d) { return d->w; }
double vp_num(vp_doc *d) { return d->num; }
int vp_line(vp_doc *d) { return d->line; }
// ---- C library
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void *x, const void *y, size_t n) noexcept { const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int bcmp(const void *x, const void *y, size_t n) noexcept { return memcmp(x, y, n); }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }
static const char *vstrchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
char *vp_strchr(const char *s, int c) __asm__("strchr"); char *vp_strchr(const char *s, int c) { return (char *)vstrchr(s, c); }
void *vp_memchr(const void *p, int c, size_t n) __asm__("memchr"); void *vp_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
static long dec(const char *s, char **end) {
  const char *p = s; while (isspace(*p)) p++; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  const char *q = p; unsigned long v = 0; bool big = false; unsigned long lim = neg ? 9223372036854775808ul : 9223372036854775807ul;
  int k = 0; while (isdigit(*p)) { k++; unsigned long d = (unsigned long)(*p - '0'); if (k > 18 && v > (lim - d) / 10) big = true; v = v * 10 + d; p++; }
  if (end) *end = (char *)(p == q ? s : p); if (big) v = lim; return neg ? (long)(0ul - v) : (long)v; }
long strtol(const char *s, char **end, int) noexcept { return dec(s, end); }
long vp_strtol_old(const char *s, char **end, int) __asm__("strtol"); long vp_strtol_old(const char *s, char **end, int) { return dec(s, end); }
long long strtoll(const char *s, char **end, int) noexcept { return dec(s, end); }
unsigned long strtoul(const char *s, char **end, int) noexcept { return (unsigned long)dec(s, end); }
int atoi(const char *s) noexcept { return (int)dec(s, 0); }
long atol(const char *s) noexcept { return dec(s, 0); }
double strtod(const char *s, char **end) noexcept { const char *p = s; while (*p && (isdigit(*p) || *p == '.' || *p == '-' || *p == '+' || *p == 'e' || *p == 'E')) p++; if (end) *end = (char *)p; return atof(s); }
double omp_get_wtime(void) { return 0; }
int vp_puts(const char *s) __asm__("puts"); int vp_puts(const char *s) { vp_buf *b = vp_console(1); vp_buf_put(b, s, strlen(s)); vp_buf_put(b, "\n", 1); return 0; }
int vp_putchar(int c) __asm__("putchar"); int vp_putchar(int c) { char k = (char)c; vp_buf_put(vp_console(1), &k, 1); return c; }
int *__errno_location(void) noexcept { static int e; return &e; }
}
// ---- streams
namespace std {
__attribute__((init_priority(101))) ostream cout(vp_console(1)), cerr(vp_console(2)), clog(vp_console(2));
struct vp_in : public basic_istream<char> { };
__attribute__((init_priority(101))) istream cin;
// ---- red-black trees
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) { _Rb_tree_node_base *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) { _Rb_tree_node_base *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { _Rb_tree_node_base *const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { _Rb_tree_node_base *const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right, *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base *q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base *q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) { _Rb_tree_node_base *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; } if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
      else { _Rb_tree_node_base *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; } if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y; }
// ---- lists and hash tables
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033}; for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t w = ne + ni; if (w < 11 && _M_next_resize == 0) w = 11; if (w >= nb) return {true, _M_next_bkt(w + 1 > nb * 2 ? w + 1 : nb * 2)}; _M_next_resize = nb; return {false, 0}; } return {false, 0}; }
}
template class basic_string<char>;
template class vector<size_t>;
}
// string input and output (declared "extern template" by the library headers)
std::ostream &vp_out_string(std::ostream &o, const std::string &s) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::ostream &vp_out_string(std::ostream &o, const std::string &s) { o.vp_s(s.data(), s.size()); return o; }
std::istream &vp_in_string(std::istream &i, std::string &s) __asm__("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream &vp_in_string(std::istream &i, std::string &s) { char w[256]; double n; int k; s.clear(); if (i.vp_word(w, 256, &n, &k)) { if (k) vp_fail("a stored number is read back as text"); s = w; } return i; }
std::istream &vp_getline(std::istream &i, std::string &s, char e) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream &vp_getline(std::istream &i, std::string &s, char e) { s.clear(); int c, n = 0; while ((c = i.get()) >= 0 && (char)c != e) { s += (char)c; n++; } if (c < 0 && n) i.clear(std::ios_base::eofbit); return i; }
std::istream &vp_getline1(std::istream &i, std::string &s) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream &vp_getline1(std::istream &i, std::string &s) { return vp_getline(i, s, '\n'); }
extern "C" void vp_unsupported(const char *);
#include "stdio.inc"
#include "gfortran.inc"
// unordered containers: a hash that looks at the length only is a valid hash
namespace std { size_t _Hash_bytes(const void *, size_t n, size_t) { return n; } size_t _Fnv_hash_bytes(const void *, size_t n, size_t) { return n; } }
