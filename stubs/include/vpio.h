// Replacement of the C++ stream library for symbolic execution.
// Text is kept byte for byte; every floating point number is kept as a value:
//   0x01 'd' precision flags, then the eight bytes of the double
// and every integer that is not a constant as 0x01 'i' (or 'u') 0 0 plus eight bytes.
#pragma once
#include <iosfwd>
#include <cstddef>
#include <string.h>
extern "C" {
struct vp_buf { char *d; size_t n, cap, rd; };
void vp_buf_put(vp_buf *b, const char *s, size_t n);
void vp_buf_num(vp_buf *b, int kind, double v, long i, int prec, int flags);
vp_buf *vp_file_open(const char *name, int trunc);   // for writing
vp_buf *vp_file_find(const char *name);              // for reading, null if it does not exist
void vp_file_close(const char *name);
vp_buf *vp_console(int fd);
int vp_race_push(int x);
int vp_isconst(long v);
}
namespace std {
typedef long streamsize; typedef long streamoff;
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static constexpr iostate badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class Init { public: Init() {} ~Init() {} };
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl &= ~f; }
  streamsize precision() const { return pr; } streamsize precision(streamsize p) { streamsize o = pr; pr = p; return o; }
  streamsize width() const { return wd; } streamsize width(streamsize w) { streamsize o = wd; wd = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
protected:
  fmtflags fl = dec | skipws; streamsize pr = 6, wd = 0;
};
template <class C, class T> class basic_ios : public ios_base {
public:
  bool good() const { return st == 0; } bool fail() const { return (st & (badbit | failbit)) != 0; } bool bad() const { return (st & badbit) != 0; } bool eof() const { return (st & eofbit) != 0; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear(iostate s = goodbit) { st = s; } void setstate(iostate s) { st |= s; } iostate rdstate() const { return st; }
  C fill() const { return fc; } C fill(C c) { C o = fc; fc = c; return o; }
  void *tie(void * = nullptr) { return nullptr; }
  void copyfmt(const basic_ios &o) { fl = o.fl; pr = o.pr; wd = o.wd; fc = o.fc; }
  vp_buf *vp_b = nullptr; vp_buf own = {nullptr, 0, 0, 0};
protected:
  iostate st = 0; C fc = ' ';
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  basic_ostream() {}
  explicit basic_ostream(vp_buf *b) { this->vp_b = b; }
  virtual ~basic_ostream() {}
  void vp_s(const char *s, size_t n) {
    if (!this->vp_b || this->fail()) { this->setstate(ios_base::badbit); return; }
    int o = vp_race_push(1);
    long w = this->wd; this->wd = 0; long pad = w > (long)n ? w - (long)n : 0; char c = this->fc;
    if (!(this->fl & ios_base::left)) while (pad-- > 0) vp_buf_put(this->vp_b, &c, 1);
    vp_buf_put(this->vp_b, s, n);
    if (this->fl & ios_base::left) while (pad-- > 0) vp_buf_put(this->vp_b, &c, 1);
    vp_race_push(o);
  }
  void vp_n(int k, double v, long i) {
    if (!this->vp_b || this->fail()) { this->setstate(ios_base::badbit); return; }
    if (k != 'd' && vp_isconst(i)) { // constant integers become text
      char t[24]; int p = 24; bool neg = k == 'i' && i < 0; unsigned long u = neg ? 0ul - (unsigned long)i : (unsigned long)i; unsigned long bs = (this->fl & ios_base::hex) ? 16 : 10; do { unsigned long dg = u % bs; t[--p] = (char)(dg < 10 ? '0' + dg : 'a' + dg - 10); u /= bs; } while (u); if (neg) t[--p] = '-'; vp_s(t + p, 24 - p); return; }
    int o = vp_race_push(1); long w = this->wd; this->wd = 0; char c = ' ';
    bool wide = k == 'd' ? w > this->pr + 6 && (this->fl & ios_base::floatfield) != ios_base::fixed : w > 20;
    if (wide && !(this->fl & ios_base::left)) vp_buf_put(this->vp_b, &c, 1);
    vp_buf_num(this->vp_b, k, v, i, (int)this->pr + ((this->fl & ios_base::floatfield) == ios_base::scientific ? 1 : 0), (int)(this->fl & ios_base::floatfield));
    if (wide && (this->fl & ios_base::left)) vp_buf_put(this->vp_b, &c, 1);
    vp_race_push(o);
  }
  basic_ostream &operator<<(bool v) { if (this->fl & ios_base::boolalpha) { if (v) vp_s("true", 4); else vp_s("false", 5); } else vp_n('i', 0, v); return *this; }
  basic_ostream &operator<<(short v) { vp_n('i', 0, v); return *this; } basic_ostream &operator<<(unsigned short v) { vp_n('u', 0, v); return *this; }
  basic_ostream &operator<<(int v) { vp_n('i', 0, v); return *this; } basic_ostream &operator<<(unsigned v) { vp_n('u', 0, v); return *this; }
  basic_ostream &operator<<(long v) { vp_n('i', 0, v); return *this; } basic_ostream &operator<<(unsigned long v) { vp_n('u', 0, (long)v); return *this; }
  basic_ostream &operator<<(long long v) { vp_n('i', 0, v); return *this; } basic_ostream &operator<<(unsigned long long v) { vp_n('u', 0, (long)v); return *this; }
  basic_ostream &operator<<(double v) { vp_n('d', v, 0); return *this; } basic_ostream &operator<<(float v) { vp_n('d', v, 0); return *this; }
  basic_ostream &operator<<(const void *) { vp_s("0x0", 3); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &put(C c) { long w = this->wd; this->wd = 0; vp_s(&c, 1); this->wd = w; return *this; }
  basic_ostream &write(const C *s, streamsize n) { long w = this->wd; this->wd = 0; vp_s(s, n); this->wd = w; return *this; }
  basic_ostream &flush() { return *this; }
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o.vp_s(&c, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = (char)c; o.vp_s(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = (char)c; o.vp_s(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { o.vp_s(s, strlen(s)); return o; }
template <class C, class T, class X> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &&o, const X &x) { o << x; return o; }
template <class C, class T> basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { o.vp_s(s, n); return o; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; } inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; } inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &unitbuf(ios_base &b) { return b; } inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
// input: enough for reading words and lines of constant text
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  basic_istream() {} virtual ~basic_istream() {}
  int get() { vp_buf *b = this->vp_b; if (!b || b->rd >= b->n) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } return (unsigned char)b->d[b->rd++]; }
  int peek() { vp_buf *b = this->vp_b; if (!b || b->rd >= b->n) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)b->d[b->rd]; }
  basic_istream &get(C &c) { int x = get(); if (x >= 0) c = (C)x; return *this; }
  bool vp_word(char *w, int cap, double *num, int *kind) { // kind 0: text, else a stored number
    vp_buf *b = this->vp_b; *kind = 0; if (!b || this->fail()) { this->setstate(ios_base::failbit); return false; }
    while (b->rd < b->n && (b->d[b->rd] == ' ' || (b->d[b->rd] >= 9 && b->d[b->rd] <= 13))) b->rd++;
    if (b->rd >= b->n) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    if (b->d[b->rd] == 1) { *kind = b->d[b->rd + 1]; memcpy(num, b->d + b->rd + 4, 8); b->rd += 12; return true; }
    int k = 0; while (b->rd < b->n && b->d[b->rd] != 1 && !(b->d[b->rd] == ' ' || (b->d[b->rd] >= 9 && b->d[b->rd] <= 13))) { if (k < cap - 1) w[k++] = b->d[b->rd]; b->rd++; } w[k] = 0; if (b->rd >= b->n) this->setstate(ios_base::eofbit); return true; }
  template <class X> basic_istream &vp_int(X &v) { char w[64]; double n; int k; if (vp_word(w, 64, &n, &k)) { if (k == 'd') v = (X)n; else if (k) { long l; memcpy(&l, &n, 8); v = (X)l; } else { int i = 0; bool neg = false; if (w[0] == '-' || w[0] == '+') { neg = w[0] == '-'; i = 1; } if (w[i] < '0' || w[i] > '9') { this->setstate(ios_base::failbit); v = 0; return *this; } long l = 0; while (w[i] >= '0' && w[i] <= '9') l = l * 10 + (w[i++] - '0'); v = (X)(neg ? -l : l); } } return *this; }
  basic_istream &operator>>(int &v) { return vp_int(v); } basic_istream &operator>>(unsigned &v) { return vp_int(v); } basic_istream &operator>>(long &v) { return vp_int(v); } basic_istream &operator>>(unsigned long &v) { return vp_int(v); } basic_istream &operator>>(bool &v) { int x = 0; vp_int(x); v = x != 0; return *this; } basic_istream &operator>>(short &v) { return vp_int(v); }
  basic_istream &operator>>(double &v); basic_istream &operator>>(float &v) { double d = 0; *this >> d; v = (float)d; return *this; }
  basic_istream &operator>>(char &c) { char w; vp_buf *b = this->vp_b; while (b && b->rd < b->n && (b->d[b->rd] == ' ' || (b->d[b->rd] >= 9 && b->d[b->rd] <= 13))) b->rd++; int x = get(); w = (char)x; if (x >= 0) c = w; return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: virtual ~basic_iostream() {} };
extern "C" double atof(const char *) noexcept;
template <class C, class T> basic_istream<C, T> &basic_istream<C, T>::operator>>(double &v) { char w[64]; double n; int k; if (vp_word(w, 64, &n, &k)) { if (k == 'd') v = n; else if (k) { long l; memcpy(&l, &n, 8); v = (double)l; } else v = atof(w); } return *this; }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { return i; }
struct vp_setw { int n; }; struct vp_setp { int n; }; struct vp_setf { char c; };
inline vp_setw setw(int n) { return {n}; } inline vp_setp setprecision(int n) { return {n}; } inline vp_setf setfill(char c) { return {c}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vp_setw m) { o.width(m.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vp_setp m) { o.precision(m.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vp_setf m) { o.fill(m.c); return o; }
}
