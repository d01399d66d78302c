// Multi-dimensional iterator: bijection between positions and index sets.
#include "MultiArrayIter.h"
#include "vp.h"
typedef std::vector<size_t> Vec;
static size_t total(const Vec &d) { size_t n = 1; for (size_t i = 0; i < d.size(); ++i) n *= d[i]; return n; }
// index set number k of the box in the requested ordering, relative to its low corner
static Vec nth(size_t k, const Vec &d, bool rowMajor) {
  size_t n = d.size(); Vec r(n);
  for (size_t q = 0; q < n; ++q) { size_t i = rowMajor ? n - 1 - q : q; r[i] = k % d[i]; k /= d[i]; }
  return r;
}
static void enumerateBox(MultiArrayIter &it, const Vec &lo, const Vec &d, bool rowMajor, const char *label) {
  size_t n = d.size(), nt = total(d);
  vp_assert(it.getNumberOfTerms() == nt, "number of terms is the product of the extents");
  for (size_t k = 0; k < nt; ++k) {
    Vec got = it.getIndices(), want = nth(k, d, rowMajor);
    vp_assert(got.size() == n, "index set has one entry per axis");
    for (size_t i = 0; i < n; ++i) vp_assert(got[i] == lo[i] + want[i], label);
    vp_assert(it.computeBigIndex(got) == k, "flat index of the index set visited is its position");
    it.next();
  }
}
// small boxes: every extent, low corner anywhere
extern "C" void harness() {
  long maxd = vp_param("maxd", 3), maxe = vp_param("maxe", 3);
  size_t n = (size_t)vp_fork("ndims", 1, maxd); bool rm = vp_fork("rowMajor", 0, 1) != 0;
  Vec d(n), lo(n), hi(n);
  for (size_t i = 0; i < n; ++i) d[i] = (size_t)vp_fork_i("extent", (long)i, 0, maxe);
  vp_shard();
  for (size_t i = 0; i < n; ++i) { lo[i] = (size_t)vp_int_i("lo", (long)i, 0, 1L << 62); hi[i] = lo[i] + d[i]; }
  size_t nt = total(d);
  MultiArrayIter it(lo, hi, rm);
  enumerateBox(it, lo, d, rm, "stepping visits the index sets in order");
  const Vec &b = it.getLBegIndices(), &e = it.getEndIndices();
  vp_assert(b.size() == n && e.size() == n, "box corners have one entry per axis");
  for (size_t i = 0; i < n; ++i) { vp_assert(b[i] == lo[i], "low corner is kept"); vp_assert(e[i] == hi[i], "high corner is kept"); }
  it.begin();
  enumerateBox(it, lo, d, rm, "begin restarts the enumeration");
  if (nt) {
    // jump to any position
    size_t p = (size_t)vp_int("position", 0, (long)nt - 1);
    it.move(p);
    Vec got = it.getIndices();
    for (size_t i = 0; i < n; ++i) vp_assert(got[i] >= lo[i] && got[i] < hi[i], "moved position is inside the box");
    vp_assert(it.computeBigIndex(got) == p, "flat index inverts the move");
    it.next();
    if (p + 1 < nt) { Vec g2 = it.getIndices(); vp_assert(it.computeBigIndex(g2) == p + 1, "stepping continues from where the iterator was moved"); }
    // any index set
    Vec q(n); for (size_t i = 0; i < n; ++i) q[i] = lo[i] + (size_t)vp_int_i("inside", (long)i, 0, (long)d[i] - 1);
    size_t bi = it.computeBigIndex(q);
    vp_assert(bi < nt, "flat index is smaller than the number of terms");
    it.move(bi); Vec back = it.getIndices();
    for (size_t i = 0; i < n; ++i) vp_assert(back[i] == q[i], "moving to the flat index gives the index set back");
    // the box re-used for another box of the other ordering
    it.build(hi, hi, !rm); it.build(lo, hi, !rm); it.begin();
    enumerateBox(it, lo, d, !rm, "a rebuilt iterator enumerates its new box");
    vp_cover("non-empty box");
  } else vp_cover("empty box");
}
// signed index sets, as the filter uses them
extern "C" void harness_int() {
  size_t n = (size_t)vp_fork("ndims", 1, vp_param("maxd", 3)); bool rm = vp_fork("rowMajor", 0, 1) != 0;
  Vec d(n), lo(n), hi(n);
  for (size_t i = 0; i < n; ++i) { d[i] = (size_t)vp_fork_i("extent", (long)i, 1, vp_param("maxe", 3)); lo[i] = (size_t)vp_int_i("lo", (long)i, 0, 1L << 30); hi[i] = lo[i] + d[i]; }
  vp_shard();
  MultiArrayIter it(lo, hi, rm);
  std::vector<int> q(n); for (size_t i = 0; i < n; ++i) q[i] = (int)(lo[i] + (size_t)vp_int_i("inside", (long)i, 0, (long)d[i] - 1));
  int bi = it.computeBigIndex(q);
  vp_assert(bi >= 0 && (size_t)bi < total(d), "flat index of a signed index set is a position");
  it.move((size_t)bi); Vec back = it.getIndices();
  for (size_t i = 0; i < n; ++i) vp_assert(back[i] == (size_t)q[i], "moving to the flat index gives the signed index set back");
  vp_cover("signed");
}
// large boxes: positions beyond 32 bits
static const size_t big[][4] = {{4294967299ul, 3, 0, 0}, {3, 4294967299ul, 0, 0}, {65536, 131072, 5, 0}, {2097152, 4194304, 0, 0}, {1024, 4096, 2048, 1024}, {9223372036854775807ul, 0, 0, 0}};
extern "C" void harness_big() {
  long w = vp_fork("box", 0, 5); bool rm = vp_fork("rowMajor", 0, 1) != 0;
  size_t n = 0; while (n < 4 && big[w][n]) n++;
  vp_shard();
  Vec d(n), lo(n), hi(n); for (size_t i = 0; i < n; ++i) { d[i] = big[w][i]; lo[i] = 0; hi[i] = d[i]; }
  MultiArrayIter it(lo, hi, rm);
  vp_assert(it.getNumberOfTerms() == total(d), "number of terms is the product of the extents");
  Vec q(n); for (size_t i = 0; i < n; ++i) q[i] = (size_t)vp_int_i("inside", (long)i, 0, (long)d[i] - 1);
  size_t want = 0, st = 1; for (size_t k = 0; k < n; ++k) { size_t i = rm ? n - 1 - k : k; want += st * q[i]; st *= d[i]; }
  size_t bi = it.computeBigIndex(q);
  vp_assert(bi == want, "flat index follows the requested ordering");
  it.move(bi); Vec back = it.getIndices();
  for (size_t i = 0; i < n; ++i) vp_assert(back[i] == q[i], "moving to the flat index gives the index set back");
  vp_cover("large box");
}
