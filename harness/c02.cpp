// Domain decomposition: existence, exact tiling, optimality, neighbours.
#include "CubeDecomp.h"
#include "vp.h"
typedef std::vector<size_t> Vec;
// dims: either every small grid, or one of a list of large ones
static const size_t big[][3] = {{65537, 65537, 0}, {65536, 65537, 0}, {46341, 46343, 3}, {36, 48, 0}};
static Vec grid() {
  Vec d; long w = vp_param("big", -1);
  if (w >= 0) { w = vp_fork("grid", 0, w); for (int i = 0; i < 3 && big[w][i]; ++i) d.push_back(big[w][i]); return d; }
  size_t n = (size_t)vp_fork("ndims", vp_param("mind", 1), vp_param("maxd", 3)); d.resize(n);
  for (size_t i = 0; i < n; ++i) d[i] = (size_t)vp_fork_i("dims", (long)i, 1, vp_param("maxe", 6));
  vp_shard(); return d;
}
static size_t prod(const Vec &v) { size_t p = 1; for (size_t i = 0; i < v.size(); ++i) p *= v[i]; return p; }
// any process count; for the large grids any in one of four windows: the smallest ones, around 2^16 and 2^17 (where products
// of large factors reappear when they wrap), and the largest ones
static int procs(long most = 2147483647L) {
  if (vp_param("big", -1) < 0) return (int)vp_int("nprocs", 1, most);
  long w = vp_fork("window", 0, 3), lo = w == 0 ? 1 : w == 1 ? 65536 - 512 : w == 2 ? 131072 - 512 : 2147483647L - 1023; vp_shard();
  return (int)vp_int("nprocs", lo, lo + 1023); }
// all ways to write a divisor of each extent
static std::vector<Vec> factorisations(const Vec &d) {
  std::vector<Vec> all(1);
  for (size_t i = 0; i < d.size(); ++i) {
    Vec dv; for (size_t k = 1; k * k <= d[i]; ++k) if (d[i] % k == 0) { dv.push_back(k); if (k * k != d[i]) dv.push_back(d[i] / k); }
    std::vector<Vec> nx; for (size_t q = 0; q < all.size(); ++q) for (size_t k = 0; k < dv.size(); ++k) { Vec v = all[q]; v.push_back(dv[k]); nx.push_back(v); }
    all = nx;
  }
  return all;
}
extern "C" void tiling() {
  Vec d = grid(); int np = procs(); size_t n = d.size();
  CubeDecomp dc; bool ok = dc.build(np, d);
  if (!ok) {
    std::vector<Vec> f = factorisations(d);
    for (size_t q = 0; q < f.size(); ++q) vp_assert(prod(f[q]) != (size_t)np, "no decomposition is reported only when there is none");
    vp_assert(dc.getDecomp().size() == 0, "without a decomposition the factors are empty");
    vp_cover("no decomposition"); return;
  }
  Vec dec = dc.getDecomp();
  vp_assert(dec.size() == n, "one factor per axis");
  for (size_t i = 0; i < n; ++i) { vp_assert(dec[i] >= 1, "factors are positive"); vp_assert(d[i] % dec[i] == 0, "factors divide the extents"); }
  vp_assert(prod(dec) == (size_t)np, "factors multiply to the process count");
  vp_cover("decomposition");
  if (vp_param("ranks", 1) == 0) return;
  int r = (int)vp_int("rank", 0, 2147483646L), s = (int)vp_int("other", 0, 2147483646L); vp_assume(r < np); vp_assume(s < np);
  Vec rb = dc.getBegIndices(r), sb = dc.getBegIndices(s), re = dc.getEndIndices(r), se = dc.getEndIndices(s); // questions about the ranks alternate
  vp_assert(rb.size() == n && re.size() == n, "index sets have one entry per axis");
  bool apart = false;
  for (size_t i = 0; i < n; ++i) {
    vp_assert(re[i] - rb[i] == d[i] / dec[i], "all boxes have the same extents");
    vp_assert(re[i] > rb[i] && re[i] <= d[i], "boxes lie inside the grid");
    apart |= (re[i] <= sb[i]) | (se[i] <= rb[i]);
  }
  if (r != s) { vp_assert(apart, "boxes of different ranks are disjoint"); vp_cover("two ranks"); }
  // disjoint equal boxes inside the grid whose number times volume is the grid: every cell exactly once
  size_t vol = 1; for (size_t i = 0; i < n; ++i) vol *= d[i] / dec[i];
  vp_assert(vol * (size_t)np == prod(d), "the boxes have as many cells as the grid");
}
extern "C" void optimal() {
  Vec d = grid(); int np = procs((long)prod(d)); size_t n = d.size();
  CubeDecomp dc; if (!dc.build(np, d)) { vp_cover("no decomposition"); return; }
  Vec dec = dc.getDecomp(); vp_assert(dec.size() == n, "one factor per axis");
  std::vector<Vec> f = factorisations(d);
  // all candidates have the same volume, so the ratio is smallest where the surface is
  size_t mine = 0; for (size_t i = 0; i < n; ++i) { size_t a = 1; for (size_t j = 0; j < n; ++j) if (j != i) a *= d[j] / dec[j]; mine += a; }
  bool several = false;
  for (size_t q = 0; q < f.size(); ++q) if (prod(f[q]) == (size_t)np) {
    size_t other = 0; for (size_t i = 0; i < n; ++i) { size_t a = 1; for (size_t j = 0; j < n; ++j) if (j != i) a *= d[j] / f[q][j]; other += a; }
    vp_assert(mine <= other, "no decomposition has a smaller surface to volume ratio"); if (other != mine) several = true;
  }
  if (several) vp_cover("several decompositions"); else vp_cover("one kind of decomposition");
}
extern "C" void neighbours() {
  Vec d = grid(); int np = procs((long)prod(d)); size_t n = d.size();
  CubeDecomp dc; if (!dc.build(np, d)) return;
  Vec dec = dc.getDecomp(); bool trivial = true; for (size_t i = 0; i < n; ++i) if (dec[i] > 1) trivial = false;
  int r = (int)vp_int("rank", 0, 2147483646L); vp_assume(r < np);
  long far = vp_param("far", 2147483647L); std::vector<int> dir(n), opp(n);
  for (size_t i = 0; i < n; ++i) { dir[i] = (int)vp_int_i("dir", (long)i, -far, far); opp[i] = -dir[i]; }
  if (vp_param("history", 0)) { // an earlier question about any other rank
    int s = (int)vp_int("other", 0, 2147483646L); vp_assume(s < np); long k = vp_fork("question", 0, 2);
    if (k == 0) dc.getBegIndices(s); else if (k == 1) dc.getEndIndices(s); else { std::vector<int> one(n, 1); dc.getNeighborRank(s, one); } vp_cover("asked before"); }
  int q = dc.getNeighborRank(r, dir); Vec rb = dc.getBegIndices(r);
  vp_assert(q >= 0 && q < np, "the neighbour is a valid rank");
  Vec qb = dc.getBegIndices(q);
  for (size_t i = 0; i < n; ++i) {
    long m = (long)dec[i], l = (long)(d[i] / dec[i]); long k = (long)(rb[i] / (size_t)l) + dir[i]; k %= m; if (k < 0) k += m;
    vp_assert((long)qb[i] == k * l, "the neighbour's sub-domain lies at the displacement asked for");
  }
  if (vp_param("back", 0)) {
    int b = dc.getNeighborRank(q, opp);
    vp_assert(b == r, "the opposite direction leads back");
    vp_cover("there and back");
  }
  if (trivial) vp_cover("one process"); else vp_cover("several processes");
}
