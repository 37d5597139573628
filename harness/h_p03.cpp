#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vh;
static long long grids = 0, axes = 0, dofs = 0;
// 0: boundary point; oracle from the definition only
static int levelOf(int nodal, int lmax) { for (int l = 0; l <= lmax; ++l) if (nodal % (1 << (lmax - l)) == 0) return l; return -1; }
static std::vector<IndexVector> randdec(const std::vector<int>& n, const std::vector<int>& p) {
  std::vector<IndexVector> dec(n.size());
  for (size_t k = 0; k < n.size(); ++k) { std::set<int> cuts{0}; while ((int)cuts.size() < p[k]) cuts.insert(ri(1, n[k] - 1)); dec[k] = IndexVector(cuts.begin(), cuts.end()); }
  return dec;
}
static void grid(const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& p, const std::vector<IndexVector>& dec) {
  int dim = (int)l.size(), P = fc::prod(p);
  std::vector<int> n(dim); for (int d = 0; d < dim; ++d) n[d] = (1 << l[d]) - 1 + b[d];
  long long all = 1; for (int x : n) all *= x;
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(p));
  std::vector<int> seen(all, 0);
  for (int r = 0; r < P; ++r) {
    ++grids;
    OwningDistributedFullGrid<double> g((DimType)dim, l, fc::make(p, r), b, p, true, dec);
    for (int d = 0; d < dim; ++d) {
      ++axes;
      int off = b[d] ? 0 : 1, lim = b[d] == 1 ? n[d] + 1 : n[d];
      for (int i = 0; i < n[d]; ++i) {
        int e = levelOf(i + off, l[d]), h = 1 << (l[d] - e);
        CHECK(g.getLevel((DimType)d, i) == e, id, " dim ", d, " index ", i, " got ", (int)g.getLevel((DimType)d, i));
        int lp = g.getLeftPredecessor((DimType)d, i), rp = g.getRightPredecessor((DimType)d, i);
        if (e == 0) CHECK(lp < 0 && rp < 0, id, " dim ", d, " index ", i, " ", lp, " ", rp);
        else { CHECK(i - h >= 0 ? lp == i - h : lp < 0, id, " dim ", d, " index ", i, " left ", lp); CHECK(i + h < lim ? rp == i + h : rp < 0, id, " dim ", d, " index ", i, " right ", rp); }
      }
      int lo = g.getLowerBounds()[d], up = g.getUpperBounds()[d];
      IndexVector one{5, 6, 7};
      for (int s = 1; s <= l[d] + 2; ++s) {
        IndexVector ex; for (int i = lo; i < up; ++i) { int e = levelOf(i + off, l[d]); if (e == 0) e = 1; if (e == s) ex.push_back(i - lo); }
        g.get1dIndicesLocal((DimType)d, s, one);
        CHECK(same(one, ex), id, " dim ", d, " level ", s, " rank ", r, " got ", vs(one), " expected ", vs(ex));
        if (s <= l[d]) CHECK(g.getNumPointsOnThisPartition(s, (DimType)d) == (int)ex.size(), id, " dim ", d, " level ", s, " rank ", r);
      }
    }
    // all subspaces of the grid (and some finer ones)
    LevelVector s(dim, 1);
    while (true) {
      auto pts = g.getFGPointsOfSubspace(s);
      bool above = false; for (int d = 0; d < dim; ++d) above = above || s[d] > l[d];
      if (above) CHECK(pts.empty(), id, " subspace ", vs(s));
      IndexType prev = -1;
      for (auto q : pts) {
        CHECK(q > prev, id, " subspace ", vs(s), " not in index order"); prev = q;
        if (q < 0 || q >= g.getNrLocalElements()) { CHECK(false, id, " subspace ", vs(s), " index ", q); continue; }
        auto gi = g.getGlobalLinearIndex(q);
        ++seen[gi];
        IndexVector v(dim); g.getGlobalVectorIndex(gi, v);
        for (int d = 0; d < dim; ++d) { int e = levelOf(v[d] + (b[d] ? 0 : 1), l[d]); if (e == 0) e = 1; CHECK(e == s[d], id, " subspace ", vs(s), " contains point ", vs(v)); }
      }
      int d = 0; while (d < dim && ++s[d] > l[d] + 1) s[d++] = 1;
      if (d == dim) break;
    }
  }
  for (long long k = 0; k < all; ++k) CHECK(seen[k] == 1, id, " point ", k, " in ", seen[k], " subspaces");
}
// large levels, no storage; oracle: arithmetic progression of the level's points clipped to the local range
static void big(int l, int b, int p, int r) {
  std::vector<int> pr{p}; std::string id = cat("level ", l, " boundary ", b, " procs ", p, " rank ", r);
  DistributedFullGrid<double> g(1, LevelVector{l}, fc::make(pr, r), std::vector<BoundaryType>{(BoundaryType)b}, nullptr, pr);
  ++grids; long long n = (1LL << l) - 1 + b, lo = g.getLowerBounds()[0], up = g.getUpperBounds()[0], off = b ? 0 : 1, lim = b == 1 ? n + 1 : n;
  for (int k = 0; k < 40; ++k) {
    long long i = k < 4 ? k : k < 8 ? n - 1 - (k - 4) : (long long)(rnd() % (uint64_t)n); if (k >= 20) { int s = ri(0, l); i = (((long long)(rnd() % (uint64_t)(n + off))) >> s << s) - off; } if (i < 0 || i >= n) continue;
    int e = levelOf((int)(i + off), l); long long h = 1LL << (l - e);
    CHECK(g.getLevel(0, (IndexType)i) == e, id, " index ", i);
    long long lp = g.getLeftPredecessor(0, (IndexType)i), rp = g.getRightPredecessor(0, (IndexType)i);
    if (e == 0) CHECK(lp < 0 && rp < 0, id, " index ", i);
    else { CHECK(i - h >= 0 ? lp == i - h : lp < 0, id, " index ", i, " left ", lp); CHECK(i + h < lim ? rp == i + h : rp < 0, id, " index ", i, " right ", rp); }
  }
  IndexVector one;
  for (int s = 1; s <= l; ++s) {
    long long st = s == 1 && b ? 1LL << (l - 1) : 1LL << (l - s + 1), first = (s == 1 && b ? 0 : (1LL << (l - s))) - off;
    long long k0 = first >= lo ? 0 : (lo - first + st - 1) / st, x0 = first + k0 * st, cnt = x0 >= up ? 0 : (up - 1 - x0) / st + 1;
    CHECK(g.getNumPointsOnThisPartition(s, 0) == cnt, id, " subspace ", s, " got ", g.getNumPointsOnThisPartition(s, 0), " expected ", cnt);
    if (s > 12) continue;
    g.get1dIndicesLocal(0, s, one);
    CHECK((long long)one.size() == cnt, id, " subspace ", s, " enumerated ", one.size(), " expected ", cnt);
    for (size_t q = 0; q < one.size(); ++q) if (one[q] != x0 - lo + (long long)q * st) { CHECK(false, id, " subspace ", s, " entry ", q, " is ", one[q]); break; }
  }
}
int main() {
  bool th = thorough();
  for (int b = 0; b < 3; ++b) for (int l = 1; l <= (th ? 12 : 10); ++l) for (int p = 1; p <= 5; ++p) {
    int n = (1 << l) - 1 + b; if (p > n) continue;
    grid({l}, {(BoundaryType)b}, {p}, {}); for (int t = 0; t < (th ? 8 : 2); ++t) grid({l}, {(BoundaryType)b}, {p}, randdec({n}, {p}));
  }
  for (int it = 0; it < (th ? 6000 : 500); ++it) {
    int d = ri(2, 4); LevelVector l(d); std::vector<BoundaryType> b(d); std::vector<int> p(d), n(d);
    for (int k = 0; k < d; ++k) { l[k] = ri(1, d == 2 ? 5 : 3); b[k] = (BoundaryType)ri(0, 2); n[k] = (1 << l[k]) - 1 + b[k]; p[k] = ri(1, std::min(n[k], d == 2 ? 4 : 2)); }
    grid(l, b, p, ri(0, 1) ? randdec(n, p) : std::vector<IndexVector>());
  }
  for (int l = 11; l <= 29; ++l) for (int b = 0; b < 3; ++b) for (int p = 1; p <= 5; ++p) big(l, b, p, ri(0, p - 1));
  for (int k = 0; k <= 29; ++k) { CHECK(powerOfTwo[k] == (1 << k), "powerOfTwo ", k); CHECK(powerOfTwoByBitshift(static_cast<LevelType>(k)) == (1 << k), "powerOfTwoByBitshift ", k);
    CHECK(oneOverPowOfTwo[k] == 1. / (double)(1 << k), "oneOverPowOfTwo ", k); }
  for (int it = 0; it < 2000; ++it) {
    int d = ri(1, 6); LevelVector l(d); std::vector<BoundaryType> b(d); long long h = 1, m = 1;
    for (int k = 0; k < d; ++k) { l[k] = ri(1, 5); b[k] = (BoundaryType)ri(0, 2); h *= l[k] == 1 ? 1 + b[k] : 1 << (l[k] - 1); m *= (1 << l[k]) - 1 + b[k]; }
    ++dofs; if (m > 2147483647LL) continue;
    CHECK((long long)getNumDofHierarchical(l, b) == h, vs(l), vs(b)); CHECK((long long)getNumDofNodal(l, b) == m, vs(l), vs(b));
  }
  covered("grids", grids); covered("axes", axes); covered("dof counts", dofs);
  return done();
}
