#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vh;
static long long decs = 0, grids = 0, downs = 0;
static void defdec(const std::vector<int>& n, const std::vector<int>& p, bool fwd) {
  ++decs;
  std::string id = cat("points ", vs(n), " procs ", vs(p), " fwd ", fwd);
  bool fits = true; for (size_t k = 0; k < n.size(); ++k) fits = fits && p[k] <= n[k];
  std::vector<IndexVector> d;
  try { d = getDefaultDecomposition(IndexVector(n), p, fwd); }
  catch (const std::exception& e) { CHECK(!fits, id, " threw"); return; }
  CHECK(fits, id, " accepted");
  if (!fits) return;
  CHECK(d.size() == n.size(), id);
  for (size_t k = 0; k < n.size(); ++k) {
    CHECK((int)d[k].size() == p[k], id); if ((int)d[k].size() != p[k]) return;
    CHECK(d[k][0] == 0, id);
    for (int j = 0; j < p[k]; ++j) {
      int up = j + 1 < p[k] ? d[k][j + 1] : n[k];
      CHECK(d[k][j] < up, id, " empty range ", j, " ", vs(d[k]));
      long long x = (long long)n[k] * j, q = p[k];
      CHECK(d[k][j] == (fwd ? (x + q - 1) / q : x / q), id, " bound ", j, " ", vs(d[k]));
    }
  }
}
static std::vector<IndexVector> randdec(const std::vector<int>& n, const std::vector<int>& p) {
  std::vector<IndexVector> dec(n.size());
  for (size_t k = 0; k < n.size(); ++k) { std::set<int> cuts{0}; while ((int)cuts.size() < p[k]) cuts.insert(ri(1, n[k] - 1)); dec[k] = IndexVector(cuts.begin(), cuts.end()); }
  return dec;
}
static void grid(const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& p, bool fwd, const std::vector<IndexVector>& dec) {
  int dim = (int)l.size();
  std::vector<int> n(dim); for (int d = 0; d < dim; ++d) n[d] = (1 << l[d]) - 1 + b[d];
  int P = fc::prod(p);
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(p), " fwd ", fwd, " custom ", !dec.empty());
  std::vector<std::vector<IndexVector>> lbs, ubs;
  std::vector<IndexVector> first;
  long long total = 0, all = 1; for (int x : n) all *= x;
  for (int r = 0; r < P; ++r) {
    OwningDistributedFullGrid<double> g((DimType)dim, l, fc::make(p, r), b, p, fwd, dec);
    ++grids;
    if (r == 0) first = g.getDecomposition();
    CHECK(same(g.getDecomposition(), first), id, " rank ", r);
    if (!dec.empty()) CHECK(same(g.getDecomposition(), dec), id);
    CHECK(g.getRank() == r && g.getCommunicatorSize() == P, id);
    CHECK(same(g.getParallelization(), p), id);
    auto c = fc::coords(p, r);
    long long mine = 1;
    for (int d = 0; d < dim; ++d) {
      int lo = first[d][c[d]], up = c[d] + 1 < p[d] ? first[d][c[d] + 1] : n[d];
      CHECK(g.getLowerBounds()[d] == lo && g.getUpperBounds()[d] == up && lo < up, id, " rank ", r, " dim ", d);
      CHECK(g.getFirstGlobal1dIndex((DimType)d) == lo && g.getLastGlobal1dIndex((DimType)d) == up - 1, id, " rank ", r);
      CHECK(g.getLocalSizes()[d] == up - lo, id);
      double h = 1. / (1 << l[d]); int add = b[d] > 0 ? 0 : 1;
      CHECK(g.getLowerBoundsCoord((DimType)d) == (lo + add) * h, id);
      CHECK(g.getUpperBoundsCoords()[d] == (up + add) * h, id);
      CHECK(g.getCartesianUtils().isOnLowerBoundaryInDimension((DimType)d) == (c[d] == 0), id);
      CHECK(g.getCartesianUtils().isOnUpperBoundaryInDimension((DimType)d) == (c[d] == p[d] - 1), id);
      mine *= up - lo;
      for (int i = -2; i < n[d] + 2; ++i) {
        int e = -1;
        if (i >= 0 && i < n[d]) { auto cc = c; for (int j = 0; j < p[d]; ++j) if (first[d][j] <= i) cc[d] = j; e = fc::rankof(p, cc); }
        int o = g.getNeighbor1dFromAxisIndex((DimType)d, i);
        CHECK(e < 0 ? o < 0 : o == e, id, " rank ", r, " dim ", d, " axis index ", i, " got ", o);
      }
      auto pr = g.getCartesianUtils().getAllMyPoleNeighborRanks((DimType)d);
      std::vector<int> ex; for (int j = 0; j < p[d]; ++j) if (j != c[d]) { auto cc = c; cc[d] = j; ex.push_back(fc::rankof(p, cc)); }
      CHECK(same(pr, ex), id, " rank ", r);
    }
    total += mine;
    for (int s = 0; s < P; ++s) {
      auto cs = fc::coords(p, s);
      auto L = g.getLowerBounds(s), U = g.getUpperBounds(s);
      auto gc = g.getCartesianUtils().getPartitionCoordsOfRank(s);
      CHECK(same(std::vector<int>(gc), cs), id);
      CHECK(g.getCartesianUtils().getRankFromPartitionCoords(cs) == s, id);
      for (int d = 0; d < dim; ++d)
        CHECK(L[d] == first[d][cs[d]] && U[d] == (cs[d] + 1 < p[d] ? first[d][cs[d] + 1] : n[d]), id, " rank ", r, " about ", s);
      auto uc = g.getUpperBoundsCoords(s);
      for (int d = 0; d < dim; ++d) CHECK(uc[d] == (U[d] + (b[d] > 0 ? 0 : 1)) / (double)(1 << l[d]), id);
    }
    for (int t = 0; t < 6; ++t) {
      IndexVector v(dim); std::vector<int> pc; for (int d = 0; d < dim; ++d) v[d] = t == 0 ? 0 : t == 1 ? n[d] - 1 : ri(0, n[d] - 1);
      g.getPartitionCoords(v, pc);
      for (int d = 0; d < dim; ++d) { int e = 0; for (int j = 0; j < p[d]; ++j) if (first[d][j] <= v[d]) e = j; CHECK(pc[d] == e, id, " point ", vs(v)); }
    }
  }
  CHECK(total == all, id, " local sizes sum to ", total, " instead of ", all);
}
static void down(const LevelVector& lr, const LevelVector& ln, const std::vector<BoundaryType>& b, const std::vector<IndexVector>& dec) {
  ++downs;
  std::string id = cat("reference ", vs(lr), " new ", vs(ln), " boundary ", vs(b));
  auto r = downsampleDecomposition(dec, lr, ln, b);
  CHECK(r.size() == dec.size(), id);
  for (size_t k = 0; k < dec.size(); ++k) {
    CHECK(r[k].size() == dec[k].size(), id); if (r[k].size() != dec[k].size()) return;
    int n = (1 << ln[k]) - 1 + b[k], f = 1 << (lr[k] - ln[k]);
    for (int c = 0; c < n; ++c) {
      int fine = b[k] ? c * f : (c + 1) * f - 1;
      for (size_t j = 0; j < dec[k].size(); ++j)
        CHECK((r[k][j] <= c) == (dec[k][j] <= fine), id, " dim ", k, " coarse index ", c, " fine ", vs(dec[k]), " coarse ", vs(r[k]));
    }
  }
}
int main() {
  bool th = thorough();
  int N = th ? 400 : 200;
  for (int n = 1; n <= N; ++n) for (int p = 1; p <= n + 2; ++p) for (int f = 0; f < 2; ++f) defdec({n}, {p}, f);
  for (int e = 8; e < 30; ++e) for (int o = -1; o <= 1; ++o) for (int p = 1; p < (th ? 2000 : 300); ++p) defdec({(1 << e) + o}, {p}, p & 1);
  for (int it = 0; it < (th ? 50000 : 5000); ++it) { int d = ri(1, 6); std::vector<int> n(d), p(d); for (int k = 0; k < d; ++k) { n[k] = ri(1, 70); p[k] = ri(1, std::min(n[k] + (ri(0, 9) == 0), 9)); } defdec(n, p, ri(0, 1)); }
  for (int it = 0; it < (th ? 5000 : 500); ++it) {
    int d = ri(1, 4); LevelVector l(d); std::vector<BoundaryType> b(d); std::vector<int> p(d), n(d);
    for (int k = 0; k < d; ++k) { l[k] = ri(1, d == 1 ? 9 : d == 2 ? 5 : 3); b[k] = (BoundaryType)ri(0, 2); n[k] = (1 << l[k]) - 1 + b[k]; p[k] = ri(1, std::min(n[k], d == 1 ? 9 : d == 2 ? 5 : 3)); }
    grid(l, b, p, ri(0, 1), ri(0, 1) ? randdec(n, p) : std::vector<IndexVector>());
  }
  for (int it = 0; it < (th ? 50000 : 6000); ++it) {
    int d = ri(1, 4); LevelVector lr(d), ln(d); std::vector<BoundaryType> b(d); std::vector<int> p(d), n(d);
    for (int k = 0; k < d; ++k) { lr[k] = ri(1, 10); ln[k] = ri(1, lr[k]); b[k] = (BoundaryType)ri(0, 2); n[k] = (1 << lr[k]) - 1 + b[k]; p[k] = ri(1, std::min(n[k], 6)); }
    down(lr, ln, b, ri(0, 3) ? randdec(n, p) : getDefaultDecomposition(IndexVector(n), p, ri(0, 1)));
  }
  for (int it = 0; it < (th ? 20000 : 3000); ++it) {   // large levels: only the coarse indices next to a bound matter
    int lr = ri(2, 29), ln = ri(1, lr), b = ri(0, 2); long long f = 1LL << (lr - ln), n = (1LL << lr) - 1 + b, m = (1LL << ln) - 1 + b;
    long long c = (long long)(rnd() % (uint64_t)m), fine = b ? c * f : (c + 1) * f - 1, lo = fine + ri(-1, 1); if (lo <= 0 || lo >= n) continue;
    ++downs; auto r = downsampleDecomposition({IndexVector{0, (IndexType)lo}}, LevelVector{lr}, LevelVector{ln}, std::vector<BoundaryType>{(BoundaryType)b});
    for (long long x = std::max(0LL, c - 2); x <= std::min(m - 1, c + 2); ++x) { long long fx = b ? x * f : (x + 1) * f - 1;
      CHECK((r[0][1] <= x) == (lo <= fx), "reference level ", lr, " new level ", ln, " boundary ", b, " fine bound ", lo, " coarse bound ", r[0][1], " coarse index ", x); }
  }
  for (int p = 1; p <= 4; ++p) for (int l = 2; l < 29; ++l) {
    std::vector<int> pr{p, 1}; auto s = getStandardDecomposition({l, 2}, pr);
    CHECK((int)s[0].size() == p && s[0][0] == 0, "standard ", p, " ", l);
    for (int j = 0; j < p; ++j) CHECK(s[0][j] < (j + 1 < p ? s[0][j + 1] : (1 << l) + 1), "standard ", p, " ", l);
  }
  covered("default decompositions", decs); covered("grids", grids); covered("downsampled decompositions", downs);
  return done();
}
