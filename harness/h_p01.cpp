#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vh;
static long long grids = 0, points = 0;
// reference: column-major address computed digit by digit
static long long addr(const std::vector<int>& v, const std::vector<int>& n) { long long a = 0, m = 1; for (size_t k = 0; k < n.size(); ++k) { a += m * v[k]; m *= n[k]; } return a; }
static bool next(std::vector<int>& v, const std::vector<int>& n) { for (size_t k = 0; k < n.size(); ++k) { if (++v[k] < n[k]) return true; v[k] = 0; } return false; }

static void tensor(const std::vector<int>& ext) {
  TensorIndexer t{IndexVector(ext)};
  std::vector<int> v(ext.size(), 0);
  long long i = 0;
  do {
    CHECK(t.sequentialIndex(v) == addr(v, ext) && addr(v, ext) == i, "extents ", vs(ext), " v ", vs(v));
    auto w = t.getVectorIndex((IndexType)i);
    CHECK(same(w, v), "extents ", vs(ext), " lin ", i, " got ", vs(w));
    ++i; ++points;
  } while (next(v, ext));
  CHECK((long long)t.size() == i, "extents ", vs(ext));
  CHECK(same(t.getExtentsVector(), ext), vs(ext));
}

static void grid(int dim, const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& procs, int rank, bool fwd, const std::vector<IndexVector>& dec) {
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(procs), " rank ", rank, " fwd ", fwd);
  OwningDistributedFullGrid<double> g((DimType)dim, l, fc::make(procs, rank), b, procs, fwd, dec);
  ++grids;
  std::vector<int> n(dim), lb = g.getLowerBounds(), ub = g.getUpperBounds(), ln(dim);
  for (int d = 0; d < dim; ++d) { n[d] = (1 << l[d]) - 1 + b[d]; ln[d] = ub[d] - lb[d]; }
  CHECK(same(std::vector<int>(g.getGlobalSizes()), n), id);
  CHECK(same(std::vector<int>(g.getLocalSizes()), ln), id);
  long long N = 1, M = 1; for (int d = 0; d < dim; ++d) { N *= n[d]; M *= ln[d]; }
  CHECK((long long)g.getNrElements() == N && (long long)g.getNrLocalElements() == M, id);
  std::vector<int> v(dim, 0);
  IndexVector out(dim), out2(dim);
  long long i = 0;
  do {   // all global points
    CHECK(g.getGlobalLinearIndex(v) == i, id, " v ", vs(v));
    g.getGlobalVectorIndex((IndexType)i, out);
    CHECK(same(out, v), id, " lin ", i, " got ", vs(out));
    bool here = true; std::vector<int> lv(dim);
    for (int d = 0; d < dim; ++d) { here = here && v[d] >= lb[d] && v[d] < ub[d]; lv[d] = v[d] - lb[d]; }
    CHECK(g.isGlobalIndexHere(IndexVector(v)) == here, id, " v ", vs(v));
    CHECK(g.isGlobalIndexHere((IndexType)i) == here, id, " lin ", i);
    IndexVector lo(dim, -7);
    bool r = g.getLocalVectorIndex(v, lo);
    CHECK(r == here, id, " v ", vs(v));
    if (here) CHECK(same(lo, lv), id, " v ", vs(v), " got ", vs(lo));
    auto ll = g.getLocalLinearIndex((IndexType)i);
    if (here) {
      CHECK(ll == addr(lv, ln), id, " globlin ", i, " got ", ll);
    } else CHECK(ll < 0, id, " globlin ", i, " got ", ll);
    ++i; ++points;
  } while (next(v, n));
  std::fill(v.begin(), v.end(), 0);
  i = 0;
  do {   // all local points
    std::vector<int> gv(dim); for (int d = 0; d < dim; ++d) gv[d] = v[d] + lb[d];
    CHECK(g.getLocalLinearIndex(v) == i, id, " v ", vs(v));
    g.getLocalVectorIndex((IndexType)i, out);
    CHECK(same(out, v), id, " lin ", i);
    g.getGlobalVectorIndex(v, out2);
    CHECK(same(out2, gv), id, " v ", vs(v));
    CHECK(g.getGlobalLinearIndex((IndexType)i) == addr(gv, n), id, " loclin ", i, " got ", g.getGlobalLinearIndex((IndexType)i));
    std::vector<double> c, cl;
    g.getCoordsLocal((IndexType)i, cl);
    g.getCoordsGlobal((IndexType)addr(gv, n), c);
    CHECK(same(c, cl), id, " loclin ", i);
    for (int d = 0; d < dim; ++d) CHECK(c[d] == (double)(gv[d] + (b[d] ? 0 : 1)) / (double)(1 << l[d]), id, " coords of loclin ", i);
    ++i; ++points;
  } while (next(v, ln));
}

// large extents: sampled points, grids without storage
static void bigTensor(const std::vector<int>& e) {
  TensorIndexer t{IndexVector(e)};
  long long N = 1; for (int x : e) N *= x;
  CHECK((long long)t.size() == N, vs(e));
  for (int k = 0; k < 60; ++k) {
    long long i = k < 20 ? N - 1 - k : k < 40 ? k - 20 : (long long)(rnd() % (uint64_t)N); if (i < 0 || i >= N) continue;
    IndexVector v = t.getVectorIndex((IndexType)i); ++points;
    for (size_t d = 0; d < e.size(); ++d) CHECK(v[d] >= 0 && v[d] < e[d], "extents ", vs(e), " lin ", i, " got ", vs(v));
    CHECK(addr(v, e) == i && t.sequentialIndex(v) == i, "extents ", vs(e), " lin ", i, " got ", vs(v));
  }
}
static void bigGrid(const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& p, int rank) {
  int dim = (int)l.size();
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(p), " rank ", rank);
  DistributedFullGrid<double> g((DimType)dim, l, fc::make(p, rank), b, nullptr, p);
  ++grids;
  std::vector<int> n(dim), lb = g.getLowerBounds(), ub = g.getUpperBounds(), ln(dim), v(dim), lv(dim);
  for (int d = 0; d < dim; ++d) { n[d] = (1 << l[d]) - 1 + b[d]; ln[d] = ub[d] - lb[d]; }
  IndexVector out(dim);
  for (int k = 0; k < 30; ++k) {
    bool here = true, inside = k < 20;
    for (int d = 0; d < dim; ++d) { int c = ri(0, 3), lo = inside ? lb[d] : 0, up = inside ? ub[d] : n[d]; v[d] = c == 0 ? lo : c == 1 ? up - 1 : ri(lo, up - 1); lv[d] = v[d] - lb[d]; here = here && v[d] >= lb[d] && v[d] < ub[d]; }
    long long i = addr(v, n); ++points;
    CHECK(g.getGlobalLinearIndex(v) == i, id, " v ", vs(v));
    g.getGlobalVectorIndex((IndexType)i, out); CHECK(same(out, v), id, " lin ", i);
    CHECK(g.isGlobalIndexHere((IndexType)i) == here && g.isGlobalIndexHere(IndexVector(v)) == here, id, " v ", vs(v));
    if (!here) continue;
    long long j = addr(lv, ln);
    CHECK(g.getLocalLinearIndex(lv) == j && g.getLocalLinearIndex((IndexType)i) == j, id, " v ", vs(v));
    CHECK(g.getGlobalLinearIndex((IndexType)j) == i, id, " loclin ", j);
    g.getLocalVectorIndex((IndexType)j, out); CHECK(same(out, lv), id, " loclin ", j);
  }
}
int main() {
  bool th = thorough();
  for (int d = 1; d <= 6; ++d) {
    std::vector<int> e(d, 1), lim(d, d <= 3 ? 5 : 2), v(d, 0);
    do { for (int k = 0; k < d; ++k) e[k] = 1 + v[k]; tensor(e); } while (next(v, lim));
  }
  for (int r = 0; r < (th ? 40000 : 4000); ++r) { int d = ri(1, 6); std::vector<int> e(d); for (auto& x : e) x = ri(1, d < 3 ? 40 : d == 3 ? 14 : 5); tensor(e); }
  for (int it = 0; it < (th ? 100000 : 8000); ++it) {
    int d = ri(1, it % 10 == 0 ? 6 : 4);
    LevelVector l(d); std::vector<BoundaryType> b(d); std::vector<int> p(d); std::vector<IndexVector> dec(d);
    bool fwd = ri(0, 1), custom = ri(0, 1);
    for (int k = 0; k < d; ++k) {
      l[k] = ri(1, d == 1 ? 9 : d == 2 ? 5 : d == 3 ? 3 : 2); b[k] = (BoundaryType)ri(0, 2);
      int n = (1 << l[k]) - 1 + b[k];
      p[k] = ri(1, std::min(n, d > 3 ? 2 : 4));
      std::set<int> cuts{0}; while ((int)cuts.size() < p[k]) cuts.insert(ri(1, n - 1));
      dec[k] = IndexVector(cuts.begin(), cuts.end());
    }
    int P = fc::prod(p);
    for (int r = 0; r < P; ++r) if (P <= 8 || r == 0 || r == P - 1 || ri(0, 7) == 0) grid(d, l, b, p, r, fwd, custom ? dec : std::vector<IndexVector>());
  }
  for (int r = 0; r < (th ? 20000 : 3000); ++r) {
    int d = ri(1, 6); std::vector<int> e(d, 1); long long room = 2147483646LL;
    for (int k = 0; k < d; ++k) { long long m = std::max(1LL, room); e[k] = (int)(k == d - 1 && ri(0, 1) ? m : 1 + (long long)(rnd() % (uint64_t)std::min(m, 1LL << ri(0, 31)))); room /= e[k]; }
    for (int k = d - 1; k > 0; --k) std::swap(e[k], e[ri(0, k)]);
    bigTensor(e);
  }
  for (int r = 0; r < (th ? 20000 : 2000); ++r) {
    int d = ri(1, 6), room = 30; LevelVector l(d); std::vector<BoundaryType> b(d); std::vector<int> p(d);
    for (int k = 0; k < d; ++k) { l[k] = std::max(1, std::min(29, ri(1, std::max(1, room - (d - k))))); room -= l[k] + 1; b[k] = (BoundaryType)ri(0, 2); p[k] = ri(1, std::min((1 << std::min(l[k], 10)) - 1 + b[k], 5)); }
    double tot = 1; for (int k = 0; k < d; ++k) tot *= (1 << l[k]) - 1 + b[k]; if (tot > 2.1e9) continue;
    bigGrid(l, b, p, ri(0, fc::prod(p) - 1));
  }
  covered("grids", grids); covered("points", points);
  return done();
}
