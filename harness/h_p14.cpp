#include "vh.hpp"
#include <complex>
#include <algorithm>
#include "fullgrid/DistributedFullGrid.hpp"
#include "fullgrid/FullGrid.hpp"
using namespace combigrid;
using namespace vh;
static long long grids = 0, layers = 0, points = 0;
static bool next(std::vector<int>& v, const std::vector<int>& n) { for (size_t k = 0; k < n.size(); ++k) { if (++v[k] < n[k]) return true; v[k] = 0; } return false; }
template <class T> T value(long long i) { return T((double)(3 * i + 1)); }
template <> std::complex<double> value<std::complex<double>>(long long i) { return {(double)(3 * i + 1), -(double)i}; }
template <class T>
static void test(int me, const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& p, const std::vector<IndexVector>& dec, int root) {
  int D = (int)l.size(), P = 1; std::vector<int> n(D), per(D);
  for (int d = 0; d < D; ++d) { P *= p[d]; n[d] = (1 << l[d]) - 1 + b[d]; per[d] = b[d] == 1; }
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(p), " rank ", me);
  for (int d = 0; d < D; ++d) id += cat(" dec", d, vs(dec[d]));
  static std::map<std::pair<std::vector<int>, std::vector<int>>, MPI_Comm> carts;   // kept alive (the library caches by handle)
  auto key = std::make_pair(p, per);
  if (!carts.count(key)) {
    MPI_Comm sub, c = MPI_COMM_NULL; MPI_Comm_split(MPI_COMM_WORLD, me < P ? 0 : MPI_UNDEFINED, me, &sub);
    std::vector<int> q(p); if (sub != MPI_COMM_NULL) MPI_Cart_create(sub, D, q.data(), per.data(), 0, &c);
    carts[key] = c;
  }
  MPI_Comm cart = carts[key];
  if (cart == MPI_COMM_NULL) return;
  OwningDistributedFullGrid<T> g((DimType)D, l, cart, b, p, true, dec);
  auto addr = [&](const std::vector<int>& v) { long long a = 0, m = 1; for (int k = 0; k < D; ++k) { a += m * v[k]; m *= n[k]; } return a; };
  auto lb = g.getLowerBounds(), ub = g.getUpperBounds(); std::vector<int> ln(D), v(D, 0), gv(D);
  for (int d = 0; d < D; ++d) ln[d] = ub[d] - lb[d];
  // value of a point: its global number; after copying dimension d, points at the upper end take the number of the lower end
  std::vector<char> copied(D, 0);
  auto want = [&](std::vector<int> w) { for (int d = 0; d < D; ++d) if (copied[d] && w[d] == n[d] - 1) w[d] = 0; return value<T>(addr(w)); };
  size_t k = 0;
  do { for (int d = 0; d < D; ++d) gv[d] = v[d] + lb[d]; g.getData()[k++] = want(gv); } while (next(v, ln));
  auto unchanged = [&](const char* what) {
    std::vector<int> u(D, 0), w(D); size_t j = 0;
    do { for (int d = 0; d < D; ++d) w[d] = u[d] + lb[d]; ++points; if (g.getData()[j] != want(w)) { CHECK(false, what, " ", id, " point ", vs(w), " is ", g.getData()[j], " expected ", want(w)); return; } ++j; } while (next(u, ln));
  };
  auto ghost = [&](int d, bool asyn) {
    std::vector<int> ext(ri(0, 5), 7); std::vector<T> buf((size_t)ri(0, 9), value<T>(-5));
    if (asyn) { MPI_Request r; g.exchangeGhostLayerUpward((DimType)d, ext, buf, &r); MPI_Wait(&r, MPI_STATUS_IGNORE); }
    else buf = g.exchangeGhostLayerUpward((DimType)d, ext);
    bool has = lb[d] > 0 || b[d] == 1; int at = lb[d] > 0 ? lb[d] - 1 : n[d] - 1;
    std::vector<int> e(ln); e[d] = 1; if (!has) e.assign(D, 0);
    CHECK(same(ext, e), id, " ghost layer in dimension ", d, " extents ", vs(ext));
    long long N = 1; for (int x : e) N *= x;
    CHECK((long long)buf.size() == N, id, " ghost layer in dimension ", d, " has ", buf.size(), " values");
    if (!has || (long long)buf.size() != N) return;
    std::vector<int> u(D, 0), w(D); size_t j = 0; ++layers;
    do { for (int q = 0; q < D; ++q) w[q] = u[q] + lb[q]; w[d] = at; if (buf[j] != want(w)) { CHECK(false, id, " ghost layer in dimension ", d, " value ", j, " is ", buf[j], " expected ", want(w)); return; } ++j; ++points; } while (next(u, e));
  };
  for (int d = 0; d < D; ++d) { ghost(d, false); ghost(d, true); }
  unchanged("ghost exchange");
  auto corners = [&] {
    auto vals = g.getCornersValues(); CHECK(vals.size() == (size_t)1 << D, id);
    auto list = g.getCornersGlobalVectorIndices(); std::set<std::vector<int>> seen;
    CHECK(list.size() == vals.size(), id);
    for (size_t c = 0; c < list.size() && c < vals.size(); ++c) {
      std::vector<int> w(list[c].begin(), list[c].end()); bool ok = (int)w.size() == D;
      for (int d = 0; ok && d < D; ++d) ok = w[d] == 0 || w[d] == n[d] - 1;
      CHECK(ok, id, " corner ", c, " ", vs(w));
      if (ok) { seen.insert(w); CHECK(vals[c] == want(w), id, " corner ", vs(w), " is ", vals[c], " expected ", want(w)); }
    }
    size_t num = 1; for (int d = 0; d < D; ++d) num *= n[d] > 1 ? 2 : 1;
    CHECK(seen.size() == num, id, " only ", seen.size(), " different corners");
  };
  corners();
  for (int d = 0; d < D; ++d) if (b[d] == 2 && ri(0, 3)) { g.writeLowerBoundaryToUpperBoundary((DimType)d); copied[d] = 1; unchanged("boundary copy"); }
  corners();
  for (int d = 0; d < D; ++d) ghost(d, d % 2);
  FullGrid<T> fg((DimType)D, l, b);
  if (ri(0, 1)) fg.createFullGrid();
  g.gatherFullGrid(fg, root % P);
  if (me == root % P) {
    std::vector<int> w(D, 0); size_t j = 0;
    do { if (fg.getData()[j] != want(w)) { CHECK(false, id, " gathered point ", vs(w), " is ", fg.getData()[j], " expected ", want(w)); break; } ++j; ++points; } while (next(w, n));
  }
  ++grids;
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int me, W; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &W);
  int N = thorough() ? 200000 : 20000;
  for (int k = 0; k < N; ++k) {
    uint64_t s = state();
    int D = ri(1, 4); LevelVector l(D); std::vector<BoundaryType> b(D); std::vector<int> p(D, 1), n(D); std::vector<IndexVector> dec(D);
    for (int d = 0; d < D; ++d) { l[d] = ri(1, D == 1 ? 6 : D == 2 ? 4 : D == 3 ? 3 : 2); b[d] = (BoundaryType)ri(0, 2); n[d] = (1 << l[d]) - 1 + b[d]; }
    int tot = 1;
    for (int t = 0; t < 6; ++t) { int d = ri(0, D - 1), q = ri(1, W); if (q <= n[d] && tot / p[d] * q <= W) { tot = tot / p[d] * q; p[d] = q; } }
    for (int d = 0; d < D; ++d) { std::set<int> cuts{0}; while ((int)cuts.size() < p[d]) cuts.insert(ri(1, n[d] - 1)); dec[d] = IndexVector(cuts.begin(), cuts.end()); }
    int root = ri(0, 99); bool cx = ri(0, 3) == 0; (void)s;
    uint64_t st = state();
    if (cx) test<std::complex<double>>(me, l, b, p, dec, root); else test<double>(me, l, b, p, dec, root);
    state() = st + 1;    // all ranks continue with the same random numbers
  }
  long long s[3] = {grids, layers, points}, r[3];
  MPI_Allreduce(s, r, 3, MPI_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
  if (me == 0) { covered("grid_ranks", r[0]); covered("layers", r[1]); covered("points", r[2]); }
  MPI_Finalize();
  if (me == 0) done();
  return 0;
}
