#include "fakecart.hpp"
#include <complex>
#include <cmath>
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vh;
static long long grids = 0, points = 0, norms = 0;
// one process impersonates each rank in turn: the combination over ranks is done by this program
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) {
  int sz = t == MPI_DOUBLE ? 8 : t == MPI_FLOAT ? 4 : 16;
  if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * sz);
  return 0;
}
static bool next(std::vector<int>& v, const std::vector<int>& n) { for (size_t k = 0; k < n.size(); ++k) { if (++v[k] < n[k]) return true; v[k] = 0; } return false; }
template <class T> T value(double re, double) { return (T)re; }
template <> std::complex<double> value<std::complex<double>>(double re, double im) { return {re, im}; }
template <class T>
static void grid(const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& p, bool fwd, const std::vector<IndexVector>& dec, int nx) {
  int D = (int)l.size();
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " procs ", vs(p), " fwd ", fwd);
  std::vector<int> n(D); long long N = 1; for (int d = 0; d < D; ++d) { n[d] = (1 << l[d]) - 1 + b[d]; N *= n[d]; }
  auto addr = [&](const std::vector<int>& v) { long long a = 0, m = 1; for (int k = 0; k < D; ++k) { a += m * v[k]; m *= n[k]; } return a; };
  std::vector<T> nodal((size_t)N); for (auto& x : nodal) x = value<T>(ri(-99, 99) + (ri(0, 3) ? 0 : 0.25), ri(-9, 9));
  if (ri(0, 5) == 0) for (auto& x : nodal) x = value<T>(-std::abs(x), 0);
  std::vector<std::vector<real>> xs;
  std::vector<char> atpoint; std::vector<std::vector<int>> which;
  for (int i = 0; i < nx; ++i) {
    std::vector<real> x(D); std::vector<int> v(D); bool on = i % 3 == 0;
    for (int d = 0; d < D; ++d) {
      double h = std::ldexp(1., -l[d]);
      v[d] = ri(0, 5) == 0 ? (ri(0, 1) ? n[d] - 1 : 0) : ri(0, n[d] - 1);
      x[d] = (v[d] + (b[d] ? 0 : 1)) * h;
      if (!on) switch (ri(0, 7)) {
        case 0: x[d] = 1.; break; case 1: x[d] = 0.; break;
        case 2: x[d] = ri(0, 1 << l[d]) * h; break;
        case 3: x[d] = ri(0, (1 << l[d]) - 1) * h + h / 2; break;
        case 4: x[d] = std::nextafter(x[d], ri(0, 1) ? 0. : 1.); break;
        default: x[d] = rr(0, 1); }
    }
    xs.push_back(x); atpoint.push_back(on); which.push_back(v);
  }
  // reference: sum over the 2^D neighbours of the cell
  std::vector<T> want(nx, T(0)); std::vector<double> scale(nx, 1.);
  for (int i = 0; i < nx; ++i) {
    if (atpoint[i]) { want[i] = nodal[(size_t)addr(which[i])]; scale[i] = 1 + std::abs(want[i]); }
    else for (int e = 0; e < (1 << D); ++e) {
      double w = 1; bool in = true; std::vector<int> v(D);
      for (int d = 0; d < D; ++d) {
        double X = std::ldexp(xs[i][d], l[d]); int c = (int)std::floor(X); double f = X - c;
        int q = c + ((e >> d) & 1) - (b[d] ? 0 : 1);
        w *= ((e >> d) & 1) ? f : 1 - f;
        if (b[d] == 1) q = q % n[d];
        if (q < 0 || q >= n[d]) in = false; else v[d] = q;
      }
      if (in && w != 0) { T y = nodal[(size_t)addr(v)]; want[i] += y * value<T>(w, 0); scale[i] += std::abs(y) * w; }
    }
  }
  std::vector<T> got(nx, T(0)), many(nx, T(0)); double mx = 0, s1 = 0, refmx = 0, ref1 = 0;
  int P = fc::prod(p);
  for (int r = 0; r < P; ++r) {
    OwningDistributedFullGrid<T> g((DimType)D, l, fc::make(p, r), b, p, fwd, dec);
    auto lb = g.getLowerBounds(), ub = g.getUpperBounds(); std::vector<int> ln(D), v(D, 0), gv(D);
    for (int d = 0; d < D; ++d) ln[d] = ub[d] - lb[d];
    size_t k = 0;
    do { for (int d = 0; d < D; ++d) gv[d] = v[d] + lb[d]; g.getData()[k++] = nodal[(size_t)addr(gv)]; } while (next(v, ln));
    for (int i = 0; i < nx; ++i) { T y = value<T>(777, 7); g.evalLocal(xs[i], y); got[i] += y; if (i < 3) CHECK(g.evalLocal(xs[i]) == y, id, " rank ", r, " x ", vs(xs[i])); }
    auto m = g.getInterpolatedValues(xs);
    CHECK((int)m.size() == nx, id);
    for (int i = 0; i < nx && i < (int)m.size(); ++i) many[i] += m[i];
    double z = g.getLpNorm(0); mx = std::max(mx, z); s1 += g.getLpNorm(1);
  }
  for (int i = 0; i < nx; ++i) {
    CHECK(std::abs(got[i] - want[i]) <= 1e-12 * scale[i], id, " x ", vs(xs[i]), " got ", got[i], " want ", want[i]);
    CHECK(std::abs(many[i] - want[i]) <= 1e-12 * scale[i], id, " many, x ", vs(xs[i]), " got ", many[i], " want ", want[i]);
    ++points;
  }
  std::vector<int> v(D, 0); size_t k = 0; double cell = 1; for (int d = 0; d < D; ++d) cell *= std::ldexp(1., -l[d]);
  do { double w = cell; for (int d = 0; d < D; ++d) if (b[d] == 2 && (v[d] == 0 || v[d] == n[d] - 1)) w /= 2; double a = std::abs(nodal[k++]); refmx = std::max(refmx, a); ref1 += a * w; } while (next(v, n));
  CHECK(mx == refmx, id, " max norm ", mx, " want ", refmx);
  CHECK(std::abs(s1 - ref1) <= 1e-12 * (1 + ref1), id, " 1-norm ", s1, " want ", ref1);
  ++grids; norms += 2;
}
int main() {
  bool th = thorough();
  for (int it = 0; it < (th ? 400000 : 20000); ++it) {
    int d = ri(1, it % 10 == 0 ? 5 : 3);
    LevelVector l(d); std::vector<BoundaryType> b(d); std::vector<int> p(d); std::vector<IndexVector> dec(d);
    bool fwd = ri(0, 1), custom = ri(0, 1);
    for (int k = 0; k < d; ++k) {
      l[k] = ri(1, d == 1 ? 8 : d == 2 ? 5 : d == 3 ? 3 : 2); b[k] = (BoundaryType)ri(0, 2);
      int n = (1 << l[k]) - 1 + b[k];
      p[k] = ri(1, std::min(n, d > 3 ? 2 : d == 3 ? 3 : 5));
      std::set<int> cuts{0}; while ((int)cuts.size() < p[k]) cuts.insert(ri(1, n - 1));
      dec[k] = IndexVector(cuts.begin(), cuts.end());
    }
    if (it % 4 == 0) grid<std::complex<double>>(l, b, p, fwd, custom ? dec : std::vector<IndexVector>(), 24);
    else grid<double>(l, b, p, fwd, custom ? dec : std::vector<IndexVector>(), 36);
  }
  for (int L : {12, 15, 18}) for (int b = 0; b < 3; ++b) { grid<double>({L}, {(BoundaryType)b}, {3}, true, {}, 300); grid<double>({L / 2, 7}, {(BoundaryType)b, (BoundaryType)(2 - b)}, {2, 2}, false, {}, 300); }
  covered("grids", grids); covered("points", points); covered("norms", norms);
  return done();
}
