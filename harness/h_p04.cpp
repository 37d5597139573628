// P04 bounded stand-in / replay: real (de)hierarchization over real MPI, integer data (all arithmetic exact in double)
#include "vh.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
using namespace combigrid;
using namespace vh;
static long long runs = 0, pts = 0;
typedef std::vector<double> V;
static int levelOf(int i, int L) { for (int l = 0; l <= L; ++l) if (i % (1 << (L - l)) == 0) return l; return -1; }
enum { HAT, HATP, FW, FWP, BI, BIP };
static const char* names[] = {"hat", "hat periodic", "full weighting", "full weighting periodic", "biorthogonal", "biorthogonal periodic"};
// the defining 1-d transform on 2^L+1 nodal values
static void ref(V& y, int L, int lmin, int basis) {
  int n = 1 << L;
  if (basis <= HATP) { V o(y); for (int i = 0; i <= n; ++i) { int l = levelOf(i, L); if (l > lmin) { int h = 1 << (L - l); y[i] = o[i] - 0.5 * (o[i - h] + o[i + h]); } } return; }
  bool per = basis == FWP || basis == BIP;
  for (int l = L; l > lmin; --l) {
    int s = 1 << (L - l);
    V o(y);
    if (basis == FW || basis == FWP) {
      for (int i = 2 * s; i < n; i += 2 * s) y[i] = 0.25 * o[i - s] + 0.5 * o[i] + 0.25 * o[i + s];
      if (per) y[0] = y[n] = 0.25 * (o[0] + o[n] + o[s] + o[n - s]); else { y[0] = 0.5 * (o[0] + o[s]); y[n] = 0.5 * (o[n] + o[n - s]); }
      for (int i = s; i < n; i += 2 * s) y[i] = o[i] - 0.5 * (y[i - s] + y[i + s]);
    } else {
      for (int i = s; i < n; i += 2 * s) y[i] = o[i] - 0.5 * (o[i - s] + o[i + s]);
      for (int i = 2 * s; i < n; i += 2 * s) y[i] = o[i] + 0.25 * (y[i - s] + y[i + s]);
      if (per) y[0] = y[n] = 0.5 * (o[0] + o[n]) + 0.25 * (y[s] + y[n - s]); else { y[0] = o[0] + 0.5 * y[s]; y[n] = o[n] + 0.5 * y[n - s]; }
    }
  }
}
static std::vector<IndexVector> randdec(const std::vector<int>& n, const std::vector<int>& p) {
  std::vector<IndexVector> dec(n.size());
  for (size_t k = 0; k < n.size(); ++k) { std::set<int> cuts{0}; while ((int)cuts.size() < p[k]) cuts.insert(ri(1, n[k] - 1)); dec[k] = IndexVector(cuts.begin(), cuts.end()); }
  return dec;
}
template <class T> struct Mk { static T mk(double a, double) { return a; } static double im(T) { return 0; } static double re(T a) { return a; } };
template <> struct Mk<std::complex<double>> { typedef std::complex<double> T; static T mk(double a, double b) { return T(a, b); } static double im(T a) { return a.imag(); } static double re(T a) { return a.real(); } };
// called on every rank with the same arguments
template <class T> static void test(int me, const LevelVector& l, const std::vector<BoundaryType>& b, const std::vector<int>& basis, const LevelVector& lmin, const std::vector<bool>& dims, const std::vector<int>& p, const std::vector<IndexVector>& dec) {
  int D = (int)l.size(), P = 1;
  for (int x : p) P *= x;
  std::vector<int> n(D); long long all = 1;
  for (int d = 0; d < D; ++d) { n[d] = (1 << l[d]) - 1 + b[d]; all *= n[d]; }
  V g[2]; g[0].resize(all); g[1].resize(all);
  for (auto& v : g) for (auto& x : v) x = ri(-500, 500);
  // a periodic basis on a two-sided grid presupposes equal values on both ends
  for (auto& v : g) for (int d = 0; d < D; ++d) if (b[d] == 2 && basis[d] % 2) {
    long long st = 1; for (int k = 0; k < d; ++k) st *= n[k];
    for (long long i = 0; i < all; ++i) if ((i / st) % n[d] == n[d] - 1) v[i] = v[i - st * (n[d] - 1)];
  }
  V e[2] = {g[0], g[1]};
  for (auto& v : e) for (int d = 0; d < D; ++d) if (dims[d] && lmin[d] < l[d]) {
    long long st = 1; for (int k = 0; k < d; ++k) st *= n[k];
    for (long long i = 0; i < all; ++i) if ((i / st) % n[d] == 0) {
      V y((1 << l[d]) + 1, 0.); int o = b[d] ? 0 : 1;
      for (int k = 0; k < n[d]; ++k) y[k + o] = v[i + k * st];
      if (b[d] == 1) y[n[d]] = y[0];
      ref(y, l[d], lmin[d], basis[d]);
      for (int k = 0; k < n[d]; ++k) v[i + k * st] = y[k + o];
    }
  }
  std::string id = cat("level ", vs(l), " boundary ", vs(b), " lmin ", vs(lmin), " procs ", vs(p), " basis");
  for (int d = 0; d < D; ++d) id += cat(d ? ", " : " ", names[basis[d]], dims[d] ? "" : " (off)");
  for (int d = 0; d < D; ++d) id += cat(" dec", d, vs(dec[d]));
  // one communicator per layout, kept alive (the library caches by handle)
  static std::map<std::vector<int>, MPI_Comm> carts;
  if (!carts.count(p)) {
    MPI_Comm sub, c = MPI_COMM_NULL;
    MPI_Comm_split(MPI_COMM_WORLD, me < P ? 0 : MPI_UNDEFINED, me, &sub);
    std::vector<int> per(D, 0), pp(p);
    if (sub != MPI_COMM_NULL) MPI_Cart_create(sub, D, pp.data(), per.data(), 0, &c);
    carts[p] = c;
  }
  MPI_Comm cart = carts[p];
  if (cart != MPI_COMM_NULL) {
    {
      OwningDistributedFullGrid<T> fg((DimType)D, l, cart, b, p, true, dec);
      HierarchicalHatBasisFunction f0; HierarchicalHatPeriodicBasisFunction f1; FullWeightingBasisFunction f2; FullWeightingPeriodicBasisFunction f3; BiorthogonalBasisFunction f4; BiorthogonalPeriodicBasisFunction f5;
      BasisFunctionBasis* bf[] = {&f0, &f1, &f2, &f3, &f4, &f5};
      std::vector<BasisFunctionBasis*> bs; for (int x : basis) bs.push_back(bf[x]);
      auto cmp = [&](V* w, const char* what) {
        for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) { auto k = fg.getGlobalLinearIndex(i); T x = fg.getData()[i]; ++pts;
          if (!(Mk<T>::re(x) == w[0][k] && (sizeof(T) == 8 || Mk<T>::im(x) == w[1][k]))) { CHECK(false, what, " ", id, " point ", k, " got ", x, " expected ", w[0][k]); return; } }
      };
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) { auto k = fg.getGlobalLinearIndex(i); fg.getData()[i] = Mk<T>::mk(g[0][k], g[1][k]); }
      DistributedHierarchization::hierarchize<T>(fg, dims, bs, lmin);
      cmp(e, "hierarchize");
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) { auto k = fg.getGlobalLinearIndex(i); fg.getData()[i] = Mk<T>::mk(e[0][k], e[1][k]); }
      DistributedHierarchization::dehierarchize<T>(fg, dims, bs, lmin);
      cmp(g, "dehierarchize");
      ++runs;
    }
  }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int me, W; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &W);
  // 1-d sweep: every basis, boundary, lmin, several decompositions
  int LM = thorough() ? 6 : 5;
  for (int L = 1; L <= LM; ++L) for (int b = 0; b <= 2; ++b) for (int basis = 0; basis < 6; ++basis) {
    if (b == 0 && basis != HAT) continue;
    if (b == 1 && basis != HAT && basis % 2 == 0) continue;
    for (int lmin = 0; lmin < L; ++lmin) {
      if (b == 0 && lmin) continue;
      int n = (1 << L) - 1 + b;
      std::set<int> ps; for (int p = 1; p <= W && p <= n; ++p) if (thorough() || p < 3 || p == W || p == n || (p + L + lmin) % 3 == 0) ps.insert(p);
      for (int p : ps) {
        test<double>(me, {L}, {(BoundaryType)b}, {basis}, {lmin}, {true}, {p}, randdec({n}, {p}));
        if (p > 1) test<std::complex<double>>(me, {L}, {(BoundaryType)b}, {basis}, {lmin}, {true}, {p}, randdec({n}, {p}));
      }
    }
  }
  // random d-dimensional cases
  int N = thorough() ? 20000 : 3000;
  for (int k = 0; k < N; ++k) {
    int D = ri(2, 4), LM2 = D == 2 ? 5 : D == 3 ? 4 : 2;
    LevelVector l(D), lm(D); std::vector<BoundaryType> b(D); std::vector<int> basis(D), p(D, 1), n(D); std::vector<bool> dims(D);
    for (int d = 0; d < D; ++d) {
      l[d] = ri(1, LM2); b[d] = (BoundaryType)ri(0, 2); dims[d] = ri(0, 5) > 0;
      basis[d] = b[d] == 0 ? HAT : b[d] == 1 ? (ri(0, 3) ? 2 * ri(0, 2) + 1 : HAT) : ri(0, 5);
      lm[d] = b[d] == 0 ? 0 : ri(0, 1) ? 0 : ri(0, l[d]);
      n[d] = (1 << l[d]) - 1 + b[d];
    }
    int tot = 1;
    for (int t = 0; t < 6; ++t) { int d = ri(0, D - 1), q = ri(1, W); if (q <= n[d] && tot / p[d] * q <= W) { tot = tot / p[d] * q; p[d] = q; } }
    auto dec = randdec(n, p);
    if (ri(0, 3)) test<double>(me, l, b, basis, lm, dims, p, dec); else test<std::complex<double>>(me, l, b, basis, lm, dims, p, dec);
  }
  long long s[3] = {runs, pts, nfail()}, r[3];
  MPI_Allreduce(s, r, 3, MPI_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
  if (me == 0) { covered("grid_ranks_transformed", r[0]); covered("points_compared", r[1]); }
  MPI_Finalize();
  if (me == 0) done();
  return 0;
}
