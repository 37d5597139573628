// P05: generated combination schemes, checked per hierarchical subspace against the definition
#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include <algorithm>
using namespace combigrid;
using namespace vh;
static long long rejected = 0, schemes = 0, subspaces = 0;
static bool leq(const LevelVector& a, const LevelVector& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true; }
// lexicographically next vector in [1,up], false at the end
static bool next(LevelVector& v, const LevelVector& lo, const LevelVector& up) { for (int d = (int)v.size() - 1; d >= 0; --d) { if (++v[d] <= up[d]) return true; v[d] = lo[d]; } return false; }
static std::set<LevelVector> unionDown(const std::vector<LevelVector>& gs) {
  std::set<LevelVector> s;
  for (auto& g : gs) { LevelVector one(g.size(), 1), v = one; do s.insert(v); while (next(v, one, g)); }
  return s;
}
static void downClosed(const std::vector<LevelVector>& ls, const std::string& id, const char* what) {
  std::set<LevelVector> s(ls.begin(), ls.end());
  CHECK(s.size() == ls.size(), id, " duplicates in ", what);
  for (auto& l : s) for (size_t d = 0; d < l.size(); ++d) {
    CHECK(l[d] >= 1, id, " ", what, " contains ", vs(l));
    if (l[d] > 1) { auto m = l; --m[d]; CHECK(s.count(m), id, " ", what, " contains ", vs(l), " but not ", vs(m)); }
  }
}
static void consistent(const CombiMinMaxScheme& c, const LevelVector& lmin, const LevelVector& lmax, const std::string& id) {
  auto& sp = c.getCombiSpaces(); auto& co = c.getCoeffs();
  CHECK(sp.size() == co.size(), id, " ", sp.size(), " grids, ", co.size(), " coefficients");
  if (sp.size() != co.size()) return;
  CHECK(!sp.empty(), id, " no component grids");
  CHECK(std::set<LevelVector>(sp.begin(), sp.end()).size() == sp.size(), id, " duplicate grids");
  for (auto& l : sp) { CHECK(l.size() == lmin.size(), id, " grid ", vs(l)); if (l.size() != lmin.size()) return; CHECK(leq(lmin, l) && leq(l, lmax), id, " grid ", vs(l), " outside"); }
  std::map<LevelVector, double> sum;
  for (size_t i = 0; i < sp.size(); ++i) { LevelVector one(sp[i].size(), 1), v = one; do sum[v] += co[i]; while (next(v, one, sp[i])); }
  for (auto& s : sum) { ++subspaces; CHECK(std::abs(s.second - 1.) < 1e-9, id, " subspace ", vs(s.first), " has coefficient sum ", s.second); }
}
static void derived(CombiMinMaxScheme& c, const LevelVector& lmin, const std::string& id) {
  auto& sp = c.getCombiSpaces();
  auto u = unionDown(sp);
  downClosed(c.getDownSet(), id, "down set");
  { std::set<LevelVector> s(c.getDownSet().begin(), c.getDownSet().end()); for (auto& l : u) CHECK(s.count(l), id, " down set misses ", vs(l)); }
  c.createDownSet();
  CHECK(c.getDownSet().size() == u.size() && std::set<LevelVector>(c.getDownSet().begin(), c.getDownSet().end()) == u, id, " regenerated down set differs from the covered subspaces");
  downClosed(c.getDownSet(), id, "regenerated down set");
  auto cj = getConjointSet(c, lmin);
  downClosed(cj, id, "conjoint set");
  for (auto& l : cj) CHECK(u.count(l), id, " conjoint set contains uncovered ", vs(l));
}
static void one(const LevelVector& lmin, const LevelVector& lmax) {
  DimType dim = (DimType)lmin.size();
  for (int kind = 0; kind < 2; ++kind) for (int ft = 0; ft < 2; ++ft) {
    ++schemes;
    std::string id = cat(kind ? "adaptive" : "classical", ft ? "+ft" : "", " lmin ", vs(lmin), " lmax ", vs(lmax));
    CombiMinMaxScheme c(dim, lmin, lmax);
    try { if (kind) c.createAdaptiveCombischeme(); else c.createClassicalCombischeme(); }
    catch (const std::runtime_error&) { CHECK(kind == 1, id, " rejected"); ++rejected; continue; }   // adaptive: no level set for very uneven level ranges
    auto sp = c.getCombiSpaces(); auto co = c.getCoeffs();
    if (ft) {
      c.makeFaultTolerant();
      auto& sp2 = c.getCombiSpaces(); auto& co2 = c.getCoeffs();
      bool ok = sp2.size() >= sp.size() && co2.size() >= co.size() && std::equal(sp.begin(), sp.end(), sp2.begin()) && std::equal(co.begin(), co.end(), co2.begin());
      CHECK(ok, id, " changed existing grids");
      for (size_t i = co.size(); i < co2.size(); ++i) CHECK(co2[i] == 0., id, " added grid ", i, " has coefficient ", co2[i]);
    }
    consistent(c, lmin, lmax, id);
    if (ft == 0) for (double x : c.getCoeffs()) CHECK(x != 0., id, " grid with coefficient zero");
    if (!ft || schemes % 7 == 0) derived(c, lmin, id);
  }
}
static void downset(const LevelVector& l) {
  LevelVector one(l.size(), 1), v = one;
  std::vector<LevelVector> e; do e.push_back(v); while (next(v, one, l));
  auto g = getDownSet(l);
  CHECK(same(g, e), "getDownSet ", vs(l), " size ", g.size(), " expected ", e.size());
  HypercubeDownSetGenerator gen(l);
  CHECK((size_t)gen.getTotalNumberOfLevels() == e.size(), "generator ", vs(l));
  std::vector<LevelVector> h; for (size_t i = 0; i < e.size(); ++i) h.push_back(gen.getNextLevel());
  auto hs = h; std::sort(hs.begin(), hs.end());
  CHECK(same(hs, e), "HypercubeDownSetGenerator ", vs(l));
  for (size_t k = 0; k <= l.size(); ++k) {
    auto& cs = AllKOutOfDDimensions::get((DimType)k, (DimType)l.size());
    std::set<std::vector<DimType>> s(cs.begin(), cs.end());
    size_t b = 1; for (size_t i = 0; i < k; ++i) b = b * (l.size() - i) / (i + 1);
    CHECK(s.size() == cs.size() && cs.size() == b, "k out of d ", k);
    for (auto& x : cs) { CHECK(x.size() == k && std::is_sorted(x.begin(), x.end()) && std::adjacent_find(x.begin(), x.end()) == x.end(), "k out of d ", k); for (auto y : x) CHECK(y < l.size(), "k out of d"); }
  }
}
// classical coefficients for given grids on the diagonals, up to many dimensions
struct Coeffs : public CombiMinMaxScheme {
  Coeffs(int dim, LevelType top) : CombiMinMaxScheme((DimType)dim, LevelVector(dim, 1), LevelVector(dim, top)) {
    n_ = (LevelType)(dim + top - 1); effDim_ = (DimType)dim;
    for (int q = 0; q < dim && q < top; ++q) { LevelVector l(dim, 1); l[ri(0, dim - 1)] = (LevelType)(top - q); combiSpaces_.push_back(l); }
    computeCombiCoeffsClassical();
    CHECK(coefficients_.size() == combiSpaces_.size(), "coefficients dim ", dim);
    double b = 1.;
    for (size_t q = 0; q < coefficients_.size(); ++q) { CHECK(std::abs(coefficients_[q] - (q % 2 ? -b : b)) <= 1e-9 * b, "classical coefficient dimension ", dim, " diagonal ", q, " is ", coefficients_[q], " expected ", q % 2 ? -b : b); b = b * (double)(dim - 1 - q) / (double)(q + 1); }
  }
};
int main() {
  for (int dim = 1; dim <= 30; ++dim) for (int top = 2; top < 30; top += 3) Coeffs(dim, (LevelType)top);
  for (int d = 16; d >= 1; --d) for (int k = 0; k <= d; ++k) {
    auto& cs = AllKOutOfDDimensions::get((DimType)k, (DimType)d);
    std::set<std::vector<DimType>> s(cs.begin(), cs.end());
    size_t b = 1; for (int i = 0; i < k; ++i) b = b * (size_t)(d - i) / (size_t)(i + 1);
    CHECK(s.size() == cs.size() && cs.size() == b, k, " out of ", d, " dimensions: ", cs.size(), " combinations");
    for (auto& x : cs) { bool ok = (int)x.size() == k && std::is_sorted(x.begin(), x.end()) && std::adjacent_find(x.begin(), x.end()) == x.end() && (x.empty() || x.back() < d); CHECK(ok, k, " out of ", d, " contains ", vs(x)); }
  }
  for (int dim = 7; dim <= 8; ++dim) { LevelVector a(dim, 1), b(dim, 2); one(a, b); }
  // every scheme with small levels
  for (int dim = 1; dim <= 4; ++dim) {
    int M = dim <= 2 ? 6 : dim == 3 ? 4 : 3;
    LevelVector lo(dim, 1), lmin(dim, 1), top(dim, dim == 4 ? 2 : 3);
    do {
      LevelVector df(dim, 0), dl(dim, 0), dm(dim, M - 1);
      do { LevelVector lmax(dim); for (int d = 0; d < dim; ++d) lmax[d] = lmin[d] + df[d]; one(lmin, lmax); } while (next(df, dl, dm));
    } while (next(lmin, lo, top));
  }
  // larger and higher-dimensional ones
  int T = thorough() ? 400 : 60;
  for (int t = 0; t < T; ++t) {
    int dim = ri(1, 6); LevelVector a(dim), b(dim);
    int mx = dim <= 2 ? 20 : dim == 3 ? 8 : dim == 4 ? 5 : 3, same = ri(0, 2), q = ri(1, mx);
    for (int d = 0; d < dim; ++d) { a[d] = ri(1, dim <= 3 ? 4 : 2); b[d] = a[d] + (same == 0 ? q : same == 1 ? ri(0, 1) * q : ri(0, mx)); }
    one(a, b);
  }
  { LevelVector a(6, 1), b(6, 5); one(a, b); }          // several hundred component grids
  { LevelVector a(2, 1), b(2, 28); one(a, b); }
  { LevelVector a(2, 1), b(2, 140); CombiMinMaxScheme c(2, a, b); c.createClassicalCombischeme(); consistent(c, a, b, "classical (1,1)-(140,140)"); }
  for (int dim = 1; dim <= 4; ++dim) { LevelVector lo(dim, 1), l(dim, 1), up(dim, dim <= 2 ? 7 : dim == 3 ? 5 : 4); do downset(l); while (next(l, lo, up)); }
  downset({2, 1, 3, 1, 2, 2});
  // scheme given explicitly
  { std::vector<LevelVector> ls{{3, 1}, {2, 2}, {1, 3}, {2, 1}, {1, 2}}; CombiMinMaxScheme c(ls, {1, 1, 1, -1, -1}); consistent(c, {1, 1}, {3, 3}, "explicit"); c.createDownSet(); auto u = unionDown(ls); CHECK(std::set<LevelVector>(c.getDownSet().begin(), c.getDownSet().end()) == u && u.size() == c.getDownSet().size(), "explicit down set"); }
  covered("schemes", schemes); covered("rejected_with_exception", rejected); covered("subspace_sums", subspaces);
  return done();
}
