// P06 bounded stand-in / replay: real sparse grid registration, gather and scatter for every rank of random layouts
#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
using namespace combigrid;
using namespace vh;
static long long cases = 0, values = 0;
template <class T> struct Mk { static T mk(double a, double) { return a; } };
template <> struct Mk<std::complex<double>> { static std::complex<double> mk(double a, double b) { return {a, b}; } };
// hierarchical level (boundary counted to level 1) of a global 1-d index
static int lev(int i, int L, int b) { int q = i + (b ? 0 : 1); for (int l = 0; l <= L; ++l) if (q % (1 << (L - l)) == 0) return l ? l : 1; return -1; }
// coordinate on the reference axis of 2^20 cells: identifies the point independent of the grid
static long long co(int i, int L, int b) { return (long long)(i + (b ? 0 : 1)) << (20 - L); }
typedef std::vector<long long> Pt;
template <class T> using FG = OwningDistributedFullGrid<T>;
template <class T> struct G { std::unique_ptr<FG<T>> fg; LevelVector l; };
template <class T> static Pt point(FG<T>& g, IndexType i, const std::vector<BoundaryType>& b, LevelVector& s) {
  int D = (int)b.size(); IndexVector v(D); g.getGlobalVectorIndex(g.getGlobalLinearIndex(i), v);
  Pt p(D); s.resize(D);
  for (int d = 0; d < D; ++d) { p[d] = co(v[d], g.getLevels()[d], b[d]); s[d] = lev(v[d], g.getLevels()[d], b[d]); }
  return p;
}
// 1-d cut positions that are nested over all levels: cuts given as fractions of the coarsest level
static IndexVector cuts(const std::vector<int>& c, int lref, int l, int b) { IndexVector r; for (int x : c) { int q = x << (l - lref); r.push_back(x == 0 ? 0 : (b ? q : q - 1)); } return r; }
template <class T> static void run(int seed) {
  int D = ri(1, 3); int lm = ri(1, 2), lx = lm + ri(0, D == 1 ? 4 : D == 2 ? 3 : 2);
  std::vector<BoundaryType> b(D); std::vector<int> p(D); std::vector<std::vector<int>> cut(D);
  for (int d = 0; d < D; ++d) {
    b[d] = (BoundaryType)ri(0, 2); p[d] = ri(1, std::min(3, (1 << lm) - 1 + (b[d] ? 1 : 0)));
    std::set<int> s{0}; int lo = b[d] ? 1 : 2, hi = (1 << lm) - (b[d] ? 1 : 1);
    while ((int)s.size() < p[d]) { if (hi < lo) { p[d] = (int)s.size(); break; } s.insert(ri(lo, hi)); if ((int)s.size() > hi - lo + 1) { p[d] = (int)s.size(); break; } }
    p[d] = (int)s.size(); cut[d].assign(s.begin(), s.end());
  }
  // the sparse grid: either a truncated level set or an arbitrary sorted list of subspaces
  std::vector<LevelVector> subs; bool partial = ri(0, 2) == 0;
  { LevelVector s(D, 1); while (true) { int sum = 0; for (int x : s) sum += x; if (partial ? ri(0, 2) > 0 : sum <= lx + (D - 1) * lm) subs.push_back(s); int d = D - 1; while (d >= 0 && ++s[d] > lx) s[d--] = 1; if (d < 0) break; } }
  if (subs.empty()) return;
  std::sort(subs.begin(), subs.end(), [](const LevelVector& x, const LevelVector& y) { return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()); });
  std::vector<LevelVector> gl; for (int k = ri(1, 4); k > 0; --k) { LevelVector l(D); for (int d = 0; d < D; ++d) l[d] = ri(lm, lx); gl.push_back(l); }
  int r = ri(0, fc::prod(p) - 1);
  auto c = fc::make(p, r);
  std::string id = cat("case ", seed, " boundary ", vs(b), " procs ", vs(p), " rank ", r, " levels"); for (auto& l : gl) id += vs(l); id += " subspaces"; for (auto& s : subs) id += vs(s);
  ++cases;
  DistributedSparseGridUniform<T> dsg((DimType)D, subs, c), other((DimType)D, subs, c);
  std::vector<std::unique_ptr<FG<T>>> g;
  for (auto& l : gl) { std::vector<IndexVector> dec; for (int d = 0; d < D; ++d) dec.push_back(cuts(cut[d], lm, l[d], b[d])); g.emplace_back(new FG<T>((DimType)D, l, c, b, p, true, dec)); }
  for (auto& f : g) { dsg.registerDistributedFullGrid(*f); other.registerDistributedFullGrid(*f); }
  // expected sizes: number of local points of the subspace in any grid containing it
  std::map<LevelVector, std::set<Pt>, std::function<bool(const LevelVector&, const LevelVector&)>> pts([](const LevelVector& x, const LevelVector& y) { return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()); });
  for (auto& f : g) for (IndexType i = 0; i < f->getNrLocalElements(); ++i) { LevelVector s; Pt q = point(*f, i, b, s); pts[s].insert(q); }
  size_t total = 0;
  for (size_t k = 0; k < subs.size(); ++k) {
    size_t e = pts.count(subs[k]) ? pts[subs[k]].size() : 0; total += e;
    CHECK(dsg.getDataSize((int)k) == e, id, " size of subspace ", vs(subs[k]), " is ", dsg.getDataSize((int)k), " expected ", e);
    CHECK(dsg.getIndex(subs[k]) == (int)k, id, " index of ", vs(subs[k]));
  }
  if (nfail()) return;
  { // sizes are reconciled to the larger of the two
    DistributedSparseGridUniform<T> part((DimType)D, subs, c), rest((DimType)D, subs, c); int cutg = ri(0, (int)g.size());
    for (int k = 0; k < (int)g.size(); ++k) (k < cutg ? part : rest).registerDistributedFullGrid(*g[k]);
    part.maxReduceSubspaceSizes(rest);
    for (size_t k = 0; k < subs.size(); ++k) CHECK(part.getDataSize((int)k) == dsg.getDataSize((int)k), id, " reconciled size of subspace ", vs(subs[k]), ": ", part.getDataSize((int)k), " expected ", dsg.getDataSize((int)k));
    if (nfail()) return;
  }
  if (total == 0) return;
  for (auto* s : {&dsg, &other}) { s->createSubspaceData(); CHECK(s->getRawDataSize() == total, id, " raw size ", s->getRawDataSize()); }
  size_t off = 0;
  for (size_t k = 0; k < subs.size(); ++k) { CHECK(dsg.getData((int)k) == dsg.getRawData() + off, id, " block of subspace ", k); off += dsg.getDataSize((int)k); }
  if (nfail()) return;
  // history of operations against a point-wise model
  std::map<std::pair<int, Pt>, T> model;      // (subspace, point) -> value
  std::map<std::pair<int, Pt>, double> mag;   // sum of the magnitudes added since the entry was reset (only used in rounding mode)
  bool rounding = ri(0, 2) == 0; double tol = rounding ? 1e-12 : 0.;
  std::map<int, std::pair<double, double>> mm;       // recorded minimum and maximum per subspace
  std::set<int> alloc; for (size_t k = 0; k < subs.size(); ++k) alloc.insert((int)k);
  auto has = [&](const LevelVector& s) { for (size_t k = 0; k < subs.size(); ++k) if (same(subs[k], s)) return (int)k; return -1; };
  std::vector<std::vector<T>> orig;
  for (auto& f : g) { std::vector<T> v(f->getNrLocalElements()); double sc = rounding ? std::pow(10., ri(-2, 14)) / 3. : 1.; for (auto& x : v) x = Mk<T>::mk(sc * ri(-1000, 1000), sc * ri(-1000, 1000)); orig.push_back(v); }
  bool part = false;
  for (int step = 0; step < 8; ++step) {
    int op = ri(0, 7);
    if (op <= 2) {                                   // add a grid
      int k = ri(0, (int)g.size() - 1); double cf = ri(-3, 3);
      std::copy(orig[k].begin(), orig[k].end(), g[k]->getData());
      if (part) dsg.template addDistributedFullGrid<false>(*g[k], cf); else dsg.addDistributedFullGrid(*g[k], cf);
      for (IndexType i = 0; i < g[k]->getNrLocalElements(); ++i) { LevelVector s; Pt q = point(*g[k], i, b, s); int n = has(s); if (n >= 0 && alloc.count(n)) { model[{n, q}] += cf * orig[k][i]; mag[{n, q}] += std::abs(cf * orig[k][i]); } CHECK(g[k]->getData()[i] == orig[k][i], id, " grid changed"); }
    } else if (op == 3) {                            // other allocation or reset
      if (ri(0, 1)) { std::set<SubspaceSizeType> dummy; std::set<AnyDistributedSparseGrid::SubspaceIndexType> a; if (ri(0, 2) == 0) for (auto x : alloc) a.insert(x); else for (size_t k = 0; k < subs.size(); ++k) if (ri(0, 1)) a.insert((int)k); if (a.empty() || dsg.getAccumulatedDataSize(a) == 0) continue; alloc.clear(); for (auto x : a) alloc.insert(x); size_t want = dsg.getAccumulatedDataSize(a); dsg.allocateDifferentSubspaces(std::move(a)); part = true; CHECK(dsg.getRawDataSize() == want, id, " raw size after reallocation"); }
      else dsg.setZero();
      model.clear(); mag.clear();
    } else if (op == 4 && !part) {                   // copy to another sparse grid and back
      other.setZero(); other.copyDataFrom(dsg); dsg.setZero(); dsg.copyDataFrom(other); other.setZero();
      // the compensation terms are reset together with the values: later additions start from the copied value
    }
    else if (op >= 6) {                              // record extreme coefficients
      if (op == 7 && ri(0, 3) == 0) { dsg.clearMinMaxCoefficientsPerSubspace(); mm.clear(); }
      dsg.accumulateMinMaxCoefficients();
      for (int k : alloc) { size_t n = dsg.getDataSize(k); for (size_t j = 0; j < n; ++j) { double x = std::real(dsg.getData(k)[j]); auto it = mm.find(k); if (it == mm.end()) mm[k] = {x, x}; else { it->second.first = std::min(it->second.first, x); it->second.second = std::max(it->second.second, x); } } }
      for (auto& m : mm) { double lo = dsg.getMinCoefficientsPerSubspace()[m.first], hi = dsg.getMaxCoefficientsPerSubspace()[m.first]; CHECK(lo == m.second.first && hi == m.second.second, id, " step ", step, " recorded extremes of subspace ", m.first, ": ", lo, " .. ", hi, " expected ", m.second.first, " .. ", m.second.second); }
      if (nfail()) return;
    }
    // extract into every grid
    for (size_t k = 0; k < g.size(); ++k) {
      for (IndexType i = 0; i < g[k]->getNrLocalElements(); ++i) g[k]->getData()[i] = Mk<T>::mk(7777, 1);
      size_t n = part ? g[k]->template extractFromUniformSG<false>(dsg) : g[k]->template extractFromUniformSG<true>(dsg), e = 0;
      for (IndexType i = 0; i < g[k]->getNrLocalElements(); ++i) {
        LevelVector s; Pt q = point(*g[k], i, b, s); int h = has(s); T x = Mk<T>::mk(7777, 1);
        if (h >= 0 && alloc.count(h)) { x = model.count({h, q}) ? model[{h, q}] : T(0); ++e; }
        ++values;
        double m = h >= 0 && mag.count({h, q}) ? mag[{h, q}] : 0.;
        if (!(std::abs(g[k]->getData()[i] - x) <= tol * m)) { CHECK(false, id, " step ", step, " op ", op, " grid ", k, " local point ", i, " subspace ", vs(s), " got ", g[k]->getData()[i], " expected ", x); return; }
      }
      CHECK(n == e, id, " number of extracted values ", n, " expected ", e);
    }
    // and nothing else is stored
    T sum = 0, want = 0; for (size_t k = 0; k < dsg.getRawDataSize(); ++k) sum += dsg.getRawData()[k]; for (auto& m : model) want += m.second;
    double tm = 0; for (auto& m : mag) tm += m.second; CHECK(std::abs(sum - want) <= tol * tm * 10, id, " step ", step, " stored sum ", sum, " expected ", want);
    if (nfail()) return;
  }
}
int main() {
  int N = thorough() ? 8000 : 1500;
  for (int k = 0; k < N && !nfail(); ++k) { if (ri(0, 1)) run<double>(k); else run<std::complex<double>>(k); }
  covered("sparse_grids", cases); covered("values_compared", values);
  return done();
}
