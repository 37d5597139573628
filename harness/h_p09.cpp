// P09: assignment of component grids to systems and process groups
#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include <algorithm>
#include <fstream>
using namespace combigrid;
using namespace vh;
static long long cases = 0;
struct Scheme { std::vector<LevelVector> l; std::vector<real> c; };
static Scheme rnds(int n, int dim, int mx) {
  Scheme s; std::set<LevelVector> seen;
  while ((int)s.l.size() < n) { LevelVector l(dim); for (auto& x : l) x = ri(1, mx); if (!seen.insert(l).second) continue; s.l.push_back(l); s.c.push_back((double)s.l.size() * (ri(0, 1) ? 1. : -1.)); }
  return s;
}
typedef std::function<size_t(int, std::vector<LevelVector>&, std::vector<real>&, std::vector<size_t>&)> F;
static std::vector<int> partition(const Scheme& s, int G, F f, const std::string& id) {
  ++cases;
  std::vector<int> owner(s.l.size(), -1);
  for (int g = 0; g < G; ++g) {
    std::vector<LevelVector> l; std::vector<real> c; std::vector<size_t> t;
    size_t n = f(g, l, c, t);
    CHECK(n == s.l.size(), id, " total ", n);
    CHECK(l.size() == t.size() && c.size() == t.size(), id, " sizes");
    for (size_t i = 0; i < t.size(); ++i) {
      CHECK(t[i] < s.l.size(), id, " number ", t[i]);
      if (t[i] >= s.l.size() || i >= l.size() || i >= c.size()) continue;
      CHECK(same(l[i], s.l[t[i]]), id, " level of ", t[i]);
      CHECK(c[i] == s.c[t[i]], id, " coefficient of ", t[i]);
      CHECK(owner[t[i]] == -1, id, " grid ", t[i], " assigned to ", owner[t[i]], " and ", g);
      owner[t[i]] = g;
    }
  }
  for (size_t i = 0; i < owner.size(); ++i) CHECK(owner[i] >= 0, id, " grid ", i, " of ", owner.size(), " not assigned");
  return owner;
}
static long long dof(const LevelVector& l, const std::vector<BoundaryType>& b) { long long n = 1; for (size_t d = 0; d < l.size(); ++d) n *= (1LL << l[d]) - 1 + b[d]; return n; }
static void groups(const Scheme& s, int G) {
  CombiMinMaxScheme sc(s.l, s.c);
  std::string id = cat(s.l.size(), " grids ", G, " groups");
  auto o = partition(s, G, [&](int g, auto& l, auto& c, auto& t) { return getRoundRobinLevels(sc, g, G, l, c, t); }, "round robin " + id);
  std::vector<int> cnt(G, 0); for (int x : o) if (x >= 0 && x < G) cnt[x]++;
  CHECK(*std::max_element(cnt.begin(), cnt.end()) - *std::min_element(cnt.begin(), cnt.end()) <= 1, "round robin ", id, " uneven");
  for (int bb = 0; bb < 3; ++bb) {
    std::vector<BoundaryType> b(s.l[0].size()); for (auto& x : b) x = (BoundaryType)(bb < 2 ? bb : ri(0, 2));
    // order in which a group received its grids
    std::vector<std::vector<size_t>> seq(G);
    auto ow = partition(s, G, [&](int g, auto& l, auto& c, auto& t) { auto r = getLoadBalancedLevels(sc, g, G, b, l, c, t); seq[g].assign(t.begin(), t.end()); return r; }, "load balanced " + id);
    std::vector<long long> load(G, 0); for (size_t i = 0; i < ow.size(); ++i) if (ow[i] >= 0) load[ow[i]] += dof(s.l[i], b);
    // without its last and smallest grid a group was least loaded
    for (int g = 0; g < G; ++g) { if (seq[g].empty()) continue; long long sm = dof(s.l[seq[g].back()], b); for (auto i : seq[g]) CHECK(dof(s.l[i], b) >= sm, "load balanced ", id, " order"); for (int h = 0; h < G; ++h) CHECK(load[g] - sm <= load[h], "load balanced ", id, " group ", g, " load ", load[g], " got a grid of ", sm, " while group ", h, " has only ", load[h]); }
  }
}
static void systems(const Scheme& s, const std::vector<real>& fr) {
  int S = (int)fr.size();
  ++cases;
  std::string id = cat(s.l.size(), " grids fractions ", vs(fr));
  std::vector<LevelVector> al; std::vector<real> ac;
  double scan = 0.;
  for (int k = 0; k < S; ++k) {
    std::vector<LevelVector> l; std::vector<real> c;
    CombiThirdLevelScheme::createThirdLevelScheme(s.l, s.c, k, S, l, c, fr);
    CHECK(l.size() == c.size(), id, " system ", k);
    double want = s.l.size() * fr[k];
    CHECK(std::abs((double)l.size() - want) <= 1. + 1e-6, id, " system ", k, " got ", l.size(), " grids");
    al.insert(al.end(), l.begin(), l.end()); ac.insert(ac.end(), c.begin(), c.end());
    scan += fr[k];
  }
  CHECK(same(al, s.l) && same(ac, s.c), id, " parts do not make up the scheme: ", al.size());
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int T = thorough() ? 2000 : 300;
  for (int n = 1; n <= 24; ++n) for (int G = 1; G <= n; ++G) groups(rnds(n, ri(2, 4), 8), G);
  for (int t = 0; t < T / 10; ++t) { int n = ri(1, 400); groups(rnds(n, ri(3, 6), 9), ri(1, std::min(n, 60))); }
  groups(rnds(300, 4, 13), 300);
  { Scheme s = rnds(700, 3, 12); groups(s, 3); groups(s, 257); }
  { Scheme s; for (int i = 1; i <= 20; ++i) { s.l.push_back(LevelVector{i, 21 - i, 10, 3}); s.c.push_back(i % 2 ? 1. : -1.); } groups(s, 4); }      // loads beyond 32 bit
  for (int n : {1, 2, 3, 5, 7, 10, 33, 100, 255, 256, 257, 1000, 70000}) {
    Scheme s = rnds(n, 6, 9);
    for (auto fr : std::vector<std::vector<real>>{{1.}, {.5, .5}, {0., 1.}, {1., 0.}, {.25, .75}, {.1, .9}, {1. / 3, 1. / 3, 1. / 3}, {.1, .2, .3, .4}, {.5, 0., .5}, {.7, .2, .1}, {1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7}}) systems(s, fr);
  }
  for (int t = 0; t < T; ++t) {
    int n = ri(1, 500), S = ri(1, 6); std::vector<real> fr(S); double q = 0; for (auto& f : fr) { f = rr(0, 1); q += f; } for (auto& f : fr) f /= q;
    systems(rnds(n, 5, 9), fr);
  }
  // scheme file with group numbers
  for (int t = 0; t < 20; ++t) {
    int n = ri(1, 60), dim = ri(2, 4), G = ri(1, std::min(n, 9)); Scheme s = rnds(n, dim, 9);
    std::vector<int> g(n); for (int i = 0; i < n; ++i) g[i] = i < G ? i : ri(0, G - 1);
    std::random_shuffle(g.begin(), g.end(), [](int k) { return ri(0, k - 1); });
    { std::ofstream f("p09scheme.json"); f.precision(17); f << "[\n"; for (int i = 0; i < n; ++i) { f << " {\"coeff\": " << s.c[i] << ", \"level\": ["; for (int d = 0; d < dim; ++d) f << (d ? ", " : "") << s.l[i][d]; f << "], \"group_no\": " << g[i] << "}" << (i + 1 < n ? "," : "") << "\n"; } f << "]\n"; }
    CombiMinMaxSchemeFromFile sc((DimType)dim, LevelVector(dim, 1), LevelVector(dim, 9), "p09scheme.json");
    CHECK(same(sc.getCombiSpaces(), s.l) && same(sc.getCoeffs(), s.c), "scheme file ", n);
    auto o = partition(s, G, [&](int gg, auto& l, auto& c, auto& tt) { return getAssignedLevels(sc, gg, l, c, tt); }, cat("scheme file ", n, " grids ", G, " groups"));
    CHECK(same(o, g), "scheme file: groups differ");
    remove("p09scheme.json");
  }
  covered("assignments", cases);
  MPI_Finalize();
  return done();
}
