#include "vh.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int n : {4, 10, 37}) for (auto fr : std::vector<std::vector<real>>{{.5, .5}, {.7, .2, .1}, {.25, .75}}) {
    std::vector<LevelVector> l; std::vector<real> c; for (int i = 1; i <= n; ++i) { l.push_back(LevelVector{i, n + 1 - i}); c.push_back(i); }
    size_t tot = 0; for (unsigned k = 0; k < fr.size(); ++k) { std::vector<LevelVector> a; std::vector<real> b; CombiThirdLevelScheme::createThirdLevelScheme(l, c, k, fr.size(), a, b, fr); tot += a.size(); }
    CHECK(tot == l.size(), n, " grids, fractions ", vs(fr), ": ", tot, " assigned");
  }
  return done();
}
