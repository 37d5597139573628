#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int big : {4, 13}) {
    std::vector<LevelVector> l; std::vector<real> c; for (int i = 1; i <= 20; ++i) { l.push_back(LevelVector{big, big, big == 4 ? i % 3 + 1 : 3}); c.push_back(1.); }
    CombiMinMaxScheme s(l, c); std::vector<BoundaryType> b(3, 2); std::vector<long long> load(3, 0), last(3, 0);
    for (int g = 0; g < 3; ++g) { std::vector<LevelVector> a; std::vector<real> cc; std::vector<size_t> t; getLoadBalancedLevels(s, g, 3, b, a, cc, t); for (auto& x : a) load[g] += last[g] = getCombiDegreesOfFreedom(x, b); }
    for (int g = 0; g < 3; ++g) for (int h = 0; h < 3; ++h) CHECK(load[g] - last[g] <= load[h], "levels ", big, " group ", g, " load ", load[g], " group ", h, " load ", load[h]);
  }
  return done();
}
