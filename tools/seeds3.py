import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mkseed
mkseed('p09-truncated-split', 'P09', [('src/combischeme/CombiThirdLevelScheme.cpp', 'auto currentSystemUpToIndex = std::round(static_cast<real>(fullScheme.size()) * scannedFrac);', 'const auto currentSystemUpToIndex =\n        static_cast<std::ptrdiff_t>(static_cast<real>(fullScheme.size()) * scannedFrac);')],
 'fractions whose floating point sum stays just below one, e.g. 0.7 + 0.2 + 0.1', 'the last component grid is assigned to no system',
 '''#include "vh.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int n : {4, 10, 37}) for (auto fr : std::vector<std::vector<real>>{{.5, .5}, {.7, .2, .1}, {.25, .75}}) {
    std::vector<LevelVector> l; std::vector<real> c; for (int i = 1; i <= n; ++i) { l.push_back(LevelVector{i, n + 1 - i}); c.push_back(i); }
    size_t tot = 0; for (unsigned k = 0; k < fr.size(); ++k) { std::vector<LevelVector> a; std::vector<real> b; CombiThirdLevelScheme::createThirdLevelScheme(l, c, k, fr.size(), a, b, fr); tot += a.size(); }
    CHECK(tot == l.size(), n, " grids, fractions ", vs(fr), ": ", tot, " assigned");
  }
  return done();
}
''', sources=['src/combischeme/CombiThirdLevelScheme.cpp', 'src/utils/LevelVector.cpp'])
mkseed('p09-int-load', 'P09', [('src/combischeme/CombiMinMaxScheme.hpp', '''  std::map<RankType, long long> loadAssignedToGroup;''', '''  std::vector<IndexType> loadAssignedToGroup(totalNumGroups, 0);'''),
  ('src/combischeme/CombiMinMaxScheme.hpp', '    loadAssignedToGroup[minGroup] += getCombi', '    loadAssignedToGroup[minGroup] += (IndexType)getCombi')],
 'component grids whose accumulated degrees of freedom exceed 2^31', 'the next grid goes to a heavily loaded group whose counter has wrapped around',
 '''#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int big : {4, 13}) {
    std::vector<LevelVector> l; std::vector<real> c; for (int i = 1; i <= 20; ++i) { l.push_back(LevelVector{big, big, big == 4 ? i % 3 + 1 : 3}); c.push_back(1.); }
    CombiMinMaxScheme s(l, c); std::vector<BoundaryType> b(3, 2); std::vector<long long> load(3, 0), last(3, 0);
    for (int g = 0; g < 3; ++g) { std::vector<LevelVector> a; std::vector<real> cc; std::vector<size_t> t; getLoadBalancedLevels(s, g, 3, b, a, cc, t); for (auto& x : a) load[g] += last[g] = getCombiDegreesOfFreedom(x, b); }
    for (int g = 0; g < 3; ++g) for (int h = 0; h < 3; ++h) CHECK(load[g] - last[g] <= load[h], "levels ", big, " group ", g, " load ", load[g], " group ", h, " load ", load[h]);
  }
  return done();
}
''', sources=['src/combischeme/CombiMinMaxScheme.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp'])
