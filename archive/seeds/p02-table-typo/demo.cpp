#include "vh.hpp"
#include "utils/LevelVector.hpp"
#include "utils/PowerOfTwo.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int L = 2; L < 29; ++L) for (int k = 1; k < L; ++k) { long long f = 1LL << (L - k); int n = (1 << k) - 1;
    for (int c = 0; c < n && c < 50; ++c) for (int o = -1; o <= 1; ++o) { long long fine = (c + 1) * f - 1, lo = fine + o; if (lo <= 0) continue;
      auto r = downsampleDecomposition({IndexVector{0, (int)lo}}, LevelVector{L}, LevelVector{k}, std::vector<BoundaryType>{0});
      CHECK((r[0][1] <= c) == (lo <= fine), "from level ", L, " to ", k, " bound ", lo, " -> ", r[0][1]); } }
  return done();
}
