#include "vh.hpp"
#include "utils/LevelSetUtils.hpp"
#include <algorithm>
using namespace combigrid; using namespace vh;
int main() {
  for (int d = 9; d >= 1; --d) for (int k = 0; k <= d; ++k) {
    auto& cs = AllKOutOfDDimensions::get((DimType)k, (DimType)d);
    size_t b = 1; for (int i = 0; i < k; ++i) b = b * (size_t)(d - i) / (size_t)(i + 1);
    CHECK(cs.size() == b, k, " out of ", d, ": ", cs.size());
    for (auto& x : cs) CHECK((int)x.size() == k, k, " out of ", d, ": ", vs(x));
  }
  return done();
}
