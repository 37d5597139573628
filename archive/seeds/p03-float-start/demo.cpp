#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int l : {4, 25}) for (int b = 0; b < 3; ++b) {
    int n = (1 << l) - 1 + b, cut = n - 7; std::vector<int> p{2};
    OwningDistributedFullGrid<double> g(1, LevelVector{l}, fc::make(p, 1), std::vector<BoundaryType>{(BoundaryType)b}, p, true, std::vector<IndexVector>{{0, cut}});
    for (int s = l; s >= l - 1; --s) {
      IndexVector e, v; for (int i = cut; i < n; ++i) { int q = i + (b ? 0 : 1), z = 0; while (!(q & 1)) { q >>= 1; ++z; } if (l - z == s) e.push_back(i - cut); }
      g.get1dIndicesLocal(0, s, v); CHECK(same(v, e), "level ", l, " subspace ", s, " boundary ", b, " got ", vs(v), " expected ", vs(e));
    }
  }
  return done();
}
