import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mkseed
FG = 'src/fullgrid/DistributedFullGrid.hpp'
mkseed('p01-float-quotient', 'P01', [('src/fullgrid/Tensor.hpp', 'const auto quotient = index / localOffsets_[dim_i];\n      const auto remainder = index % localOffsets_[dim_i];',
 '// multiply with the reciprocal instead of two integer divisions\n      const auto quotient =\n          static_cast<IndexType>(static_cast<float>(index) / static_cast<float>(localOffsets_[dim_i]));\n      const auto remainder = index - quotient * localOffsets_[dim_i];')],
 'a grid with more than 2^24 points and an index whose quotient rounds up in single precision', 'linear index -> index vector is no longer the inverse of index vector -> linear index',
 '''#include "vh.hpp"
#include "fullgrid/Tensor.hpp"
using namespace combigrid; using namespace vh;
int main() {
  std::vector<IndexVector> es{{5, 7}, {4097, 4097}, {33, 1025, 513}, {65537, 3, 129}};
  for (auto e : es) { TensorIndexer t{IndexVector(e)}; long long n = t.size();
    for (long long k = 0; k < 200000; ++k) { IndexType i = (IndexType)((n - 1) - k * 37 % n); IndexVector v = t.getVectorIndex(i);
      for (size_t d = 0; d < e.size(); ++d) CHECK(v[d] >= 0 && v[d] < e[d], vs(e), " index ", i, " ", vs(v));
      CHECK(t.sequentialIndex(v) == i, vs(e), " index ", i, " ", vs(v)); } }
  return done();
}
''')
mkseed('p02-hoisted-ratio', 'P02', [('src/utils/DecompositionUtils.hpp', '''      double tmp = static_cast<double>(globalNumPointsPerDimension[i]) * static_cast<double>(j) /
                   static_cast<double>(cartesianProcsPerDimension[i]);''',
'''      const double pointsPerProcess = static_cast<double>(globalNumPointsPerDimension[i]) /
                                      static_cast<double>(cartesianProcsPerDimension[i]);
      double tmp = pointsPerProcess * static_cast<double>(j);''')],
 'a point count and process count whose ratio is not exact in binary, e.g. 63 points on 33 processes', 'the bound of a process is off by one where points * j / processes is an integer',
 '''#include "vh.hpp"
#include "utils/LevelVector.hpp"
#include "utils/PowerOfTwo.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int n = 1; n < 130; ++n) for (int p = 1; p <= n; ++p) for (int f = 0; f < 2; ++f) {
    auto d = getDefaultDecomposition(IndexVector{n}, {p}, f);
    for (int j = 0; j < p; ++j) CHECK(d[0][j] == (f ? (n * j + p - 1) / p : n * j / p), n, " points ", p, " procs bound ", j, " is ", d[0][j]);
  }
  return done();
}
''')
mkseed('p03-float-start', 'P03', [(FG, '''          : (firstGlobal1dIdx - offsetForThisLevel + strideForThisLevel - 1) / strideForThisLevel;''', '''          : static_cast<IndexType>(std::ceil(static_cast<float>(firstGlobal1dIdx - offsetForThisLevel) /
                                             static_cast<float>(strideForThisLevel)));''')],
 'a process whose first index exceeds 2^24, i.e. a decomposed dimension of level 25 or more', 'the local points of a subspace start at the wrong index',
 '''#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int l : {4, 25}) for (int b = 0; b < 3; ++b) {
    int n = (1 << l) - 1 + b, cut = n - 7; std::vector<int> p{2};
    OwningDistributedFullGrid<double> g(1, LevelVector{l}, fc::make(p, 1), std::vector<BoundaryType>{(BoundaryType)b}, p, true, std::vector<IndexVector>{{0, cut}});
    for (int s = l; s >= l - 1; --s) {
      IndexVector e, v; for (int i = cut; i < n; ++i) { int q = i + (b ? 0 : 1), z = 0; while (!(q & 1)) { q >>= 1; ++z; } if (l - z == s) e.push_back(i - cut); }
      g.get1dIndicesLocal(0, s, v); CHECK(same(v, e), "level ", l, " subspace ", s, " boundary ", b, " got ", vs(v), " expected ", vs(e));
    }
  }
  return done();
}
''')
mkseed('p02-table-typo', 'P02', [('src/utils/PowerOfTwo.hpp', '1.0 / 4194304.0,', '1.0 / 4194404.0,')], 'a level difference of 22 between the reference and the new level', 'coarsening a decomposition shifts bounds so that common points change their owner',
 '''#include "vh.hpp"
#include "utils/LevelVector.hpp"
#include "utils/PowerOfTwo.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int L = 2; L < 29; ++L) for (int k = 1; k < L; ++k) { long long f = 1LL << (L - k); int n = (1 << k) - 1;
    for (int c = 0; c < n && c < 50; ++c) for (int o = -1; o <= 1; ++o) { long long fine = (c + 1) * f - 1, lo = fine + o; if (lo <= 0) continue;
      auto r = downsampleDecomposition({IndexVector{0, (int)lo}}, LevelVector{L}, LevelVector{k}, std::vector<BoundaryType>{0});
      CHECK((r[0][1] <= c) == (lo <= fine), "from level ", L, " to ", k, " bound ", lo, " -> ", r[0][1]); } }
  return done();
}
''')
