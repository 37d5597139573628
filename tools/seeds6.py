import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/sparsegrid/DistributedSparseGridUniform.hpp'
SRC=['src/sparsegrid/AnyDistributedSparseGrid.cpp', 'src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp']
mkseed('p06-reuse-same-set', 'P06', [(U, "      subspacesWithData_ = std::move(subspaces);\n      createSubspaceData();\n      createKahanBuffer();\n",
 "      if (isSubspaceDataCreated() && subspaces == subspacesWithData_) {\n        // same layout as before: only the values need to be reset\n        std::fill(subspacesData_.begin(), subspacesData_.end(), static_cast<FG_ELEMENT>(0));\n      } else {\n        subspacesWithData_ = std::move(subspaces);\n        createSubspaceData();\n        createKahanBuffer();\n      }\n")],
 'reallocating the same set of subspaces after additions that left rounding compensation, then adding small values', 'values added after the reallocation are off by the stale compensation terms',
 '''#include "fakecart.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
using namespace combigrid; using namespace vh;
int main() {
  auto c = fc::make({1, 1}, 0);
  std::vector<LevelVector> subs{{1, 1}, {1, 2}, {2, 1}, {2, 2}};
  DistributedSparseGridUniform<double> dsg(2, subs, c);
  OwningDistributedFullGrid<double> fg(2, {2, 2}, c, {2, 2}, {1, 1}, true);
  dsg.registerDistributedFullGrid(fg); dsg.createSubspaceData();
  for (int round = 0; round < 3; ++round) {
    for (double scale : {1.e16, 1. / 3., 3.e-5}) {
      std::set<AnyDistributedSparseGrid::SubspaceIndexType> a{0, 1, 3};
      dsg.allocateDifferentSubspaces(std::move(a));
      for (int k = 0; k < 2; ++k) { for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) fg.getData()[i] = scale * (1 + i % 7) / (k ? 7. : 1.); dsg.addDistributedFullGrid<false>(fg, 1.); }
      for (int s : {0, 1, 3}) { auto idx = fg.getFGPointsOfSubspace(subs[s]); for (size_t j = 0; j < idx.size(); ++j) { double e = scale * (1 + idx[j] % 7) * (1. + 1. / 7.), x = dsg.getData(s)[j]; CHECK(std::abs(x - e) <= 1e-12 * e, "scale ", scale, " subspace ", s, " entry ", j, " got ", x, " expected ", e); } }
    }
  }
  return done();
}
''', np=0, sources=SRC)
