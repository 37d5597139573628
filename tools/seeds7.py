import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/combicom/CombiCom.hpp'
SRC=['src/sparsegrid/AnyDistributedSparseGrid.cpp', 'src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp', 'src/mpi/OpenMPUtils.cpp']
mkseed('p07-chunk-limit', 'P07', [(U, "    auto nextAddedDataSize = dsg.getDataSize(*subspaceIt);\n    do {\n      chunkDataSize += nextAddedDataSize;\n      chunkSubspaces.insert(*subspaceIt);\n      ++subspaceIt;\n    } while (subspaceIt != siContainer.cend() &&\n             (nextAddedDataSize = dsg.getDataSize(*subspaceIt)) &&\n             (chunkDataSize + nextAddedDataSize) < static_cast<size_t>(maxChunkSize));\n",
 "    do {\n      chunkDataSize += dsg.getDataSize(*subspaceIt);\n      chunkSubspaces.insert(*subspaceIt);\n      ++subspaceIt;\n    } while (subspaceIt != siContainer.cend() && dsg.getDataSize(*subspaceIt) > 0 &&\n             chunkDataSize < static_cast<size_t>(maxChunkSize));\n")],
 'several subspaces that together exceed the limit although none does alone', 'a chunk of several subspaces is larger than the limit (the last one added crosses it)',
 '''#include "vh.hpp"
#include "combicom/CombiCom.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::vector<LevelVector> subs; std::vector<uint32_t> sz{6, 5, 2, 9, 1, 1, 12, 3, 8}; std::vector<int> all;
  for (size_t k = 0; k < sz.size(); ++k) { subs.push_back({1, (int)k + 1}); all.push_back((int)k); }
  DistributedSparseGridUniform<double> d(2, subs, MPI_COMM_SELF);
  for (size_t k = 0; k < sz.size(); ++k) d.setDataSize((int)k, sz[k]);
  std::set<int> seen;
  for (auto& c : CombiCom::getChunkedSubspaces(d, all, 10)) { uint32_t s = 0; for (int k : c) { s += sz[k]; CHECK(seen.insert(k).second, "subspace ", k, " twice"); } CHECK(c.size() == 1 || s <= 10, "chunk of ", c.size(), " subspaces has ", s, " entries, limit 10"); }
  CHECK(seen.size() == sz.size(), "subspaces missing");
  int n = nfail(); MPI_Finalize(); (void)n; return done();
}
''', np=1, sources=SRC)
