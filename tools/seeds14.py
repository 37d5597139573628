import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/fullgrid/DistributedFullGrid.hpp'
SRC=['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp']
mkseed('p14-growing-buffer', 'P14', [(U, "  recvbuffer.resize(numElements);\n  std::memset(recvbuffer.data(), 0, recvbuffer.size() * sizeof(FG_ELEMENT));\n\n  if (recvRequest",
  "  if (recvbuffer.size() < static_cast<size_t>(numElements)) {\n    // reuse the memory of earlier exchanges\n    recvbuffer.resize(numElements);\n  }\n  std::memset(recvbuffer.data(), 0, recvbuffer.size() * sizeof(FG_ELEMENT));\n\n  if (recvRequest")],
 'the same receive buffer is used for exchanges in several dimensions (or several grids) with layers of different size, or by a process without lower neighbour',
 'the receive buffer is never shrunk: layers appear to have more values than they have, also where nothing was received',
 '''#include "vh.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int dims[2] = {2, 2}, per[2] = {0, 0}, me; MPI_Comm c; MPI_Cart_create(MPI_COMM_WORLD, 2, dims, per, 0, &c); MPI_Comm_rank(c, &me);
  { OwningDistributedFullGrid<double> g(2, {2, 4}, c, {2, 2}, {2, 2}, true, {});
    for (IndexType i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = 1 + g.getGlobalLinearIndex(i);
    std::vector<double> buf; std::vector<int> ext;
    for (int d = 0; d < 2; ++d) {
      MPI_Request r; g.exchangeGhostLayerUpward((DimType)d, ext, buf, &r); MPI_Wait(&r, MPI_STATUS_IGNORE);
      size_t n = 1; for (int x : ext) n *= x;
      CHECK(buf.size() == n, "rank ", me, " dimension ", d, " extents ", vs(ext), " but ", buf.size(), " values");
    } }
  MPI_Finalize();
  return done();
}
''', np=4, sources=SRC)
