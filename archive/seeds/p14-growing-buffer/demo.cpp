#include "vh.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int dims[2] = {2, 2}, per[2] = {0, 0}, me; MPI_Comm c; MPI_Cart_create(MPI_COMM_WORLD, 2, dims, per, 0, &c); MPI_Comm_rank(c, &me);
  { OwningDistributedFullGrid<double> g(2, {2, 4}, c, {2, 2}, {2, 2}, true, {});
    for (IndexType i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = 1 + g.getGlobalLinearIndex(i);
    std::vector<double> buf; std::vector<int> ext;
    for (int d = 0; d < 2; ++d) {
      MPI_Request r; g.exchangeGhostLayerUpward((DimType)d, ext, buf, &r); MPI_Wait(&r, MPI_STATUS_IGNORE);
      size_t n = 1; for (int x : ext) n *= x;
      CHECK(buf.size() == n, "rank ", me, " dimension ", d, " extents ", vs(ext), " but ", buf.size(), " values");
    } }
  MPI_Finalize();
  return done();
}
