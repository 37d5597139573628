#include "vh.hpp"
#include "manager/CombiParameters.hpp"
#include "mpi/MPIUtils.hpp"
#include "utils/BoostExports.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
  for (DimType d = 1; d <= 3; ++d) {
    CombiParameters p(d, LevelVector(d, 2), LevelVector(d, 5), std::vector<BoundaryType>(d, 2), 1, 1, CombinationVariant::sparseGridReduce, std::vector<int>(d, 2));
    std::vector<IndexVector> dec(d, IndexVector{0, 7});
    if (!me) p.setDecomposition(dec);
    MPIUtils::broadcastClass(&p, 0, MPI_COMM_WORLD);
    CHECK(same(p.getDecomposition(), dec), "rank ", me, " dimension ", (int)d);
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!me && !g) done();
  MPI_Finalize(); return 0;
}
