import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
mkseed('p15-longer-receiver', 'P15', [('src/mpi/MPIUtils.hpp', """    // non-root procs resize buffer to large enough
    v.resize(bsize);
""", """    // non-root procs resize buffer to large enough
    if (v.size() < static_cast<size_t>(bsize)) {
      v.resize(bsize);
    }
""")],
 'a receiver whose container already holds more elements than the root sends',
 'after a broadcast the container of such a receiver keeps its old elements behind those received',
 '''#include "vh.hpp"
#include "mpi/MPISystem.hpp"
#include "mpi/MPIUtils.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
  for (int n : {5, 2, 0, 7}) {
    std::vector<int> w(n), v; for (int i = 0; i < n; ++i) w[i] = 3 * i + n;
    v = w; if (me) v.assign(4, -1);
    MPIUtils::broadcastContainer(v, 0, MPI_COMM_WORLD);
    CHECK(v == w, "rank ", me, " got ", v.size(), " of ", n);
    std::string s = me ? "previous name" : std::string(n, 'x'); MPIUtils::broadcastContainer(s, 0, MPI_COMM_WORLD);
    CHECK(s == std::string(n, 'x'), "rank ", me, " got ", s);
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!me && !g) done();
  MPI_Finalize(); return 0;
}
''', np=2)
mkseed('p15-line-decomposition', 'P15', [('src/manager/CombiParameters.hpp', """  ar & procs_;
  ar & decomposition_;
""", """  ar & procs_;
  // without a second dimension there is only one way to decompose
  if (procs_.size() > 1) {
    ar & decomposition_;
  }
""")],
 'parameters of a one-dimensional combination with an explicit decomposition',
 'the decomposition of one-dimensional grids does not reach the process groups, which then use the default one',
 '''#include "vh.hpp"
#include "manager/CombiParameters.hpp"
#include "mpi/MPIUtils.hpp"
#include "utils/BoostExports.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
  for (DimType d = 1; d <= 3; ++d) {
    CombiParameters p(d, LevelVector(d, 2), LevelVector(d, 5), std::vector<BoundaryType>(d, 2), 1, 1, CombinationVariant::sparseGridReduce, std::vector<int>(d, 2));
    std::vector<IndexVector> dec(d, IndexVector{0, 7});
    if (!me) p.setDecomposition(dec);
    MPIUtils::broadcastClass(&p, 0, MPI_COMM_WORLD);
    CHECK(same(p.getDecomposition(), dec), "rank ", me, " dimension ", (int)d);
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!me && !g) done();
  MPI_Finalize(); return 0;
}
''', np=2, sources=['src/mpi/MPISystem.cpp', 'src/mpi/OpenMPUtils.cpp', 'src/utils/Stats.cpp', 'src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/fault_tolerance/FaultCriterion.cpp', 'src/fault_tolerance/StaticFaults.cpp', 'src/fault_tolerance/WeibullFaults.cpp'] + ['src/mpi_fault_simulator/' + x for x in sorted(os.listdir(os.path.join(os.environ.get('REPO', '/repo'), 'src/mpi_fault_simulator'))) if x.endswith('.cpp')])
