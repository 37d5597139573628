import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/mpi/MPISystem.cpp'
R=os.environ.get('REPO','/repo')
SRC=['src/mpi/MPISystem.cpp','src/mpi/OpenMPUtils.cpp','src/utils/Stats.cpp']+['src/mpi_fault_simulator/'+x for x in sorted(os.listdir(R+'/src/mpi_fault_simulator')) if x.endswith('.cpp')]
mkseed('p08-narrow-key', 'P08', [(U, """    int key = workerID / int(nprocs_);
    MPI_Comm_split(worldComm_, color, key, &globalReduceComm_);
""", """    const auto key = static_cast<int8_t>(workerID / int(nprocs_));
    MPI_Comm_split(worldComm_, color, key, &globalReduceComm_);
""")],
 'more than 128 process groups',
 'the ranks of a global reduce communicator are no longer ordered by group once the world has more than 128 process groups: ranks other processes send to are those of other groups',
 '''#include "vh.hpp"
#include "mpi/MPISystem.hpp"
using namespace combigrid; using namespace vh;
static int me, key_[4][2];
extern "C" int MPI_Initialized(int* f) { *f = 1; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = me; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* r) { *r = 400; return 0; }
extern "C" int MPI_Barrier(MPI_Comm) { return 0; }
extern "C" int MPI_Comm_group(MPI_Comm, MPI_Group*) { return 0; }
extern "C" int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*) { return 0; }
extern "C" int MPI_Group_free(MPI_Group*) { return 0; }
extern "C" int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
static std::vector<std::pair<int, int>> splits;
extern "C" int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm* c) { splits.push_back({color, key}); *c = MPI_COMM_SELF; return 0; }
int main() {
  int last = -1;
  for (me = 1; me < 400; me += 2) { splits.clear(); theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 200, 2, false, false);
    CHECK(splits.size() == 2, splits.size()); int k = splits.back().second; CHECK(splits.back().first == 1, "color"); CHECK(k > last, "group ", me / 2, " does not come after group ", me / 2 - 1); last = k; }
  return done();
}
''', sources=SRC)
