#include "vh.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
using namespace combigrid; using namespace vh;
static int levelOf(int i, int L) { for (int l = 0; l <= L; ++l) if (i % (1 << (L - l)) == 0) return l; return -1; }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me, W; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &W);
  MPI_Comm cart; int per = 0; MPI_Cart_create(MPI_COMM_WORLD, 1, &W, &per, 0, &cart);
  {
    for (int L : {5, 16, 18}) {
      OwningDistributedFullGrid<double> fg(1, {L}, cart, {2}, {W}, true);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) fg.getData()[i] = fg.getGlobalLinearIndex(i) % 7;
      DistributedHierarchization::hierarchize<double>(fg);
      DistributedHierarchization::dehierarchize<double>(fg);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) CHECK(fg.getData()[i] == fg.getGlobalLinearIndex(i) % 7, "level ", L, " point ", i, " got ", fg.getData()[i]);
    }
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  MPI_Finalize(); if (me == 0 && g == 0) done(); return g ? 1 : 0;
}
