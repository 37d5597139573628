#include "vh.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
using namespace combigrid; using namespace vh;
static int levelOf(int i, int L) { for (int l = 0; l <= L; ++l) if (i % (1 << (L - l)) == 0) return l; return -1; }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me, W; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &W);
  MPI_Comm cart; int per = 0; MPI_Cart_create(MPI_COMM_WORLD, 1, &W, &per, 0, &cart);
  {
    for (int L : {2, 3, 4}) {
      int n = (1 << L) - 1; IndexVector dec{0, 1, 2}; dec.resize(W);
      OwningDistributedFullGrid<double> fg(1, {L}, cart, {0}, {W}, true, {dec});
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) { double x = fg.getGlobalLinearIndex(i) + 1; fg.getData()[i] = x * x; }
      DistributedHierarchization::hierarchize<double>(fg);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) {
        int p = fg.getGlobalLinearIndex(i) + 1, h = 1 << (L - levelOf(p, L));
        double l = p - h, r = p + h <= n ? p + h : 0, e = 1. * p * p - .5 * l * l - .5 * r * r;
        CHECK(fg.getData()[i] == e, "level ", L, " point ", p, " got ", fg.getData()[i], " expected ", e);
      }
    }
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  MPI_Finalize(); if (me == 0 && g == 0) done(); return g ? 1 : 0;
}
