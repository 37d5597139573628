import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mkseed
HH='src/hierarchization/DistributedHierarchization.hpp'
SRC=['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp']
DEMO='''#include "vh.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
using namespace combigrid; using namespace vh;
static int levelOf(int i, int L) { for (int l = 0; l <= L; ++l) if (i %% (1 << (L - l)) == 0) return l; return -1; }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int me, W; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &W);
  MPI_Comm cart; int per = 0; MPI_Cart_create(MPI_COMM_WORLD, 1, &W, &per, 0, &cart);
  {
%s
  }
  int f = nfail(), g; MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  MPI_Finalize(); if (me == 0 && g == 0) done(); return g ? 1 : 0;
}
'''
mkseed('p04-first-point', 'P04', [(HH, "if ((indexShift < 0 && sIdx >= 0 && sIdx < idxMin) ||", "if ((indexShift < 0 && sIdx > 0 && sIdx < idxMin) ||"),
  (HH, "    // only recv if this index idx needs to be hierarchized\n    if (lidx > lmin) {", "    // only recv if this index idx needs to be hierarchized\n    if (lidx > lmin && idx > 0) {")],
 'a grid without boundary points whose first index is alone on its process', 'the first point is hierarchized without its hierarchical neighbour',
 DEMO % '''    for (int L : {2, 3, 4}) {
      int n = (1 << L) - 1; IndexVector dec{0, 1, 2}; dec.resize(W);
      OwningDistributedFullGrid<double> fg(1, {L}, cart, {0}, {W}, true, {dec});
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) { double x = fg.getGlobalLinearIndex(i) + 1; fg.getData()[i] = x * x; }
      DistributedHierarchization::hierarchize<double>(fg);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) {
        int p = fg.getGlobalLinearIndex(i) + 1, h = 1 << (L - levelOf(p, L));
        double l = p - h, r = p + h <= n ? p + h : 0, e = 1. * p * p - .5 * l * l - .5 * r * r;
        CHECK(fg.getData()[i] == e, "level ", L, " point ", p, " got ", fg.getData()[i], " expected ", e);
      }
    }''', np=3, sources=SRC, helpers=('vh.hpp',))
mkseed('p04-short-steps', 'P04', [(HH, "  int steps = 1 << (lmini);\n", "  uint16_t steps = static_cast<uint16_t>(1 << lmini);\n")],
 'a grid of level 17 or more in one dimension', 'the finest points are not dehierarchized',
 DEMO % '''    for (int L : {5, 16, 18}) {
      OwningDistributedFullGrid<double> fg(1, {L}, cart, {2}, {W}, true);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) fg.getData()[i] = fg.getGlobalLinearIndex(i) % 7;
      DistributedHierarchization::hierarchize<double>(fg);
      DistributedHierarchization::dehierarchize<double>(fg);
      for (IndexType i = 0; i < fg.getNrLocalElements(); ++i) CHECK(fg.getData()[i] == fg.getGlobalLinearIndex(i) % 7, "level ", L, " point ", i, " got ", fg.getData()[i]);
    }''', np=1, sources=SRC, helpers=('vh.hpp',))
