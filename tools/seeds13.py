import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/fullgrid/DistributedFullGrid.hpp'
SRC=['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp']
mkseed('p13-cell-by-truncation', 'P13', [(U, "        std::floor((coords[d] - this->getLowerBoundsCoord(d)) * this->getInverseGridSpacingIn(d)));\n",
  "        (coords[d] - this->getLowerBoundsCoord(d)) * this->getInverseGridSpacingIn(d));\n")],
 'a decomposition in at least two dimensions and a point between two processes diagonally below the first point of a third one',
 'the cell of a coordinate below the local part is found by truncation: two negative basis function values multiply to a positive one and a wrong contribution is added',
 '''#include "fakecart.hpp"
#include <cmath>
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid; using namespace vh;
int main() {
  LevelVector l{3, 3}; std::vector<BoundaryType> b{2, 2}; std::vector<int> p{2, 2};
  for (double x : {0.05, 0.3, 0.44, 0.47, 0.7}) for (double y : {0.1, 0.3, 0.45, 0.49, 0.8}) {
    double s = 0;
    for (int r = 0; r < 4; ++r) {
      OwningDistributedFullGrid<double> g(2, l, fc::make(p, r), b, p, true, {});
      for (IndexType i = 0; i < g.getNrLocalElements(); ++i) { std::vector<double> c; g.getCoordsLocal(i, c); g.getData()[i] = 1 + 2 * c[0] + 4 * c[1]; }
      s += g.evalLocal({x, y});
    }
    CHECK(std::abs(s - (1 + 2 * x + 4 * y)) < 1e-9, "bilinear function at ", x, ",", y, " evaluates to ", s);
  }
  return done();
}
''', sources=SRC)
