#include "vh.hpp"
#include "utils/LevelVector.hpp"
#include "utils/PowerOfTwo.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid; using namespace vh;
int main() {
  for (int n = 1; n < 130; ++n) for (int p = 1; p <= n; ++p) for (int f = 0; f < 2; ++f) {
    auto d = getDefaultDecomposition(IndexVector{n}, {p}, f);
    for (int j = 0; j < p; ++j) CHECK(d[0][j] == (f ? (n * j + p - 1) / p : n * j / p), n, " points ", p, " procs bound ", j, " is ", d[0][j]);
  }
  return done();
}
