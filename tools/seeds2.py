import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mkseed
LS = 'src/utils/LevelSetUtils'
S = ['src/combischeme/CombiMinMaxScheme.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp']
mkseed('p05-packed-cache-key', 'P05', [(LS + '.cpp', '  auto key = std::make_pair(k, d);\n', '  // pack both numbers into one byte-sized key, this lookup is on the hot path\n  const auto key = static_cast<DimType>((k << 3) | d);\n'),
 (LS + '.cpp', 'std::map<std::pair<DimType, DimType>, std::vector<std::vector<DimType>>>\n    AllKOut', 'std::map<DimType, std::vector<std::vector<DimType>>>\n    AllKOut'),
 (LS + '.hpp', 'static std::map<std::pair<DimType, DimType>, std::vector<std::vector<DimType>>> cache_;', 'static std::map<DimType, std::vector<std::vector<DimType>>> cache_;')],
 'eight or more dimensions (or a second dimensionality used after a colliding one)', 'k-out-of-d combinations of another k are used, so that truncated level sets contain or miss level vectors',
 '''#include "vh.hpp"
#include "utils/LevelSetUtils.hpp"
#include <algorithm>
using namespace combigrid; using namespace vh;
int main() {
  for (int d = 9; d >= 1; --d) for (int k = 0; k <= d; ++k) {
    auto& cs = AllKOutOfDDimensions::get((DimType)k, (DimType)d);
    size_t b = 1; for (int i = 0; i < k; ++i) b = b * (size_t)(d - i) / (size_t)(i + 1);
    CHECK(cs.size() == b, k, " out of ", d, ": ", cs.size());
    for (auto& x : cs) CHECK((int)x.size() == k, k, " out of ", d, ": ", vs(x));
  }
  return done();
}
''', sources=S)
mkseed('p05-factorials', 'P05', [('src/combischeme/CombiMinMaxScheme.cpp', '''    coefficients_.push_back(std::pow(-1, p) *
                            boost::math::binomial_coefficient<real>(static_cast<unsigned int>(effDim_ - 1), static_cast<unsigned int>(p)));''',
'''    auto factorial = [](int m) {
      int f = 1;
      for (int j = 2; j <= m; ++j) f *= j;
      return f;
    };
    const int binomial = factorial(effDim_ - 1) / (factorial(p) * factorial(effDim_ - 1 - p));
    coefficients_.push_back(p % 2 == 0 ? binomial : -binomial);''')],
 'a scheme with fourteen or more dimensions', 'classical coefficients no longer sum to one per subspace',
 '''#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid; using namespace vh;
struct S : CombiMinMaxScheme { S(int dim, int top) : CombiMinMaxScheme((DimType)dim, LevelVector(dim, 1), LevelVector(dim, top)) {
  n_ = dim + top - 1; effDim_ = (DimType)dim; for (int q = 0; q < dim && q < top; ++q) { LevelVector l(dim, 1); l[0] = top - q; combiSpaces_.push_back(l); }
  computeCombiCoeffsClassical();
  // subspace (1,...,1): all grids contain it; here one grid per diagonal with its known multiplicity
  double b = 1; for (size_t q = 0; q < coefficients_.size(); ++q) { CHECK(std::abs(coefficients_[q] - (q % 2 ? -b : b)) < 1e-9 * b, dim, " dimensions, diagonal ", q, ": ", coefficients_[q]); b = b * (dim - 1 - q) / (q + 1); } } };
int main() { for (int d = 2; d <= 18; ++d) S(d, 6); return done(); }
''', sources=S)
