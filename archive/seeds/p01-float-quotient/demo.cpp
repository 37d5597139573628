#include "vh.hpp"
#include "fullgrid/Tensor.hpp"
using namespace combigrid; using namespace vh;
int main() {
  std::vector<IndexVector> es{{5, 7}, {4097, 4097}, {33, 1025, 513}, {65537, 3, 129}};
  for (auto e : es) { TensorIndexer t{IndexVector(e)}; long long n = t.size();
    for (long long k = 0; k < 200000; ++k) { IndexType i = (IndexType)((n - 1) - k * 37 % n); IndexVector v = t.getVectorIndex(i);
      for (size_t d = 0; d < e.size(); ++d) CHECK(v[d] >= 0 && v[d] < e[d], vs(e), " index ", i, " ", vs(v));
      CHECK(t.sequentialIndex(v) == i, vs(e), " index ", i, " ", vs(v)); } }
  return done();
}
