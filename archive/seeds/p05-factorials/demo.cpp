#include "vh.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid; using namespace vh;
struct S : CombiMinMaxScheme { S(int dim, int top) : CombiMinMaxScheme((DimType)dim, LevelVector(dim, 1), LevelVector(dim, top)) {
  n_ = dim + top - 1; effDim_ = (DimType)dim; for (int q = 0; q < dim && q < top; ++q) { LevelVector l(dim, 1); l[0] = top - q; combiSpaces_.push_back(l); }
  computeCombiCoeffsClassical();
  // subspace (1,...,1): all grids contain it; here one grid per diagonal with its known multiplicity
  double b = 1; for (size_t q = 0; q < coefficients_.size(); ++q) { CHECK(std::abs(coefficients_[q] - (q % 2 ? -b : b)) < 1e-9 * b, dim, " dimensions, diagonal ", q, ": ", coefficients_[q]); b = b * (dim - 1 - q) / (q + 1); } } };
int main() { for (int d = 2; d <= 18; ++d) S(d, 6); return done(); }
