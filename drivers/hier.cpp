// driver: only forces instantiation of /repo templates; contains no code under verification
#include "hierarchization/DistributedHierarchization.hpp"
namespace combigrid {
template void hierarchize_hat_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void hierarchize_hat_boundary_kernel<double, true>(double*, LevelType, LevelType);
template void hierarchize_full_weighting_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void hierarchize_full_weighting_boundary_kernel<double, true>(double*, LevelType, LevelType);
template void hierarchize_biorthogonal_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void hierarchize_biorthogonal_boundary_kernel<double, true>(double*, LevelType, LevelType);
template void dehierarchize_hat_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void dehierarchize_hat_boundary_kernel<double, true>(double*, LevelType, LevelType);
template void dehierarchize_full_weighting_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void dehierarchize_full_weighting_boundary_kernel<double, true>(double*, LevelType, LevelType);
template void dehierarchize_biorthogonal_boundary_kernel<double, false>(double*, LevelType, LevelType);
template void dehierarchize_biorthogonal_boundary_kernel<double, true>(double*, LevelType, LevelType);
}
template class combigrid::DistributedFullGrid<double>;
void verif_instantiate(combigrid::DistributedFullGrid<double>& dfg, const std::vector<bool>& dims, const std::vector<combigrid::BasisFunctionBasis*>& b, const combigrid::LevelVector& lmin) {
  combigrid::DistributedHierarchization::hierarchize<double>(dfg, dims, b, lmin);
  combigrid::DistributedHierarchization::dehierarchize<double>(dfg, dims, b, lmin);
}
