// driver: only forces instantiation of /repo templates; contains no code under verification
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/AnyDistributedSparseGrid.cpp"
template class combigrid::DistributedFullGrid<double>;
template class combigrid::DistributedSparseGridDataContainer<double>;
template class combigrid::DistributedSparseGridDataContainer<float>;
template class combigrid::DistributedSparseGridUniform<double>;
namespace combigrid {
template void DistributedSparseGridUniform<double>::addDistributedFullGrid<true>(const DistributedFullGrid<double>&, real);
template void DistributedSparseGridUniform<double>::addDistributedFullGrid<false>(const DistributedFullGrid<double>&, real);
template size_t DistributedFullGrid<double>::extractFromUniformSG<true>(const DistributedSparseGridUniform<double>&);
template size_t DistributedFullGrid<double>::extractFromUniformSG<false>(const DistributedSparseGridUniform<double>&);
}
