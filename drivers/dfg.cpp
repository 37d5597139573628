// driver: only forces instantiation of /repo templates; contains no code under verification
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "utils/DecompositionUtils.hpp"
template class combigrid::DistributedFullGrid<double>;
static_assert(sizeof(combigrid::IndexType) == 4 && sizeof(combigrid::LevelType) == 4 && sizeof(combigrid::DimType) == 1, "");
