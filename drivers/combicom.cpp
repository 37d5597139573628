// driver: only forces instantiation of /repo templates; contains no code under verification
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "combicom/CombiCom.hpp"
#include "sparsegrid/AnyDistributedSparseGrid.cpp"
namespace combigrid {
typedef DistributedSparseGridUniform<double> DriverDSG;
template class DistributedSparseGridDataContainer<double>;
template class DistributedSparseGridUniform<double>;
namespace CombiCom {
template int getGlobalReduceChunkSize<double>(uint32_t);
template int getGlobalReduceChunkSize<float>(uint32_t);
template int getGlobalReduceChunkSize<std::complex<double>>(uint32_t);
template void distributedGlobalSparseGridReduce<DriverDSG>(DriverDSG&, uint32_t, RankType, MPI_Comm);
template void addIndexedElements<double>(void*, void*, int*, MPI_Datatype*);
template std::vector<std::set<AnyDistributedSparseGrid::SubspaceIndexType>>& getChunkedSubspaces<double, std::vector<AnyDistributedSparseGrid::SubspaceIndexType>>(const DriverDSG&, const std::vector<AnyDistributedSparseGrid::SubspaceIndexType>&, int);
template std::vector<std::pair<AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>> getReductionDatatypes<double, std::vector<AnyDistributedSparseGrid::SubspaceIndexType>>(const DriverDSG&, const std::vector<AnyDistributedSparseGrid::SubspaceIndexType>&, int);
template void distributedGlobalSubspaceReduce<DriverDSG, false>(DriverDSG&, uint32_t, RankType);
template void distributedGlobalSubspaceReduce<DriverDSG, true>(DriverDSG&, uint32_t, RankType);
template void reduceSubspaceSizes<DriverDSG>(DriverDSG&, CommunicatorType);
template void maxReduceSubspaceSizesAcrossGroups<DriverDSG>(DriverDSG&, RankType, CommunicatorType);
template void broadcastSubspaceSizes<DriverDSG>(DriverDSG&, CommunicatorType, RankType);
template void sendDsgData<DriverDSG>(DriverDSG&, RankType, CommunicatorType);
template void recvDsgData<DriverDSG>(DriverDSG&, RankType, CommunicatorType);
template void asyncBcastDsgData<DriverDSG>(DriverDSG&, RankType, CommunicatorType, MPI_Request*);
}
}
