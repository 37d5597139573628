// driver: only forces instantiation of /repo templates; contains no code under verification
#include <cassert>
#include <cstring>
#include <numeric>
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "sparsegrid/AnyDistributedSparseGrid.cpp"
namespace combigrid {
typedef DistributedSparseGridUniform<double> DriverDSG;
template <class T> using Red2 = T (*)(const T&, const T&);
template <class T> using Red3 = T (*)(const T&, const T&, const T&);
namespace mpiio {
template class MPIFileConsecutive<char>;
template class MPIFileConsecutive<float>;
template class MPIFileConsecutive<double>;
template class MPIFileConsecutive<std::complex<double>>;
template class MPIFileConsecutive<SubspaceSizeType>;
#define DRIVER_IO(T) \
template int writeValuesConsecutive<T>(const T*, MPI_Offset, const std::string&, CommunicatorType, bool, bool); \
template int readValuesConsecutive<T>(T*, MPI_Offset, const std::string&, CommunicatorType, bool); \
template int readReduceValuesConsecutive<T, Red2<T>>(T*, MPI_Offset, const std::string&, CommunicatorType, int, Red2<T>, bool); \
template int readMultipleReduceValuesConsecutive<T, Red3<T>>(T*, MPI_Offset, const std::vector<std::string>&, CommunicatorType, int, Red3<T>, bool); \
template void compressBufferToLZ4Frame<T>(const T*, MPI_Offset, std::vector<char>&); \
template size_t decompressLZ4FrameToBuffer<T>(const std::vector<char>&, T*, size_t); \
template int writeCompressedValuesConsecutive<T>(const T*, MPI_Offset, const std::string&, CommunicatorType, bool, bool); \
template int readCompressedValuesConsecutive<T>(T*, MPI_Offset, const std::string&, CommunicatorType); \
template int readReduceCompressedValuesConsecutive<T, Red2<T>>(T*, MPI_Offset, const std::string&, CommunicatorType, Red2<T>);
DRIVER_IO(double)
DRIVER_IO(float)
template class FrameDecompressor<double>;
template class FrameDecompressor<float>;
}
namespace DistributedSparseGridIO {
template void writeToDiskChunked<DriverDSG>(const DriverDSG&, const std::string&);
template void readFromDiskChunked<DriverDSG>(DriverDSG&, const std::string&);
template int writeOneFile<DriverDSG>(const DriverDSG&, const std::string&, bool);
template int readOneFile<DriverDSG>(DriverDSG&, const std::string&);
template int readOneFileAndReduce<DriverDSG>(DriverDSG&, const std::string&, uint32_t);
template int writeSomeFiles<DriverDSG>(const DriverDSG&, const std::string&, bool);
template int readSomeFiles<DriverDSG>(DriverDSG&, const std::string&);
template int readSomeFilesAndReduce<DriverDSG>(DriverDSG&, const std::string&, uint32_t);
template int writeSubspaceSizesToFile<DriverDSG>(const DriverDSG&, const std::string&);
template int readSubspaceSizesFromFile<DriverDSG>(DriverDSG&, const std::string&, bool);
template int readReduceSubspaceSizesFromFile<DriverDSG, Red2<SubspaceSizeType>>(DriverDSG&, const std::string&, Red2<SubspaceSizeType>, int, bool);
template int readReduceSubspaceSizesFromFiles<DriverDSG, Red3<SubspaceSizeType>>(DriverDSG&, const std::vector<std::string>&, Red3<SubspaceSizeType>, int, bool);
}
}
