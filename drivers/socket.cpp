// driver: only forces instantiation of /repo templates; contains no code under verification
#include "third_level/NetworkUtils.cpp"
namespace combigrid {
template bool ClientSocket::sendallBinary<double>(const double*, size_t, int) const;
template bool ClientSocket::sendallBinary<float>(const float*, size_t, int) const;
template bool ClientSocket::recvallBinaryAndCorrectInPlace<double>(double*, size_t, size_t, int) const;
template bool ClientSocket::recvallBinaryAndCorrectInPlace<float>(float*, size_t, size_t, int) const;
template bool ClientSocket::recvallBinaryAndReduceInPlace<double>(double*, size_t, ReduceFcn<double>, size_t, int) const;
template bool ClientSocket::recvallBinaryAndReduceInPlace<float>(float*, size_t, ReduceFcn<float>, size_t, int) const;
template double NetworkUtils::reverseEndianness<double>(const double&);
template float NetworkUtils::reverseEndianness<float>(const float&);
}
