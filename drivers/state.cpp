// driver: only forces instantiation of /repo templates; contains no code under verification
#include <cassert>
#include <cstring>
#include <numeric>
#include "utils/Types.hpp"
#include "manager/CombiParameters.hpp"
#include "mpi/MPIUtils.hpp"
#include "task/Task.hpp"
#include "loadmodel/LearningLoadModel.hpp"
#include "fault_tolerance/StaticFaults.hpp"
#include "fault_tolerance/WeibullFaults.hpp"
#include "utils/MonteCarlo.cpp"
namespace combigrid {
typedef boost::archive::text_oarchive DriverOut;
typedef boost::archive::text_iarchive DriverIn;
template void CombiParameters::serialize<DriverOut>(DriverOut&, const unsigned int);
template void CombiParameters::serialize<DriverIn>(DriverIn&, const unsigned int);
template class Task<double>;
template void Task<double>::serialize<DriverOut>(DriverOut&, const unsigned int);
template void Task<double>::serialize<DriverIn>(DriverIn&, const unsigned int);
template void DurationInformation::serialize<DriverOut>(DriverOut&, const unsigned int);
template void DurationInformation::serialize<DriverIn>(DriverIn&, const unsigned int);
template void FaultsInfo::serialize<DriverOut>(DriverOut&, const unsigned int);
template void FaultsInfo::serialize<DriverIn>(DriverIn&, const unsigned int);
template void StaticFaults::serialize<DriverOut>(DriverOut&, const unsigned int);
template void StaticFaults::serialize<DriverIn>(DriverIn&, const unsigned int);
template void WeibullFaults::serialize<DriverOut>(DriverOut&, const unsigned int);
template void WeibullFaults::serialize<DriverIn>(DriverIn&, const unsigned int);
template void MPIUtils::sendClass<CombiParameters>(CombiParameters*, RankType, CommunicatorType, int);
template void MPIUtils::receiveClass<CombiParameters>(CombiParameters*, RankType, CommunicatorType, int);
template void MPIUtils::broadcastClass<CombiParameters>(CombiParameters*, RankType, CommunicatorType);
template void MPIUtils::broadcastContainer<std::string>(std::string&, RankType, CommunicatorType);
template void MPIUtils::broadcastContainer<std::vector<int>>(std::vector<int>&, RankType, CommunicatorType);
template void MPIUtils::broadcastContainer<std::vector<double>>(std::vector<double>&, RankType, CommunicatorType);
}
