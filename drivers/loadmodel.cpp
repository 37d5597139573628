// driver: only pulls in the /repo sources; contains no code under verification
#include "loadmodel/AverageOfLastNLoadModel.cpp"
#include "loadmodel/AveragingLoadModel.cpp"
#include "loadmodel/LinearLoadModel.cpp"
#include "rescheduler/RebalancingTaskRescheduler.cpp"
