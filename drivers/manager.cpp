// driver: only forces instantiation of /repo templates; contains no code under verification
#include <cassert>
#include "manager/ProcessGroupManager.cpp"
#include "manager/ProcessGroupWorker.cpp"
#include "utils/MonteCarlo.cpp"
