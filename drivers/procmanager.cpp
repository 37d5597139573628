// driver: only forces instantiation of /repo templates; contains no code under verification
#include <cassert>
#include "manager/ProcessManager.cpp"
#include "manager/ProcessGroupManager.cpp"
#include "third_level/ThirdLevelUtils.cpp"
