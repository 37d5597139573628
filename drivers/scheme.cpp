// driver: pulls in the /repo sources of combination schemes; contains no code under verification
#include "combischeme/CombiMinMaxScheme.cpp"
#include "combischeme/CombiThirdLevelScheme.cpp"
#include "utils/LevelSetUtils.cpp"
static_assert(sizeof(combigrid::LevelType) == 4 && sizeof(combigrid::DimType) == 1, "");
