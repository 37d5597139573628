// driver: only forces instantiation of /repo templates; contains no code under verification
#include <cassert>
#define main thirdLevelManagerMain
#include "../third_level_manager/thirdLevelManager.cpp"
#include "../third_level_manager/System.cpp"
