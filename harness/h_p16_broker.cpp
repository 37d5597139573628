// the third level manager as it is built in /repo, callable (its Stats class must not meet the one of the library)
#define main thirdLevelManagerMain
#include "../third_level_manager/thirdLevelManager.cpp"
#undef main
void broker(int port, size_t chunk) {
  std::string a = "--port=" + std::to_string(port), b = "--chunksize=" + std::to_string(chunk), c = "--numSystems=2";
  std::vector<char*> v{(char*)"thirdLevelManager", &a[0], &b[0], &c[0]};
  Params p; p.loadFromCmd(4, v.data());
  combigrid::ThirdLevelManager m(p); m.init(); m.runtimeLoop(); m.writeStatistics("");
}
