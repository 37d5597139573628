// driver: only forces instantiation of /repo templates; contains no code under verification
#include "manager/InterpolationWorker.hpp"
template std::vector<double> combigrid::interpolateValues<double, double>(const std::vector<std::unique_ptr<combigrid::Task<double>>>&, const std::vector<std::vector<combigrid::real>>&);
