#include "vh.hpp"
#include "loadmodel/AverageOfLastNLoadModel.hpp"
using namespace combigrid; using namespace vh;
int main() {
  LevelVector l{3, 2};
  AverageOfLastNLoadModel m(2, {l}, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  for (unsigned long x : {0ul, 1ul, 0ul, 0ul, 7ul}) { DurationInformation d{}; d.duration = x; m.addDurationInformation(d, l); 
    CHECK(m.eval(l) == (double)m.evalSpecificUOT(l).count(), "last duration ", x, ": mean is ", m.eval(l)); }
  return done();
}
