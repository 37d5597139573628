import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/loadmodel/AverageOfLastNLoadModel.cpp'
SRC=['src/loadmodel/AverageOfLastNLoadModel.cpp', 'src/loadmodel/LinearLoadModel.cpp', 'src/utils/LevelVector.cpp', 'src/utils/Stats.cpp']
mkseed('p12-zero-is-no-history', 'P12', [(U, """  if (this->levelVectorToLastNDurations_.at(lvlVec).size() == 0) {
    return this->loadModelIfNoHistory_->eval(lvlVec);
  } else {
    return this->evalSpecificUOT(lvlVec).count();
  }
""", """  const auto prognosis = this->evalSpecificUOT(lvlVec).count();
  return prognosis > 0 ? static_cast<real>(prognosis) : this->loadModelIfNoHistory_->eval(lvlVec);
""")],
 'recorded durations whose mean is below one microsecond',
 'a prognosis of zero is taken for a missing history: the fallback model is used although durations were recorded',
 '''#include "vh.hpp"
#include "loadmodel/AverageOfLastNLoadModel.hpp"
using namespace combigrid; using namespace vh;
int main() {
  LevelVector l{3, 2};
  AverageOfLastNLoadModel m(2, {l}, std::unique_ptr<LoadModel>(new LinearLoadModel()));
  for (unsigned long x : {0ul, 1ul, 0ul, 0ul, 7ul}) { DurationInformation d{}; d.duration = x; m.addDurationInformation(d, l); 
    CHECK(m.eval(l) == (double)m.evalSpecificUOT(l).count(), "last duration ", x, ": mean is ", m.eval(l)); }
  return done();
}
''', sources=SRC)
