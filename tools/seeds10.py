import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/io/MPIInputOutput.hpp'
mkseed('p10-third-buffer', 'P10', [(U, """               buffers[1].cbegin());
    readcount += readcountIncrement;
    position += readcountIncrement;
""", """               buffers[1].cbegin());
    readcount += readcountIncrement;
    position += readcount;
""")],
 'two files read at the same time, and a process that needs at least three reads with the given buffer size',
 'the third and later buffers are read from the wrong position of the file: values are combined with values written elsewhere',
 '''#include "vh.hpp"
#include <algorithm>
#include <numeric>
#include <functional>
#include <iostream>
#include <unistd.h>
#include "utils/Types.hpp"
#include "io/MPIInputOutput.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  char dir[] = "/tmp/p10demo_XXXXXX";
  if (!mkdtemp(dir)) return 3;
  std::string f = std::string(dir) + "/values";
  std::vector<double> v(10), w(10);
  for (int i = 0; i < 10; ++i) { v[i] = i; w[i] = 100 * i; }
  mpiio::writeValuesConsecutive<double>(v.data(), 10, f, MPI_COMM_SELF, true);
  for (int b : {10, 5, 3, 1}) {
    auto x = w; std::string e;
    try { mpiio::readMultipleReduceValuesConsecutive<double>(x.data(), 10, {f, f}, MPI_COMM_SELF, b, [](double p, double q, double r) { return p + q + 2 * r; }); } catch (std::exception& ex) { e = ex.what(); }
    for (int i = 0; i < 10; ++i) CHECK(x[i] == 103. * i, "buffer ", b, " value ", i, " is ", x[i], " ", e);
  }
  unlink(f.c_str()); rmdir(dir);
  MPI_Finalize();
  return done();
}
''', np=1)
