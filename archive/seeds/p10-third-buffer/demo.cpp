#include "vh.hpp"
#include <algorithm>
#include <numeric>
#include <functional>
#include <iostream>
#include <unistd.h>
#include "utils/Types.hpp"
#include "io/MPIInputOutput.hpp"
using namespace combigrid; using namespace vh;
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  char dir[] = "/tmp/p10demo_XXXXXX";
  if (!mkdtemp(dir)) return 3;
  std::string f = std::string(dir) + "/values";
  std::vector<double> v(10), w(10);
  for (int i = 0; i < 10; ++i) { v[i] = i; w[i] = 100 * i; }
  mpiio::writeValuesConsecutive<double>(v.data(), 10, f, MPI_COMM_SELF, true);
  for (int b : {10, 5, 3, 1}) {
    auto x = w; std::string e;
    try { mpiio::readMultipleReduceValuesConsecutive<double>(x.data(), 10, {f, f}, MPI_COMM_SELF, b, [](double p, double q, double r) { return p + q + 2 * r; }); } catch (std::exception& ex) { e = ex.what(); }
    for (int i = 0; i < 10; ++i) CHECK(x[i] == 103. * i, "buffer ", b, " value ", i, " is ", x[i], " ", e);
  }
  unlink(f.c_str()); rmdir(dir);
  MPI_Finalize();
  return done();
}
