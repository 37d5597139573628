import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
U='src/third_level/NetworkUtils.hpp'
mkseed('p11-split-foreign', 'P11', [(U, """      if (hasSameEndianness){
        buff[numReduced] = reduceOp(buff[numReduced], remainingVal);
        ++numReduced;
      }
      else{
        buff[numReduced] = reduceOp(buff[numReduced], NetworkUtils::reverseEndianness(remainingVal));
        ++numReduced;
      }
      remaining.clear();
""", """      buff[numReduced] = reduceOp(buff[numReduced], remainingVal);
      ++numReduced;
      remaining.clear();
""")],
 'a sender with the other byte order and an element that arrives in two pieces',
 'elements put together from two receives are added without correcting their byte order',
 r'''#include "vh.hpp"
#undef _FORTIFY_SOURCE
#include <sys/socket.h>
#include <string.h>
#include <algorithm>
#include "third_level/NetworkUtils.hpp"
using namespace combigrid; using namespace vh;
static std::string in; static size_t pos = 0, piece = 5;
extern "C" ssize_t recv(int, void* b, size_t n, int) { size_t k = std::min({n, in.size() - pos, piece}); memcpy(b, in.data() + pos, k); pos += k; return (ssize_t)k; }
struct Sock : ClientSocket { Sock() : ClientSocket("none", 1) { sockfd_ = 1 << 20; initialized_ = true; } ~Sock() { sockfd_ = -1; } };
static double plus_(const double& a, const double& b) { return a + b; }
int main() {
  for (piece = 1; piece < 30; ++piece) for (int foreign = 0; foreign < 2; ++foreign) {
    std::vector<double> sent{1.5, -2.25, 3e5, 7}, mine{1, 2, 3, 4};
    int one = 1; char little = *(char*)&one; in = std::string(1, foreign ? !little : little);
    for (double x : sent) { std::string s((char*)&x, 8); if (foreign) std::reverse(s.begin(), s.end()); in += s; }
    pos = 0; Sock s; bool ok = s.recvallBinaryAndReduceInPlace<double>(mine.data(), 4, plus_);
    CHECK(ok && pos == in.size(), "received");
    for (int i = 0; i < 4; ++i) CHECK(mine[i] == sent[i] + i + 1, "element ", i, " in pieces of ", piece, " foreign ", foreign, " is ", mine[i]);
  }
  return done();
}
''', sources=['src/third_level/NetworkUtils.cpp -U_FORTIFY_SOURCE'], helpers=('vh.hpp',))
