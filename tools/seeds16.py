import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
V = os.environ.get('V', '/verif')
R = os.environ.get('REPO', '/repo')
BROKER = '''#define main thirdLevelManagerMain
#include "../third_level_manager/thirdLevelManager.cpp"
#undef main
'''
mkseed('p16-log-off-order', 'P16', [('third_level_manager/thirdLevelManager.cpp', """  systems_.erase(systems_.begin()+ (long)sysIndex);
""", """  // all systems but the last one wait for it to log off, too
  if (sysIndex < systems_.size()) {
    systems_.pop_back();
  }
""")],
 'the system that connected first also logs off first, while the other one still computes',
 'the third level manager forgets the system that is still running: it fails on the closed connection of the other one instead of waiting for the second to log off',
 BROKER + '''#include "vh.hpp"
#include "third_level/ThirdLevelUtils.hpp"
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace vh;
extern "C" unsigned sleep(unsigned) { usleep(100000); return 0; }
static int freeport() {
  int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); bind(s, (sockaddr*)&a, sizeof a);
  socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); close(s); return ntohs(a.sin_port);
}
static void system_(int which, int port, int leaveFirst) {
  usleep(300000 + 300000 * which);
  combigrid::ThirdLevelUtils t("localhost", port); t.connectToThirdLevelManager(0.2);
  std::vector<double> d(10, which + 1.); t.signalReadyToCombine();
  if (t.fetchInstruction() == "send_first") { t.sendData(d.data(), 10); t.recvData(d.data(), 10); } else { t.recvAndAddToData(d.data(), 10); t.sendData(d.data(), 10); }
  t.signalReady();
  for (double x : d) if (x != 3.) _exit(1);
  if (which != leaveFirst) usleep(1500000);
}
int main() {
  for (int leaveFirst : {1, 0}) {
    int port = freeport(); pid_t c[2];
    for (int w = 0; w < 2; ++w) if (!(c[w] = fork())) { alarm(20); system_(w, port, leaveFirst); _exit(0); }
    pid_t b = fork();
    if (!b) {
      alarm(25); std::string p = "--port=" + std::to_string(port); std::vector<char*> v{(char*)"tlm", &p[0], (char*)"--chunksize=1000", (char*)"--numSystems=2"};
      Params ps; ps.loadFromCmd(4, v.data()); combigrid::ThirdLevelManager m(ps); m.init();
      auto t = std::chrono::steady_clock::now();
      try { m.runtimeLoop(); } catch (std::exception& e) { std::cout << e.what() << std::endl; _exit(1); }
      _exit(std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() < 1. ? 2 : 0);   // the second system leaves after 1.5 s
    }
    int st; for (int w = 0; w < 2; ++w) { waitpid(c[w], &st, 0); CHECK(st == 0, "system ", w, " status ", st); }
    waitpid(b, &st, 0); CHECK(st == 0, "third level manager status ", st, ", system ", leaveFirst, " leaves first");
  }
  if (!nfail()) done();
  return 0;
}
''', sources=['src/third_level/NetworkUtils.cpp', 'src/third_level/ThirdLevelUtils.cpp'] + ['third_level_manager/%s.cpp' % x for x in ('Params', 'Stats', 'System')])
h = open(V + '/harness/h_p16.cpp').read()
a, b = h.index('// two systems without workers: what'), h.index('static LinearLoadModel lm;')
h = h[:a] + h[b:]
a, b = h.index('  int reps ='), h.index('  long long s[2]')
h = h[:a] + '''  struct C { int g, n, d, e, pg; }; std::vector<C> cs{{1, 2, 2, 0, 0}, {1, 2, 3, 0, 0}};
  for (auto& c : cs) { int p = port(); if (me == 6) broker(p, 4096); else { wait(); systems(sys, comm, managers, p, c.g, c.n, c.d, c.e, c.pg); } MPI_Barrier(MPI_COMM_WORLD); }
  if (me == 0) done();
  MPI_Finalize(); return 0;
}
'''
h = h.replace('static long long exchanged = 0, ops = 0, compared', 'static long long compared')
seeds = [('p16-largest-worker', 'P16', [('src/manager/ProcessGroupManager.cpp', """      dsguData.resize(dsguSize);
      recvDsguFromWorker(dsguData, p, comm);

      if (isSendingFirst) {
""", """      if (dsguData.size() < dsguSize) {
        dsguData.resize(dsguSize);
      }
      recvDsguFromWorker(dsguData, p, comm);

      if (isSendingFirst) {
""")],
 'a worker of the process group that holds fewer values than one before it (an uneven decomposition)',
 'the values returned to this worker are more than it expects: its receive is truncated and the combination fails')]
glob_ = ['src/%s/%s' % (d, f) for d in sorted(os.listdir(R + '/src')) if os.path.isdir(R + '/src/' + d) for f in sorted(os.listdir(R + '/src/' + d)) if f.endswith('.cpp')]
for id, p, ed, needs, br in seeds:
    def par(t):
        out = []
        for l in t.split('\n'):
            if l.startswith('g++'):
                pre, post = l.split('"$D/demo.cpp"')
                srcs, rest = post.split('-o "$T/demo"')
                libs = rest.split('||')[0]
                out.append('export CC="%s" T R D' % pre.replace('"$D"', '$D').strip())
                out.append('cd $R && ls "$D/demo.cpp" "$D/broker.cpp" src/*/*.cpp third_level_manager/Params.cpp third_level_manager/Stats.cpp third_level_manager/System.cpp | xargs -P8 -I{} sh -c \'$CC -c {} -o $T/$(echo {} | tr / _).o\' || exit 3')
                out.append('g++ -fopenmp "$T"/*.o -o "$T/demo" %s -lglpk || exit 3' % libs.strip())
            else:
                out.append(l)
        return '\n'.join(out)
    mkseed(id, p, ed, needs, br, h, np=7, extra={'broker.cpp': open(V + '/harness/h_p16_broker.cpp').read()}, script=par)
