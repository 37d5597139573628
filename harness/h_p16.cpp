#include "vh.hpp"
#include <arpa/inet.h>
#include <cmath>
#include <random>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "task/Task.hpp"
#include "third_level/ThirdLevelUtils.hpp"
#include "utils/BoostExports.hpp"
using namespace combigrid;
using namespace vh;
void broker(int port, size_t chunk);
extern "C" unsigned sleep(unsigned) { usleep(100000); return 0; }   // closing a server and connecting again wait for 5 s
static long long exchanged = 0, ops = 0, compared = 0, runs = 0;
static real fn(const std::vector<double>& x) { real r = 0.7, k = 1; for (auto v : x) { r += std::sin(3.1 * k * v + 0.3) * (1.3 + v * v); r *= 1.1 + v; k += 0.7; } return r; }
class HTask : public Task<double> {
 public:
  HTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m) : Task<double>(l, b, c, m), dfg_(nullptr) {}
  HTask() : dfg_(nullptr) {}
  ~HTask() { delete dfg_; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition) override {
    std::vector<int> p(getDim(), 1); MPI_Comm_size(lcomm, &p[0]);
    dfg_ = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), p, false, decomposition); fill();
  }
  void fill() { std::vector<double> x(getDim()); for (IndexType i = 0; i < dfg_->getNrLocalElements(); ++i) { dfg_->getCoordsLocal(i, x); dfg_->getData()[i] = fn(x); } }
  void check(const std::string& id) {
    std::vector<double> x(getDim()); double worst = 0; for (IndexType i = 0; i < dfg_->getNrLocalElements(); ++i) { dfg_->getCoordsLocal(i, x); worst = std::max(worst, std::abs(dfg_->getData()[i] - fn(x))); ++compared; }
    CHECK(worst < 1e-9, id, ": combination changed values by ", worst);
  }
  void run(CommunicatorType) override { setFinished(true); }
  void getFullGrid(FullGrid<double>&, RankType, CommunicatorType, int = 0) override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) override { return *dfg_; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) const override { return *dfg_; }
  void setZero() override { for (IndexType i = 0; dfg_ && i < dfg_->getNrLocalElements(); ++i) dfg_->getData()[i] = 0.; }
 private:
  friend class boost::serialization::access;
  OwningDistributedFullGrid<double>* dfg_;
  template <class Archive> void serialize(Archive& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); }
};
BOOST_CLASS_EXPORT(HTask)
static int freeport() {
  int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = 0; bind(s, (sockaddr*)&a, sizeof a);
  socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); close(s); return ntohs(a.sin_port);
}
// two systems without workers: what the managers say to the third level manager, either one first
static double val(int sys, int op, long i) { return (sys + 1) * 1000. + op + 1e-4 * i * (sys ? -1 : 1); }
static void talk(int sys, int port, int reps, bool thorough) {
  std::mt19937_64 common(4711), mine(99 + sys);   // operations are the same on both systems, delays are not
  ThirdLevelUtils t("localhost", port); t.connectToThirdLevelManager(1.);
  for (int op = 0; op < reps; ++op) {
    int kind = op % 30 == 5 ? 0 : common() % 4; int K = kind == 0 ? (op % 30 == 5 ? 40 : common() % 4) : 1; if (mine() % 2) usleep(mine() % 3000);
    if (kind == 0) t.signalReadyToCombine(); else if (kind == 1) t.signalReadyToUnifySubspaceSizes(); else if (kind == 2) t.signalReadyToExchangeData(); else t.signalReadyToCombineFile();
    std::string in = t.fetchInstruction(); ++ops;
    if (kind == 3) { CHECK(in == "write_ok", "file based combination: ", in); t.signalReady(); continue; }
    bool first = in == "send_first"; CHECK(first || in == "recv_first", "instruction ", in);
    for (int k = 0; k < K; ++k) {
      size_t n = K < 10 && common() % 3 == 0 ? common() % 200000 : common() % 50 + 1; exchanged += n;
      if (kind == 1) {
        std::vector<SubspaceSizeType> a(n), b(n, 7); for (size_t i = 0; i < n; ++i) a[i] = (i % 3 == (size_t)sys) ? 0 : 4000000000u - i;
        if (first) { t.sendData(a.data(), n); t.recvData(b.data(), n); } else { t.recvData(b.data(), n); t.sendData(a.data(), n); }
        bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && b[i] == ((i % 3 == (size_t)(1 - sys)) ? 0 : 4000000000u - i); CHECK(ok, "sizes of the other system, operation ", op, " length ", n);
      } else {
        std::vector<double> d(n), w(n); for (size_t i = 0; i < n; ++i) { d[i] = val(sys, op, i); w[i] = val(0, op, i) + val(1, op, i); }
        if (kind == 0) { if (first) { t.sendData(d.data(), n); t.recvData(d.data(), n); } else { t.recvAndAddToData(d.data(), n); t.sendData(d.data(), n); } }
        else { std::vector<double> r(n); if (first) { t.sendData(d.data(), n); if (op % 2) t.recvData(r.data(), n); } else { t.recvData(r.data(), n); if (op % 2) t.sendData(d.data(), n); }
               if (op % 2 || !first) for (size_t i = 0; i < n; ++i) d[i] += r[i]; else d = w; }
        bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && std::abs(d[i] - w[i]) < 1e-9; CHECK(ok, "sum over both systems, operation ", op, " kind ", kind, " block ", k, " length ", n, first ? " sends first" : " receives first");
      }
    }
    t.signalReady();
  }
}
static LinearLoadModel lm;
// two whole systems, each a manager and two workers
static void systems(int sys, MPI_Comm comm, MPI_Comm managers, int port, int ngroup, int nprocs, DimType dim, bool extra, int pg) {
  theMPISystem()->initWorldReusable(comm, ngroup, nprocs, true); ++runs;
  LevelVector lmin(dim, 2), lmax(dim, dim > 2 ? 4 : 5); std::vector<BoundaryType> boundary(dim, 2);
  std::string id = cat("system ", sys, ", ", ngroup, " groups of ", nprocs, ", dim ", (int)dim, extra ? ", extra sparse grid" : "");
  if (theMPISystem()->isWorldManager()) {
    CombiMinMaxScheme cs(dim, lmin, lmax); cs.createClassicalCombischeme(); std::vector<LevelVector> levels; std::vector<real> coeffs;
    CombiThirdLevelScheme::createThirdLevelScheme(cs.getCombiSpaces(), cs.getCoeffs(), sys, 2, levels, coeffs);
    TaskContainer<double> ts; std::vector<size_t> ids; for (size_t i = 0; i < levels.size(); ++i) { ts.push_back(new HTask(levels[i], boundary, coeffs[i], &lm)); ids.push_back(ts.back()->getID()); }
    std::vector<int> par(dim, 1); par[0] = nprocs;
    CombiParameters p(dim, lmin, lmax, boundary, levels, coeffs, ids, 3, 1, CombinationVariant::sparseGridReduce, par, LevelVector(dim, 0), LevelVector(dim, 1), 32, false, "localhost", port, pg);
    if (nprocs > 1) { std::vector<IndexVector> dec(dim, IndexVector(1, 0)); IndexType N = IndexType(1) << lmax[0]; dec[0].push_back(dim == 3 ? N / 4 : N - N / 4); p.setDecomposition(dec); }   // one worker has more points than the other
    ProcessGroupManagerContainer<double> pgs; for (int i = 0; i < ngroup; ++i) pgs.push_back(std::make_shared<ProcessGroupManager<double>>(i));
    ProcessManager<double> m(pgs, ts, p, std::unique_ptr<LoadModel>(new LinearLoadModel()));
    m.updateCombiParameters(); if (sys) usleep(50000); m.runfirst();
    auto n = m.unifySubspaceSizesThirdLevel(extra);
    LevelVector lr = lmax; for (auto& l : lr) l -= 1; std::vector<LevelVector> created; createTruncatedHierarchicalLevels(lr, lmin, created); auto dof = getNumDofHierarchical(created, boundary);
    if (extra) CHECK((long)n <= (long)dof && n > 0, id, ": ", n, " values"); else CHECK((long)n == (long)dof, id, ": ", n, " values instead of ", dof);
    for (int i = 0; i < 3; ++i) { if (i) { if (i == 2 && !sys) usleep(50000); m.runnext(); } m.combineThirdLevel(); }
    std::vector<std::vector<real>> x; std::vector<double> v; m.monteCarloThirdLevel(300, x, v);
    std::vector<double> q; for (size_t i = 0; i < x.size(); ++i) { for (auto y : x[i]) q.push_back(y); q.push_back(v[i]); CHECK(std::abs(v[i] - fn(x[i])) < 2, id, ": value at a random point ", v[i], " instead of about ", fn(x[i])); }
    std::vector<double> o(q.size() + 1, 7), s = q; int me; MPI_Comm_rank(managers, &me); MPI_Sendrecv(s.data(), s.size(), MPI_DOUBLE, 1 - me, 3, o.data(), o.size(), MPI_DOUBLE, 1 - me, 3, managers, MPI_STATUS_IGNORE); o.pop_back();
    double worst = 0; for (size_t i = 0; i < q.size(); ++i) worst = std::max(worst, std::abs(q[i] - o[i])); CHECK(q.size() == 300 * (dim + 1) && worst < 1e-9, id, ": points and values of the two systems differ by ", worst);
    m.exit();
  } else {
    ProcessGroupWorker<double> w; SignalType s = -1;
    while (s != EXIT) { s = w.wait(); if (s == COMBINE_THIRD_LEVEL || s == WAIT_FOR_TL_COMBI_RESULT) for (auto& t : w.getTasks()) static_cast<HTask&>(*t).check(cat(id, ", rank ", theMPISystem()->getWorldRank())); }
  }
}
// two process groups without any subspace in common (one has no task): nothing is broadcast, nothing is waited for
static void nothingInCommon(MPI_Comm comm) {
  theMPISystem()->initWorldReusable(comm, 2, 1, false); ProcessGroupWorker<double> w; DimType dim = 2;
  CombiParameters p(dim, LevelVector(dim, 2), LevelVector(dim, 3), std::vector<BoundaryType>(dim, 2), 3, 1, CombinationVariant::outgroupSparseGridReduce, std::vector<int>(dim, 1), LevelVector(0), LevelVector(0), 16, false);
  w.setCombiParameters(std::move(p)); std::vector<LevelVector> l; std::vector<real> c; std::vector<size_t> id;
  if (theMPISystem()->getProcessGroupNumber() == 0) { l = {{2, 2}}; c = {1.}; id = {0}; }
  w.initializeAllTasks<HTask>(l, c, id, &lm); w.initCombinedDSGVector(); w.zeroDsgsData(); w.runAllTasks(); w.combineSystemWide();
  if (theMPISystem()->getOutputGroupComm() == MPI_COMM_NULL) w.waitForThirdLevelCombiResult(true);
  MPI_Barrier(comm); for (auto& t : w.getTasks()) { t->setZero(); } ++runs;
}
int main(int argc, char** argv) {
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  if (np != 7) return 2;
  Stats::initialize();
  int sys = me / 3; MPI_Comm comm, managers; MPI_Comm_split(MPI_COMM_WORLD, sys, me, &comm); MPI_Comm_split(MPI_COMM_WORLD, me == 2 || me == 5 ? 1 : 0, me, &managers);
  auto port = [&]() { int p = me == 6 ? freeport() : 0; MPI_Bcast(&p, 1, MPI_INT, 6, MPI_COMM_WORLD); return p; };
  auto wait = [&]() { usleep(300000); };          // the server listens before the systems connect (they retry after 5 s)
  int reps = thorough() ? 300 : 30;
  for (size_t chunk : {(size_t)131072, (size_t)1001}) {
    int p = port(); if (me == 6) broker(p, chunk); else { wait(); if (me == 0 || me == 3) talk(sys, p, reps, thorough()); } MPI_Barrier(MPI_COMM_WORLD);
  }
  { int p = port(); if (me == 6) broker(p, 100); else { wait(); if (me == 0 || me == 3) talk(sys, p, 0, false); } MPI_Barrier(MPI_COMM_WORLD); }   // nothing to combine
  struct C { int g, n, d, e, pg; }; std::vector<C> cs{{1, 2, 2, 0, 0}, {1, 2, 2, 1, 0}, {2, 1, 2, 0, 1}, {1, 2, 3, 0, 0}}; if (thorough()) { cs.push_back({2, 1, 3, 1, 1}); cs.push_back({2, 1, 4, 0, 0}); cs.push_back({1, 2, 4, 1, 0}); }
  for (auto& c : cs) { int p = port(); if (me == 6) broker(p, 4096); else { wait(); systems(sys, comm, managers, p, c.g, c.n, c.d, c.e, c.pg); } MPI_Barrier(MPI_COMM_WORLD); }
  { MPI_Comm two; MPI_Comm_split(MPI_COMM_WORLD, me < 2 ? 0 : 1, me, &two); if (me < 2) nothingInCommon(two); MPI_Barrier(MPI_COMM_WORLD); }
  long long s[2] = {compared, runs}, t[2]; MPI_Reduce(s, t, 2, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
  if (me == 0) { covered("operations through the third level manager", ops); covered("values exchanged without workers", exchanged); covered("combined values compared", t[0]); done(); }
  MPI_Finalize(); return 0;
}
