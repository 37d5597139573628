#include "vh.hpp"
#include <complex>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include "combischeme/CombiMinMaxScheme.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "mpi/MPIUtils.hpp"
#include "task/Task.hpp"
#include "utils/MonteCarlo.hpp"
#include "utils/BoostExports.hpp"
using namespace combigrid;
using namespace vh;
static long long params = 0, tasks = 0, containers = 0, coords = 0, requests = 0;
static std::vector<size_t> diagnosed, inited;   // task numbers seen by this process
// values of a task follow from its number, so every process knows what should arrive
class HTask : public Task<double> {
 public:
  HTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m, FaultCriterion* f = new StaticFaults({0, IndexVector(0), IndexVector(0)})) : Task<double>(l, b, c, m, f), dfg_(nullptr) {}
  HTask() : dfg_(nullptr) {}
  FaultCriterion* fc() { return faultCriterion_; }
  ~HTask() { delete dfg_; }
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition) override {
    std::vector<int> p(getDim(), 1); MPI_Comm_size(lcomm, &p[0]);
    dfg_ = new OwningDistributedFullGrid<double>(getDim(), getLevelVector(), lcomm, getBoundary(), p, false, decomposition);
    for (IndexType i = 0; i < dfg_->getNrLocalElements(); ++i) dfg_->getData()[i] = 1.0;
    inited.push_back(getID());
  }
  void run(CommunicatorType) override { setFinished(true); }
  void getFullGrid(FullGrid<double>&, RankType, CommunicatorType, int = 0) override {}
  DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) override { return *dfg_; }
  const DistributedFullGrid<double>& getDistributedFullGrid(size_t = 0) const override { return *dfg_; }
  void setZero() override { for (IndexType i = 0; dfg_ && i < dfg_->getNrLocalElements(); ++i) dfg_->getData()[i] = 0.; }
  void doDiagnostics() override { usleep(200000); diagnosed.push_back(getID()); }
  void receiveDiagnostics() override {}
 private:
  friend class boost::serialization::access;
  OwningDistributedFullGrid<double>* dfg_;
  template <class Archive> void serialize(Archive& ar, const unsigned int) { ar& boost::serialization::base_object<Task<double>>(*this); }
};
BOOST_CLASS_EXPORT(HTask)

static std::string str(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)ri(32, 126); return s; }
static CombiParameters* makeParams(bool withLevels) {
  DimType d = ri(1, 6); LevelVector lmin(d), lmax(d), red(ri(0, 1) ? d : 0); std::vector<BoundaryType> b(d); std::vector<int> p(d);
  for (int k = 0; k < d; ++k) { lmin[k] = ri(1, 4); lmax[k] = lmin[k] + ri(0, 20); b[k] = ri(0, 2); p[k] = 1 << ri(0, 3); }
  for (auto& r : red) r = ri(0, 2);
  size_t nc = rnd() >> ri(0, 63); uint32_t chunk = ri(1, 1 << 20); CombinationVariant v = (CombinationVariant)ri(0, 3);
  bool fwd = ri(0, 1); std::string host = str(ri(0, 40)); unsigned short port = ri(0, 65535); size_t pg = rnd() >> ri(0, 63); IndexType ng = ri(1, 5);
  CombiParameters* c;
  if (withLevels) {
    std::set<size_t> ids; int n = ri(0, 40); while ((int)ids.size() < n) ids.insert(rnd() >> ri(0, 60));
    std::vector<size_t> id(ids.begin(), ids.end()); std::vector<LevelVector> lv; std::vector<real> co; std::set<LevelVector> seen;
    while (lv.size() < id.size()) { LevelVector l(d); for (auto& x : l) x = ri(1, 3000); if (seen.insert(l).second) { lv.push_back(l); co.push_back(rr(-1e3, 1e3) * std::pow(10., ri(-200, 200))); } }
    c = new CombiParameters(d, lmin, lmax, b, lv, co, id, nc, ng, v, p, LevelVector(0), red, chunk, fwd, host, port, pg);
  } else c = new CombiParameters(d, lmin, lmax, b, nc, ng, v, p, LevelVector(0), red, chunk, fwd, host, port, pg);
  int kind = ri(0, 6); std::vector<BasisFunctionBasis*> bs;
  for (int k = 0; kind && k < d; ++k) {
    int q = kind == 6 ? ri(0, 5) : kind;
    bs.push_back(q == 0 ? (BasisFunctionBasis*)new HierarchicalHatBasisFunction() : q == 1 ? (BasisFunctionBasis*)new HierarchicalHatPeriodicBasisFunction() : q == 2 ? (BasisFunctionBasis*)new FullWeightingBasisFunction()
               : q == 3 ? (BasisFunctionBasis*)new FullWeightingPeriodicBasisFunction() : q == 4 ? (BasisFunctionBasis*)new BiorthogonalBasisFunction() : (BasisFunctionBasis*)new BiorthogonalPeriodicBasisFunction());
  }
  if (kind) c->setHierarchicalBases(bs);
  if (ri(0, 1)) { std::vector<IndexVector> dec(d); for (int k = 0; k < d; ++k) { IndexType x = 0; for (int i = 0; i < p[k]; ++i) { dec[k].push_back(x); x += (IndexType)(rnd() >> ri(30, 60)) + 1; } } c->setDecomposition(dec); }
  return c;
}
static void cmp(CombiParameters& a, CombiParameters& b, const std::string& id) {
  ++params;
  CHECK(same(a.getLMin(), b.getLMin()), id); CHECK(same(a.getLMax(), b.getLMax()), id); CHECK(same(a.getLMaxReductionVector(), b.getLMaxReductionVector()), id);
  CHECK(same(a.getBoundary(), b.getBoundary()), id); CHECK(a.getDim() == b.getDim(), id); CHECK(a.getNumGrids() == b.getNumGrids(), id);
  CHECK(same(a.getHierarchizationDims(), b.getHierarchizationDims()), id); CHECK(same(a.getParallelization(), b.getParallelization()), id);
  CHECK(a.getNumberOfCombinations() == b.getNumberOfCombinations(), id, " ", a.getNumberOfCombinations(), " ", b.getNumberOfCombinations());
  CHECK(a.getCombinationVariant() == b.getCombinationVariant(), id); CHECK(a.getChunkSizeInMebibybtePerThread() == b.getChunkSizeInMebibybtePerThread(), id);
  CHECK(a.getThirdLevelHost() == b.getThirdLevelHost(), id, " ", a.getThirdLevelHost(), " ", b.getThirdLevelHost()); CHECK(a.getThirdLevelPort() == b.getThirdLevelPort(), id); CHECK(a.getThirdLevelPG() == b.getThirdLevelPG(), id);
  CHECK(same(a.getDecomposition(), b.getDecomposition()), id); CHECK(a.getForwardDecomposition() == b.getForwardDecomposition(), id);
  CHECK(a.getHierarchicalBases().size() == b.getHierarchicalBases().size(), id);
  for (size_t k = 0; k < std::min(a.getHierarchicalBases().size(), b.getHierarchicalBases().size()); ++k) CHECK(typeid(*a.getHierarchicalBases()[k]) == typeid(*b.getHierarchicalBases()[k]), id, " dimension ", k);
  CHECK(a.getNumLevels() == b.getNumLevels(), id);
  std::vector<size_t> ia, ib; std::vector<real> ca, cb; if (a.getNumLevels()) { a.getCoeffs(ia, ca); if (b.getNumLevels()) b.getCoeffs(ib, cb); CHECK(same(ia, ib) && same(ca, cb), id); }
  for (auto& kv : a.getLevelsDict()) { auto it = b.getLevelsDict().find(kv.first); CHECK(it != b.getLevelsDict().end() && same(it->second, kv.second), id, " task ", kv.first); }
}
static LinearLoadModel lm;
static HTask* makeTask() {
  int d = ri(1, 6); LevelVector l(d); std::vector<BoundaryType> b(d); for (int k = 0; k < d; ++k) { l[k] = ri(1, 30); b[k] = ri(0, 2); }
  int nf = ri(0, 4); IndexVector it(nf), rk(nf); for (int k = 0; k < nf; ++k) { it[k] = ri(0, 100000); rk[k] = ri(0, 1000); }
  auto t = new HTask(l, b, rr(-10, 10) * std::pow(10., ri(-100, 100)), &lm, new StaticFaults({nf, it, rk}));
  t->setID(rnd() >> ri(0, 63)); t->setFinished(ri(0, 1)); return t;
}
static void cmp(HTask& a, Task<double>& b0, const std::string& id) {
  ++tasks; if (!dynamic_cast<HTask*>(&b0)) { CHECK(false, id, " has another class"); return; } HTask& b = static_cast<HTask&>(b0);
  CHECK(same(a.getLevelVector(), b.getLevelVector()), id); CHECK(same(a.getBoundary(), b.getBoundary()), id); CHECK(a.getDim() == b.getDim(), id);
  CHECK(a.getID() == b.getID(), id, " ", a.getID(), " ", b.getID()); CHECK(a.getCoefficient() == b.getCoefficient(), id, " ", a.getCoefficient(), " ", b.getCoefficient());
  CHECK(a.isFinished() == b.isFinished(), id);
  CHECK(b.fc() != nullptr && typeid(*a.fc()) == typeid(*b.fc()), id);
  if (b.fc()) for (int n = 0; n < 200; n += 7) for (int r = 0; r < 20; ++r) { double t = 0; std::chrono::high_resolution_clock::time_point st; CHECK(a.fc()->failNow(n, t, r) == b.fc()->failNow(n, t, r), id, " iteration ", n, " rank ", r); }
}
template <class C> static void container(const C& want, int root, int me, const std::string& id) {
  C c(ri(0, 400), typename C::value_type(7)); if (me == root) c = want; MPIUtils::broadcastContainer(c, root, MPI_COMM_WORLD); ++containers;
  CHECK(c == want, id, " size ", want.size(), " arrived with ", c.size());
}
static void transfers(int me, int np, int reps) {
  for (int r = 0; r < reps; ++r) {
    int root = ri(0, np - 1), a = ri(0, np - 1), b = (a + ri(1, np - 1)) % np;
    {
      std::unique_ptr<CombiParameters> w(makeParams(ri(0, 3) > 0)), o(makeParams(true)), g(makeParams(true));
      std::string id = cat("parameters, repetition ", r, " rank ", me);
      CombiParameters& x = me == root ? *w : *o; MPIUtils::broadcastClass(&x, root, MPI_COMM_WORLD); cmp(*w, x, "broadcast " + id);
      if (me == a) MPIUtils::sendClass(w.get(), b, MPI_COMM_WORLD);
      if (me == b) { MPIUtils::receiveClass(g.get(), a, MPI_COMM_WORLD); cmp(*w, *g, "sent " + id); }
    }
    {
      HTask* w = makeTask(); std::string id = cat("task, repetition ", r, " rank ", me);
      Task<double>* x = me == root ? w : nullptr; Task<double>::broadcast(&x, root, MPI_COMM_WORLD); if (x) cmp(*w, *x, "broadcast " + id); else CHECK(false, id);
      if (me == a) { Task<double>* s = w; Task<double>::send(s, b, MPI_COMM_WORLD); }
      if (me == b) { Task<double>* y = nullptr; Task<double>::receive(&y, a, MPI_COMM_WORLD); if (y) { cmp(*w, *y, "sent " + id); delete y; } else CHECK(false, id); }
      if (x && x != w) delete x; delete w;
    }
    {
      std::string s; int n = r % 7 == 0 ? ri(5000, 70000) : ri(0, 300); for (int i = 0; i < n; ++i) s += (char)ri(0, 255); container(s, root, me, cat("string ", r));
      std::string f = str(ri(0, 200)), g = me == root ? f : std::string("old"); MPIUtils::broadcastClass(&g, root, MPI_COMM_WORLD); CHECK(f == g, "string sent as object");
      std::vector<int> vi(r % 7 == 1 ? 30000 : ri(0, 300)); for (auto& x : vi) x = (int)rnd(); container(vi, root, me, cat("vector<int> ", r));
      std::vector<double> vd(r % 7 == 2 ? 30000 : ri(0, 300)); for (auto& x : vd) x = rr(-1e9, 1e9); container(vd, root, me, cat("vector<double> ", r));
    }
    for (DimType d = 1; d <= 6; ++d) {
      int n = ri(1, 40); std::vector<std::vector<real>> c(n, std::vector<real>(d)); for (auto& p : c) for (auto& x : p) x = rr(0, 1);
      auto s = serializeInterpolationCoords(c); CHECK(s.size() == (size_t)n * d, "coordinates dim ", (int)d);
      CHECK(same(deserializeInterpolationCoords(s, d), c), "coordinates dim ", (int)d, " points ", n); coords += n;
    }
  }
}
static void managed(int np, const std::string& dir) {
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, np - 1, true);
  DimType dim = 2; LevelVector lmin(dim, 2), lmax(dim, 4); std::vector<BoundaryType> boundary(dim, 2);
  auto f = [&](const char* n) { return dir + "/" + n; };
  auto there = [&](const char* what, const char* prefix) { for (auto& e : std::filesystem::directory_iterator(dir)) if (e.path().filename().string().rfind(prefix, 0) == 0) return; CHECK(false, what, ": no file ", prefix, "*"); };
  if (theMPISystem()->isWorldManager()) {
    CombiMinMaxScheme cs(dim, lmin, lmax); cs.createAdaptiveCombischeme();
    auto levels = cs.getCombiSpaces(); auto coeffs = cs.getCoeffs(); TaskContainer<double> ts; std::vector<size_t> ids;
    for (size_t i = 0; i < levels.size(); ++i) { ts.push_back(new HTask(levels[i], boundary, coeffs[i], &lm)); ids.push_back(ts.back()->getID()); }
    CombiParameters p(dim, lmin, lmax, boundary, levels, coeffs, ids, 4, 1, CombinationVariant::sparseGridReduce, {np - 1, 1}, LevelVector(0), LevelVector(0), 16, false);
    auto pg = std::make_shared<ProcessGroupManager<double>>(0);
    ProcessGroupManagerContainer<double> pgs{pg};
    ProcessManager<double> m(pgs, ts, p, std::unique_ptr<LoadModel>(new LinearLoadModel()));
    m.updateCombiParameters(); m.runfirst(); m.combine(); requests += 3;
    m.doDiagnostics(ids[1]); ++requests;
    m.writeSparseGridMinMaxCoefficients(f("minmax")); pg->waitStatus(); ++requests; there("minimum and maximum coefficients after diagnostics", "minmax");
    pg->writeDSGsToDisk(f("grids")); pg->waitStatus(); ++requests; there("sparse grids", "grids");
    pg->readDSGsFromDisk(f("grids")); pg->waitStatus(); ++requests;
    pg->combineThirdLevelFileBasedWrite(f("data"), f("token")); pg->waitStatus(); ++requests;
    there("prefix of the sparse grid files", "data"); there("token file", "token");
    for (auto& e : std::filesystem::directory_iterator(dir)) if (e.path().filename().string().rfind("token", 0) == 0) CHECK(std::filesystem::file_size(e.path()) < 64, "the token is a token, the data file holds the data");
    auto pts = montecarlo::getRandomCoordinates(2000, dim); auto v = m.interpolateValues(pts); ++requests;
    CHECK(v.size() == pts.size(), "interpolated values");
    for (int q = 0; q < 3; ++q) { auto n = m.getLpNorms(q); ++requests; CHECK(n.size() == ids.size(), "norms"); for (auto i : ids) CHECK(n.count(i), "norm of task ", i); }
    std::string ev = f("eval.raw"); m.parallelEval(lmax, ev, 0); ++requests; there("evaluated solution", "eval");
    m.exit(); ++requests;
    int flag; MPI_Status st; usleep(200000); MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, theMPISystem()->getGlobalComm(), &flag, &st);
    CHECK(!flag, "a message with tag ", st.MPI_TAG, " to the manager was never received");
    std::vector<size_t> all(ids); unsigned long n = all.size(); MPI_Bcast(&n, 1, MPI_UNSIGNED_LONG, np - 1, MPI_COMM_WORLD); MPI_Bcast(all.data(), n, MPI_UNSIGNED_LONG, np - 1, MPI_COMM_WORLD);
  } else {
    ProcessGroupWorker<double> w; SignalType s = -1; while (s != EXIT) s = w.wait();
    unsigned long n; MPI_Bcast(&n, 1, MPI_UNSIGNED_LONG, np - 1, MPI_COMM_WORLD); std::vector<size_t> all(n); MPI_Bcast(all.data(), n, MPI_UNSIGNED_LONG, np - 1, MPI_COMM_WORLD);
    CHECK(diagnosed.size() == 1 && diagnosed[0] == all[1], "diagnostics requested for task ", all[1], " done for ", vs(diagnosed));
    CHECK(std::set<size_t>(inited.begin(), inited.end()) == std::set<size_t>(all.begin(), all.end()), "tasks ", vs(all), " arrived as ", vs(inited));
  }
}
int main(int argc, char** argv) {
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  Stats::initialize();
  transfers(me, np, thorough() ? 600 : 60);
  char dir[512]; snprintf(dir, sizeof dir, "%s/h_p15_XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (me == 0) { if (!mkdtemp(dir)) return 2; } MPI_Bcast(dir, 512, MPI_CHAR, 0, MPI_COMM_WORLD);
  managed(np, dir);
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) std::filesystem::remove_all(dir);
  if (me == np - 1) { covered("parameter sets compared", params); covered("tasks compared", tasks); covered("containers broadcast", containers); covered("coordinates", coords); covered("requests to a group", requests); done(); }
  MPI_Finalize(); return 0;
}
