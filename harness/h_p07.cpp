// P07 bounded stand-in / replay: the real global reductions between real processes, and the choice of participants for up to 256 simulated ones
#include "vh.hpp"
#include <omp.h>
#include "combicom/CombiCom.hpp"
using namespace combigrid;
using namespace vh;
static long long cases = 0, values = 0, virt = 0;
static int me, np;
// ---- interception: message sizes of the real reductions, and simulated collectives
static bool watching = false; static size_t biggest = 0, biggestMulti = 0;
static void watch(int count, MPI_Datatype t) {
  if (!watching) return;
  int ts = 0; MPI_Type_size(t, &ts); size_t b = (size_t)ts * (size_t)count; if (b > biggest) biggest = b;
  int ni, na, nd, comb; MPI_Type_get_envelope(t, &ni, &na, &nd, &comb);
  if (!(comb == MPI_COMBINER_INDEXED && ni == 3) && b > biggestMulti) biggestMulti = b;
}
struct Stop {};
namespace sim {
static bool on = false; static int rank = 0, collective = 0, recording = 0;
struct Rec { std::vector<std::vector<char>> bufs; bool combined = false; std::vector<char> result; };
static std::vector<Rec> recs; static std::vector<std::vector<int>> groups;
}
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (!sim::on) { watch(n, t); return PMPI_Allreduce(s, r, n, t, op, c); }
  int ts; MPI_Type_size(t, &ts); size_t b = (size_t)ts * (size_t)n; const char* in = s == MPI_IN_PLACE ? (const char*)r : (const char*)s;
  int k = sim::collective++;
  if (k == sim::recording) { if ((int)sim::recs.size() <= k) sim::recs.resize(k + 1); sim::recs[k].bufs.push_back(std::vector<char>(in, in + b)); throw Stop(); }
  auto& rec = sim::recs[k];
  if (!rec.combined) {
    rec.combined = true; rec.result = rec.bufs[0];
    for (auto& o : rec.bufs) { if (o.size() != rec.result.size()) { vh::fail("simulated processes disagree on the message size"); continue; }
      if (op == MPI_BOR) for (size_t i = 0; i < b; ++i) rec.result[i] |= o[i];
      else if (op == MPI_MAX && ts == 4) for (size_t i = 0; i < b; i += 4) { uint32_t x, y; memcpy(&x, &rec.result[i], 4); memcpy(&y, &o[i], 4); if (y > x) memcpy(&rec.result[i], &y, 4); }
      else if (op == MPI_MAX && ts == 8) for (size_t i = 0; i < b; i += 8) { uint64_t x, y; memcpy(&x, &rec.result[i], 8); memcpy(&y, &o[i], 8); if (y > x) memcpy(&rec.result[i], &y, 8); }
      else if (&o != &rec.bufs[0]) vh::fail("unexpected collective operation"); }
  }
  memcpy(r, rec.result.data(), b); return MPI_SUCCESS;
}
extern "C" int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { watch(n, t); return PMPI_Reduce(s, r, n, t, op, root, c); }
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { if (!sim::on) return PMPI_Comm_size(c, n); *n = (int)sim::recs[0].bufs.size(); return MPI_SUCCESS; }
extern "C" int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { if (!sim::on) return PMPI_Group_incl(g, n, r, o); sim::groups.push_back(std::vector<int>(r, r + n)); return PMPI_Group_incl(g, 0, r, o); }
extern "C" int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o) { if (!sim::on) return PMPI_Comm_create(c, g, o); *o = MPI_COMM_SELF; return MPI_SUCCESS; }
extern "C" int MPI_Comm_free(MPI_Comm* c) { if (*c == MPI_COMM_SELF) return MPI_SUCCESS; return PMPI_Comm_free(c); }
// ---- common data: same pseudo random stream on all processes
static std::vector<std::vector<uint32_t>> sz;     // [process][subspace], 0: not held
template <class T> struct Mk { static T v(long long a) { return (T)a; } };
template <> struct Mk<std::complex<double>> { static std::complex<double> v(long long a) { return {(double)a, (double)(a % 7) - 3}; } };
template <class T> static T val(int p, int s, size_t j) { return Mk<T>::v((long long)((j * 31 + s * 17 + p * 101) % 257) * (p + 1) - 40); }
template <class T> static std::unique_ptr<DistributedSparseGridUniform<T>> mk(int K) {
  std::vector<LevelVector> subs; for (int k = 0; k < K; ++k) subs.push_back({1, k + 1});
  MPI_Comm self = MPI_COMM_SELF;
  std::unique_ptr<DistributedSparseGridUniform<T>> d(new DistributedSparseGridUniform<T>(2, subs, self));
  for (int k = 0; k < K; ++k) d->setDataSize(k, sz[me][k]);
  return d;
}
template <class T> static void fill(DistributedSparseGridUniform<T>& d, int K, const std::set<int>* only = nullptr) {
  for (int k = 0; k < K; ++k) if (!only || only->count(k)) for (size_t j = 0; j < d.getDataSize(k); ++j) d.getData(k)[j] = j < sz[me][k] ? val<T>(me, k, j) : T(0);
}
template <class T> static void verify(DistributedSparseGridUniform<T>& d, int K, const std::string& id, std::function<bool(int, int)> in, bool check = true, const std::set<int>* only = nullptr) {
  for (int k = 0; k < K && check; ++k) { if (only && !only->count(k)) continue;
    for (size_t j = 0; j < d.getDataSize(k); ++j) {
      T e(0); if (in(me, k)) { for (int p = 0; p < np; ++p) if (in(p, k) && j < sz[p][k]) e += val<T>(p, k, j); } else e = j < sz[me][k] ? val<T>(me, k, j) : T(0);
      ++values; if (d.getData(k)[j] != e) { vh::fail(cat(id, " process ", me, " subspace ", k, " entry ", j, " is ", d.getData(k)[j], " expected ", e)); return; }
    } }
}
template <class T> static void limit(const std::string& id, uint32_t mib, bool single) {
  size_t lim = (size_t)mib * 1048576u * (size_t)OpenMPUtils::getNumThreads();
  if (mib) CHECK((single ? biggestMulti : biggest) <= lim, id, " message of ", single ? biggestMulti : biggest, " bytes for a limit of ", lim);
  biggest = biggestMulti = 0;
}
template <class T> static void run(int c) {
  int K = ri(1, 9); bool big = ri(0, 3) == 0; uint32_t mib = ri(0, 4) == 0 ? (ri(0, 1) ? 0u : (uint32_t)(1u << ri(11, 31))) : (uint32_t)ri(1, 3);
  std::vector<uint32_t> full(K); for (auto& x : full) x = (uint32_t)(big ? (ri(0, 2) ? ri(1, 150000) : 131072 * ri(1, 2)) : ri(1, 40));
  if (c % 5 == 1 && c % 2 == 0) { big = true; mib = (uint32_t)ri(1, 2); for (auto& x : full) x = (uint32_t)ri(20000, 131072); } // chunks of several subspaces
  int variant = c % 5; // 0 sparse grid, 1 subspace, 2 outgroup, 3 chunked outgroup, 4 sparse grid sizes in two steps
  sz.assign(np, std::vector<uint32_t>(K, 0));
  for (int p = 0; p < np; ++p) for (int k = 0; k < K; ++k) if (ri(0, 9) < 6) sz[p][k] = full[k];
  if (variant == 2 || variant == 3) for (int p = 0; p < np; ++p) { int k = ri(0, K - 1); sz[p][k] = sz[(p + 1) % np][k] = full[k]; } // everybody shares something
  int collects = ri(0, 2) ? -1 : ri(0, np - 1); if (variant == 1 || variant == 3) collects = -1;
  std::string id = cat("case ", c, " variant ", variant, " limit ", mib, " MiB, collected by ", collects, ", sizes"); for (auto& s : sz) id += vs(s);
  if (id.size() > 900) id.resize(900);
  ++cases; auto d = mk<T>(K); MPI_Comm w = theMPISystem()->getGlobalReduceComm();
  std::vector<int> holders(K, 0); for (int k = 0; k < K; ++k) for (int p = 0; p < np; ++p) holders[k] += sz[p][k] > 0;
  RankType root = collects < 0 ? MPI_PROC_NULL : collects;
  if (variant == 0 || variant == 4) {
    if (variant == 0) CombiCom::reduceSubspaceSizes(*d, w);
    else { int r = ri(0, np - 1); CombiCom::maxReduceSubspaceSizesAcrossGroups(*d, r, w); CombiCom::broadcastSubspaceSizes(*d, w, r); }
    for (int k = 0; k < K; ++k) CHECK(d->getDataSize(k) == (holders[k] ? full[k] : 0u), id, " reconciled size of subspace ", k, " is ", d->getDataSize(k));
    if (nfail()) return;
    d->createSubspaceData(); fill(*d, K); watching = true; CombiCom::distributedGlobalSparseGridReduce(*d, mib, root, w); watching = false;
    if (d->getRawDataSize()) limit<T>(id, mib, false);
    verify<T>(*d, K, id, [](int, int) { return true; }, collects < 0 || me == collects);
    if (collects >= 0) { MPI_Request q; CombiCom::asyncBcastDsgData(*d, collects, w, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); verify<T>(*d, K, id + " after broadcast", [](int, int) { return true; }); }
    if (np > 1 && d->getRawDataSize()) { // point to point
      if (me == 0) { CombiCom::sendDsgData(*d, 1, w); } else if (me == 1) { for (size_t i = 0; i < d->getRawDataSize(); ++i) d->getRawData()[i] = T(0); CombiCom::recvDsgData(*d, 0, w); verify<T>(*d, K, id + " after transfer", [](int, int) { return true; }, collects < 0); }
    }
    return;
  }
  if (variant == 1) d->setSubspaceCommunicators(w, me); else d->setOutgroupCommunicator(w, me);
  bool all = variant != 1;
  // participants: every subspace held by more than one process
  std::map<int, int> seen; for (auto& x : d->getSubspacesByCommunicator()) { int cs; PMPI_Comm_size(x.first, &cs); for (int k : x.second) { ++seen[k]; CHECK(cs == (all ? np : holders[k]), id, " subspace ", k, " is exchanged between ", cs, " processes"); } }
  for (int k = 0; k < K; ++k) {
    bool part = holders[k] > 1 && (all || sz[me][k] > 0);
    CHECK((seen.count(k) ? seen[k] : 0) == (part ? 1 : 0), id, " process ", me, " exchanges subspace ", k, " ", seen.count(k) ? seen[k] : 0, " times");
    CHECK(d->getDataSize(k) == (all && holders[k] > 1 ? full[k] : sz[me][k]), id, " size of subspace ", k, " is ", d->getDataSize(k));
  }
  if (nfail()) return;
  auto in = [&](int p, int k) { return holders[k] > 1 && (all || sz[p][k] > 0); };
  if (variant == 3) {
    int chunk = CombiCom::getGlobalReduceChunkSize<T>(mib); CHECK(chunk > 0, id, " chunk size ", chunk);
    if (!d->getSubspacesByCommunicator().empty()) {
      std::set<int> done;
      std::vector<std::set<int>> cs; for (auto& x : CombiCom::getChunkedSubspaces(*d, d->getSubspacesByCommunicator()[0].second, chunk)) cs.push_back(std::set<int>(x.begin(), x.end()));
      for (auto& ch : cs) { for (int k : ch) CHECK(done.insert(k).second, id, " subspace ", k, " in two chunks");
        std::set<AnyDistributedSparseGrid::SubspaceIndexType> cp(ch.begin(), ch.end()); d->allocateDifferentSubspaces(std::move(cp)); fill(*d, K, &ch);
        watching = true; CombiCom::distributedGlobalSubspaceReduce<DistributedSparseGridUniform<T>, true>(*d, mib); watching = false; limit<T>(id, mib, true);
        verify<T>(*d, K, id, in, true, &ch); }
      for (int k = 0; k < K; ++k) CHECK((holders[k] > 1) == (done.count(k) > 0), id, " subspace ", k, " is not in exactly one chunk");
    }
    return;
  }
  if (d->getAccumulatedDataSize() == 0 && d->getSubspacesByCommunicator().empty()) { if (!all) return; }
  d->createSubspaceData(); fill(*d, K); watching = true; CombiCom::distributedGlobalSubspaceReduce(*d, mib, root); watching = false; limit<T>(id, mib, true);
  if (collects < 0) verify<T>(*d, K, id, in); else if (me == collects) verify<T>(*d, K, id, in);
}
// participants among many simulated process groups
static void many(int c) {
  int R = c < 4 ? (int[]){256, 193, 65, 130}[c] : ri(2, 256), K = ri(1, 6); bool out = ri(0, 1); ++virt;
  std::vector<std::vector<uint32_t>> s(R, std::vector<uint32_t>(K, 0)); std::vector<int> holders(K, 0);
  for (int k = 0; k < K; ++k) { int kind = ri(0, 3); uint32_t n = (uint32_t)ri(1, 9); if (kind == 0) { s[ri(0, R - 1)][k] = n; } else if (kind == 1) { s[ri(0, R - 1)][k] = n; s[ri(0, R - 1)][k] = n; } else for (int r = 0; r < R; ++r) if (kind == 3 || ri(0, 9) == 0) s[r][k] = n; }
  if (out) for (int r = 0; r < R; ++r) s[r][0] = 3;
  for (int k = 0; k < K; ++k) for (int r = 0; r < R; ++r) holders[k] += s[r][k] > 0;
  std::string id = cat("simulated case ", c, ": ", R, " process groups, ", K, " subspaces held by ", vs(holders), out ? " outgroup" : " per subspace");
  sim::recs.clear(); sim::on = true;
  for (int stage = 0;; ++stage) {
    sim::recording = stage; bool finished = false;
    for (int r = 0; r < R && !nfail(); ++r) {
      sim::rank = r; sim::collective = 0; sim::groups.clear();
      AnyDistributedSparseGrid a((size_t)K, MPI_COMM_SELF); for (int k = 0; k < K; ++k) a.setDataSize(k, s[r][k]);
      std::ostringstream mute; auto* old = std::cout.rdbuf(mute.rdbuf());
      try { if (out) a.setOutgroupCommunicator(MPI_COMM_SELF, r); else a.setSubspaceCommunicators(MPI_COMM_SELF, r); finished = true; } catch (Stop&) { std::cout.rdbuf(old); continue; }
      std::cout.rdbuf(old);
      std::map<int, int> seen; for (auto& x : a.getSubspacesByCommunicator()) for (int k : x.second) ++seen[k];
      for (int k = 0; k < K; ++k) {
        bool part = holders[k] > 1 && (out || s[r][k] > 0);
        CHECK((seen.count(k) ? seen[k] : 0) == (part ? 1 : 0), id, " process ", r, " exchanges subspace ", k, " ", seen.count(k) ? seen[k] : 0, " times");
        uint32_t n = 0; for (auto& q : s) n = std::max(n, q[k]);
        CHECK(a.getDataSize(k) == (out && holders[k] > 1 ? n : s[r][k]), id, " process ", r, " size of subspace ", k, " is ", a.getDataSize(k));
      }
      if (!out) { std::set<std::vector<int>> e; for (int k = 0; k < K; ++k) if (holders[k] > 1) { std::vector<int> v; for (int q = 0; q < R; ++q) if (s[q][k]) v.push_back(q); e.insert(v); }
        std::set<std::vector<int>> g(sim::groups.begin(), sim::groups.end()); if (r == 0 || r == R - 1) CHECK(g.size() == e.size() && std::equal(g.begin(), g.end(), e.begin(), [](const std::vector<int>& x, const std::vector<int>& y) { return same(x, y); }), id, " process ", r, " builds wrong groups"); }
    }
    if (finished || nfail() || stage > 8) break;
  }
  sim::on = false;
}
int main(int argc, char** argv) {
  int provided; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided); if (provided < MPI_THREAD_MULTIPLE) omp_set_num_threads(1);
  MPI_Comm_rank(MPI_COMM_WORLD, &me); PMPI_Comm_size(MPI_COMM_WORLD, &np);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, (size_t)np, 1, false);
  std::ostringstream mute; auto* old = std::cout.rdbuf(mute.rdbuf());
  int n = thorough() ? 900 : 220;
  for (int c = 0; c < n && !nfail(); ++c) { int bad; (c % 7 == 6 ? run<std::complex<double>>(c) : c % 7 == 3 ? run<float>(c) : run<double>(c)); int mine = nfail(); PMPI_Allreduce(&mine, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (bad) break; }
  if (me == 0) for (int c = 0; c < (thorough() ? 200 : 24) && !nfail(); ++c) many(c);
  std::cout.rdbuf(old);
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) { covered("reductions", cases); covered("values", values); covered("simulated_layouts", virt); }
  MPI_Barrier(MPI_COMM_WORLD); if (me == 0) done();
  MPI_Finalize(); return 0;
}
