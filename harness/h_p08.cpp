// all ranks of arbitrary layouts, one after another, on a simulated MPI: every collective call is recorded in one pass
// over all ranks and answered in the next one, so that the real MPISystem sees communicators with the members it asked for
#include "vh.hpp"
#include <algorithm>
#include "mpi/MPISystem.hpp"
using namespace combigrid;
using namespace vh;
typedef std::vector<int> Ranks;
static long long layouts = 0, ranksSeen = 0;
static int me = 0, W = 1;
static std::map<Ranks, char*> handleOf; static std::map<void*, Ranks> ranksOf;
static void* handle(const Ranks& r) { auto& h = handleOf[r]; if (!h) { h = new char; ranksOf[h] = r; } return h; }
struct Call { int color, key; };
typedef std::pair<Ranks, int> Site;                                // communicator, number of the call on it
static std::map<Site, std::map<int, Call>> before, now; static std::map<Ranks, int> count;
static Ranks world() { Ranks r(W); for (int i = 0; i < W; ++i) r[i] = i; return r; }
static const Ranks& of(MPI_Comm c) { static Ranks w; if (c == MPI_COMM_WORLD) { w = world(); return w; } auto it = ranksOf.find((void*)c); if (it == ranksOf.end()) { fail("use of an invalid communicator"); static Ranks e{0}; return e; } return it->second; }
static int pos(const Ranks& r, int x) { for (size_t i = 0; i < r.size(); ++i) if (r[i] == x) return (int)i; return MPI_UNDEFINED; }
extern "C" {
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = pos(of(c), me); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = (int)of(c).size(); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = (MPI_Group)handle(of(c)); return 0; }
int MPI_Group_rank(MPI_Group g, int* r) { *r = pos(ranksOf[(void*)g], me); return 0; }
int MPI_Group_size(MPI_Group g, int* s) { *s = (int)ranksOf[(void*)g].size(); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* out) { const Ranks all = ranksOf[(void*)g]; Ranks v; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)all.size() || std::count(r, r + n, r[i]) > 1) { fail("invalid or repeated rank in a group"); continue; } v.push_back(all[r[i]]); } *out = (MPI_Group)handle(v); return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c) { of(c); return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) { const Ranks p = of(c); const Ranks& v = ranksOf[(void*)g]; 
  Site s{p, count[p]++}; int id = (int)(std::hash<std::string>()(vs(v)) & 0x3fffffff); now[s][me] = {id, -7};   // every rank has to name the same group
  if (before.count(s)) for (auto& x : before[s]) if (x.second.color != id || x.second.key != -7) fail(cat("ranks ", me, " and ", x.first, " do not create the same communicator"));
  *out = pos(v, me) == MPI_UNDEFINED ? MPI_COMM_NULL : (MPI_Comm)handle(v); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { const Ranks p = of(c); Site s{p, count[p]++}; now[s][me] = {color, key};
  if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
  if (color < 0) fail(cat("rank ", me, " splits with color ", color));
  std::vector<std::pair<std::pair<int, int>, int>> v; 
  for (int r : p) { auto it = before.find(s); if (it == before.end() || !it->second.count(r)) { if (it != before.end()) fail(cat("rank ", r, " does not take part in a split")); if (r == me) v.push_back({{key, pos(p, r)}, r}); continue; } const Call& k = it->second[r]; if (k.color == color) v.push_back({{k.key, pos(p, r)}, r}); }
  std::sort(v.begin(), v.end()); Ranks m; for (auto& x : v) m.push_back(x.second); *out = (MPI_Comm)handle(m); return 0; }
}
static void layout(int G, int N, bool with, int parts, int how) {
  W = G * N + with; MPI_Comm wc = (MPI_Comm)handle(world()); auto sys = theMPISystem(); ++layouts; std::map<int, Ranks> partOf; std::map<int, int> partNumber;
  std::string id = cat(G, " groups of ", N, with ? " with" : " without", " manager");
  before.clear();
  Ranks out; for (int c = 0; c < N; ++c) out.push_back((c % G) * N + c);
  for (int pass = 0; pass < 4; ++pass) { now.clear();
    for (me = 0; me < W; ++me) { count.clear(); int g = me / N, lr = me % N; bool mgr = with && me == G * N;
      Ranks loc, glob, red, third; for (int i = 0; i < N; ++i) loc.push_back(g * N + i); for (int i = 0; i < G; ++i) { glob.push_back(i * N); red.push_back(i * N + lr); } if (with) glob.push_back(G * N);
      try {
        if (how == 0) sys->initWorldReusable(wc, (size_t)G, (size_t)N, with, false);
        else if (how == 1) sys->init((size_t)G, (size_t)N, with);
        else sys->init((size_t)G, (size_t)N, mgr ? MPI_COMM_NULL : (MPI_Comm)handle(loc), with);
        if (parts > 1) sys->initOutputGroupComm((uint16_t)parts);
      } catch (std::exception& e) { fail(cat(id, ": ", e.what())); return; }
      if (pass < 3) continue;
      ++ranksSeen; std::string w = cat(id, ", rank ", me);
      auto isc = [&](MPI_Comm c, const Ranks& r) { return c != MPI_COMM_NULL && same(of(c), r); };
      CHECK(sys->isWorldManager() == mgr, w); CHECK(sys->getManagerRankWorld() == (with ? G * N : MPI_PROC_NULL), w); CHECK(sys->getWorldRank() == me, w); CHECK(sys->getWorldSize() == W, w);
      CHECK(sys->getNumGroups() == (size_t)G && sys->getNumProcs() == (size_t)N, w); CHECK(sys->isInitialized(), w);
      CHECK(sys->getProcessGroupNumber() == (mgr ? -1 : g), w); CHECK(sys->isProcessGroupMaster() == (!mgr && lr == 0), w);
      if (how == 0) CHECK(sys->getWorldComm() == wc, w);
      if (mgr) { CHECK(sys->getLocalComm() == MPI_COMM_NULL, w); CHECK(sys->getGlobalReduceComm() == MPI_COMM_NULL, w); CHECK(sys->getOutputGroupComm() == MPI_COMM_NULL, w); CHECK(sys->getLocalRank() == MPI_PROC_NULL, w); }
      else {
        CHECK(isc(sys->getLocalComm(), loc), w); CHECK(sys->getLocalRank() == lr, w); CHECK(sys->getMasterRank() == 0, w);
        CHECK(isc(sys->getGlobalReduceComm(), red), w); CHECK(sys->getGlobalReduceRank() == g, w);
        CHECK(sys->getOutputRankInGlobalReduceComm() == lr % G, w); bool o = lr % G == g; CHECK((sys->getOutputGroupComm() != MPI_COMM_NULL) == o, w);
        if (o) { CHECK(isc(sys->getOutputGroupComm(), out), w, " has a wrong output group"); CHECK(sys->getOutputGroupRank() == lr, w); partNumber[lr] = sys->getFilePartNumber(); MPI_Comm c = sys->getOutputComm(); if (c == MPI_COMM_NULL) fail(cat(w, ": no output communicator")); else partOf[lr] = of(c); }
        else { bool thrown = false; try { sys->getFilePartNumber(); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, w, ": part number outside of the output group"); } }
      bool inGlob = mgr || lr == 0; CHECK((sys->getGlobalComm() != MPI_COMM_NULL) == inGlob, w);
      if (inGlob) { CHECK(isc(sys->getGlobalComm(), glob), w); CHECK(sys->getGlobalRank() == (mgr ? G : g), w); CHECK(sys->getManagerRank() == (with ? G : MPI_PROC_NULL), w); } else CHECK(sys->getGlobalRank() == MPI_PROC_NULL, w);
      CHECK(sys->isThirdLevelManager() == mgr, w); const auto& tl = sys->getThirdLevelComms();
      if (!with) CHECK(tl.empty(), w); else { CHECK(sys->getThirdLevelManagerRank() == N, w); CHECK(tl.size() == (mgr ? (size_t)G : 1u), w);
        for (size_t k = 0; k < tl.size(); ++k) { Ranks t; for (int i = 0; i < N; ++i) t.push_back((mgr ? (int)k : g) * N + i); t.push_back(G * N); CHECK(isc(tl[k], t), w); } }
    }
    before = now; }
  // parts of the output: contiguous, balanced, as many as asked for, the same number on all processes of a part
  std::set<int> numbers; size_t mn = 1 << 30, mx = 0; std::map<int, Ranks> members; for (int c = 0; c < N; ++c) { members[partNumber[c]].push_back(out[c]); }
  for (int c = 0; c < N; ++c) CHECK(same(partOf[c], members[partNumber[c]]), id, ", ", parts, " parts: members of the part of process ", c, " are ", vs(partOf[c]), " but part number ", partNumber[c], " is used by ", vs(members[partNumber[c]]));
  for (auto& x : members) { mn = std::min(mn, x.second.size()); mx = std::max(mx, x.second.size()); CHECK(x.first >= 0 && x.first < parts, id, ", ", parts, " parts: part ", x.first); }
  if (parts <= N) { CHECK((int)members.size() == parts, id, ", ", parts, " parts: ", members.size()); CHECK(N % parts || mn == mx, id, ", ", parts, " parts: unbalanced"); }
  // wrong numbers of processes are rejected
  if (how == 0) for (int d : {-1, 1}) { bool thrown = false; int old = W; W += d; if (W < 1) { W = old; continue; } me = 0; count.clear(); before.clear(); now.clear(); try { sys->initWorldReusable((MPI_Comm)handle(world()), (size_t)G, (size_t)N, with, false); } catch (std::invalid_argument&) { thrown = true; } CHECK(thrown, id, ": accepted ", W, " processes"); W = old; }
  if (layouts % 50 == 0) { for (auto& h : handleOf) delete h.second; handleOf.clear(); ranksOf.clear(); }
}
int main() {
  bool th = thorough(); int M = th ? 12 : 6;
  for (int G = 1; G <= M; ++G) for (int N = 1; N <= M; ++N) for (int with = 0; with < 2; ++with) { for (int parts = 1; parts <= N; ++parts) layout(G, N, with, parts, 0); layout(G, N, with, 1 + (G + N) % 3 * (N > 2), 1); layout(G, N, with, 1, 2); }
  for (int k = 0; k < (th ? 200 : 40); ++k) { int G = ri(1, th ? 40 : 12), N = ri(1, (th ? 400 : 120) / G); layout(G, N, ri(0, 1), ri(0, 1) ? 1 : ri(1, N), ri(0, 2)); }
  layout(132, 1, true, 1, 0); layout(2, 70, false, 7, 0);
  covered("layouts", layouts); covered("ranks", ranksSeen);
  return done();
}
