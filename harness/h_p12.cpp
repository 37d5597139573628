#include "vh.hpp"
#include <unistd.h>
#include <dirent.h>
#include <cmath>
#include <numeric>
#include <deque>
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/AveragingLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
using namespace combigrid;
using namespace vh;
static long long plans = 0, moves = 0, histories = 0, evals = 0, emptyPlans = 0;
struct Model : MicrocsecondsLearningLoadModel {
  std::map<LevelVector, unsigned long> d;
  void addDurationInformation(const DurationInformation& i, const LevelVector& l) override { d[l] = i.duration; }
  std::chrono::microseconds evalSpecificUOT(const LevelVector& l) override { return std::chrono::microseconds(d.at(l)); }
  real eval(const LevelVector& l) override { return (real)d.at(l); }
};
static LevelVector lv(size_t i) { return {(LevelType)(1 + i % 5), (LevelType)(1 + (i / 5) % 5), (LevelType)(1 + i / 25)}; }
static void plan(const std::vector<int>& g, const std::vector<unsigned long>& dur, unsigned maxIter, double minImb, bool exact, std::vector<unsigned long> prog = {}) {
  std::map<LevelVector, int> gm; std::map<LevelVector, unsigned long> dm; Model m; std::map<int, unsigned long> load;
  for (size_t i = 0; i < g.size(); ++i) { gm[lv(i)] = g[i]; dm[lv(i)] = dur[i]; m.d[lv(i)] = exact ? dur[i] : prog[i]; load[g[i]] += dur[i]; }
  RebalancingTaskRescheduler r(maxIter, minImb); auto p = r.eval(gm, dm, &m); ++plans; moves += p.size(); emptyPlans += p.empty();
  std::string id = "groups"; for (int x : g) id += cat(" ", x); id += " durations"; for (auto x : dur) id += cat(" ", x); if (!exact) { id += " prognosis"; for (auto x : prog) id += cat(" ", x); } id += cat(" iterations ", maxIter, " imbalance ", minImb);
  CHECK(p.size() <= maxIter, id, ": ", p.size(), " moves");
  std::map<LevelVector, int> seen; auto after = gm;
  for (auto& t : p) { CHECK(gm.count(t.first), id, ": moves unknown task"); if (!gm.count(t.first)) return; CHECK(!seen.count(t.first), id, ": moves a task twice"); seen[t.first] = 1; CHECK(load.count(t.second), id, ": moves to unknown group ", t.second); CHECK(gm[t.first] != t.second, id, ": moves a task to the group that holds it"); after[t.first] = t.second; }
  unsigned long sum = 0, worst = 0, worstAfter = 0; for (auto& x : load) { sum += x.second; worst = std::max(worst, x.second); }
  std::map<int, unsigned long> la; for (auto& x : after) la[x.second] += dm[x.first]; for (auto& x : la) worstAfter = std::max(worstAfter, x.second);
  unsigned long avg = load.empty() ? 0 : sum / load.size();
  if (exact) CHECK(worstAfter <= worst, id, ": slowest group takes ", worstAfter, " instead of ", worst);
  if (avg == 0 || (double)worst / (double)avg < minImb) CHECK(p.empty(), id, ": moves tasks although the imbalance is only ", avg ? (double)worst / (double)avg : 0.);
  // a single task whose move improves the balance and that is the only choice must be moved
  if (exact && maxIter == 1 && avg > 0 && (double)worst / (double)avg >= minImb && p.empty()) {
    unsigned long fast = worst; for (auto& x : load) fast = std::min(fast, x.second); int slowest = 0; size_t cnt = 0, n = 0; unsigned long d = 0; for (auto& x : load) if (x.second == worst) { slowest = x.first; ++cnt; }
    for (auto& x : gm) if (x.second == slowest) { ++n; d = dm[x.first]; }
    CHECK(!(cnt == 1 && n >= 1 && [&] { for (auto& x : gm) if (x.second == slowest && dm[x.first] + fast >= worst) return false; return true; }()), id, ": no task moved although every task of the slowest group could be"); }
}
int main() {
  bool th = thorough();
  char dir[] = "/tmp/h_p12_XXXXXX"; if (!mkdtemp(dir) || chdir(dir)) return 2;
  const double imbs[] = {0, 1, 1.2, 1.5, 2, 3};
  // all small distributions
  int maxT = th ? 5 : 4;
  for (int n = 0; n <= maxT; ++n) { long long total = 1; for (int i = 0; i < n; ++i) total *= 3 * 4;
    for (long long c = 0; c < total; c += n == 5 ? 7 : 1) { std::vector<int> g; std::vector<unsigned long> d; static const unsigned long ds[] = {0, 1, 3, 1000}; long long x = c; for (int i = 0; i < n; ++i) { g.push_back((int)(x % 3) * 2 + 1); x /= 3; d.push_back(ds[x % 4]); x /= 4; }
      plan(g, d, (unsigned)(c % 5), imbs[(c / 5) % 6], true); plan(g, d, 1, 1.1, true); } }
  for (int k = 0; k < (th ? 200000 : 20000); ++k) { int n = ri(1, 40), G = ri(1, 6); std::vector<int> g; std::vector<unsigned long> d, pr; unsigned long scale = ri(0, 1) ? 10 : ri(0, 1) ? 100000 : 3000000000ul;
    for (int i = 0; i < n; ++i) { g.push_back(ri(0, G - 1)); d.push_back(rnd() % scale); pr.push_back(rnd() % scale); }
    plan(g, d, (unsigned)ri(0, 60), imbs[ri(0, 5)] + ri(0, 3) * 0.05, true); plan(g, d, (unsigned)ri(0, 60), imbs[ri(0, 5)], false, pr); }
  // models that cannot predict durations; the static rescheduler
  { std::map<LevelVector, int> gm{{lv(0), 0}, {lv(1), 0}, {lv(2), 1}}; std::map<LevelVector, unsigned long> dm{{lv(0), 100}, {lv(1), 200}, {lv(2), 1}}; LinearLoadModel l; RebalancingTaskRescheduler r(5, 1.); CHECK(r.eval(gm, dm, &l).empty(), "plan without prognosis"); Model m; m.d = dm; StaticTaskRescheduler s; CHECK(s.eval(gm, dm, &m).empty(), "static rescheduler moves tasks"); }
  // linear model
  for (int k = 0; k < 500; ++k) { LevelVector l; double e = 1; for (int i = ri(1, 6); i > 0; --i) { l.push_back((LevelType)ri(0, 9)); e *= std::pow(2., l.back()); } LinearLoadModel m; CHECK(m.eval(l) == e, "linear model"); ++evals; }
  // mean of the last n durations
  for (int k = 0; k < (th ? 20000 : 2000); ++k) {
    unsigned n = (unsigned)(ri(0, 2) ? ri(1, 6) : ri(1, 60)); size_t nt = (size_t)ri(1, 4); std::vector<LevelVector> ts; for (size_t i = 0; i < nt; ++i) ts.push_back(lv(i * 3 + 1));
    AverageOfLastNLoadModel m(n, ts, std::unique_ptr<LoadModel>(new LinearLoadModel())); std::map<LevelVector, std::vector<unsigned long>> h; ++histories;
    unsigned long scale = ri(0, 1) ? 1000 : 4000000000ul;
    for (int s = ri(0, 80); s >= 0; --s) {
      for (auto& t : ts) { auto& v = h[t]; ++evals;
        if (v.empty()) { LinearLoadModel l; CHECK(m.eval(t) == l.eval(t), "last-n model without history"); CHECK(m.evalSpecificUOT(t).count() == 0, "prognosis without history is ", m.evalSpecificUOT(t).count()); continue; }
        size_t c = std::min<size_t>(n, v.size()); unsigned long long sum = 0; for (size_t i = v.size() - c; i < v.size(); ++i) sum += v[i];
        long long e = (long long)(sum / c); auto u = m.evalSpecificUOT(t).count(); CHECK(u == e, "mean of the last ", c, " durations is ", u, " expected ", e); CHECK(m.eval(t) == (double)e, "eval of the last-n model"); }
      DurationInformation d{}; d.duration = rnd() % scale; const auto& t = ts[(size_t)ri(0, (int)nt - 1)]; m.addDurationInformation(d, t); h[t].push_back(d.duration);
    } }
  // averaging model with its files
  for (int k = 0; k < (th ? 400 : 60); ++k) {
    std::vector<LevelVector> ts{lv((size_t)k * 2), lv((size_t)k * 2 + 1)}; for (auto& t : ts) unlink(("./l_" + toString(t) + ".durations").c_str());
    std::map<LevelVector, std::vector<unsigned long>> file; unsigned long sc = k % 2 ? 100000 : 6000000000ul;
    for (int run = 0; run < 3; ++run) { AveragingLoadModel m(ts); std::map<LevelVector, std::vector<unsigned long>> mem; ++histories;
      for (int s = ri(0, 1) ? ri(0, 5) : ri(0, 120); s >= 0; --s) {
        for (auto& t : ts) { auto& v = mem[t]; double got = m.eval(t), e; ++evals;
          if (!v.empty()) { size_t c = v.size() % 50 ? v.size() % 50 : 50; (void)c; double sum = 0; for (auto x : v) sum += (double)x; e = sum / (double)v.size(); CHECK(std::abs(got - e) <= 1e-9 * std::abs(e), "mean of ", v.size(), " durations is ", got, " expected ", e); }
          else if (!file[t].empty()) { unsigned long sum = 0; for (auto x : file[t]) sum += x; e = (double)(sum / file[t].size()); CHECK(got == e, "mean of the file is ", got, " expected ", e); }
          else { LinearLoadModel l; CHECK(got == l.eval(t), "averaging model without history"); } }
        if (s) { const auto& t = ts[(size_t)ri(0, 1)]; if (mem[t].size() == 50) { for (auto x : mem[t]) file[t].push_back(x); mem[t].clear(); DurationInformation d{}; d.duration = rnd() % sc; m.addDurationInformation(d, t); mem[t].push_back(d.duration); } else { DurationInformation d{}; d.duration = rnd() % sc; m.addDurationInformation(d, t); mem[t].push_back(d.duration); } }
      }
      for (auto& t : ts) for (auto x : mem[t]) file[t].push_back(x); } 
    for (auto& t : ts) unlink(("./l_" + toString(t) + ".durations").c_str()); }
  if (chdir("/tmp") == 0) rmdir(dir);
  covered("plans", plans); covered("moves", moves); covered("empty_plans", emptyPlans); covered("histories", histories); covered("evaluations", evals);
  return done();
}
