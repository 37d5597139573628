// shared helpers of the bounded stand-ins / replay searches (no code under verification here)
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <iostream>
namespace vh {
inline int& nfail() { static int n = 0; return n; }
inline void fail(const std::string& s) {
  if (++nfail() <= 20) { std::string l = "FAIL " + s + "\n"; fwrite(l.data(), 1, l.size(), stdout); fflush(stdout); }
}
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(17); int u[] = {0, ((void)(o << a), 0)...}; (void)u; return o.str(); }
template <class T> std::string vs(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << +v[i]; o << ")"; return o.str(); }
#define CHECK(c, ...) do { if (!(c)) vh::fail(vh::cat(#c, " : ", __VA_ARGS__)); } while (0)
inline void covered(const std::string& k, long long v) { printf("COVERED %s=%lld\n", k.c_str(), v); fflush(stdout); }
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline uint64_t& state() { static uint64_t s = [] { const char* e = getenv("VERIF_SEED"); return 0x9e3779b97f4a7c15ull * (1 + (e ? atoll(e) : 1)); }(); return s; }
inline uint64_t rnd() { uint64_t z = (state() += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline int ri(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
inline double rr(double lo = -1, double hi = 1) { return lo + (hi - lo) * (double)(rnd() >> 11) / 9007199254740992.0; }
// call at the end on every rank (after a barrier); rank 0 prints DONE
inline int done() { printf("DONE\n"); fflush(stdout); return 0; }
}
