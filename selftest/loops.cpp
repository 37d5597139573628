// self-test of the loop rule; not part of the verified code
#include <vector>
#include <cstddef>
namespace selftest {
int sumaff(int n) { int x = 3; for (int i = 0; i < n; ++i) x += 2; return x; }
void copyadd(double* s, const double* f, const std::vector<int>& ind, double c) { for (const auto i : ind) { *s += c * f[i]; ++s; } }
void scatter(double* f, const double* s, const std::vector<int>& ind) { for (const auto i : ind) { f[i] = *s; ++s; } }
std::vector<int> evens(int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(2 * i); return r; }
std::vector<int> filt(const std::vector<int>& a, int g) { std::vector<int> r; for (size_t i = 0; i < a.size(); ++i) if (a[i] == g) r.push_back(static_cast<int>(i)); return r; }
int find(const std::vector<int>& a, int g) { for (int i = 0; i < static_cast<int>(a.size()); ++i) if (a[i] == g) return i; return -1; }
void strided(double* d, int n, int off) { for (int i = 0; i < n; ++i) d[off + 2 * i] -= 0.5 * (d[off + 2 * i - 1] + d[off + 2 * i + 1]); }
void nest(double* d, int n, int m) { for (int i = 0; i < n; ++i) for (int j = 0; j < 4; ++j) d[4 * i + j] = i + 10 * j; }
void nest2(double* d, int n, int m) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) d[5 * j + i] = i + 10 * j; }
void bad(double* d, int n) { for (int i = 1; i < n; ++i) d[i] = d[i - 1] + 1; }
int mx(const std::vector<int>& a) { int m = 0; for (auto x : a) if (x > m) m = x; return m; }
}
