// P10 bounded stand-in / replay search: files written and read on real MPI, any sizes per process
#include "vh.hpp"
#include <complex>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <cassert>
#include <unistd.h>
#include "sparsegrid/DistributedSparseGridIO.hpp"
using namespace combigrid;
static int R, NP;
static std::string dir;
static MPI_Comm W;
template <class T> T value(uint64_t k) { return static_cast<T>(1 + (k * 7919u) % 1000003u); }
template <> std::complex<double> value(uint64_t k) { return {double(k % 1000003u), -1.5 * double(k % 77u)}; }
template <class T> std::vector<T> block(const std::vector<size_t>& n, int r, uint64_t salt) {
  uint64_t o = salt; for (int i = 0; i < r; ++i) o += n[i];
  std::vector<T> v(n[r]); for (size_t i = 0; i < n[r]; ++i) v[i] = value<T>(o + i); return v;
}
template <class T> std::string sz(const std::vector<size_t>& n) { return vh::cat(sizeof(T), "-byte values, sizes ", vh::vs(n)); }
static std::vector<size_t> sizes(int hi) {   // the same on all processes (same seed)
  std::vector<size_t> n(NP); for (auto& x : n) x = vh::ri(0, 3) ? vh::ri(0, hi) : 0; return n;
}
static std::vector<char> slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::vector<char>((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
template <class T> bool holds(const std::vector<T>& want, const T* got) { return want.empty() || !std::memcmp(want.data(), got, want.size() * sizeof(T)); }
template <class F> std::string thrown(F f) { try { f(); return ""; } catch (std::exception& e) { return e.what(); } }
// values around the buffer must stay untouched
template <class T> struct Guarded {
  std::vector<T> v; size_t n;
  Guarded(const std::vector<T>& in) : v(in.size() + 16, value<T>(4711)), n(in.size()) { std::copy(in.begin(), in.end(), v.begin() + 8); }
  T* data() { return v.data() + 8; }
  bool ok() { for (size_t i = 0; i < 8; ++i) if (v[i] != value<T>(4711) || v[v.size() - 1 - i] != value<T>(4711)) return false; return true; }
};

template <class T> void plain(const std::vector<size_t>& n, uint64_t salt, bool cb, std::vector<int> bufs) {
  std::string f = dir + "/plain", f2 = dir + "/plain2", w = sz<T>(n);
  auto mine = block<T>(n, R, salt), other = block<T>(n, R, salt + 13);
  size_t tot = std::accumulate(n.begin(), n.end(), size_t(0));
  int k = mpiio::writeValuesConsecutive<T>(mine.data(), n[R], f, W, true, cb);
  CHECK(k == (int)n[R], w, " written ", k, " on ", R);
  mpiio::writeValuesConsecutive<T>(other.data(), n[R], f2, W, true, cb);
  MPI_Barrier(W);
  if (R == 0) {
    auto c = slurp(f); std::vector<T> all; for (int r = 0; r < NP; ++r) { auto b = block<T>(n, r, salt); all.insert(all.end(), b.begin(), b.end()); }
    CHECK(c.size() == tot * sizeof(T), w, " file of ", c.size(), " bytes");
    CHECK(c.size() != tot * sizeof(T) || holds(all, (T*)c.data()), w, " file does not hold the values in order");
  }
  Guarded<T> got(other);
  std::string e = thrown([&] { k = mpiio::readValuesConsecutive<T>(got.data(), n[R], f, W, cb); });
  CHECK(e == "" && k == (int)n[R] && holds(mine, got.data()) && got.ok(), w, " read back on ", R, " ", e);
  for (int b : bufs) {
    Guarded<T> red(other); auto want = other; for (size_t i = 0; i < want.size(); ++i) want[i] = mine[i] - want[i] - want[i];
    e = thrown([&] { k = mpiio::readReduceValuesConsecutive<T>(red.data(), n[R], f, W, b, [](const T& x, const T& y) { return x - y - y; }, cb); });
    CHECK(e == "" && k == (int)n[R] && holds(want, red.data()) && red.ok(), w, " reduced with buffer ", b, " on ", R, " ", e);
    Guarded<T> mul(mine); want = mine; for (size_t i = 0; i < want.size(); ++i) want[i] = mine[i] - other[i] - other[i] + mine[i];
    e = thrown([&] { k = mpiio::readMultipleReduceValuesConsecutive<T>(mul.data(), n[R], {f, f2}, W, b, [](const T& x, const T& y, const T& z) { return x - z - z + y; }, cb); });
    CHECK(e == "" && k == (int)n[R] && holds(want, mul.data()) && mul.ok(), w, " reduced two files with buffer ", b, " on ", R, " ", e);
  }
  // another size is reported, and nothing is read
  auto m = n; m[vh::ri(0, NP - 1)] += 1;
  std::vector<T> big(m[R], value<T>(99)); auto keep = big;
  CHECK(thrown([&] { mpiio::readValuesConsecutive<T>(big.data(), m[R], f, W, cb); }) != "" && holds(keep, big.data()), w, " size mismatch not reported");
  CHECK(thrown([&] { mpiio::readReduceValuesConsecutive<T>(big.data(), m[R], f, W, 3, std::plus<T>{}, cb); }) != "" && holds(keep, big.data()), w, " size mismatch not reported (reduce)");
  CHECK(thrown([&] { mpiio::readMultipleReduceValuesConsecutive<T>(big.data(), m[R], {f, f2}, W, 3, [](const T& x, const T& y, const T& z) { return x; }, cb); }) != "" && holds(keep, big.data()), w, " size mismatch not reported (two files)");
  // shorter data replaces the file
  auto s = n; for (auto& x : s) x /= 2;
  auto sb = block<T>(s, R, salt + 5);
  mpiio::writeValuesConsecutive<T>(sb.data(), s[R], f, W, true, cb);
  Guarded<T> sg(std::vector<T>(s[R], value<T>(1)));
  e = thrown([&] { mpiio::readValuesConsecutive<T>(sg.data(), s[R], f, W, cb); });
  CHECK(e == "" && holds(sb, sg.data()), w, " replaced file not read back ", e);
  // one file of one size, the other of another
  if (tot != std::accumulate(s.begin(), s.end(), size_t(0))) {
    std::vector<T> x(s[R], value<T>(98)); auto kx = x;
    CHECK(thrown([&] { mpiio::readMultipleReduceValuesConsecutive<T>(x.data(), s[R], {f, f2}, W, 3, [](const T& a, const T& b, const T& c) { return a; }, cb); }) != "" && holds(kx, x.data()), w, " second file of another size not reported");
  }
}

template <class T> void compressed(const std::vector<size_t>& n, uint64_t salt, int kind) {
  std::string f = dir + "/lz4", w = sz<T>(n);
  auto mine = block<T>(n, R, salt), other = block<T>(n, R, salt + 13);
  if (kind == 1) for (auto& x : mine) x = value<T>(R + 3);
  int k = 0;
  std::string e = thrown([&] { mpiio::writeCompressedValuesConsecutive<T>(mine.data(), n[R], f, W, true); });
  CHECK(e == "", w, " compressed write ", e);
  Guarded<T> got(other);
  e = thrown([&] { k = mpiio::readCompressedValuesConsecutive<T>(got.data(), n[R], f, W); });
  CHECK(e == "" && k == (int)n[R] && holds(mine, got.data()) && got.ok(), w, " compressed, read back on ", R, " ", e);
  Guarded<T> red(other); auto want = other; for (size_t i = 0; i < want.size(); ++i) want[i] = mine[i] - want[i] - want[i];
  e = thrown([&] { k = mpiio::readReduceCompressedValuesConsecutive<T>(red.data(), n[R], f, W, [](const T& x, const T& y) { return x - y - y; }); });
  CHECK(e == "" && k == (int)n[R] && holds(want, red.data()) && red.ok(), w, " compressed, reduced on ", R, " ", e);
  MPI_Barrier(W);
  if (kind == 2) return;
  auto m = n; int at = vh::ri(0, NP - 1); if (vh::ri(0, 1) || !m[at]) m[at] += 1; else m[at] -= 1;
  Guarded<T> g(std::vector<T>(m[R], value<T>(9)));
  e = thrown([&] { mpiio::readCompressedValuesConsecutive<T>(g.data(), m[R], f, W); });
  CHECK((e != "") == (m[R] != n[R]) && g.ok(), w, " compressed, other size ", m[R], " on ", R, ": ", e);
  Guarded<T> h(std::vector<T>(m[R], value<T>(9)));
  e = thrown([&] { mpiio::readReduceCompressedValuesConsecutive<T>(h.data(), m[R], f, W, std::plus<T>{}); });
  CHECK((e != "") == (m[R] != n[R]) && h.ok(), w, " compressed and reduced, other size ", m[R], " on ", R, ": ", e);
  MPI_Barrier(W);
  // a file that is cut off is reported
  if (R == 0) std::filesystem::resize_file(f, std::filesystem::file_size(f) - 1);
  MPI_Barrier(W);
  Guarded<T> c(other);
  CHECK(thrown([&] { mpiio::readCompressedValuesConsecutive<T>(c.data(), n[R], f, W); }) != "", w, " truncated file not reported");
  MPI_Barrier(W);
}

template <class T> struct Grid {   // the part of the sparse grid interface used for output
  using ElementType = T; using SubspaceIndexType = int;
  std::vector<T> d; std::vector<SubspaceSizeType> s; MPI_Comm c;
  const T* getRawData() const { return d.data(); } T* getRawData() { return d.data(); }
  size_t getRawDataSize() const { return d.size(); } MPI_Comm getCommunicator() const { return c; } int getRank() const { return R; }
  size_t getNumSubspaces() const { return s.size(); } const std::vector<SubspaceSizeType>& getSubspaceDataSizes() const { return s; }
  std::vector<SubspaceSizeType>& getSubspaceDataSizes() { return s; }
};
template <class T> void grids(const std::vector<size_t>& n, uint64_t salt, int parts) {
  namespace IO = DistributedSparseGridIO;
  std::string f = dir + "/grid", w = sz<T>(n), e;
  theMPISystem()->initOutputGroupComm(parts);
  Grid<T> a{block<T>(n, R, salt), {}, W}, b{block<T>(n, R, salt + 3), {}, W};
  a.s.resize(NP + 2); b.s.resize(NP + 2); for (int i = 0; i < NP + 2; ++i) a.s[i] = value<SubspaceSizeType>(salt + 31 * R + i), b.s[i] = value<SubspaceSizeType>(salt + 17 * R + 5 * i);
  auto a0 = a.d, b0 = b.d; auto as = a.s, bs = b.s;
  auto sum = a0; for (size_t i = 0; i < sum.size(); ++i) sum[i] = a0[i] + b0[i];
  e = thrown([&] { IO::writeOneFile(a, f, true); IO::readOneFile(b, f); });
  CHECK(e == "" && holds(a0, b.d.data()), w, " one file ", e);
  b.d = b0; e = thrown([&] { IO::readOneFileAndReduce(b, f, 1); });
  CHECK(e == "" && holds(sum, b.d.data()), w, " one file, reduced ", e);
  b.d = b0; e = thrown([&] { IO::writeToDiskChunked(a, f); IO::readFromDiskChunked(b, f); });
  CHECK(e == "" && holds(a0, b.d.data()), w, " file per process ", e);
  b.d.push_back(value<T>(3)); auto keep = b.d;
  CHECK(thrown([&] { IO::readFromDiskChunked(b, f); }) != "" && holds(keep, b.d.data()), w, " file per process of another size not reported");
  b.d = b0;
  std::string pn = f + ".part" + std::to_string(theMPISystem()->getFilePartNumber());
  e = thrown([&] { IO::writeSomeFiles(a, f, true); IO::readSomeFiles(b, pn); });
  CHECK(e == "" && holds(a0, b.d.data()), w, " ", parts, " files ", e);
  b.d = b0; e = thrown([&] { IO::readSomeFilesAndReduce(b, pn, 1); });
  CHECK(e == "" && holds(sum, b.d.data()), w, " ", parts, " files, reduced ", e);
  std::string g = dir + "/sizes" + std::to_string(salt), g2 = g + "x";
  e = thrown([&] { IO::writeSubspaceSizesToFile(a, g); IO::writeSubspaceSizesToFile(b, g2); IO::readSubspaceSizesFromFile(b, g); });
  CHECK(e == "" && vh::same(b.s, as), w, " subspace sizes ", e);
  for (int bl : {0, 1, 3, NP + 2, 100}) {
    b.s = bs; e = thrown([&] { IO::readReduceSubspaceSizesFromFile(b, g, [](SubspaceSizeType x, SubspaceSizeType y) { return std::max(x, y); }, bl); });
    for (size_t i = 0; i < as.size(); ++i) CHECK(e == "" && b.s[i] == std::max(as[i], bs[i]), w, " subspace sizes, maximum, buffer ", bl, " ", e);
    b.s = bs; e = thrown([&] { IO::readReduceSubspaceSizesFromFiles(b, {g, g2}, [](SubspaceSizeType x, SubspaceSizeType y, SubspaceSizeType z) { return x + 2 * y + 3 * z; }, bl); });
    for (size_t i = 0; i < as.size(); ++i) CHECK(e == "" && b.s[i] == as[i] + 2 * bs[i] + 3 * bs[i], w, " subspace sizes of two files, buffer ", bl, " ", e);
  }
  MPI_Barrier(W);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  W = MPI_COMM_WORLD; MPI_Comm_rank(W, &R); MPI_Comm_size(W, &NP);
  char tmp[64] = "/tmp/verif_p10_XXXXXX"; if (R == 0 && !mkdtemp(tmp)) MPI_Abort(W, 1);
  MPI_Bcast(tmp, 64, MPI_CHAR, 0, W); dir = tmp;
  if (!freopen("/dev/null", "w", stderr)) {}
  theMPISystem()->initWorldReusable(W, 1, NP, false);
  int rounds = vh::thorough() ? 40 : 8; long long n = 0;
  for (int i = 0; i < rounds; ++i, ++n) {
    bool cb = i % 3 == 2; std::vector<int> bufs = {1, 2, vh::ri(3, 9), 1000};
    plain<double>(sizes(i < 4 ? 4 : 40), i, cb, bufs);
    plain<std::complex<double>>(sizes(9), i, cb, bufs);
    plain<SubspaceSizeType>(sizes(20), i, cb, bufs);
    plain<float>(sizes(20), i, cb, {vh::ri(1, 21)});
    compressed<double>(sizes(i % 2 ? 5 : 3000), i, i % 2);
    compressed<std::complex<double>>(sizes(300), i, i % 2);
    compressed<float>(sizes(300), i, 0);
    grids<double>(sizes(12), 100 + 2 * i, 1 + i % NP);
    grids<std::complex<double>>(sizes(12), 10100 + 2 * i, 1 + (i + 1) % NP);
  }
  // more than one block of LZ4 (4 MB), block boundaries within values
  std::vector<size_t> big(NP); big[0] = 300001; if (NP > 1) big[1] = 7; if (NP > 2) big[2] = 550000; 
  compressed<std::complex<double>>(big, 3, 2); compressed<std::complex<double>>(big, 3, 1); compressed<double>(big, 3, 0);
  MPI_Barrier(W);
  if (R == 0) { std::filesystem::remove_all(dir); vh::covered("rounds", n); }
  MPI_Barrier(W);
  MPI_Finalize();
  return vh::done();
}
