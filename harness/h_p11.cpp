#include "vh.hpp"
#include <complex>
#include <numeric>
#include <algorithm>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <csignal>
#include "third_level/NetworkUtils.hpp"
using namespace combigrid;
using namespace vh;
static long long transfers = 0, splits = 0, failures = 0;
// the operating system as seen by the library: every transfer may be split and may fail at any byte
struct Chan { std::string in, out; size_t pos = 0; std::function<size_t(size_t pos)> piece; long long failAt = -1; int failHow = 0; bool once = false; size_t maxAsk = 0; };
static std::map<int, Chan> chans;
static bool fails(Chan& c, size_t at) { return c.failAt >= 0 && (long long)at >= c.failAt; }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) {
  auto it = chans.find(fd); if (it == chans.end()) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
  Chan& c = it->second; c.maxAsk = std::max(c.maxAsk, n);
  if (fails(c, c.pos)) { if (c.once) c.failAt = -1; errno = c.failHow ? EINTR : 0; return c.failHow ? -1 : 0; }
  size_t k = std::min({n, c.in.size() - c.pos, std::max<size_t>(1, c.piece ? c.piece(c.pos) : n)});
  if (c.failAt >= 0) k = std::min(k, (size_t)c.failAt - c.pos);
  memcpy(b, c.in.data() + c.pos, k); c.pos += k; ++splits; return (ssize_t)k;
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) {
  auto it = chans.find(fd); if (it == chans.end()) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  Chan& c = it->second;
  if (fails(c, c.out.size())) { errno = EPIPE; return c.failHow ? -1 : 0; }
  size_t k = std::min(n, std::max<size_t>(1, c.piece ? c.piece(c.out.size()) : n));
  if (c.failAt >= 0) k = std::min(k, (size_t)c.failAt - c.out.size());
  c.out.append((const char*)b, k); ++splits; return (ssize_t)k;
}
struct Sock : ClientSocket { explicit Sock(int fd) : ClientSocket("none", 1) { sockfd_ = fd; initialized_ = true; } ~Sock() { sockfd_ = -1; } };
static const int FD = 1 << 20;
static std::function<size_t(size_t)> pieces(int kind, uint64_t mask) {
  if (kind == 0) return [](size_t) { return (size_t)1; };
  if (kind == 1) return [mask](size_t p) { size_t k = 1; while (p + k < 64 && !((mask >> (p + k - 1)) & 1)) ++k; return k; };   // cut after every byte whose bit is set
  if (kind == 2) return [](size_t) { return (size_t)ri(1, 5); };
  if (kind == 3) return [](size_t) { return (size_t)ri(1, 40); };
  return nullptr;
}
static std::string bytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)rnd(); return s; }
template <class T> struct Comp { static const size_t w = sizeof(T); };
template <class T> struct Comp<std::complex<T>> { static const size_t w = sizeof(T); };
template <class T> static std::string wire(const std::vector<T>& v, bool foreign) {
  std::string s((const char*)v.data(), v.size() * sizeof(T));
  if (foreign) for (size_t i = 0; i < s.size(); i += Comp<T>::w) std::reverse(s.begin() + i, s.begin() + i + Comp<T>::w);
  return s;
}
template <class T> static T rv();
template <> double rv<double>() { return ri(-1000, 1000) / 8.; }
template <> float rv<float>() { return ri(-1000, 1000) / 8.f; }
template <> int rv<int>() { return ri(-100000, 100000); }
template <> std::complex<double> rv<std::complex<double>>() { return {ri(-1000, 1000) / 8., ri(-1000, 1000) / 4.}; }
template <class T> static T plus_(const T& a, const T& b) { return a + b; }
template <class T> static T second(const T& a, const T& b) { return b - a; }
// op 0: receive in place, 1: sum, 2: other operation
template <class T> static void binary(size_t n, bool foreign, int op, size_t chunk, std::function<size_t(size_t)> f, long long failAt, int how, const std::string& id0) {
  std::vector<T> sent(n), mine(n + 2); for (auto& x : sent) x = rv<T>(); for (auto& x : mine) x = rv<T>();
  auto before = mine; std::string w = wire(sent, foreign), tail = bytes(ri(0, 9));
  int one = 1; bool little = *(char*)&one == 1;
  Chan& c = chans[FD] = Chan(); c.in = std::string(1, (char)(foreign ? !little : little)) + w + tail; c.piece = f; c.failAt = failAt; c.failHow = how;
  Sock s(FD); T* b = mine.data() + 1; bool ok;
  std::string id = cat(id0, " n=", n, " size=", sizeof(T), " foreign=", foreign, " op=", op, " chunk=", chunk, " failAt=", failAt, " how=", how);
  if (op == 0) ok = s.recvallBinaryAndCorrectInPlace<T>(b, n, chunk); else ok = s.recvallBinaryAndReduceInPlace<T>(b, n, op == 1 ? plus_<T> : second<T>, chunk);
  size_t total = 1 + n * sizeof(T), done = failAt >= 0 ? (size_t)failAt : total; bool fail = failAt >= 0 && failAt < (long long)total;
  CHECK(ok == !fail, id, " returned ", ok);
  size_t full = fail ? (done == 0 ? 0 : (done - 1) / sizeof(T)) : n;
  if (!fail) CHECK(c.pos == total, id, " read ", c.pos, " of ", total, " bytes");
  CHECK(c.pos <= total, id, " read beyond its data");
  for (size_t i = 0; i < n; ++i) { T e = op == 0 ? sent[i] : op == 1 ? before[i + 1] + sent[i] : sent[i] - before[i + 1];
    if (i < full && !fail) { if (!(b[i] == e)) { CHECK(false, id, " element ", i, " is ", b[i], " expected ", e); break; } }
    else if (fail && i >= full) CHECK(b[i] == before[i + 1], id, " element ", i, " changed although not received"); }
  CHECK(mine[0] == before[0] && mine[n + 1] == before[n + 1], id, " wrote outside the buffer");
  ++transfers; if (fail) ++failures;
}
static void text(int kind, uint64_t mask) {
  std::string m = bytes(ri(1, 200)), rest = bytes(ri(0, 9)); Sock s(FD);
  auto set = [&](const std::string& in) -> Chan& { Chan& c = chans[FD] = Chan(); c.in = in; c.piece = pieces(kind, mask); return c; };
  { Chan& c = set(m + rest); std::string got; CHECK(s.recvall(got, m.size()), "recvall"); CHECK(got == m && c.pos == m.size(), "recvall string of ", m.size()); ++transfers; }
  { Chan& c = set(m + rest); std::vector<char> b(m.size() + 2, 'z'); CHECK(s.recvall(b.data() + 1, m.size()), "recvall"); CHECK(std::string(b.data() + 1, m.size()) == m && b[0] == 'z' && b.back() == 'z' && c.pos == m.size(), "recvall buffer of ", m.size()); ++transfers; }
  std::string pre = std::to_string(m.size()) + "#" + m;
  { Chan& c = set(""); CHECK(s.sendallPrefixed(m), "send"); CHECK(c.out == pre, "prefixed message of ", m.size()); ++transfers; }
  { Chan& c = set(""); CHECK(s.sendallPrefixed(m.data(), m.size()), "send"); CHECK(c.out == pre, "prefixed buffer of ", m.size()); ++transfers; }
  { Chan& c = set(""); CHECK(s.sendall(m), "send"); CHECK(c.out == m, "message of ", m.size()); ++transfers; }
  { Chan& c = set(pre + rest); std::string got = "old"; CHECK(s.recvallPrefixed(got), "recvallPrefixed"); CHECK(got == m && c.pos == pre.size(), "prefixed string of ", m.size()); ++transfers; }
  { Chan& c = set(pre + rest); std::unique_ptr<char[]> b; size_t n = 0; CHECK(s.recvallPrefixed(b, n), "recvallPrefixed"); CHECK(n == m.size() && b && std::string(b.get(), n) == m && c.pos == pre.size(), "prefixed buffer of ", m.size()); ++transfers; }
  { std::vector<double> v(ri(1, 12)); for (auto& x : v) x = rv<double>(); Chan& c = set(""); CHECK(s.sendallBinary(v.data(), v.size()), "send"); int one = 1; CHECK(c.out == std::string(1, *(char*)&one) + wire(v, false), "binary of ", v.size()); ++transfers; }
  // failures
  size_t at = (size_t)ri(0, (int)m.size() - 1), atp = (size_t)ri(0, (int)pre.size() - 1); int how = ri(0, 1);
  auto bad = [&](Chan& c, size_t a) { c.failAt = (long long)a; c.failHow = how; ++failures; };
  { bad(set(m), at); std::string got; CHECK(!s.recvall(got, m.size()), "recvall succeeded after ", at, " of ", m.size(), " bytes"); }
  { bad(set(pre), atp); std::string got; CHECK(!s.recvallPrefixed(got), "recvallPrefixed succeeded after ", atp, " of ", pre.size(), " bytes"); }
  { bad(set(pre), atp); std::unique_ptr<char[]> b; size_t n; CHECK(!s.recvallPrefixed(b, n), "recvallPrefixed succeeded after ", atp, " of ", pre.size(), " bytes"); }
  { Chan& c = set(""); bad(c, at); CHECK(!s.sendall(m), "sendall succeeded after ", at, " of ", m.size(), " bytes"); CHECK(c.out == m.substr(0, at), "sent bytes"); }
  { bad(set(""), atp); CHECK(!s.sendallPrefixed(m.data(), m.size()), "sendallPrefixed succeeded after ", atp, " of ", pre.size(), " bytes"); }
  { std::vector<double> v(3, 1.); Chan& c = set(""); bad(c, (size_t)ri(0, 24)); CHECK(!s.sendallBinary(v.data(), 3), "sendallBinary succeeded after ", c.failAt, " bytes"); }
  // forwarding
  { Chan& a = chans[FD + 1] = Chan(); a.in = m + rest; a.piece = pieces(kind, mask); Chan& c = set(""); Sock from(FD + 1); CHECK(NetworkUtils::forward(from, s, (size_t)ri(1, 50), m.size()), "forward"); CHECK(c.out == m && chans[FD + 1].pos == m.size(), "forwarded ", m.size()); ++transfers;
    Chan& d = set(""); chans[FD + 1].pos = 0; (ri(0, 1) ? bad(chans[FD + 1], at) : bad(d, at)); CHECK(!NetworkUtils::forward(from, s, (size_t)ri(1, 50), m.size()), "forward succeeded after ", at); }
}
int main() {
  signal(SIGPIPE, SIG_DFL);
  if (!freopen("/dev/null", "w", stderr)) return 2;
  bool th = thorough();
  // every way of cutting two 4-byte elements; every 5th way of cutting two 8-byte elements
  for (uint64_t mask = 0; mask < 256; ++mask) for (size_t chunk : {1, 3, 4, 8, 100}) for (int fo = 0; fo < 2; ++fo) for (int op = 0; op < 3; ++op) binary<float>(2, fo, op, chunk, pieces(1, mask), -1, 0, cat("cuts ", mask));
  for (uint64_t mask = 0; mask < 65536; mask += th ? 1 : 5) { binary<double>(2, mask & 1, (int)(mask % 3), mask % 7 ? 100 : ri(1, 17), pieces(1, mask), -1, 0, cat("cuts ", mask)); }
  for (int k = 0; k < (th ? 200000 : 20000); ++k) {
    size_t n = (size_t)ri(1, 12), chunk = (size_t)(ri(0, 2) ? ri(1, 40) : 131072); int kind = ri(0, 4); bool fo = ri(0, 1); int op = ri(0, 2);
    auto f = pieces(kind, rnd()); std::string id = cat("random ", k);
    for (int t = 0; t < 4; ++t) {
      size_t w = t == 0 ? 8 : t == 1 ? 4 : t == 2 ? 4 : 16; long long fa = ri(0, 3) ? -1 : ri(0, (int)(n * w));
      if (t == 0) binary<double>(n, fo, op, chunk, f, fa, ri(0, 1), id); else if (t == 1) binary<float>(n, fo, op, chunk, f, fa, ri(0, 1), id); else if (t == 2) binary<int>(n, fo, op, chunk, f, fa, ri(0, 1), id); else binary<std::complex<double>>(n, fo, op, chunk, f, fa, ri(0, 1), id);
    }
    text(kind, rnd());
  }
  // an interrupted first receive must not shift the data
  for (int op = 0; op < 2; ++op) { std::vector<double> v{1, 2, 3}, m(3, 5.); Chan& c = chans[FD] = Chan(); c.in = std::string(1, '\1') + wire(v, false) + "12345678"; c.failAt = 0; c.failHow = 1; c.once = true; Sock s(FD);
    bool ok = op ? s.recvallBinaryAndReduceInPlace<double>(m.data(), 3, plus_<double>) : s.recvallBinaryAndCorrectInPlace<double>(m.data(), 3); ++failures;
    CHECK(!ok || (m[0] == (op ? 6 : 1) && m[1] == (op ? 7 : 2) && m[2] == (op ? 8 : 3)), "success after a failed receive, op ", op, " got ", m[0]); }
  // lengths beyond 2^31
  for (unsigned long long n : {1ull, 9ull, 2147483647ull, 2147483648ull, 4294967296ull, 4294967297ull, 123456789012ull}) { Chan& c = chans[FD] = Chan(); c.in = std::to_string(n) + "#xyz"; Sock s(FD); size_t got = 0; bool ok = false; try { ok = s.recvLength(got); } catch (...) { ok = false; } CHECK(ok && got == n && c.pos == c.in.size() - 3, "length ", n, " received as ", got); }
  // binary data to a file: exactly the announced bytes
  char tmpl[] = "/tmp/h_p11_XXXXXX"; int tf = mkstemp(tmpl); close(tf);
  for (int k = 0; k < (th ? 3000 : 300); ++k) { std::string m = bytes((size_t)ri(1, 300)), rest = bytes((size_t)ri(0, 40)); Chan& c = chans[FD] = Chan(); int one = 1; c.in = std::string(1, *(char*)&one) + m + rest; c.piece = pieces(ri(0, 4), rnd()); bool bad = ri(0, 3) == 0; if (bad) { c.failAt = ri(0, (int)m.size()); c.failHow = ri(0, 1); }
    Sock s(FD); bool ok = s.recvallBinaryToFile(tmpl, m.size(), (size_t)ri(1, 64)); CHECK(ok == !bad, "file of ", m.size(), " bytes returned ", ok); ++transfers;
    if (!bad) { std::ifstream f(tmpl, std::ios::binary); std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); CHECK(got == m && c.pos == 1 + m.size(), "file of ", m.size(), " bytes has ", got.size(), ", ", c.pos, " bytes read"); } }
  unlink(tmpl);
  // real connection closed by the receiver: failure, not termination
  for (int op = 0; op < 3; ++op) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) continue;
    pid_t pid = fork();
    if (pid == 0) { close(sv[1]); Sock s(sv[0]); std::vector<double> v(4, 1.); bool ok = op == 0 ? s.sendall("hello") : op == 1 ? s.sendallPrefixed("hello") : s.sendallBinary(v.data(), 4); _exit(ok ? 1 : 0); }
    close(sv[0]); close(sv[1]); int st = 0; waitpid(pid, &st, 0); ++failures;
    CHECK(WIFEXITED(st), "sender terminated by signal ", WTERMSIG(st)); if (WIFEXITED(st)) CHECK(WEXITSTATUS(st) == 0, "send to a closed connection reported success");
  }
  // real connection, large transfer
  { int sv[2]; if (!socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { std::vector<double> v(300000); std::iota(v.begin(), v.end(), 0.); pid_t pid = fork(); if (pid == 0) { Sock s(sv[0]); _exit(s.sendallBinary(v.data(), v.size()) ? 0 : 1); }
      close(sv[0]); Sock s(sv[1]); std::vector<double> m(v.size(), 1.); bool ok = s.recvallBinaryAndReduceInPlace<double>(m.data(), m.size(), plus_<double>, 1001); bool eq = true; for (size_t i = 0; i < m.size(); ++i) eq = eq && m[i] == v[i] + 1; CHECK(ok && eq, "large transfer over a real connection"); int st; waitpid(pid, &st, 0); ++transfers; } }
  // endianness helpers
  for (int k = 0; k < 200; ++k) { double x = rv<double>(); std::string a((char*)&x, 8); std::reverse(a.begin(), a.end()); double y = NetworkUtils::reverseEndianness(x); CHECK(std::string((char*)&y, 8) == a, "byte order of ", x); int i = rv<int>(); std::string b((char*)&i, 4); std::reverse(b.begin(), b.end()); int j = NetworkUtils::reverseEndianness(i); CHECK(std::string((char*)&j, 4) == b, "byte order of ", i); }
  covered("transfers", transfers); covered("system_calls", splits); covered("failures_injected", failures);
  return done();
}
