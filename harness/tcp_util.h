// Shared by C15 and C16: a service with threads, raw socket peers, and system call stand-ins that can
// hide IPv6, shorten transfers and fail accepts.
#ifndef VERIF_TCP_UTIL_H_
#define VERIF_TCP_UTIL_H_
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstring>
#include <functional>
#include <mutex>
#include <thread>
#include "asio/io_service.hpp"
#include "asio/executor_work_guard.hpp"
#include "asio/post.hpp"
#include "maidsafe/common/config.h"
#include "maidsafe/common/types.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"
#include "vh.h"
#include "vh_ms.h"
namespace tu {
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
static std::atomic<bool> g_no_v6{false};
static std::atomic<int> g_short{0};        // reads cut to 1..g_short bytes
static std::atomic<int> g_buffers{0};      // size of the kernel's buffers, 0 for its own choice
static std::atomic<int> g_accept_fails{0};  // the next so many accepts fail
static std::atomic<uint64_t> g_shortened{0};
inline bool HaveV6() {
  static bool v = [] {
    static auto real = reinterpret_cast<int (*)(int, int, int)>(dlsym(RTLD_NEXT, "socket"));
    int s = real(AF_INET6, SOCK_STREAM, 0);
    if (s < 0) return false;
    sockaddr_in6 a;
    memset(&a, 0, sizeof a);
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    bool ok = bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
    close(s);
    return ok;
  }();
  return v;
}
inline bool V6() { return !g_no_v6; }
inline void ChooseFamily(vh::Rng& r) { g_no_v6 = !HaveV6() || r.OneIn(3); }
struct Addr { sockaddr_storage s; socklen_t n; };
inline Addr Loopback(uint16_t port) {
  Addr a;
  memset(&a, 0, sizeof a);
  if (V6()) {
    auto* p = reinterpret_cast<sockaddr_in6*>(&a.s);
    p->sin6_family = AF_INET6; p->sin6_addr = in6addr_loopback; p->sin6_port = htons(port); a.n = sizeof *p;
  } else {
    auto* p = reinterpret_cast<sockaddr_in*>(&a.s);
    p->sin_family = AF_INET; p->sin_addr.s_addr = htonl(INADDR_LOOPBACK); p->sin_port = htons(port); a.n = sizeof *p;
  }
  return a;
}
struct Raw {
  int fd = -1;
  Raw() {}
  ~Raw() { Close(); }
  Raw(const Raw&) = delete;
  Raw& operator=(const Raw&) = delete;
  void Close() { if (fd >= 0) ::close(fd); fd = -1; }
  void Reset() { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); Close(); }
  bool Connect(uint16_t port) {
    fd = ::socket(V6() ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    auto a = Loopback(port);
    return ::connect(fd, reinterpret_cast<sockaddr*>(&a.s), a.n) == 0;
  }
  // occupies a port (0: any) and returns it, 0 on failure
  uint16_t Occupy(uint16_t port) {
    fd = ::socket(V6() ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
    auto a = Loopback(port);
    if (::bind(fd, reinterpret_cast<sockaddr*>(&a.s), a.n) != 0 || ::listen(fd, 1) != 0) { Close(); return 0; }
    getsockname(fd, reinterpret_cast<sockaddr*>(&a.s), &a.n);
    return ntohs(V6() ? reinterpret_cast<sockaddr_in6*>(&a.s)->sin6_port : reinterpret_cast<sockaddr_in*>(&a.s)->sin_port);
  }
  bool Write(const unsigned char* p, size_t n) {
    while (n) {
      ssize_t k = ::write(fd, p, n);
      if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
      p += k; n -= static_cast<size_t>(k);
    }
    return true;
  }
  // up to n bytes; fewer at the end of the stream or after the given time
  Bytes Read(size_t n, int ms, size_t chunk = 65536) {
    Bytes out;
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (out.size() < n) {
      auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
      if (left <= 0) break;
      pollfd p{fd, POLLIN, 0};
      if (::poll(&p, 1, static_cast<int>(left)) <= 0) continue;
      unsigned char b[65536];
      ssize_t k = ::read(fd, b, std::min(std::min(chunk, sizeof b), n - out.size()));
      if (k <= 0) break;
      out.insert(out.end(), b, b + k);
      vh::Beat();
    }
    return out;
  }
};
struct Service {
  asio::io_service io;
  std::unique_ptr<asio::io_service::strand> a, b;
  std::unique_ptr<asio::executor_work_guard<asio::io_service::executor_type>> work;
  std::vector<std::thread> threads;
  explicit Service(int n) {
    a.reset(new asio::io_service::strand(io));
    b.reset(new asio::io_service::strand(io));
    work.reset(new asio::executor_work_guard<asio::io_service::executor_type>(io.get_executor()));
    for (int i = 0; i < n; ++i) threads.emplace_back([this] { io.run(); });
  }
  void Finish(bool abrupt) {
    work.reset();
    if (abrupt) io.stop();
    for (auto& t : threads) t.join();
    threads.clear();
  }
  ~Service() { if (!threads.empty()) Finish(true); }
};
inline bool WaitFor(const std::function<bool()>& f, int ms = 20000) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while (!f()) {
    if (std::chrono::steady_clock::now() > end) return false;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    vh::Beat();
  }
  return true;
}
// What one end of a connection reported.
struct End {
  std::mutex m;
  std::vector<Bytes> got;
  int closed = 0;
  int late = 0;  // messages after the closure
  std::vector<std::thread::id> running;
  bool overlap = false, inside = false;
  std::function<void(const Bytes&)> on_message;
  void Message(const tcp::Message& d) {
    { std::lock_guard<std::mutex> l(m); if (inside) overlap = true; inside = true; if (closed) ++late; got.emplace_back(d.begin(), d.end()); }
    if (on_message) on_message(Bytes(d.begin(), d.end()));
    std::lock_guard<std::mutex> l(m); inside = false;
  }
  void Closed() { std::lock_guard<std::mutex> l(m); ++closed; }
  size_t Count() { std::lock_guard<std::mutex> l(m); return got.size(); }
  int ClosedCount() { std::lock_guard<std::mutex> l(m); return closed; }
  std::vector<Bytes> Got() { std::lock_guard<std::mutex> l(m); return got; }
};
using EndPtr = std::shared_ptr<End>;
inline void Start(const tcp::ConnectionPtr& c, const EndPtr& e) {
  c->Start([e](tcp::Message d) { e->Message(d); }, [e] { e->Closed(); });
}
inline Bytes Frame(const Bytes& m) {
  Bytes f;
  for (int i = 3; i >= 0; --i) f.push_back(static_cast<unsigned char>(m.size() >> (8 * i)));
  f.insert(f.end(), m.begin(), m.end());
  return f;
}
// connections handed over by a listener
struct Accepted {
  std::mutex m;
  std::vector<tcp::ConnectionPtr> c;
  void Add(tcp::ConnectionPtr p) { std::lock_guard<std::mutex> l(m); c.push_back(std::move(p)); }
  size_t Count() { std::lock_guard<std::mutex> l(m); return c.size(); }
  tcp::ConnectionPtr At(size_t i) { std::lock_guard<std::mutex> l(m); return i < c.size() ? c[i] : nullptr; }
  void Drop() { std::vector<tcp::ConnectionPtr> x; std::lock_guard<std::mutex> l(m); x.swap(c); }
};
// Ports of this process alone, so that runs side by side can't reach each other's listeners: a range
// belongs to whoever holds the socket named after it.  All below the ports chosen for clients.
inline uint16_t AnyPort(vh::Rng& r) {
  static const unsigned kRange = 1000, kRanges = 25;
  static unsigned mine = [] {
    for (int tries = 0; tries < 600; ++tries) {
      for (unsigned i = 0; i < kRanges; ++i) {
        unsigned k = (i + static_cast<unsigned>(getpid())) % kRanges;
        int f = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        int n = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-ports-%u", k);
        if (::bind(f, reinterpret_cast<sockaddr*>(&a), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + static_cast<size_t>(n))) == 0) return k;
        ::close(f);
      }
      vh::Beat();
      std::this_thread::sleep_for(std::chrono::milliseconds(100));
    }
    vh::HarnessError("no free range of ports");
  }();
  return static_cast<uint16_t>(5000 + mine * kRange + r.Below(kRange - tcp::kMaxRangeAboveDefaultPort - 1));
}
}  // namespace tu
// Small kernel buffers make large writes partial.
static void VhBuffers(int f) {
  if (f < 0 || !tu::g_buffers) return;
  int n = tu::g_buffers;
  setsockopt(f, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
  setsockopt(f, SOL_SOCKET, SO_RCVBUF, &n, sizeof n);
}
extern "C" int socket(int d, int t, int p) {
  static auto real = reinterpret_cast<int (*)(int, int, int)>(dlsym(RTLD_NEXT, "socket"));
  if (d == AF_INET6 && tu::g_no_v6) { errno = EAFNOSUPPORT; return -1; }
  int f = real(d, t, p);
  VhBuffers(f);
  return f;
}
extern "C" int accept(int s, sockaddr* a, socklen_t* n) {
  static auto real = reinterpret_cast<int (*)(int, sockaddr*, socklen_t*)>(dlsym(RTLD_NEXT, "accept"));
  int f = real(s, a, n);
  VhBuffers(f);
  if (f >= 0 && tu::g_accept_fails > 0) { --tu::g_accept_fails; ::close(f); errno = EMFILE; return -1; }
  return f;
}
static size_t VhCut(size_t total) {
  int k = tu::g_short;
  if (!k || total < 2) return total;
  static std::atomic<uint64_t> seq{1};
  uint64_t x = vh::Mix(seq.fetch_add(1, std::memory_order_relaxed));
  ++tu::g_shortened;
  return std::min<size_t>(total, 1 + x % static_cast<uint64_t>(k));
}
extern "C" ssize_t recv(int s, void* p, size_t n, int f) {
  static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t, int)>(dlsym(RTLD_NEXT, "recv"));
  return real(s, p, VhCut(n), f);
}
extern "C" ssize_t recvmsg(int s, msghdr* m, int f) {
  static auto real = reinterpret_cast<ssize_t (*)(int, msghdr*, int)>(dlsym(RTLD_NEXT, "recvmsg"));
  if (m->msg_iovlen != 1) return real(s, m, f);
  size_t keep = m->msg_iov[0].iov_len;
  m->msg_iov[0].iov_len = VhCut(keep);
  ssize_t r = real(s, m, f);
  m->msg_iov[0].iov_len = keep;
  return r;
}
#endif
