// operator new that refuses single allocations above a limit with std::bad_alloc, as a process with
// limited memory would, so that a length field read from hostile bytes cannot exhaust the sandbox.
// Include in one translation unit only.
#include <cstdlib>
#include <new>
namespace vh { size_t g_new_limit = size_t(64) << 20; std::atomic<uint64_t> g_new_refused{0}; std::atomic<size_t> g_new_largest{0}; }
static void* VhNew(size_t n) {
  if (n > vh::g_new_limit) { ++vh::g_new_refused; return nullptr; }
  size_t l = vh::g_new_largest.load(std::memory_order_relaxed);
  while (n > l && !vh::g_new_largest.compare_exchange_weak(l, n)) {}
  return std::malloc(n ? n : 1);
}
void* operator new(size_t n) { if (void* p = VhNew(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = VhNew(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return VhNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return VhNew(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
