// C24: the secure allocators.  mlock/munlock and operator delete are replaced by recording stand-ins.
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <cstdlib>
#include <mutex>
#include <new>
#include <thread>
#include <map>
#include <set>
#include <deque>
#include <list>
#include "vh.h"
#include "vh_ms.h"
namespace {
std::atomic<bool> g_fail_lock{false};
std::atomic<uint64_t> g_locks{0}, g_unlocks{0}, g_released{0}, g_double{0}, g_dirty{0}, g_stray{0};
std::mutex g_mx;
std::set<size_t>* g_locked = nullptr;
thread_local const void* g_watch = nullptr;  // this block must be zeroed when it is released
}  // namespace
extern "C" int mlock(const void* p, size_t n) {
  std::lock_guard<std::mutex> l(g_mx);
  if (!g_locked) g_locked = new std::set<size_t>;
  for (size_t a = reinterpret_cast<size_t>(p), e = a + n; a < e; a += 4096) if (!g_locked->insert(a).second) ++g_double;
  ++g_locks;
  if (g_fail_lock) { errno = ENOMEM; return -1; }
  return 0;
}
extern "C" int munlock(const void* p, size_t n) {
  std::lock_guard<std::mutex> l(g_mx);
  for (size_t a = reinterpret_cast<size_t>(p), e = a + n; a < e; a += 4096) if (!g_locked || !g_locked->erase(a)) ++g_stray;
  ++g_unlocks;
  return 0;
}
bool IsLocked(size_t page) {
  std::lock_guard<std::mutex> l(g_mx);
  return g_locked && g_locked->count(page);
}
size_t LockedPages() { std::lock_guard<std::mutex> l(g_mx); return g_locked ? g_locked->size() : 0; }
// every block released while watched is inspected
namespace {
struct Head { size_t size, magic; };
const size_t kMagic = 0x5afe5afe12345678u;
size_t g_odd = 0;
void* New(size_t n) {
  char* p = static_cast<char*>(std::malloc(n + sizeof(Head)));
  if (!p) return nullptr;
  Head h{n, kMagic};
  memcpy(p, &h, sizeof h);
  return p + sizeof(Head);
}
void Delete(void* p) {
  if (!p) return;
  char* b = static_cast<char*>(p) - sizeof(Head);
  Head h;
  memcpy(&h, b, sizeof h);
  if (h.magic != kMagic) abort();
  if (p == g_watch) {
    g_watch = nullptr;  // the address may be used again
    ++g_released;
    for (size_t i = 0; i < h.size; ++i) if (static_cast<char*>(p)[i]) { ++g_dirty; break; }
  }
  h.magic = 0;
  memcpy(b, &h, sizeof h);
  std::free(b);
}
}  // namespace
void* operator new(size_t n) { if (void* p = New(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = New(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n); }
void operator delete(void* p) noexcept { Delete(p); }
void operator delete[](void* p) noexcept { Delete(p); }
void operator delete(void* p, size_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t) noexcept { Delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Delete(p); }

#include "maidsafe/common/authentication/detail/safe_allocators.h"
#include "maidsafe/common/authentication/detail/secure_string.h"
namespace d = maidsafe::authentication::detail;
namespace {
size_t PageOf(size_t a) { return a & ~size_t(4095); }
struct Wide { alignas(16) char c[48]; };
uint64_t g_hist = 0;
template <typename T, typename A> void Wiped(const char* what, vh::Rng& r) {
  A a;
  std::vector<std::pair<T*, size_t>> live;
  std::vector<unsigned char> fill;
  for (int i = 0; i < 30; ++i) {
    if (live.empty() || r.Below(3)) {
      size_t n = r.OneIn(8) ? 1 + r.Below(9000) : 1 + r.Below(100);
      T* p = a.allocate(n);
      g_hist = vh::Mix(g_hist + n);
      memset(static_cast<void*>(p), 0xA5, n * sizeof(T));
      VH_CHECK(reinterpret_cast<size_t>(p) % alignof(T) == 0, "misaligned", what);
      for (auto& l : live) VH_CHECK(p + n <= l.first || l.first + l.second <= p, "overlap", what);
      live.emplace_back(p, n);
    } else {
      size_t k = r.Below(live.size());
      g_hist = vh::Mix(g_hist ^ k);
      for (size_t j = 0; j < live[k].second * sizeof(T); ++j) if (reinterpret_cast<unsigned char*>(live[k].first)[j] != 0xA5) { VH_CHECK(false, "overwritten", what); break; }
      g_dirty = 0; g_released = 0;
      g_watch = live[k].first;
      a.deallocate(live[k].first, live[k].second);
      g_watch = nullptr;
      VH_CHECK(g_dirty == 0, "not-wiped", what << " of " << live[k].second);
      VH_CHECK(g_released >= 1, "not-released", what);
      live.erase(live.begin() + static_cast<ptrdiff_t>(k));
      vh::Add("releases");
    }
  }
  for (auto& l : live) {
    g_dirty = 0;
    g_watch = l.first;
    a.deallocate(l.first, l.second);
    g_watch = nullptr;
    VH_CHECK(g_dirty == 0, "not-wiped", what << " of " << l.second);
  }
}
// containers: contents follow a model; whatever the container releases is wiped
template <typename C> void Container(vh::Rng& r, const char* what) {
  std::vector<unsigned char> m;
  {
    C x;
    for (int i = 0; i < 25; ++i) {
      unsigned char b = static_cast<unsigned char>(1 + r.Below(255));
      g_dirty = 0;
      g_watch = x.empty() ? nullptr : x.data();
      switch (r.Below(8)) {
        case 0: case 1: case 2: for (size_t n = r.Below(r.OneIn(4) ? 400 : 40); n--;) { x.push_back(static_cast<typename C::value_type>(b)); m.push_back(b); } break;
        case 3: if (!m.empty()) { size_t n = r.Below(m.size()); x.resize(n); m.resize(n); } break;
        case 4: { C y(x); VH_CHECK(y == x, "copy-differs", what); C z(std::move(x)); VH_CHECK(z == y, "move-differs", what); x = std::move(z); break; }
        case 5: { C y(5, static_cast<typename C::value_type>(b)); std::swap(x, y); VH_CHECK(x.size() == 5, "swap-differs", what); y.swap(x); break; }
        case 6: x.shrink_to_fit(); break;
        default: if (r.OneIn(4)) { x.clear(); m.clear(); } else if (!m.empty()) { size_t p = r.Below(m.size()); x.insert(x.begin() + static_cast<ptrdiff_t>(p), static_cast<typename C::value_type>(b)); m.insert(m.begin() + static_cast<ptrdiff_t>(p), b); }
      }
      g_watch = nullptr;
      VH_CHECK(g_dirty == 0, "not-wiped", what << " of " << m.size());
      bool same = x.size() == m.size();
      for (size_t k = 0; same && k < m.size(); ++k) same = static_cast<unsigned char>(x[k]) == m[k];
      VH_CHECK(same, "contents", what << " of " << m.size());
    }
    g_hist = vh::Mix(g_hist ^ vh::HashBytes(m.data(), m.size()));
    vh::Add("containers");
  }
}
}  // namespace

VH_GROUP(wiping, 400, 15000) {
  g_hist = 1;
  auto& r = c.rng;
  Wiped<char, d::safe_allocator<char>>("locked char", r);
  Wiped<char, d::zero_after_free_allocator<char>>("zeroed char", r);
  Wiped<Wide, d::safe_allocator<Wide>>("locked object", r);
  Wiped<uint64_t, d::zero_after_free_allocator<uint64_t>>("zeroed word", r);
  VH_CHECK(g_double == 0 && g_stray == 0, "lock-twice-or-stray", g_double << " " << g_stray);
  VH_CHECK(LockedPages() == static_cast<size_t>(d::LockedPageManager::instance.GetLockedPageCount()), "page-count", "");
  vh::Observed(g_hist);
}

VH_GROUP(containers, 400, 15000) {
  g_hist = 2;
  auto& r = c.rng;
  size_t before = LockedPages();
  std::string what;
  g_dirty = 0;
  g_released = 0;
  switch (r.Below(3)) {
    case 0: Container<std::vector<char, d::safe_allocator<char>>>(r, "locked vector"); break;
    case 1: Container<std::vector<uint32_t, d::zero_after_free_allocator<uint32_t>>>(r, "zeroed vector"); break;
    default: Container<d::SafeString>(r, "locked string");
  }
  VH_CHECK(LockedPages() == before, "pages-left-locked", before << " then " << LockedPages());
  VH_CHECK(g_double == 0 && g_stray == 0, "lock-twice-or-stray", g_double << " " << g_stray);
  vh::Observed(g_hist);
}

// what a destroyed container held is wiped: every release inside its destructor is inspected
VH_GROUP(destruction, 600, 20000) {
  auto& r = c.rng;
  size_t n = 16 + r.Below(r.OneIn(4) ? 9000 : 200);
  g_dirty = 0; g_released = 0;
  std::string what;
  if (r.Coin()) {
    auto* s = new d::SafeString(n, 's');
    g_watch = s->data();
    s->~basic_string();
    g_watch = nullptr;
    operator delete(s);
    what = "string";
  } else {
    using V = std::vector<char, d::zero_after_free_allocator<char>>;
    auto* v = new V(n, 's');
    g_watch = v->data();
    v->~V();
    g_watch = nullptr;
    operator delete(v);
    what = "vector";
  }
  VH_CHECK(g_dirty == 0, "not-wiped", what << " of " << n);
  VH_CHECK(g_released >= 1, "not-released", what);
  vh::Add("destroyed");
  vh::Observed(n);
}

namespace {
// Locks recorded per instance; misuse (locking a locked page or unlocking another) is counted.
struct Recorder {
  static thread_local int dummy;
  bool Lock(const void* p, size_t n) { if (n != size) ++bad; if (!pages.insert(reinterpret_cast<size_t>(p)).second) ++bad; ++locks; return !fail; }
  bool Unlock(const void* p, size_t n) { if (n != size) ++bad; if (!pages.erase(reinterpret_cast<size_t>(p))) ++bad; ++unlocks; return true; }
  static size_t size;
  static std::set<size_t> pages;
  static int bad, locks, unlocks;
  static bool fail;
};
size_t Recorder::size = 0;
std::set<size_t> Recorder::pages;
int Recorder::bad = 0, Recorder::locks = 0, Recorder::unlocks = 0;
bool Recorder::fail = false;
}  // namespace

// The page manager against a count per page, for any page size and overlapping ranges.
VH_GROUP(pages, 1500, 60000) {
  auto& r = c.rng;
  size_t ps = size_t(1) << r.Below(14);
  Recorder::size = ps;
  Recorder::pages.clear();
  Recorder::bad = 0;
  Recorder::fail = r.OneIn(5);
  d::LockedPageManagerBase<Recorder> m(ps);
  std::map<size_t, int> count;
  std::vector<std::pair<size_t, size_t>> live;
  std::ostringstream t;
  t << "page " << ps;
  size_t base = (1 + r.Below(1 << 20)) * ps * 8;
  for (int i = 0; i < 60; ++i) {
    if (live.empty() || r.Below(5) < 3) {
      size_t a = base + r.Below(ps * 8), n = r.OneIn(8) ? 0 : r.OneIn(3) ? 1 + r.Below(ps * 5) : 1 + r.Below(ps);
      if (r.OneIn(6)) a = a / ps * ps;
      if (r.OneIn(6) && n) n = std::max<size_t>(1, (a + n) / ps * ps - a);  // ends on a page boundary
      if (n > ps * 64) n = 1;
      m.LockRange(reinterpret_cast<void*>(a), n);
      if (n) for (size_t p = a / ps; p <= (a + n - 1) / ps; ++p) ++count[p * ps];
      live.emplace_back(a, n);
      t << " +" << a - base << "," << n;
    } else {
      size_t k = r.Below(live.size());
      m.UnlockRange(reinterpret_cast<void*>(live[k].first), live[k].second);
      if (live[k].second) for (size_t p = live[k].first / ps; p <= (live[k].first + live[k].second - 1) / ps; ++p) if (!--count[p * ps]) count.erase(p * ps);
      t << " -" << live[k].first - base << "," << live[k].second;
      live.erase(live.begin() + static_cast<ptrdiff_t>(k));
    }
    bool same = Recorder::pages.size() == count.size();
    for (auto& x : count) same = same && Recorder::pages.count(x.first);
    VH_CHECK(same && Recorder::bad == 0, "page-locks", t.str() << " bad " << Recorder::bad);
    VH_CHECK(m.GetLockedPageCount() == static_cast<int>(count.size()), "page-count", t.str());
    vh::Add("page_steps");
  }
  for (auto& l : live) m.UnlockRange(reinterpret_cast<void*>(l.first), l.second);
  VH_CHECK(Recorder::pages.empty(), "pages-left-locked", t.str());
  vh::Observed(vh::HashStr(t.str()));
}

// Threads allocating and releasing through the process-wide manager: live memory is always locked.
VH_GROUP(threads, 40, 1500) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 40, 100);
  size_t before = LockedPages();
  g_fail_lock = r.OneIn(6);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 4; ++i) seeds.push_back(r.Next());
  std::vector<std::thread> t;
  std::atomic<int> wrong{0};
  for (int i = 0; i < 4; ++i) t.emplace_back([&, i] {
    vh::Rng lr(seeds[static_cast<size_t>(i)]);
    d::safe_allocator<char> a;
    std::vector<std::pair<char*, size_t>> live;
    for (int k = 0; k < 150; ++k) {
      if (live.empty() || lr.Below(5) < 3) {
        size_t n = lr.OneIn(10) ? 1 + lr.Below(20000) : 1 + lr.Below(300);
        char* p = a.allocate(n);
        memset(p, 7, n);
        for (size_t q = PageOf(reinterpret_cast<size_t>(p)); q <= PageOf(reinterpret_cast<size_t>(p) + n - 1); q += 4096) if (!IsLocked(q)) ++wrong;
        live.emplace_back(p, n);
      } else {
        size_t k2 = lr.Below(live.size());
        for (size_t q = PageOf(reinterpret_cast<size_t>(live[k2].first)); q <= PageOf(reinterpret_cast<size_t>(live[k2].first) + live[k2].second - 1); q += 4096) if (!IsLocked(q)) ++wrong;
        a.deallocate(live[k2].first, live[k2].second);
        live.erase(live.begin() + static_cast<ptrdiff_t>(k2));
      }
      vh::Add("thread_steps");
    }
    for (auto& l : live) a.deallocate(l.first, l.second);
  });
  for (auto& x : t) x.join();
  g_fail_lock = false;
  VH_CHECK(wrong == 0, "live-page-unlocked", wrong);
  VH_CHECK(g_double == 0 && g_stray == 0, "lock-twice-or-stray", g_double << " " << g_stray);
  VH_CHECK(LockedPages() == before, "pages-left-locked", before << " then " << LockedPages());
  vh::Observed(seeds[0]);
}
