// Harness runtime: deterministic cases, violation reporting, coverage accounting.
// A harness defines groups of cases with VH_GROUP(name, quick_count, thorough_count); the driver
// (run.py) runs disjoint shards of the cases in several processes and merges what they observed.
#ifndef VERIF_HARNESS_VH_H_
#define VERIF_HARNESS_VH_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  return Mix(h);
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL) {
  return HashBytes(s.data(), s.size(), h ^ s.size());
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t Next() { return Mix(s += 0x632be59bd9b4e019ULL); }
  uint64_t operator()() { return Next(); }
  // [0, n)
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  // [a, b]
  int64_t Range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(Below(static_cast<uint64_t>(b - a) + 1));
  }
  bool OneIn(uint64_t n) { return Below(n) == 0; }
  bool Coin() { return Next() & 1; }
  std::string Bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = static_cast<char>(Next());
    return r;
  }
  std::vector<unsigned char> ByteVec(size_t n) {
    auto s2 = Bytes(n);
    return std::vector<unsigned char>(s2.begin(), s2.end());
  }
  // a size biased to small values and to boundaries of powers of two
  size_t Size(size_t max) {
    switch (Below(4)) {
      case 0: return Below(std::min<size_t>(max, 8) + 1);
      case 1: return Below(std::min<size_t>(max, 80) + 1);
      case 2: {
        size_t p = size_t(1) << Below(21);
        int64_t v = static_cast<int64_t>(p) + Range(-2, 2);
        if (v < 0) v = 0;
        return std::min<size_t>(static_cast<size_t>(v), max);
      }
      default: return Below(max + 1);
    }
  }
  template <typename C>
  auto Pick(const C& c) -> const typename std::remove_reference<decltype(*std::begin(c))>::type& {
    auto it = std::begin(c);
    std::advance(it, Below(static_cast<uint64_t>(std::distance(std::begin(c), std::end(c)))));
    return *it;
  }
};

inline std::string Hex(const void* p, size_t n, size_t max = 48) {
  static const char* d = "0123456789abcdef";
  std::string r;
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n && i < max; ++i) {
    r += d[c[i] >> 4];
    r += d[c[i] & 15];
  }
  if (n > max) r += "..(" + std::to_string(n) + ")";
  return r;
}
inline std::string Hex(const std::string& s, size_t max = 48) { return Hex(s.data(), s.size(), max); }
inline std::string Hex(const std::vector<unsigned char>& s, size_t max = 48) {
  return Hex(s.data(), s.size(), max);
}

struct Case;
typedef void (*GroupFn)(Case&);
struct Group {
  const char* name;
  uint64_t quick, thorough;
  GroupFn fn;
};
std::vector<Group>& Groups();
struct Registrar {
  Registrar(const char* n, uint64_t q, uint64_t t, GroupFn f) { Groups().push_back({n, q, t, f}); }
};
#define VH_GROUP(name, quick, thorough)                                            \
  static void vh_group_##name(vh::Case& c);                                        \
  static vh::Registrar vh_registrar_##name(#name, quick, thorough, vh_group_##name); \
  static void vh_group_##name(vh::Case& c)

struct Case {
  const char* group;
  uint64_t index;
  uint64_t total;
  bool thorough;
  uint64_t seed;
  Rng rng;
};

// A violated property.  'key' names what failed without case-specific data; 'detail' is free text.
// Thread safe.  Does not end the process.
void Violation(const std::string& key, const std::string& detail);
// A distinct, non-trivial situation that was checked (hash of what makes it distinct).
void Observed(uint64_t hash);
// Number of oracle evaluations made (besides the one counted for every case).
void Evals(uint64_t n);
void Add(const char* counter, uint64_t n = 1);
void Sample(const std::string& text);
// The check cannot decide anything in this environment.
[[noreturn]] void HarnessError(const std::string& text);
// A private scratch directory of this process, removed by the driver.
const std::string& Scratch();
bool Replaying();
// Touch the heartbeat from long cases.
void Beat();

#define VH_CHECK(cond, key, detail)                                   \
  do {                                                                \
    vh::Evals(1);                                                     \
    if (!(cond)) {                                                    \
      std::ostringstream vh_os_;                                      \
      vh_os_ << detail;                                               \
      vh::Violation(key, vh_os_.str());                               \
    }                                                                 \
  } while (0)

// Runs f; returns "" if it returned, otherwise a short description of what was thrown.
template <typename F>
std::string Thrown(F f) {
  try {
    f();
    return "";
  } catch (const std::exception& e) {
    return std::string("std:") + e.what();
  } catch (...) {
    return "unknown";
  }
}

// Schedule perturbation (only effective when delay.cc is linked in with its wrap flags).
void SetDelays(uint64_t seed, unsigned one_in, unsigned max_us);
uint64_t DelayPoints();

}  // namespace vh
#endif
