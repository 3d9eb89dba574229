// C11: LruCache against a reference list, with a clock the harness moves.
#include <chrono>
#include <list>
#include <memory>
#include "maidsafe/common/containers/lru_cache.h"
#include "vh.h"
#include "vh_ms.h"

static std::atomic<long long> g_now{1000000000LL};
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now.load())); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std

using Duration = std::chrono::steady_clock::duration;

namespace {
// A key with nothing but an order.
struct OrderedKey {
  std::string s;
  explicit OrderedKey(int i = 0) : s(40, 'k') { s += std::to_string(i); }
  friend bool operator<(const OrderedKey& a, const OrderedKey& b) { return a.s > b.s; }
};
template <typename K>
K MakeKey(int i);
template <>
int MakeKey<int>(int i) { return i * 7 - 3; }
template <>
std::string MakeKey<std::string>(int i) { return std::string(i % 3 ? 40 : 2, 'a') + std::to_string(i); }
template <>
OrderedKey MakeKey<OrderedKey>(int i) { return OrderedKey(i); }

struct Entry {
  int key;
  int value;
  long long time;
};
struct Model {
  uint64_t cap;
  long long ttl;
  std::list<Entry> order;
  uint64_t evicted = 0, aged = 0;
  std::list<Entry>::iterator Find(int k) {
    return std::find_if(order.begin(), order.end(), [&](const Entry& e) { return e.key == k; });
  }
  void Add(int k, int v) {
    if (Find(k) != order.end() || cap == 0) return;
    if (order.size() == cap) {
      order.pop_front();
      ++evicted;
    }
    while (ttl != 0 && !order.empty() && g_now - order.front().time > ttl) {
      order.pop_front();
      ++aged;
    }
    order.push_back({k, v, g_now});
  }
  bool Get(int k, int* v) {
    auto it = Find(k);
    if (it == order.end()) return false;
    *v = it->value;
    order.splice(order.end(), order, it);
    return true;
  }
  void Delete(int k) {
    auto it = Find(k);
    if (it != order.end()) order.erase(it);
  }
};

using Value = std::shared_ptr<int>;
template <typename K>
struct MapCache {
  using Cache = maidsafe::LruCache<K, Value>;
  static void Add(Cache& c, int k, int v) { c.Add(MakeKey<K>(k), std::make_shared<int>(v)); }
  static int Get(Cache& c, int k, int* v) {  // 1 found, 0 not found, -1 wrong error
    auto r = c.Get(MakeKey<K>(k));
    if (r) {
      *v = **r;
      return 1;
    }
    return r.error().code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element) ? 0 : -1;
  }
  static bool Delete(Cache& c, int k) {
    c.Delete(MakeKey<K>(k));
    return true;
  }
};
template <typename K>
struct FilterCache {
  using Cache = maidsafe::LruCache<K, void>;
  static void Add(Cache& c, int k, int) { c.Add(MakeKey<K>(k)); }
  static int Get(Cache&, int, int*) { return -2; }
  static bool Delete(Cache&, int) { return false; }
};

template <typename K, typename A>
void Compare(const typename A::Cache& c, Model& m, int universe, const std::string& trace) {
  VH_CHECK(c.size() == m.order.size(), "size", "size " << c.size() << " expected " << m.order.size() << " after" << trace);
  VH_CHECK(c.size() <= m.cap, "over-capacity", "size " << c.size() << " capacity " << m.cap << " after" << trace);
  for (int k = 0; k < universe; ++k) {
    bool got = c.Check(MakeKey<K>(k)), want = m.Find(k) != m.order.end();
    VH_CHECK(got == want, want ? "entry-lost" : "entry-kept", "key " << k << (want ? " missing" : " present") << " after" << trace);
  }
}

template <typename K, typename A>
void Step(typename A::Cache& c, Model& m, int op, int k, int v, std::string& trace) {
  switch (op) {
    case 0:
      trace += " add" + std::to_string(k);
      A::Add(c, k, v);
      m.Add(k, v);
      break;
    case 1: {
      int got = 0, want = 0;
      int r = A::Get(c, k, &got);
      if (r == -2) break;
      trace += " get" + std::to_string(k);
      bool w = m.Get(k, &want);
      vh::Evals(1);
      if (r == -1) vh::Violation("wrong-error", "a failed look-up did not report no_such_element after" + trace);
      VH_CHECK((r == 1) == w, "lookup", "look-up of " << k << (w ? " failed" : " succeeded") << " after" << trace);
      if (r == 1 && w) VH_CHECK(got == want, "value", "look-up of " << k << " gave " << got << " not " << want << " after" << trace);
      vh::Add(w ? "lookups_found" : "lookups_missed");
      break;
    }
    case 2:
      if (A::Delete(c, k)) {
        trace += " del" + std::to_string(k);
        m.Delete(k);
      }
      break;
  }
}

template <typename K, typename A>
void Random(vh::Case& c) {
  int universe = static_cast<int>(c.rng.Range(1, 12));
  uint64_t cap = c.rng.OneIn(12) ? 0 : static_cast<uint64_t>(c.rng.Range(1, 8));
  long long ttl = 0;
  switch (c.rng.Below(4)) {
    case 0: ttl = 0; break;
    case 1: ttl = c.rng.Range(1, 5); break;
    case 2: ttl = c.rng.Range(5, 1000); break;
    default: ttl = c.rng.OneIn(4) ? std::numeric_limits<Duration::rep>::max() : 1000000000000LL; break;
  }
  int ctor = static_cast<int>(c.rng.Below(3));
  std::unique_ptr<typename A::Cache> cache;
  if (ctor == 0) {
    ttl = 0;
    cache.reset(new typename A::Cache(static_cast<size_t>(cap)));
  } else if (ctor == 1) {
    cap = std::numeric_limits<size_t>::max();
    cache.reset(new typename A::Cache(Duration(ttl)));
  } else {
    cache.reset(new typename A::Cache(static_cast<size_t>(cap), Duration(ttl)));
  }
  Model m{cap, ttl, {}};
  g_now = 1000000000LL + static_cast<long long>(c.rng.Below(1000));
  std::string trace = " cap=" + std::to_string(cap) + " ttl=" + std::to_string(ttl);
  uint64_t n = 1 + c.rng.Below(c.thorough ? 200 : 60);
  for (uint64_t i = 0; i < n; ++i) {
    if (c.rng.OneIn(3)) {
      long long d = ttl > 0 && ttl < 2000 ? c.rng.Range(0, ttl + 1) : c.rng.Range(0, 50);
      if (c.rng.OneIn(4) && ttl > 0 && ttl < 2000) d = ttl + c.rng.Range(-1, 1);
      g_now += d;
      trace += " +" + std::to_string(d);
    }
    int op = c.rng.Below(5) < 3 ? 0 : static_cast<int>(1 + c.rng.Below(2));
    Step<K, A>(*cache, m, op, static_cast<int>(c.rng.Below(universe)), static_cast<int>(i), trace);
    Compare<K, A>(*cache, m, universe, trace);
  }
  // drain by overflow: the order of eviction shows the whole usage list
  if (cap && cap < 100) {
    for (uint64_t i = 0; i < cap + 2; ++i) {
      Step<K, A>(*cache, m, 0, universe + static_cast<int>(i), 0, trace);
      Compare<K, A>(*cache, m, universe + static_cast<int>(cap) + 2, trace);
    }
  }
  vh::Add("evictions", m.evicted);
  vh::Add("expired", m.aged);
  if (cap == 0) vh::Add("zero_capacity");
  vh::Observed(vh::HashStr(trace));
  if (c.index < 3) vh::Sample(trace.substr(0, 200));
}
}  // namespace

VH_GROUP(random_int, 6000, 200000) { Random<int, MapCache<int>>(c); }
VH_GROUP(random_string, 6000, 200000) { Random<std::string, MapCache<std::string>>(c); }
VH_GROUP(random_ordered, 6000, 200000) { Random<OrderedKey, MapCache<OrderedKey>>(c); }
VH_GROUP(random_filter, 6000, 200000) { Random<int, FilterCache<int>>(c); }
VH_GROUP(random_filter_string, 4000, 100000) { Random<std::string, FilterCache<std::string>>(c); }

// Every sequence of five (six) operations over three keys, for capacities up to three, with and without a time to live.
VH_GROUP(enumerated, 729, 6561) {
  // the case fixes the first three (four) operations, the rest is enumerated
  const int fixed = c.thorough ? 4 : 3, rest = c.thorough ? 3 : 2;
  int total = 1;
  for (int i = 0; i < rest; ++i) total *= 9;
  for (uint64_t cap = 0; cap <= 3; ++cap)
    for (long long ttl = 0; ttl <= 2; ++ttl)
      for (int t = 0; t < total; ++t) {
        maidsafe::LruCache<int, Value> cache(static_cast<size_t>(cap), Duration(ttl));
        Model m{cap, ttl, {}};
        g_now = 1000000000LL;
        std::string trace = " cap=" + std::to_string(cap) + " ttl=" + std::to_string(ttl);
        uint64_t x = c.index;
        int y = t;
        for (int i = 0; i < fixed + rest; ++i) {
          int o;
          if (i < fixed) {
            o = static_cast<int>(x % 9);
            x /= 9;
          } else {
            o = y % 9;
            y /= 9;
          }
          Step<int, MapCache<int>>(cache, m, o / 3, o % 3, i, trace);
          g_now += 1;
        }
        Compare<int, MapCache<int>>(cache, m, 3, trace);
        vh::Add("short_sequences");
        vh::Observed(vh::HashStr(trace));
      }
}
