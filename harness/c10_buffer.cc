// C10: many clients of one data buffer, its worker, and its destruction.
#include "buffer_util.h"
#include <thread>
using namespace bu;  // NOLINT

namespace {
std::atomic<int> g_dirs{0};
enum Kind { kStore, kDelete, kGet };
struct Op {
  Kind kind;
  int key;
  uint64_t b, e;
  uint64_t value;  // hash: stored or read
  bool ok;
};
struct Pop { Key key; uint64_t value, b, e; };

struct History {
  std::atomic<uint64_t> clock{1};
  uint64_t Tick() { return clock.fetch_add(1, std::memory_order_relaxed); }
  std::vector<std::vector<Op>> per_thread;
  std::vector<Op> ops;
  std::vector<Pop> pops;
};
uint64_t H(const Bytes& v) { return vh::HashBytes(v.data(), v.size()) | 1; }

// Every read, deletion and pop is explained by what was stored and what could have removed it.
void Judge(History& h, int universe, const std::string& trace) {
  for (auto& t : h.per_thread) for (auto& o : t) h.ops.push_back(o);
  std::map<uint64_t, const Op*> stores;
  std::vector<std::vector<const Op*>> writers(static_cast<size_t>(universe));
  for (auto& o : h.ops) {
    if (o.kind == kStore) stores[o.value] = &o;
    if (o.kind != kGet) writers[static_cast<size_t>(o.key)].push_back(&o);
  }
  std::map<uint64_t, const Pop*> popped;
  for (auto& p : h.pops) {
    vh::Add("popped");
    auto it = stores.find(p.value);
    VH_CHECK(it != stores.end() && MakeKey(it->second->key) == p.key, "popped-value", trace);
    if (it == stores.end()) continue;
    VH_CHECK(popped.emplace(p.value, &p).second, "popped-twice", trace << " | key " << it->second->key);
    VH_CHECK(it->second->b < p.e, "popped-before-stored", trace);
    for (auto w : writers[static_cast<size_t>(it->second->key)])
      VH_CHECK(!(w->b > it->second->e && w->e < p.b), "popped-after-removal", trace << " | key " << w->key);
  }
  auto removable = [&](const Op& s, uint64_t until) {  // could the value stored by s have gone by then?
    for (auto w : writers[static_cast<size_t>(s.key)]) if (w != &s && w->e > s.b && w->b < until) return true;
    auto p = popped.find(s.value);
    return p != popped.end() && p->second->b < until;
  };
  for (auto& o : h.ops) {
    if (o.kind == kStore) {
      VH_CHECK(o.ok, "store-refused", trace << " | key " << o.key);
      continue;
    }
    bool present = false;
    for (auto w : writers[static_cast<size_t>(o.key)])
      if (w != &o && w->kind == kStore && w->e < o.b && !removable(*w, o.e)) present = true;
    if (o.kind == kDelete) {
      // (the deletion itself is one of the writers, so it is left out of the question)
      bool certain = false;
      for (auto w : writers[static_cast<size_t>(o.key)]) {
        if (w->kind != kStore || w->e >= o.b) continue;
        bool gone = popped.count(w->value) && popped[w->value]->b < o.e;
        for (auto x : writers[static_cast<size_t>(o.key)]) if (x != w && x != &o && x->e > w->b && x->b < o.e) gone = true;
        if (!gone) certain = true;
      }
      VH_CHECK(o.ok || !certain, "delete-refused", trace << " | key " << o.key);
      continue;
    }
    if (!o.ok) {
      VH_CHECK(!present, "stored-value-lost", trace << " | key " << o.key << " at " << o.b << "-" << o.e);
      vh::Add("misses");
      continue;
    }
    auto it = stores.find(o.value);
    VH_CHECK(it != stores.end() && it->second->key == o.key, "value-torn-or-foreign", trace << " | key " << o.key);
    if (it == stores.end()) continue;
    VH_CHECK(it->second->b < o.e, "read-before-stored", trace);
    for (auto w : writers[static_cast<size_t>(o.key)])
      VH_CHECK(w == it->second || !(w->b > it->second->e && w->e < o.b), w->kind == kDelete ? "deleted-value-read" : "superseded-value-read", trace << " | key " << o.key << " at " << o.b);
    vh::Add("reads");
    if (it->second->e > o.b) vh::Add("read_during_store");
  }
}
}  // namespace

VH_GROUP(clients, 260, 12000) {
  auto& r = c.rng;
  bool pop = r.Coin();
  const int threads = 2 + static_cast<int>(r.Below(5)), universe = r.Coin() ? 3 : 9;
  const int per = 10 + static_cast<int>(r.Below(c.thorough ? 120 : 40));
  bool shared = r.Coin();  // else every key is stored and deleted by one thread only
  uint64_t disk = pop ? 40 + r.Below(80) : 60 + r.Below(200), mem = r.OneIn(5) ? 0 : r.Below(disk / 2), big = std::max<uint64_t>(10, disk / 4);
  auto dir = fs::path(vh::Scratch()) / ("cb" + std::to_string(++g_dirs));
  vh::SetDelays(r.Next(), r.OneIn(4) ? 0 : 1 + static_cast<unsigned>(r.Below(6)), static_cast<unsigned>(r.Below(120)));
  std::string trace = "threads=" + std::to_string(threads) + " keys=" + std::to_string(universe) + (shared ? " shared" : " owned") + (pop ? " pop" : " block") + " disk=" + std::to_string(disk) + " mem=" + std::to_string(mem);
  History h;
  h.per_thread.resize(static_cast<size_t>(threads) + 2);
  std::mutex pop_mutex;
  DataBuffer::PopFunctor f;
  if (pop) f = [&](const Key& k, const NonEmptyString& v) {
    Pop p{k, H(v.string()), h.Tick(), 0};
    p.e = h.Tick();
    std::lock_guard<std::mutex> l(pop_mutex);
    h.pops.push_back(p);
  };
  std::unique_ptr<DataBuffer> b(new DataBuffer(MemoryUsage(mem), DiskUsage(disk), f, dir, true));
  std::atomic<int> active{threads};
  std::atomic<bool> go{false};
  std::atomic<uint32_t> serial{0};
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads + 1; ++t) seeds.push_back(r.Next());
  auto get = [&](int k, std::vector<Op>& log) {
    Op o{kGet, k, h.Tick(), 0, 0, false};
    auto out = vh::Outcome([&] { Bytes v = b->Get(MakeKey(k)).string(); o.value = H(v); });
    o.e = h.Tick();
    o.ok = out.empty();
    VH_CHECK(out.empty() || out == "lib", "read-raises", trace << " " << out);
    log.push_back(o);
  };
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) th.emplace_back([&, t] {
    vh::Rng lr(seeds[static_cast<size_t>(t)]);
    auto& log = h.per_thread[static_cast<size_t>(t)];
    while (!go) std::this_thread::yield();
    for (int i = 0; i < per; ++i) {
      int k = static_cast<int>(lr.Below(static_cast<uint64_t>(universe)));
      int op = static_cast<int>(lr.Below(10));
      if (op < 7 && !shared && k % threads != t) op = 9;
      if (op < 5) {
        auto v = MakeValue(k, serial.fetch_add(1, std::memory_order_relaxed), 9 + lr.Below(lr.OneIn(5) ? std::max<uint64_t>(big, 9) - 8 : 20));
        if (v.size() > disk) v.resize(disk);
        Op o{kStore, k, h.Tick(), 0, H(v), false};
        auto out = vh::Outcome([&] { b->Store(MakeKey(k), NonEmptyString(v)); });
        o.e = h.Tick();
        o.ok = out.empty();
        log.push_back(o);
        vh::Add("stores");
      } else if (op < (pop ? 6 : 7)) {
        Op o{kDelete, k, h.Tick(), 0, 0, false};
        auto out = vh::Outcome([&] { b->Delete(MakeKey(k)); });
        o.e = h.Tick();
        o.ok = out.empty();
        VH_CHECK(out.empty() || out == "lib", "delete-raises", trace << " " << out);
        log.push_back(o);
      } else {
        get(k, log);
      }
    }
    --active;
  });
  // A caretaker which changes limits, deletes by predicate, and makes room while stores wait for it.
  th.emplace_back([&] {
    vh::Rng lr(seeds.back());
    auto& log = h.per_thread[static_cast<size_t>(threads)];
    while (!go) std::this_thread::yield();
    while (active > 0) {
      vh::Beat();
      int op = static_cast<int>(lr.Below(6));
      if (op == 0) {
        uint64_t m = lr.Below(disk / 2);
        auto o = vh::Outcome([&] { b->SetMaxMemoryUsage(MemoryUsage(m)); });
        VH_CHECK(o.empty(), "limit-refused", trace << " " << o);
      } else if (op == 1) {
        uint64_t d = disk + (lr.Coin() ? 0 : lr.Below(disk));
        auto o = vh::Outcome([&] { b->SetMaxDiskUsage(DiskUsage(d)); });
        VH_CHECK(o.empty(), "limit-refused", trace << " " << o);
      } else if (!pop || (op < 4 && lr.OneIn(6))) {
        std::set<int> which;
        for (int k = 0; k < universe; ++k) if (lr.OneIn(pop ? 4 : 2)) which.insert(k);
        uint64_t t0 = h.Tick();
        auto o = vh::Outcome([&] {
          b->Delete([&](const Key& x) {
            for (int k : which) if (x == MakeKey(k)) return true;
            return false;
          });
        });
        uint64_t t1 = h.Tick();
        VH_CHECK(o.empty(), "delete-refused", trace << " predicate " << o);
        for (int k : which) log.push_back(Op{kDelete, k, t0, t1, 0, true});
        vh::Add("predicate_deletes");
      } else {
        get(static_cast<int>(lr.Below(static_cast<uint64_t>(universe))), log);
      }
      if (lr.OneIn(2)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(400)));
    }
  });
  go = true;
  for (auto& t : th) t.join();  // a store which never continues is seen as a hang
  auto& last = h.per_thread.back();
  for (int k = 0; k < universe; ++k) get(k, last);
  if (r.OneIn(3)) {
    // Nothing may be left behind by values which took each other's place.
    for (int k = 0; k < universe; ++k) {
      Op o{kDelete, k, h.Tick(), 0, 0, false};
      o.ok = vh::Outcome([&] { b->Delete(MakeKey(k)); }).empty();
      o.e = h.Tick();
      last.push_back(o);
    }
    for (int k = 0; k < universe; ++k) get(k, last);
    VH_CHECK(Eventually([&] { return DirSize(dir) == 0; }), "file-left", trace << " | " << DirSize(dir) << " bytes after deleting every key");
    vh::Add("emptied");
  }
  b.reset();
  boost::system::error_code e;
  VH_CHECK(!fs::exists(dir, e), "directory-left", trace);
  Judge(h, universe, trace);
  uint64_t shape = vh::HashStr(trace);
  for (auto& o : h.ops) shape = vh::Mix(shape ^ (o.b * 31 + static_cast<uint64_t>(o.key) * 7 + static_cast<uint64_t>(o.kind)));
  vh::Observed(shape);
  vh::Add("histories");
  if (c.index == 0) vh::Sample(trace);
}

// The buffer is destroyed at any moment of its worker: copying, popping, waiting for room, idle.
VH_GROUP(shutdown, 200, 6000) {
  auto& r = c.rng;
  bool pop = r.OneIn(3);
  uint64_t disk = 30 + r.Below(100), mem = r.Below(disk + 1);
  auto dir = fs::path(vh::Scratch()) / ("cs" + std::to_string(++g_dirs));
  vh::SetDelays(r.Next(), 1 + static_cast<unsigned>(r.Below(4)), static_cast<unsigned>(r.Below(200)));
  std::atomic<int> pops{0};
  {
    DataBuffer b(MemoryUsage(mem), DiskUsage(disk), pop ? DataBuffer::PopFunctor([&](const Key&, const NonEmptyString&) { ++pops; }) : nullptr, dir, true);
    uint64_t in_memory = 0, on_disk = 0;
    int n = static_cast<int>(r.Below(20));
    for (int k = 0; k < n; ++k) {
      uint64_t size = 1 + r.Below(20);
      if (!pop) {
        if (size > mem || in_memory + size > mem) {
          if (on_disk + in_memory + size > disk) break;  // the client itself would wait
          on_disk += size;
        } else {
          in_memory += size;  // the worker may have to wait with this one
        }
      }
      b.Store(MakeKey(k), NonEmptyString(MakeValue(k, 1, size)));
    }
    for (int k = 0; k < n; ++k) if (r.OneIn(4)) vh::Outcome([&] { b.Delete(MakeKey(k)); });
    if (r.Coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(1500)));
  }
  boost::system::error_code e;
  VH_CHECK(!fs::exists(dir, e), "directory-left", "");
  vh::Observed(vh::Mix(disk * 1000 + mem * 10 + (pop ? 1 : 0) + static_cast<uint64_t>(pops.load()) * 777777));
  vh::Add("shutdowns");
}
