// C09: one client of the data buffer against a model.
#include "buffer_util.h"
using namespace bu;  // NOLINT

namespace {
std::atomic<int> g_dirs{0};
fs::path FreshDir() { return fs::path(vh::Scratch()) / ("buf" + std::to_string(++g_dirs)); }

struct Live {
  uint32_t serial;
  Bytes value;
};

class World {
 public:
  World(uint64_t mem, uint64_t disk, bool pop) : mem_(mem), disk_(disk), pop_(pop), dir_(FreshDir()) {
    trace = "mem=" + std::to_string(mem) + " disk=" + std::to_string(disk) + (pop ? " pop" : " block");
    DataBuffer::PopFunctor f;
    if (pop) f = [this](const Key& k, const NonEmptyString& v) { OnPop(k, v); };
    buffer.reset(new DataBuffer(MemoryUsage(mem), DiskUsage(disk), f, dir_, true));
  }
  ~World() {
    buffer.reset();
    boost::system::error_code e;
    VH_CHECK(!fs::exists(dir_, e), "directory-left", trace);
    fs::remove_all(dir_, e);
  }
  void OnPop(const Key& k, const NonEmptyString& v) {
    Popped p{k, v.string(), 0, false};
    std::map<std::string, uint64_t> files;
    p.left = DirSize(dir_, &files);
    p.file_there = files.count(FileOf(k)) != 0;
    std::lock_guard<std::mutex> l(mutex_);
    popped_.push_back(p);
  }
  std::vector<Popped> TakePopped() {
    std::lock_guard<std::mutex> l(mutex_);
    std::vector<Popped> r;
    r.swap(popped_);
    return r;
  }
  std::set<std::string> Files(uint64_t* bytes = nullptr) {
    std::map<std::string, uint64_t> f;
    uint64_t b = DirSize(dir_, &f);
    if (bytes) *bytes = b;
    std::set<std::string> r;
    for (auto& x : f) r.insert(x.first);
    return r;
  }
  uint64_t mem_, disk_;
  bool pop_;
  fs::path dir_;
  std::unique_ptr<DataBuffer> buffer;
  std::string trace;

 private:
  std::mutex mutex_;
  std::vector<Popped> popped_;
};

std::string GetOutcome(DataBuffer& b, int k, Bytes* v) {
  return vh::Outcome([&] { *v = b.Get(MakeKey(k)).string(); });
}
}  // namespace

// Every operation is allowed to settle, so what is on disk, what is popped and when is known exactly.
VH_GROUP(settled, 700, 30000) {
  auto& r = c.rng;
  bool pop = r.Coin();
  uint64_t unit = 1 + r.Below(40);
  uint64_t disk = unit * (2 + r.Below(10)) + r.Below(5), mem = r.OneIn(6) ? 0 : r.OneIn(6) ? disk : r.Below(disk + 1);
  World w(mem, disk, pop);
  std::map<int, Live> live;                  // stored and neither deleted nor popped
  std::vector<std::pair<int, uint64_t>> on;  // on disk, oldest first
  std::map<int, Live> gone;                  // popped
  uint64_t used = 0;
  uint32_t serial = 0;
  const int universe = 9;
  auto erase = [&](int k) {
    auto it = live.find(k);
    if (it != live.end()) {
      used -= it->second.value.size();
      live.erase(it);
    }
    for (size_t i = 0; i < on.size(); ++i)
      if (on[i].first == k) on.erase(on.begin() + static_cast<ptrdiff_t>(i--));
    gone.erase(k);
  };
  auto settle = [&](const std::vector<std::pair<int, Live>>& expect) {
    std::set<std::string> want;
    for (auto& x : on) want.insert(FileOf(MakeKey(x.first)));
    bool ok = Eventually([&] { uint64_t b; return w.Files(&b) == want && b == used; });
    uint64_t b;
    auto have = w.Files(&b);
    VH_CHECK(ok, have.size() > want.size() ? "file-left" : have == want ? "bytes-on-disk" : "not-copied-to-disk",
             w.trace << " | files " << have.size() << " of " << want.size() << ", bytes " << b << " of " << used);
    VH_CHECK(b <= w.disk_ || used > w.disk_, "disk-limit", w.trace << " | " << b);
    auto pops = w.TakePopped();
    VH_CHECK(pops.size() == expect.size(), pops.size() > expect.size() ? "popped-without-need" : "not-popped", w.trace << " | popped " << pops.size() << " of " << expect.size());
    for (size_t i = 0; i < pops.size() && i < expect.size(); ++i) {
      VH_CHECK(pops[i].key == MakeKey(expect[i].first), "popped-not-oldest", w.trace << " | expected key " << expect[i].first);
      VH_CHECK(pops[i].value == expect[i].second.value, "popped-value", w.trace << " | key " << expect[i].first);
      VH_CHECK(!pops[i].file_there, "popped-file-left", w.trace);
      vh::Add("popped");
    }
    return ok;
  };
  auto check = [&](int k) {
    Bytes v;
    auto o = GetOutcome(*w.buffer, k, &v);
    auto it = live.find(k);
    if (it != live.end()) {
      VH_CHECK(o.empty(), "stored-value-lost", w.trace << " | get" << k << " " << o);
      VH_CHECK(!o.empty() || v == it->second.value, "stored-value-wrong", w.trace << " | get" << k << " " << v.size() << " bytes of " << it->second.value.size());
    } else if (gone.count(k)) {
      VH_CHECK(o == "lib" || (o.empty() && v == gone[k].value), "popped-key-read", w.trace << " | get" << k << " " << o);
    } else {
      VH_CHECK(o == "lib", "absent-key-read", w.trace << " | get" << k << " " << o);
    }
  };
  int steps = 6 + static_cast<int>(r.Below(c.thorough ? 40 : 22));
  bool ok = true;
  for (int i = 0; i < steps && ok; ++i) {
    vh::Beat();
    int k = static_cast<int>(r.Below(universe));
    int op = static_cast<int>(r.Below(20));
    if (op < 10) {
      uint64_t size = r.OneIn(8) ? w.disk_ + r.Below(3) : r.OneIn(6) ? 1 + r.Below(w.disk_) : 1 + r.Below(2 * unit);
      if (size == 0) size = 1;
      bool fits = size <= w.disk_;
      uint64_t replaced = live.count(k) ? live[k].value.size() : 0;
      if (!pop && fits && used - replaced + size > w.disk_) continue;  // it would block: see the group 'blocked'
      erase(k);
      w.trace += " store" + std::to_string(k) + ":" + std::to_string(size);
      Live l{++serial, MakeValue(k, serial, size)};
      auto o = vh::OutcomeCode([&] { w.buffer->Store(MakeKey(k), NonEmptyString(l.value)); });
      std::vector<std::pair<int, Live>> expect;
      if (fits) {
        VH_CHECK(o.empty(), "store-refused", w.trace << " " << o);
        while (used + size > w.disk_ && !on.empty()) {
          int old = on.front().first;
          expect.push_back({old, live[old]});
          Live g = live[old];
          erase(old);
          gone[old] = g;
        }
        live[k] = l;
        on.push_back({k, size});
        used += size;
        Bytes v;
        auto g = GetOutcome(*w.buffer, k, &v);  // at once, wherever it is
        VH_CHECK(g.empty() && v == l.value, "stored-value-lost", w.trace << " at once " << g);
        vh::Add("stores");
      } else {
        VH_CHECK(o == vh::Code(maidsafe::CommonErrors::cannot_exceed_limit), "oversized-store", w.trace << " " << o);
        vh::Add("oversized");
      }
      ok = settle(expect);
    } else if (op < 13) {
      w.trace += " del" + std::to_string(k);
      bool was = live.count(k) != 0, popped = gone.count(k) != 0;
      auto o = vh::OutcomeCode([&] { w.buffer->Delete(MakeKey(k)); });
      if (was) VH_CHECK(o.empty(), "delete-refused", w.trace << " " << o);
      else if (!popped) VH_CHECK(o == vh::Code(maidsafe::CommonErrors::no_such_element), "delete-of-absent", w.trace << " " << o);
      erase(k);
      ok = settle({});
      vh::Add("deletes");
    } else if (op < 15) {
      uint64_t mask = r.Below(512);
      w.trace += " delif" + std::to_string(mask);
      auto o = vh::Outcome([&] {
        w.buffer->Delete([&](const Key& x) {
          for (int j = 0; j < universe; ++j) if ((mask >> j & 1) && x == MakeKey(j)) return true;
          return false;
        });
      });
      VH_CHECK(o.empty(), "delete-refused", w.trace << " " << o);
      for (int j = 0; j < universe; ++j) if (mask >> j & 1) erase(j);
      ok = settle({});
      vh::Add("predicate_deletes");
    } else if (op < 17) {
      uint64_t m = r.Coin() ? r.Below(w.disk_ + 1) : w.disk_ + r.Below(3);
      w.trace += " mem=" + std::to_string(m);
      auto o = vh::OutcomeCode([&] { w.buffer->SetMaxMemoryUsage(MemoryUsage(m)); });
      if (m <= w.disk_) { VH_CHECK(o.empty(), "limit-refused", w.trace << " " << o); w.mem_ = m; }
      else { VH_CHECK(o == vh::Code(maidsafe::CommonErrors::invalid_argument), "limit-accepted", w.trace << " " << o); vh::Add("limits_refused"); }
    } else if (op < 18) {
      uint64_t d = r.Below(2 * w.disk_ + 2);
      w.trace += " disk=" + std::to_string(d);
      auto o = vh::OutcomeCode([&] { w.buffer->SetMaxDiskUsage(DiskUsage(d)); });
      if (d >= w.mem_) { VH_CHECK(o.empty(), "limit-refused", w.trace << " " << o); w.disk_ = d; }
      else { VH_CHECK(o == vh::Code(maidsafe::CommonErrors::invalid_argument), "limit-accepted", w.trace << " " << o); vh::Add("limits_refused"); }
    } else {
      check(k);
    }
    for (int j = 0; j < universe; ++j) check(j);
  }
  // Everything deleted, the whole disk is free again.
  if (ok) {
    w.buffer->Delete([](const Key&) { return true; });
    live.clear(); on.clear(); gone.clear(); used = 0;
    ok = settle({});
    if (ok && w.disk_ >= 2) {
      uint64_t half = w.disk_ / 2;
      w.trace += " refill";
      Bytes a = MakeValue(0, 1, half), b = MakeValue(1, 1, w.disk_ - half);
      w.buffer->Store(MakeKey(0), NonEmptyString(a));
      w.buffer->Store(MakeKey(1), NonEmptyString(b));  // blocks for ever if any space was lost
      on = {{0, a.size()}, {1, b.size()}};
      live[0] = {1, a};
      live[1] = {1, b};
      used = w.disk_;
      settle({});
      check(0);
      check(1);
    }
  }
  vh::Observed(vh::HashStr(w.trace));
  if (c.index < 2) vh::Sample(w.trace);
}

// A full disk and no pop functor: a store waits until the client makes room, cancels it or replaces it.
VH_GROUP(blocked, 500, 20000) {
  auto& r = c.rng;
  uint64_t disk = 20 + r.Below(100), mem = r.OneIn(4) ? 0 : 1 + r.Below(disk / 2);
  World w(mem, disk, false);
  std::map<int, Bytes> live;
  uint64_t used = 0;
  uint32_t serial = 0;
  auto store = [&](int k, uint64_t size) {
    auto v = MakeValue(k, ++serial, size);
    w.trace += " store" + std::to_string(k) + ":" + std::to_string(size);
    live[k] = v;
    return v;
  };
  // fill the disk
  int n = 2 + static_cast<int>(r.Below(4));
  for (int k = 0; k < n; ++k) {
    uint64_t size = k == n - 1 ? disk - used : std::max<uint64_t>(1, disk / static_cast<uint64_t>(n));
    auto v = store(k, size);
    w.buffer->Store(MakeKey(k), NonEmptyString(v));
    used += size;
  }
  auto all_files = [&] {
    std::set<std::string> want;
    for (auto& x : live) want.insert(FileOf(MakeKey(x.first)));
    return want;
  };
  VH_CHECK(Eventually([&] { return w.Files() == all_files(); }), "not-copied-to-disk", w.trace);
  // more than fits, some of it in memory, some of it blocked
  std::vector<std::future<std::string>> waiting;
  int extra = 1 + static_cast<int>(r.Below(3));
  for (int k = 10; k < 10 + extra; ++k) {
    auto v = store(k, 1 + r.Below(std::min<uint64_t>(disk, r.Coin() ? std::max<uint64_t>(1, mem) : disk)));
    waiting.push_back(std::async(std::launch::async, [&w, k, v] { return vh::Outcome([&] { w.buffer->Store(MakeKey(k), NonEmptyString(v)); }); }));
    // it can be read while it waits, or once it is there
    bool seen = Eventually([&] { Bytes x; return GetOutcome(*w.buffer, k, &x).empty(); }, r.OneIn(4) ? 1 : 300);
    Bytes x;
    auto o = GetOutcome(*w.buffer, k, &x);
    if (o.empty()) VH_CHECK(x == v, "stored-value-wrong", w.trace << " | get" << k);
    if (seen) vh::Add("read_while_waiting");
  }
  uint64_t have;
  w.Files(&have);
  VH_CHECK(have <= disk, "disk-limit", w.trace << " | " << have);
  // some of the waiting values are deleted or replaced before there is room
  for (int k = 10; k < 10 + extra; ++k) {
    int what = static_cast<int>(r.Below(5));
    if (what < 3) continue;
    // only once its store has begun for certain: otherwise which of the two comes first is not known
    Bytes x;
    if (!Eventually([&] { return GetOutcome(*w.buffer, k, &x).empty(); }, 200)) continue;
    w.trace += " del" + std::to_string(k);
    auto o = vh::Outcome([&] {
      if (r.Coin()) w.buffer->Delete(MakeKey(k));
      else w.buffer->Delete([&](const Key& y) { return y == MakeKey(k); });
    });
    VH_CHECK(o.empty(), "delete-refused", w.trace << " " << o);
    live.erase(k);
    VH_CHECK(GetOutcome(*w.buffer, k, &x) == "lib", "deleted-value-read", w.trace);
    vh::Add("cancelled");
    if (what == 4) {
      auto v = store(k, 1 + r.Below(disk / 4));
      waiting.push_back(std::async(std::launch::async, [&w, k, v] { return vh::Outcome([&] { w.buffer->Store(MakeKey(k), NonEmptyString(v)); }); }));
      Bytes y;
      if (Eventually([&] { return GetOutcome(*w.buffer, k, &y).empty(); }, 100)) VH_CHECK(y == v, "replaced-value-wrong", w.trace);
      vh::Add("replaced");
    }
  }
  // room is made
  bool raised = r.OneIn(3);
  if (raised) {
    uint64_t need = 0;
    for (auto& x : live) need += x.second.size();
    w.disk_ = std::max(disk, need);
    w.trace += " disk=" + std::to_string(w.disk_);
    w.buffer->SetMaxDiskUsage(DiskUsage(w.disk_));
  } else {
    int way = static_cast<int>(r.Below(2));
    if (way == 0) {
      w.trace += " delif-old";
      w.buffer->Delete([&](const Key& y) { for (int k = 0; k < n; ++k) if (y == MakeKey(k)) return true; return false; });
    }
    for (int k = 0; k < n; ++k) {
      if (way) {
        w.trace += " del" + std::to_string(k);
        auto o = vh::Outcome([&] { w.buffer->Delete(MakeKey(k)); });
        VH_CHECK(o.empty(), "delete-refused", w.trace << " " << o);
      }
      live.erase(k);
    }
    // what still waits may itself be too much for the disk
    uint64_t need = 0;
    for (auto& x : live) need += x.second.size();
    if (need > disk) w.buffer->SetMaxDiskUsage(DiskUsage(w.disk_ = need));
  }
  vh::Beat();
  for (auto& f : waiting) {
    auto o = f.get();  // a store which never continues is seen as a hang of this case
    VH_CHECK(o.empty(), "blocked-store-failed", w.trace << " " << o);
  }
  bool ok = Eventually([&] { return w.Files() == all_files(); });
  VH_CHECK(ok, w.Files().size() > live.size() ? "file-left" : "not-copied-to-disk", w.trace << " | files " << w.Files().size() << " of " << live.size());
  for (int k = 0; k < 14; ++k) {
    Bytes x;
    auto o = GetOutcome(*w.buffer, k, &x);
    if (live.count(k)) VH_CHECK(o.empty() && x == live[k], o.empty() ? "stored-value-wrong" : "stored-value-lost", w.trace << " | get" << k << " " << o);
    else VH_CHECK(o == "lib", "absent-key-read", w.trace << " | get" << k);
  }
  w.Files(&have);
  VH_CHECK(have <= w.disk_, "disk-limit", w.trace << " | " << have);
  // nothing is left over: all of the disk can be used
  vh::Beat();
  w.buffer->Delete([](const Key&) { return true; });
  VH_CHECK(Eventually([&] { return w.Files().empty(); }), "file-left", w.trace);
  auto v = MakeValue(20, 1, w.disk_);
  w.trace += " refill";
  w.buffer->Store(MakeKey(20), NonEmptyString(v));
  Bytes x;
  VH_CHECK(GetOutcome(*w.buffer, 20, &x).empty() && x == v, "stored-value-lost", w.trace);
  vh::Add("blocked_histories");
  vh::Observed(vh::HashStr(w.trace));
}

// No waiting between operations; popping.  What is popped is known only in part.
VH_GROUP(unsettled, 600, 30000) {
  auto& r = c.rng;
  uint64_t disk = 30 + r.Below(200), mem = r.Below(disk + 1);
  std::map<int, Live> live, gone;
  const int universe = 12;
  std::vector<std::pair<int, Live>> order;  // stores that go through memory, oldest first
  size_t last = 0;
  uint64_t biggest = 0;
  World w(mem, disk, true);
  uint32_t serial = 0;
  std::map<Bytes, std::pair<int, size_t>> known;
  std::set<Bytes> seen;
  auto absorb = [&] {
    for (auto& p : w.TakePopped()) {
      auto it = known.find(p.value);
      VH_CHECK(it != known.end() && MakeKey(it->second.first) == p.key, "popped-value", w.trace);
      if (it == known.end()) continue;
      VH_CHECK(seen.insert(p.value).second, "popped-twice", w.trace);
      VH_CHECK(p.left + p.value.size() + biggest > disk, "popped-without-need", w.trace << " | left " << p.left);
      VH_CHECK(p.left <= disk, "disk-limit", w.trace << " | left " << p.left);
      VH_CHECK(!p.file_there, "popped-file-left", w.trace);
      if (it->second.second) {
        VH_CHECK(it->second.second > last, "popped-not-oldest", w.trace << " | " << it->second.second << " after " << last);
        last = it->second.second;
      }
      int k = it->second.first;
      if (live.count(k) && live[k].value == p.value) {
        gone[k] = live[k];
        live.erase(k);
      } else if (!gone.count(k)) {
        gone[k] = Live{0, p.value};  // popped before it was deleted or replaced
      }
      vh::Add("popped");
    }
  };
  int steps = 20 + static_cast<int>(r.Below(c.thorough ? 200 : 60));
  for (int i = 0; i < steps; ++i) {
    int k = static_cast<int>(r.Below(universe));
    int op = static_cast<int>(r.Below(10));
    if (op < 6) {
      uint64_t size = r.OneIn(6) ? 1 + r.Below(disk) : 1 + r.Below(disk / 5);
      Live l{++serial, MakeValue(k, serial, std::max<uint64_t>(size, 9))};
      if (l.value.size() > disk) continue;
      size = l.value.size();
      biggest = std::max(biggest, size);
      known[l.value] = std::make_pair(k, size <= mem ? serial : 0);
      w.trace += " store" + std::to_string(k) + ":" + std::to_string(size);
      auto o = vh::Outcome([&] { w.buffer->Store(MakeKey(k), NonEmptyString(l.value)); });
      VH_CHECK(o.empty(), "store-refused", w.trace << " " << o);
      gone.erase(k);
      live[k] = l;
    } else if (op < 7) {
      w.trace += " del" + std::to_string(k);
      auto o = vh::Outcome([&] { w.buffer->Delete(MakeKey(k)); });
      absorb();
      if (live.count(k)) VH_CHECK(o.empty(), "delete-refused", w.trace << " " << o);
      live.erase(k);
      gone.erase(k);
      Bytes x;
      VH_CHECK(GetOutcome(*w.buffer, k, &x) == "lib", "deleted-value-read", w.trace);
    } else if (op < 8 && r.OneIn(3)) {
      w.trace += " delif";
      w.buffer->Delete([&](const Key& y) { return y.type_id.data % 3 == 1; });
      absorb();
      for (int j = 0; j < universe; ++j)
        if (MakeKey(j).type_id.data % 3 == 1) {
          live.erase(j);
          gone.erase(j);
          Bytes x;
          VH_CHECK(GetOutcome(*w.buffer, j, &x) == "lib", "deleted-value-read", w.trace);
        }
    } else {
      Bytes x;
      auto o = GetOutcome(*w.buffer, k, &x);
      absorb();
      if (live.count(k)) VH_CHECK(o.empty() && x == live[k].value, o.empty() ? "stored-value-wrong" : "stored-value-lost", w.trace << " | get" << k << " " << o);
      else if (gone.count(k)) VH_CHECK(o == "lib" || x == gone[k].value || known.count(x), "popped-key-read", w.trace << " | get" << k);
      else VH_CHECK(o == "lib", "absent-key-read", w.trace << " | get" << k);
    }
  }
  uint64_t bytes = 0;
  auto want = [&] {
    absorb();
    std::set<std::string> s;
    for (auto& x : live) s.insert(FileOf(MakeKey(x.first)));
    return s;
  };
  bool ok = Eventually([&] { auto h = w.Files(&bytes); return h == want(); });
  auto h = w.Files(&bytes);
  VH_CHECK(ok, h.size() > want().size() ? "file-left" : "not-copied-to-disk", w.trace << " | files " << h.size() << " of " << want().size());
  VH_CHECK(bytes <= disk, "disk-limit", w.trace << " | " << bytes);
  for (auto& l : live) {
    Bytes x;
    auto o = GetOutcome(*w.buffer, l.first, &x);
    VH_CHECK(o.empty() && x == l.second.value, o.empty() ? "stored-value-wrong" : "stored-value-lost", w.trace << " | at the end get" << l.first << " " << o);
  }
  vh::Add("unsettled_histories");
  vh::Observed(vh::HashStr(w.trace));
}

// Construction, the directory, and its removal.
VH_GROUP(directories, 200, 2000) {
  auto& r = c.rng;
  uint64_t a = r.Below(100), b = r.Below(100);
  auto dir = FreshDir();
  auto o = vh::OutcomeCode([&] { DataBuffer x(MemoryUsage(a), DiskUsage(b), nullptr, dir); });
  if (a > b) VH_CHECK(o == vh::Code(maidsafe::CommonErrors::invalid_argument), "limits-at-construction", a << " " << b << " " << o);
  else VH_CHECK(o.empty() && fs::is_directory(dir) && fs::is_empty(dir), "construction", a << " " << b << " " << o);
  fs::remove_all(dir);
  // a path that cannot be a directory
  auto file = FreshDir();
  maidsafe::WriteFile(file, Bytes(1, 'x'));
  for (auto& p : {file, file / "below"}) {
    o = vh::OutcomeCode([&] { DataBuffer x(MemoryUsage(1), DiskUsage(2), nullptr, p); });
    VH_CHECK(o == vh::Code(maidsafe::CommonErrors::uninitialised), "unusable-directory", o);
  }
  VH_CHECK(fs::file_size(file) == 1, "unusable-directory-altered", "");
  // kept or removed
  for (int owned = 0; owned < 2; ++owned) {
    auto d = FreshDir() / "deep" / "er";
    Bytes v = MakeValue(1, 1, 10);
    {
      DataBuffer x(MemoryUsage(a), DiskUsage(a + 20), nullptr, d, owned != 0);
      x.Store(MakeKey(1), NonEmptyString(v));
      VH_CHECK(Eventually([&] { return fs::exists(d / FileOf(MakeKey(1))) && fs::file_size(d / FileOf(MakeKey(1))) == 10; }), "not-copied-to-disk", "");
    }
    if (owned) {
      VH_CHECK(!fs::exists(d), "directory-left", "");
    } else {
      auto got = maidsafe::ReadFile(d / FileOf(MakeKey(1)));
      VH_CHECK(got && *got == v, "directory-not-kept", "");
    }
    fs::remove_all(d.parent_path().parent_path());
  }
  {  // one of its own
    std::set<fs::path> before, during, after;
    auto tmp = fs::temp_directory_path();
    auto list = [&](std::set<fs::path>& s) { for (fs::directory_iterator it(tmp), end; it != end; ++it) if (it->path().filename().string().substr(0, 3) == "DB-") s.insert(it->path()); };
    list(before);
    {
      DataBuffer x(MemoryUsage(a), DiskUsage(a + 20), nullptr);
      x.Store(MakeKey(1), NonEmptyString(MakeValue(1, 1, 10)));
      list(during);
      VH_CHECK(during.size() == before.size() + 1, "own-directory", during.size() << " " << before.size());
      if (r.Coin()) Eventually([&] { for (auto& p : during) if (!before.count(p) && fs::exists(p / FileOf(MakeKey(1)))) return true; return false; });
    }
    list(after);
    VH_CHECK(after == before, "own-directory-left", after.size());
  }
  fs::remove(file);
  vh::Observed(vh::Mix(a * 1000 + b));
  vh::Add("constructions");
}

// The directory becomes unusable: errors, no hang, no crash.
VH_GROUP(faults, 120, 3000) {
  auto& r = c.rng;
  auto dir = FreshDir();
  uint64_t disk = 100, mem = r.Below(60);
  std::unique_ptr<DataBuffer> b(new DataBuffer(MemoryUsage(mem), DiskUsage(disk), r.Coin() ? DataBuffer::PopFunctor([](const Key&, const NonEmptyString&) {}) : nullptr, dir, true));
  std::map<int, Bytes> live;
  int before = static_cast<int>(r.Below(4));
  for (int k = 0; k < before; ++k) {
    live[k] = MakeValue(k, 1, 10);
    b->Store(MakeKey(k), NonEmptyString(live[k]));
  }
  if (r.Coin()) Eventually([&] { return fs::exists(dir / FileOf(MakeKey(0))); }, before ? 1000 : 1);
  boost::system::error_code e;
  // the worker may put a file there meanwhile
  VH_CHECK(Eventually([&] { boost::system::error_code x; fs::remove_all(dir, x); return !fs::exists(dir, x); }), "harness-dir", "");
  if (r.Coin()) maidsafe::WriteFile(dir, Bytes(3, 'x'));
  bool failed = false;
  for (int i = 0; i < 40 && !failed; ++i) {
    vh::Beat();
    int k = static_cast<int>(r.Below(8));
    auto v = MakeValue(k, 2 + static_cast<uint32_t>(i), 1 + r.Below(20));
    auto o = vh::Outcome([&] {
      if (r.Coin()) b->Store(MakeKey(k), NonEmptyString(v));
      else b->Get(MakeKey(k));
    });
    VH_CHECK(o.empty() || o == "lib", "fault-raises", o);
    if (i > 10) {
      auto s = vh::Outcome([&] { b->Store(MakeKey(9), NonEmptyString(MakeValue(9, static_cast<uint32_t>(i), mem + 1))); });
      failed = s == "lib";
      VH_CHECK(failed, "fault-unreported", s);
    }
  }
  // once the worker has failed every operation says so
  vh::Add("faults");
  vh::Beat();
  b.reset();
  fs::remove_all(dir, e);
  vh::Observed(vh::Mix(mem * 10 + static_cast<uint64_t>(before)));
}
