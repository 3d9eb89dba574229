#include "maidsafe/common/safe_queue.h"
#include <memory>
#include "vh.h"
namespace {
void Spin(uint64_t n) { for (volatile uint64_t i = 0; i < n; ++i) {} }
enum Kind { kPush, kTry, kWait, kSize, kEmpty };
struct Op { Kind k; int64_t in, out; bool ok; uint64_t b, e; int th; };
// Is the history explainable by one FIFO queue?  Depth-first over linearisations with memoisation of
// (set of done operations, number of pops) -- values are unique, so the content is determined by the
// order of the pushes already linearised; the memo key therefore holds the content itself.
struct Lin {
  const std::vector<Op>& ops;
  std::set<std::pair<uint64_t, std::vector<int64_t>>> seen;
  uint64_t steps = 0;
  explicit Lin(const std::vector<Op>& o) : ops(o) {}
  bool Go(uint64_t done, std::vector<int64_t>& q, size_t head) {
    if (done == (ops.size() == 64 ? ~0ULL : (1ULL << ops.size()) - 1)) return true;
    if (!seen.insert({done, std::vector<int64_t>(q.begin() + head, q.end())}).second) return false;
    if (++steps > 400000) return true;  // gives no verdict; counted by the caller
    uint64_t min_end = ~0ULL;
    for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) min_end = std::min(min_end, ops[i].e);
    for (size_t i = 0; i < ops.size(); ++i) {
      if (done >> i & 1 || ops[i].b > min_end) continue;
      const Op& o = ops[i];
      size_t n = q.size() - head;
      switch (o.k) {
        case kPush: q.push_back(o.in); if (Go(done | 1ULL << i, q, head)) return true; q.pop_back(); break;
        case kTry: if (!o.ok) { if (n == 0 && Go(done | 1ULL << i, q, head)) return true; break; }  // fallthrough
        case kWait: if (n && q[head] == o.out && Go(done | 1ULL << i, q, head + 1)) return true; break;
        case kSize: if ((int64_t)n == o.out && Go(done | 1ULL << i, q, head)) return true; break;
        case kEmpty: if ((n == 0) == o.ok && Go(done | 1ULL << i, q, head)) return true; break;
      }
    }
    return false;
  }
};
}  // namespace

VH_GROUP(linearisable, 900, 40000) {
  auto& r = c.rng;
  SafeQueue<int64_t> q;
  int threads = 2 + r.Below(4);
  int per = 2 + r.Below(9);
  if (threads * per > 44) per = 44 / threads;
  vh::SetDelays(r.Next(), r.OneIn(5) ? 0 : 1 + r.Below(4), r.Below(60));
  std::atomic<uint64_t> clock{1};
  std::vector<std::vector<Op>> h(threads);
  // plan: waiting pops are only planned where pushes of the main thread guarantee an element
  std::vector<std::vector<int>> plan(threads);
  int waits = 0, pushes = 0, tries = 0;
  for (auto& p : plan) for (int i = 0; i < per; ++i) {
    int k = r.Below(10);
    k = k < 4 ? kPush : k < 6 ? kTry : k < 8 ? kWait : k == 8 ? kSize : kEmpty;
    p.push_back(k); waits += k == kWait; pushes += k == kPush; tries += k == kTry;
  }
  std::atomic<bool> go{false};
  std::vector<std::thread> th;
  std::vector<uint64_t> seeds; for (int t = 0; t < threads; ++t) seeds.push_back(r.Next());
  for (int t = 0; t < threads; ++t) th.emplace_back([&, t] {
    vh::Rng lr(seeds[t]);
    while (!go) {}
    int64_t n = 0;
    for (int k : plan[t]) {
      Op o{(Kind)k, 0, 0, false, 0, 0, t};
      if (lr.OneIn(3)) Spin(lr.Below(400));
      o.b = clock.fetch_add(1);
      if (k == kPush) { o.in = 1000 * (t + 1) + n++; q.Push(o.in); }
      else if (k == kTry) { int64_t v = -7; o.ok = q.TryPop(v); o.out = v; VH_CHECK(o.ok || v == -7, "failed-pop-changed-argument", v); }
      else if (k == kWait) { int64_t v = -7; q.WaitAndPop(v); o.out = v; o.ok = true; }
      else if (k == kSize) o.out = q.Size();
      else o.ok = q.Empty();
      o.e = clock.fetch_add(1);
      h[t].push_back(o);
    }
  });
  // the main thread supplies what the waiting pops need in the worst case
  std::vector<Op> mine;
  go = true;
  for (int i = 0; i < waits + tries - std::min(pushes, 0) && (int)mine.size() < 18; ++i) {
    if (i < waits + tries) {
      Op o{kPush, 500 + i, 0, true, clock.fetch_add(1), 0, threads};
      q.Push(o.in); o.e = clock.fetch_add(1); mine.push_back(o);
      if (r.OneIn(2)) Spin(r.Below(2000));
    }
  }
  int extra = waits + tries - (int)mine.size();
  for (int i = 0; i < extra; ++i) {
    Op o{kPush, 5000 + i, 0, true, clock.fetch_add(1), 0, threads};
    q.Push(o.in); o.e = clock.fetch_add(1); mine.push_back(o);
  }
  for (auto& t : th) t.join();
  vh::SetDelays(0, 0, 0);
  std::vector<Op> all = mine;
  for (auto& x : h) all.insert(all.end(), x.begin(), x.end());
  // drain: completes the history
  int64_t v;
  while (q.TryPop(v)) { Op o{kTry, 0, v, true, clock.fetch_add(1), 0, threads}; o.e = clock.fetch_add(1); all.push_back(o); }
  // conservation on the whole history
  std::map<int64_t, int> in, out;
  for (auto& o : all) { if (o.k == kPush) ++in[o.in]; if ((o.k == kTry && o.ok) || o.k == kWait) ++out[o.out]; }
  VH_CHECK(in == out, "element-lost-or-duplicated", in.size() << " pushed " << out.size() << " popped");
  VH_CHECK(q.Size() == 0 && q.Empty(), "empty-after-drain", q.Size());
  if (all.size() <= 64) {
    std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.b < b.b; });
    Lin l(all);
    std::vector<int64_t> content;
    bool ok = l.Go(0, content, 0);
    std::ostringstream d;
    if (!ok) for (auto& o : all) d << "T" << o.th << " " << "PTWSE"[o.k] << " in " << o.in << " out " << o.out << " ok " << o.ok << " [" << o.b << "," << o.e << "]; ";
    VH_CHECK(ok, "not-linearisable", d.str());
    vh::Add(l.steps > 400000 ? "histories_given_up" : "histories_linearised");
    int overlaps = 0;
    uint64_t sig = 7;
    for (size_t i = 0; i + 1 < all.size(); ++i) overlaps += all[i + 1].b < all[i].e;
    for (auto& o : all) sig = vh::Mix(sig ^ (o.th * 8 + o.k)) + o.ok + vh::Mix(o.out);
    vh::Add("overlapping_pairs", overlaps);
    if (overlaps) vh::Observed(sig);
    vh::Sample(std::to_string(all.size()) + " operations, " + std::to_string(overlaps) + " overlapping neighbours, " + std::to_string(l.steps) + " search steps");
  }
}
// many consumers asleep, each push must wake one up
VH_GROUP(sleepers, 120, 6000) {
  auto& r = c.rng;
  SafeQueue<int> q;
  int n = 1 + r.Below(7), rounds = 1 + r.Below(5);
  vh::SetDelays(r.Next(), 1 + r.Below(5), r.Below(100));
  std::vector<std::vector<int>> got(n);
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] { for (int k = 0; k < rounds; ++k) { int v; q.WaitAndPop(v); got[i].push_back(v); } });
  if (r.Coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(3000)));
  int producers = 1 + r.Below(3), total = n * rounds;
  std::vector<std::thread> pr;
  std::atomic<int> next{0};
  for (int p = 0; p < producers; ++p) pr.emplace_back([&] { int v; while ((v = next++) < total) q.Push(v); });
  for (auto& t : pr) t.join();
  for (auto& t : th) t.join();   // a lost wake-up leaves this waiting for ever
  vh::SetDelays(0, 0, 0);
  std::set<int> all; size_t count = 0;
  uint64_t sig = 3;
  for (auto& g : got) { count += g.size(); all.insert(g.begin(), g.end()); for (int v : g) sig = vh::Mix(sig ^ v); sig = vh::Mix(sig); }
  VH_CHECK((int)all.size() == total && (int)count == total && q.Empty(), "sleepers-elements", all.size() << "/" << total);
  vh::Observed(sig); vh::Add("sleeper_wakeups", total);
}
VH_GROUP(stress, 60, 2500) {
  auto& r = c.rng;
  SafeQueue<std::unique_ptr<std::pair<int, int>>> q;   // move-only
  int producers = 1 + r.Below(4), consumers = 1 + r.Below(4), each = 1 + r.Below(400);
  vh::SetDelays(r.Next(), 1 + r.Below(40), r.Below(40));
  int total = producers * each;
  std::atomic<int> taken{0};
  std::vector<std::vector<std::pair<int, int>>> got(consumers);
  std::vector<std::thread> th;
  std::vector<int> quota(consumers, total / consumers);
  quota[0] += total % consumers;
  for (int i = 0; i < consumers; ++i) { uint64_t s = r.Next(); th.emplace_back([&, i, s] {
    vh::Rng lr(s);
    for (int k = 0; k < quota[i];) {
      std::unique_ptr<std::pair<int, int>> p;
      if (lr.Coin()) { if (!q.TryPop(p)) { VH_CHECK(!p, "failed-pop-changed-argument", ""); q.WaitAndPop(p); } } else q.WaitAndPop(p);
      VH_CHECK(!!p, "null-element", "");
      if (p) got[i].push_back(*p);
      ++k;
    }
  }); }
  for (int p = 0; p < producers; ++p) th.emplace_back([&, p] { for (int k = 0; k < each; ++k) q.Push(std::unique_ptr<std::pair<int, int>>(new std::pair<int, int>(p, k))); });
  for (auto& t : th) t.join();
  vh::SetDelays(0, 0, 0);
  std::set<std::pair<int, int>> all; bool order = true; size_t n = 0; uint64_t sig = 1;
  for (auto& g : got) { std::vector<int> last(producers, -1); for (auto& e : g) { order = order && e.second > last[e.first]; last[e.first] = e.second; all.insert(e); ++n; sig = vh::Mix(sig ^ (e.first * 1000 + e.second)); } }
  VH_CHECK(n == size_t(total) && all.size() == n, "element-lost-or-duplicated", n << " of " << total << ", distinct " << all.size());
  VH_CHECK(order, "producer-order", "");
  VH_CHECK(q.Empty() && q.Size() == 0, "empty-after-drain", "");
  vh::Observed(sig); vh::Add("elements", n);
}
// sequential model, including elements left in the queue at destruction
VH_GROUP(sequential, 300, 10000) {
  auto& r = c.rng;
  auto token = std::make_shared<int>(0);
  {
    SafeQueue<std::pair<int, std::shared_ptr<int>>> q;
    std::vector<int> m; size_t head = 0;
    for (int i = 0; i < 80; ++i) {
      if (r.Below(100) < 55) { q.Push({i, token}); m.push_back(i); }
      else {
        std::pair<int, std::shared_ptr<int>> v(-1, nullptr);
        bool ok = true;
        if (head < m.size() && r.Coin()) q.WaitAndPop(v); else ok = q.TryPop(v);
        VH_CHECK(ok == (head < m.size()), "try-pop-result", "");
        if (ok && head < m.size()) { VH_CHECK(v.first == m[head] && v.second == token, "fifo", v.first << " want " << m[head]); ++head; }
        else VH_CHECK(v.first == -1 && !v.second, "failed-pop-changed-argument", v.first);
      }
      VH_CHECK(q.Size() == m.size() - head && q.Empty() == (m.size() == head), "size", q.Size());
    }
    VH_CHECK(token.use_count() == long(1 + m.size() - head), "element-copies-kept", token.use_count() << " " << m.size() - head);
  }
  VH_CHECK(token.use_count() == 1, "elements-leaked", token.use_count());
  vh::Observed(r.Next());
}
