#include "maidsafe/common/active.h"
#include <condition_variable>
#include "vh.h"
using maidsafe::Active;
namespace {
struct Ev { int submitter, seq; uint64_t begin, end; std::thread::id tid; };
struct Rec {
  std::vector<Ev> ran;               // written by jobs only: they must be serialised by the object itself
  std::atomic<int> inside{0};
  std::atomic<bool> over{false};     // set after the destructor returned
  std::atomic<uint64_t> clock{1};
  bool overlap = false, after = false;
};
void Spin(uint64_t n) { for (volatile uint64_t i = 0; i < n; ++i) {} }
struct Job {
  std::shared_ptr<Rec> rec;
  int submitter, seq, child_of_active, spin;
  std::shared_ptr<std::pair<uint64_t, uint64_t>> when;  // begin/end ticket of the submission
  Active* active;
  void operator()() const {
    if (rec->inside.fetch_add(1) != 0) rec->overlap = true;
    if (rec->over) rec->after = true;
    rec->ran.push_back({submitter, seq, 0, 0, std::this_thread::get_id()});
    Spin(spin);
    rec->inside.fetch_sub(1);
    if (spin % 7 == 3) std::this_thread::yield();
  }
};
}  // namespace

// many submitters, destruction while the queue is long; jobs submit further jobs
static void Storm(vh::Case& c, bool nested, bool idle_before_end) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), r.OneIn(4) ? 0 : 1 + r.Below(12), r.Below(200));
  int submitters = 1 + r.Below(6), each = r.OneIn(6) ? 150 : 1 + r.Below(24);
  int spin = r.Below(2) ? 0 : r.Below(2000);
  auto rec = std::make_shared<Rec>();
  std::shared_ptr<int> token = std::make_shared<int>(0);
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> tick(submitters + 1);
  for (auto& t : tick) t.assign(each, {0, 0});
  int nested_every = nested ? 1 + r.Below(3) : 0;
  std::atomic<int> ran_total{0};
  int nested_total = 0;
  if (nested) for (int i = 0; i < each; ++i) if (i % nested_every == 0) ++nested_total;
  std::set<std::thread::id> outside;
  outside.insert(std::this_thread::get_id());
  std::mutex om;
  {
    std::unique_ptr<Active> a(new Active);
    Active* ap = a.get();
    auto child_seq = std::make_shared<int>(0);   // touched by jobs only
    std::vector<std::thread> th;
    std::atomic<bool> go{false};
    for (int s = 0; s < submitters; ++s) th.emplace_back([&, s] {
      { std::lock_guard<std::mutex> l(om); outside.insert(std::this_thread::get_id()); }
      while (!go) std::this_thread::yield();
      for (int i = 0; i < each; ++i) {
        int my = spin ? (i * 37 + s) % spin : 0;
        tick[s][i].first = rec->clock.fetch_add(1);
        bool spawn = nested && s == 0 && i % nested_every == 0;
        ap->Send([rec, token, s, i, my, spawn, ap, child_seq, submitters, &ran_total] {
          if (rec->inside.fetch_add(1) != 0) rec->overlap = true;
          if (rec->over) rec->after = true;
          rec->ran.push_back({s, i, 0, 0, std::this_thread::get_id()});
          Spin(my);
          if (spawn) {
            int q = (*child_seq)++;
            ap->Send([rec, token, q, submitters, &ran_total] {
              if (rec->inside.fetch_add(1) != 0) rec->overlap = true;
              rec->ran.push_back({submitters, q, 0, 0, std::this_thread::get_id()});
              rec->inside.fetch_sub(1);
              ++ran_total;
            });
          }
          rec->inside.fetch_sub(1);
          ++ran_total;
        });
        tick[s][i].second = rec->clock.fetch_add(1);
      }
    });
    go = true;
    for (auto& t : th) t.join();
    if (nested || idle_before_end)  // children are submitted before destruction begins only if we wait
      while (ran_total < submitters * each + nested_total) { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
    a.reset();
    rec->over = true;
  }
  vh::SetDelays(0, 0, 0);
  std::vector<int> next(submitters + 1, 0);
  bool order = true;
  std::set<std::thread::id> ids;
  uint64_t h = 1469598103934665603ULL, switches = 0;
  int prev = -1;
  for (auto& e : rec->ran) {
    order = order && e.seq == next[e.submitter];
    next[e.submitter] = e.seq + 1;
    ids.insert(e.tid);
    if (e.submitter != prev) ++switches;
    prev = e.submitter;
    h = vh::Mix(h ^ (e.submitter * 1000 + e.seq));
  }
  size_t want = size_t(submitters) * each + nested_total;
  VH_CHECK(rec->ran.size() == want, "jobs-run", rec->ran.size() << " of " << want << " submitters " << submitters);
  VH_CHECK(order, "submission-order", "submitters " << submitters << " each " << each);
  VH_CHECK(!rec->overlap, "jobs-overlap", "");
  VH_CHECK(!rec->after, "job-after-destruction", "");
  VH_CHECK(ids.size() <= 1, "more-than-one-thread", ids.size());
  for (auto& i : ids) VH_CHECK(!outside.count(i) || false, "job-on-submitter-thread", "");
  VH_CHECK(token.use_count() == 1, "job-object-not-released", token.use_count());
  // submissions ordered in real time run in that order
  uint64_t max_begin = 0; bool rt = true;
  for (auto& e : rec->ran) {
    if (e.submitter == submitters) continue;
    auto& t = tick[e.submitter][e.seq];
    if (t.second < max_begin) rt = false;
    max_begin = std::max(max_begin, t.first);
  }
  VH_CHECK(rt, "ordered-submissions-reordered", "");
  vh::Add("jobs", rec->ran.size());
  vh::Add("submitter_switches", switches);
  if (submitters > 1) vh::Observed(h);
  vh::Sample(std::to_string(submitters) + " submitters x " + std::to_string(each) + ", submitter switches in execution order " + std::to_string(switches));
}
VH_GROUP(storm, 160, 6000) { Storm(c, false, false); }
VH_GROUP(storm_nested, 100, 4000) { Storm(c, true, false); }
VH_GROUP(storm_then_idle, 60, 3000) { Storm(c, false, true); }

// each job must run without any further submission waking the worker up
VH_GROUP(wakeup, 60, 3000) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 1 + r.Below(6), r.Below(120));
  Active a;
  std::mutex m; std::condition_variable cv; int ran = 0;
  int n = 40;
  for (int i = 0; i < n; ++i) {
    if (r.Coin()) Spin(r.Below(3000));
    a.Send([&] { std::lock_guard<std::mutex> l(m); ++ran; cv.notify_all(); });
    std::unique_lock<std::mutex> l(m);
    while (ran != i + 1) cv.wait(l);
  }
  vh::SetDelays(0, 0, 0);
  VH_CHECK(ran == n, "ping-pong-count", ran);
  vh::Observed(c.index); vh::Add("ping_pongs", n);
}
// destruction at every stage of the worker's start-up and of a short queue
VH_GROUP(short_life, 700, 20000) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 1 + r.Below(4), r.Below(80));
  int n = r.Below(4);
  std::vector<int> ran;
  std::shared_ptr<int> token = std::make_shared<int>(0);
  {
    Active a;
    if (r.Coin()) Spin(r.Below(20000));
    for (int i = 0; i < n; ++i) a.Send([&ran, i, token] { ran.push_back(i); if (i % 2) std::this_thread::yield(); });
    if (r.OneIn(3)) Spin(r.Below(20000));
  }
  vh::SetDelays(0, 0, 0);
  std::vector<int> want; for (int i = 0; i < n; ++i) want.push_back(i);
  VH_CHECK(ran == want, "short-life-jobs", ran.size() << " of " << n);
  VH_CHECK(token.use_count() == 1, "job-object-not-released", token.use_count());
  vh::Observed(c.rng.Next()); vh::Add("lifetimes");
}
// submissions racing with destruction from inside jobs: a job keeps submitting successors; those
// submitted before destruction began must run, later ones may be dropped, none may run late or hang
VH_GROUP(racing_end, 150, 6000) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 1 + r.Below(8), r.Below(150));
  struct S { Active* a; std::atomic<int> ran{0}, sent{0}; std::atomic<bool> over{false}; std::atomic<bool> late{false}; int limit; std::function<void()> step; };
  auto s = std::make_shared<S>();
  s->limit = 1 + r.Below(400);
  int before = 0;
  {
    Active a; s->a = &a;
    S* p = s.get();
    s->step = [p] { if (p->over) p->late = true; ++p->ran; if (p->ran < p->limit) { p->a->Send(p->step); ++p->sent; } };
    a.Send(s->step); ++s->sent;
    Spin(r.Below(60000));
    before = s->sent;
  }
  s->over = true;
  vh::SetDelays(0, 0, 0);
  VH_CHECK(s->ran >= before, "accepted-job-dropped", s->ran << " < " << before);
  VH_CHECK(s->ran <= s->sent, "job-run-twice", s->ran << " > " << s->sent);
  VH_CHECK(!s->late, "job-after-destruction", "");
  vh::Observed(vh::Mix(s->ran * 1000 + s->limit)); vh::Add("chain_jobs", s->ran);
}
