#include "maidsafe/common/asio_service.h"
#include <condition_variable>
#include "vh_ms.h"
using namespace maidsafe;
namespace {
void Spin(uint64_t n) { for (volatile uint64_t i = 0; i < n; ++i) {} }
struct Rec {
  std::mutex m;
  std::vector<int> count;
  std::set<std::thread::id> ids;
  std::atomic<int> inside{0}, most{0}, ran{0};
  std::atomic<bool> stopped{false};
  std::atomic<bool> late{false};
  void Enter(int i) {
    int n = ++inside, old = most;
    while (old < n && !most.compare_exchange_weak(old, n)) {}
    if (stopped) late = true;
    std::lock_guard<std::mutex> l(m);
    ++count[i]; ids.insert(std::this_thread::get_id());
    ++ran;
  }
  void Leave() { --inside; }
};
// posts from several threads, then one or several threads stop the service
template <typename S> void Run(vh::Case& c, const char* name) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), r.OneIn(4) ? 0 : 1 + r.Below(12), r.Below(150));
  int n = 1 + r.Below(6), posters = 1 + r.Below(4), each = 1 + r.Below(40), stoppers = 1 + r.Below(4);
  bool by_destructor = r.OneIn(4), nested = r.Coin();
  auto rec = std::make_shared<Rec>();
  int total = posters * each * (nested ? 2 : 1);
  rec->count.assign(total + 8, 0);
  std::unique_ptr<IoService<S>> io(new IoService<S>(n));
  VH_CHECK(io->ThreadCount() == size_t(n), std::string("thread-count:") + name, io->ThreadCount() << " want " << n);
  std::vector<std::thread> th;
  for (int p = 0; p < posters; ++p) {
    uint64_t seed = r.Next();
    th.emplace_back([&, p, seed] {
      vh::Rng lr(seed);
      for (int k = 0; k < each; ++k) {
        int id = p * each + k, spin = lr.OneIn(3) ? lr.Below(3000) : 0;
        S* s = &io->service();
        io->service().post([rec, id, spin, s, nested, posters, each] {
          rec->Enter(id);
          Spin(spin);
          if (nested) s->post([rec, id, posters, each] { rec->Enter(posters * each + id); rec->Leave(); });
          rec->Leave();
        });
      }
    });
  }
  for (auto& t : th) t.join();
  th.clear();
  std::atomic<int> refused_inside{-1};
  if (by_destructor) io.reset();
  else {
    std::atomic<bool> bad{false};
    for (int s = 0; s < stoppers; ++s) th.emplace_back([&] {
      std::string o = vh::OutcomeCode([&] { io->Stop(); });
      VH_CHECK(o.empty(), std::string("stop-throws:") + name, o);
      if (rec->ran != total) bad = true;
      VH_CHECK(io->ThreadCount() == 0, std::string("thread-count-after-stop:") + name, io->ThreadCount());
    });
    for (auto& t : th) t.join();
    VH_CHECK(!bad, std::string("stop-returned-before-handlers-ran:") + name, rec->ran << " of " << total);
    rec->stopped = true;
    VH_CHECK(vh::Outcome([&] { io->Stop(); }) == "", std::string("repeated-stop:") + name, "");
    io->service().post([rec] { rec->late = true; });
    if (r.OneIn(8)) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    VH_CHECK(vh::Outcome([&] { io->Stop(); }) == "", std::string("repeated-stop:") + name, "");
    io.reset();
  }
  rec->stopped = true;
  vh::SetDelays(0, 0, 0);
  bool once = true;
  for (int i = 0; i < total; ++i) once = once && rec->count[i] == 1;
  VH_CHECK(once, std::string("handlers-not-run-exactly-once:") + name, rec->ran << " runs of " << total << " handlers, threads " << n);
  VH_CHECK(rec->most <= n && rec->ids.size() <= size_t(n), std::string("more-threads-than-asked:") + name, rec->most << "," << rec->ids.size() << " of " << n);
  VH_CHECK(!rec->ids.count(std::this_thread::get_id()), std::string("handler-on-outside-thread:") + name, "");
  VH_CHECK(!rec->late, std::string("handler-after-stop:") + name, "");
  vh::Add("handlers", rec->ran);
  vh::Add("concurrent_handlers_max_sum", rec->most);
  vh::Observed(vh::Mix(n * 1000003 + posters * 1009 + each * 31 + stoppers * 7 + rec->most) ^ vh::HashStr(name));
  vh::Sample(std::string(name) + ": " + std::to_string(n) + " threads, " + std::to_string(total) + " handlers, at most " + std::to_string(rec->most.load()) + " at once, " + std::to_string(stoppers) + " stoppers");
}
// n handlers can be in progress together, so each needs a thread of its own; the n+1st has to wait
template <typename S> void Together(vh::Case& c, const char* name) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 1 + r.Below(8), r.Below(100));
  int n = 1 + r.Below(6);
  IoService<S> io(n);
  std::mutex m; std::condition_variable cv; int in = 0; bool go = false, extra_early = false; int extra = 0;
  std::set<std::thread::id> ids;
  for (int i = 0; i < n; ++i) io.service().post([&] { std::unique_lock<std::mutex> l(m); ++in; ids.insert(std::this_thread::get_id()); cv.notify_all(); while (!go) cv.wait(l); });
  { std::unique_lock<std::mutex> l(m); while (in < n) cv.wait(l); }  // never ends with fewer threads
  for (int i = 0; i < 3; ++i) io.service().post([&] { std::unique_lock<std::mutex> l(m); if (!go) extra_early = true; ++extra; });
  if (r.OneIn(3)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  { std::unique_lock<std::mutex> l(m); go = true; cv.notify_all(); }
  io.Stop();
  vh::SetDelays(0, 0, 0);
  VH_CHECK(ids.size() == size_t(n), std::string("threads-in-use:") + name, ids.size() << " want " << n);
  VH_CHECK(!extra_early, std::string("more-threads-than-asked:") + name, "");
  VH_CHECK(extra == 3, std::string("handlers-not-run-exactly-once:") + name, extra);
  vh::Add("full_houses"); vh::Observed(r.Next());
}
// Stop from a handler is refused, whatever other threads do meanwhile, and the service stays usable
template <typename S> void Inside(vh::Case& c, const char* name) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), 1 + r.Below(8), r.Below(200));
  int n = 1 + r.Below(4), calls = 1 + r.Below(5);
  bool racing = c.index % 2;
  std::atomic<int> refused{0}, other{0}, after{0};
  {
    IoService<S> io(n);
    std::atomic<int> done{0};
    auto call = [&] {
      std::string o = vh::OutcomeCode([&] { io.Stop(); });
      if (o == vh::Code(CommonErrors::cannot_invoke_from_this_thread)) ++refused; else ++other;
      ++done;
    };
    for (int i = 0; i < calls; ++i) io.service().post(call);
    if (!racing) {
      while (done < calls) std::this_thread::sleep_for(std::chrono::microseconds(50));
      for (int i = 0; i < 5; ++i) io.service().post([&] { ++after; });
    }
    if (r.Coin()) io.Stop();
  }
  vh::SetDelays(0, 0, 0);
  VH_CHECK(refused == calls && other == 0, std::string("stop-from-own-thread-not-refused:") + name, refused << " of " << calls);
  VH_CHECK(racing || after == 5, std::string("service-unusable-after-refused-stop:") + name, after.load());
  vh::Add(racing ? "refused_while_stopping" : "refused"); vh::Observed(r.Next());
}
template <typename S> void Zero(const char* name) {
  std::string o = vh::OutcomeCode([] { IoService<S> x(0); });
  VH_CHECK(o == vh::Code(CommonErrors::invalid_argument), std::string("zero-threads:") + name, o);
}
}  // namespace
VH_GROUP(run_asio, 200, 8000) { Run<asio::io_service>(c, "asio"); }
VH_GROUP(run_boost, 200, 8000) { Run<boost::asio::io_service>(c, "boost"); }
VH_GROUP(together_asio, 80, 3000) { Together<asio::io_service>(c, "asio"); }
VH_GROUP(together_boost, 80, 3000) { Together<boost::asio::io_service>(c, "boost"); }
VH_GROUP(inside_asio, 120, 4000) { Inside<asio::io_service>(c, "asio"); }
VH_GROUP(inside_boost, 120, 4000) { Inside<boost::asio::io_service>(c, "boost"); }
VH_GROUP(zero, 20, 20) { Zero<asio::io_service>("asio"); Zero<boost::asio::io_service>("boost"); vh::Observed(0); }
