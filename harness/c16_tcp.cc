// C16: the life of TCP connections and listeners.
#include <set>
#include "tcp_util.h"
using namespace tu;  // NOLINT
namespace {
tcp::Message M(const Bytes& b) { return tcp::Message(b.begin(), b.end()); }
bool Prefix(const std::vector<Bytes>& got, const std::vector<Bytes>& all) { return got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()); }
}  // namespace

// A plain socket ends the connection in every way.
VH_GROUP(peer_ends, 500, 15000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 60, 200);
  Service s(1 + static_cast<int>(r.Below(4)));
  auto acc = std::make_shared<Accepted>();
  auto lis = tcp::Listener::MakeShared(*s.a, [acc](tcp::ConnectionPtr p) { acc->Add(p); }, AnyPort(r));
  Raw raw;
  VH_CHECK(raw.Connect(lis->ListeningPort()), "connect-refused", errno);
  VH_CHECK(WaitFor([&] { return acc->Count() == 1; }), "not-accepted", "");
  auto con = acc->At(0);
  if (!con) return;
  auto end = std::make_shared<End>();
  // a connection is started before it is sent on
  bool late = r.OneIn(4), sending = !late && r.Coin(), hold = r.Coin();
  if (!late) Start(con, end);
  std::vector<Bytes> full;
  Bytes stream;
  for (size_t n = r.Below(5); n--;) {
    full.push_back(r.ByteVec(r.OneIn(5) ? 1 + r.Below(50000) : 1 + r.Below(100)));
    auto f = Frame(full.back());
    stream.insert(stream.end(), f.begin(), f.end());
  }
  std::string what;
  bool orderly = true, reset = false, keep_open = false;
  switch (r.Below(6)) {
    case 0: what = "close"; break;
    case 1: what = "shutdown"; break;
    case 2: what = "reset"; reset = true; orderly = false; break;
    case 3: { auto b = r.ByteVec(1 + r.Below(3)); b[0] = 0; stream.insert(stream.end(), b.begin(), b.end()); what = "cut in length"; break; }
    case 4: { Bytes f = Frame(r.ByteVec(2 + r.Below(3000))); f.resize(4 + r.Below(f.size() - 4)); stream.insert(stream.end(), f.begin(), f.end()); what = "cut in body"; break; }
    default: {
      static const uint32_t sizes[] = {1024 * 1024 + 1, 1024 * 1024 + 2, 0x80000000u, 0xffffffffu, 0x7fffffffu, 0x01000000u, 0xff000000u, 0x00ff0000u};
      uint32_t z = r.OneIn(3) ? static_cast<uint32_t>(1024 * 1024 + 1 + r.Below(0xfff00000u - 2)) : sizes[r.Below(8)];
      for (int i = 3; i >= 0; --i) stream.push_back(static_cast<unsigned char>(z >> (8 * i)));
      auto junk = r.ByteVec(r.Below(3000));
      if (junk.size() > 20 && r.Coin()) { junk[0] = junk[1] = junk[2] = 0; junk[3] = 5; }  // what looks like a message
      stream.insert(stream.end(), junk.begin(), junk.end());
      what = "oversized";
      keep_open = true;
    }
  }
  std::thread sender;
  if (sending) sender = std::thread([&, seed = r.Next()] {
    vh::Rng lr(seed);
    for (int i = 0; i < 20; ++i) { con->Send(M(lr.ByteVec(1 + lr.Below(5000)))); if (lr.OneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(300))); }
  });
  if (hold) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(1000)));
  size_t at = 0;
  while (at < stream.size()) {
    size_t n = r.OneIn(3) ? 1 + r.Below(stream.size() - at) : stream.size() - at;
    if (!raw.Write(stream.data() + at, n)) break;
    at += n;
    if (r.OneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(500)));
  }
  if (reset) raw.Reset();
  else if (what == "shutdown") shutdown(raw.fd, SHUT_WR);
  else if (!keep_open) raw.Close();
  if (late) Start(con, end);
  VH_CHECK(WaitFor([&] { return end->ClosedCount() >= 1; }), "not-closed", what << (sending ? " sending" : ""));
  if (sender.joinable()) sender.join();
  int extra = static_cast<int>(r.Below(3));
  for (int i = 0; i < extra; ++i) con->Close();
  if (r.Coin()) con->Send(M(Bytes(5, 'x')));
  if (keep_open && !raw.Read(1, 50).empty() && !sending) VH_CHECK(false, "bytes-after-close", what);
  lis->StopListening();
  acc->Drop();
  con.reset();
  s.Finish(false);
  auto got = end->Got();
  VH_CHECK(end->closed == 1, "closure-count", what << " " << end->closed);
  VH_CHECK(end->late == 0, "message-after-close", what << " " << end->late);
  VH_CHECK(Prefix(got, full), "incomplete-delivered", what << " " << got.size() << " of " << full.size() << (got.size() > full.size() ? ", the extra of " + std::to_string(got.back().size()) : ""));
  if (orderly && !sending) VH_CHECK(got == full, "message-lost", what << " " << got.size() << " of " << full.size());
  VH_CHECK(!end->overlap, "callbacks-overlap", what);
  vh::Add(what.c_str());
  vh::Add("peer_ends");
  vh::Observed(vh::HashStr(what) ^ vh::HashBytes(stream.data(), stream.size()));
}

// Both ends are the library's; either or both close while messages travel.
VH_GROUP(local_close, 300, 10000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 50, 250);
  Service s(1 + static_cast<int>(r.Below(4)));
  auto acc = std::make_shared<Accepted>();
  auto lis = tcp::Listener::MakeShared(*s.a, [acc](tcp::ConnectionPtr p) { acc->Add(p); }, AnyPort(r));
  auto cl = tcp::Connection::MakeShared(*s.b, lis->ListeningPort());
  VH_CHECK(WaitFor([&] { return acc->Count() == 1; }), "not-accepted", "");
  auto sv = acc->At(0);
  if (!sv) return;
  tcp::ConnectionPtr con[2] = {cl, sv};
  EndPtr ends[2] = {std::make_shared<End>(), std::make_shared<End>()};
  for (int i = 0; i < 2; ++i) Start(con[i], ends[i]);
  std::vector<Bytes> sent[2];
  for (auto& v : sent) for (size_t n = r.Below(25); n--;) v.push_back(r.ByteVec(r.OneIn(6) ? 1 + r.Below(60000) : 1 + r.Below(100)));
  int who = static_cast<int>(r.Below(3));
  bool from_callback = r.OneIn(4);
  if (from_callback) {
    std::weak_ptr<tcp::Connection> w = con[1];
    auto count = std::make_shared<std::atomic<int>>(static_cast<int>(r.Below(10)));
    ends[1]->on_message = [w, count](const Bytes&) { if (--*count == 0) if (auto p = w.lock()) p->Close(); };
  }
  std::vector<std::thread> th;
  for (int e = 0; e < 2; ++e) th.emplace_back([&, e] { for (auto& m : sent[e]) con[e]->Send(M(m)); });
  for (int k = 0; k < 2; ++k) {
    if (who != 2 && who != k) continue;
    for (int n = 1 + static_cast<int>(r.Below(2)); n--;) {
      uint64_t d = r.Below(3000);
      th.emplace_back([&, k, d] { std::this_thread::sleep_for(std::chrono::microseconds(d)); con[k]->Close(); });
    }
  }
  for (auto& t : th) t.join();
  VH_CHECK(WaitFor([&] { return ends[0]->ClosedCount() && ends[1]->ClosedCount(); }), "not-closed", ends[0]->ClosedCount() << " " << ends[1]->ClosedCount());
  lis->StopListening();
  acc->Drop();
  cl.reset(); sv.reset(); con[0].reset(); con[1].reset();
  s.Finish(false);
  uint64_t h = 0;
  for (int e = 0; e < 2; ++e) {
    auto got = ends[e]->Got();
    VH_CHECK(ends[e]->closed == 1, "closure-count", ends[e]->closed);
    VH_CHECK(ends[e]->late == 0, "message-after-close", ends[e]->late);
    VH_CHECK(Prefix(got, sent[1 - e]), "incomplete-delivered", got.size() << " of " << sent[1 - e].size());
    VH_CHECK(!ends[e]->overlap, "callbacks-overlap", "");
    h = vh::Mix(h + got.size());
    if (got.size() < sent[1 - e].size()) vh::Add("interrupted");
  }
  vh::Add("local_closes");
  vh::Observed(vh::Mix(h ^ sent[0].size() * 64 ^ sent[1].size()));
}

// Ports in use, hand-over, accept failures and the end of listening.
VH_GROUP(listening, 300, 8000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 60, 200);
  std::vector<std::unique_ptr<Raw>> busy;
  uint16_t base = 0;
  unsigned want_busy = r.OneIn(3) ? 0 : r.OneIn(8) ? tcp::kMaxRangeAboveDefaultPort + 1 : static_cast<unsigned>(r.Below(4));
  for (int tries = 0; tries < 50; ++tries) {
    busy.clear();
    base = AnyPort(r);
    bool ok = true;
    for (unsigned i = 0; i < want_busy && ok; ++i) { busy.emplace_back(new Raw); ok = busy.back()->Occupy(static_cast<uint16_t>(base + i)) != 0; }
    if (ok) break;
    busy.clear();
  }
  want_busy = static_cast<unsigned>(busy.size());
  Service s(1 + static_cast<int>(r.Below(3)));
  auto acc = std::make_shared<Accepted>();
  tcp::ListenerPtr lis;
  auto o = vh::OutcomeCode([&] { lis = tcp::Listener::MakeShared(*s.a, [acc](tcp::ConnectionPtr p) { acc->Add(p); }, base); });
  if (want_busy > tcp::kMaxRangeAboveDefaultPort) {
    VH_CHECK(o == vh::CodeOf(VaultManagerErrors::failed_to_listen), "listens-on-busy-ports", o);
    vh::Add("all_busy");
    return;
  }
  VH_CHECK(o.empty() && lis, "cannot-listen", o);
  if (!lis) return;
  uint16_t port = lis->ListeningPort();
  VH_CHECK(port >= base + want_busy && port <= base + tcp::kMaxRangeAboveDefaultPort, "port-out-of-range", port << " for " << base << " with " << want_busy << " busy");
  size_t n = r.Below(7);
  g_accept_fails = r.OneIn(4) ? 1 + static_cast<int>(r.Below(3)) : 0;
  int fails = g_accept_fails;
  std::vector<tcp::ConnectionPtr> clients;
  std::vector<std::unique_ptr<Raw>> raws;
  std::vector<std::thread> th;
  std::mutex m;
  for (size_t i = 0; i < n; ++i) {
    bool plain = r.Coin();
    th.emplace_back([&, plain] {
      if (plain) { std::unique_ptr<Raw> x(new Raw); bool k = x->Connect(port); VH_CHECK(k, "connect-refused", errno); std::lock_guard<std::mutex> l(m); raws.push_back(std::move(x)); }
      else { tcp::ConnectionPtr p; auto q = vh::Outcome([&] { p = tcp::Connection::MakeShared(*s.b, port); }); VH_CHECK(q.empty() || fails, "connect-refused", q); std::lock_guard<std::mutex> l(m); clients.push_back(p); }
    });
  }
  for (auto& t : th) t.join();
  size_t expect = n - std::min<size_t>(n, static_cast<size_t>(fails));
  VH_CHECK(WaitFor([&] { return acc->Count() >= expect; }), "not-accepted", acc->Count() << " of " << expect);
  if (n < static_cast<size_t>(fails)) g_accept_fails = 0;
  // every connection handed over is another one
  {
    std::set<tcp::ConnectionPtr> set;
    std::lock_guard<std::mutex> l(acc->m);
    set.insert(acc->c.begin(), acc->c.end());
    VH_CHECK(set.size() == acc->c.size() && acc->c.size() == expect, "handed-over", acc->c.size() << " of " << expect);
  }
  vh::Add("accepted", expect);
  // stop, several times, from several threads
  int stops = 1 + static_cast<int>(r.Below(3));
  th.clear();
  bool drop = r.Coin();
  for (int i = 0; i < stops; ++i) th.emplace_back([l = lis] { l->StopListening(); });
  if (drop) lis.reset();
  for (auto& t : th) t.join();
  th.clear();
  bool dead = WaitFor([&] { Raw x; return !x.Connect(port); }, 10000);
  VH_CHECK(dead, "still-listening", "");
  size_t count = acc->Count();
  // the accept that was under way when it stopped is over once the service has nothing else to do
  for (int i = 0; i < 3; ++i) { Raw x; VH_CHECK(!x.Connect(port), "still-listening", ""); }
  o = vh::OutcomeCode([&] { tcp::Connection::MakeShared(*s.b, port); });
  VH_CHECK(o == vh::CodeOf(VaultManagerErrors::failed_to_connect), "dead-port", o);
  std::this_thread::sleep_for(std::chrono::milliseconds(1));
  (void)count;
  vh::Add("stopped");
  vh::Add("accept_failures", static_cast<uint64_t>(fails));
  acc->Drop();
  clients.clear();
  raws.clear();
  lis.reset();
  s.Finish(false);
  acc->Drop();
  g_accept_fails = 0;
  vh::Observed(vh::Mix(want_busy * 1000 + n * 10 + static_cast<unsigned>(stops)) ^ vh::Mix(port));
}

// Everything at once, and the service stopped in the middle or left to finish.
VH_GROUP(storm, 120, 4000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 40, 300);
  uint64_t h = 0;
  std::vector<EndPtr> ends;
  {
    Service s(2 + static_cast<int>(r.Below(4)));
    auto acc = std::make_shared<Accepted>();
    auto mx = std::make_shared<std::mutex>();
    auto all = std::make_shared<std::vector<EndPtr>>();
    auto lis = tcp::Listener::MakeShared(*s.a, [acc, mx, all](tcp::ConnectionPtr p) {
      auto e = std::make_shared<End>();
      { std::lock_guard<std::mutex> l(*mx); all->push_back(e); }
      Start(p, e);
      acc->Add(p);
      p->Send(tcp::Message(3, 'h'));
    }, AnyPort(r));
    uint16_t port = lis->ListeningPort();
    std::vector<std::thread> th;
    int clients = 1 + static_cast<int>(r.Below(4));
    for (int i = 0; i < clients; ++i) th.emplace_back([&, seed = r.Next()] {
      vh::Rng lr(seed);
      for (int k = 0; k < 3; ++k) {
        tcp::ConnectionPtr p;
        auto o = vh::Outcome([&] { p = tcp::Connection::MakeShared(*s.b, port); });
        VH_CHECK(o.empty() || o == "lib", "connect-raises", o);
        if (!p) continue;
        auto e = std::make_shared<End>();
        { std::lock_guard<std::mutex> l(*mx); all->push_back(e); }
        std::weak_ptr<tcp::Connection> w = p;
        if (lr.Coin()) e->on_message = [w](const Bytes& b) { if (b.size() > 1) if (auto q = w.lock()) q->Send(tcp::Message(b.size() / 2, 'e')); };
        Start(p, e);
        for (int n = static_cast<int>(lr.Below(10)); n--;) p->Send(tcp::Message(1 + lr.Below(3000), 'c'));
        if (lr.OneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(1500)));
        if (lr.Coin()) p->Close();
        else if (auto q = acc->At(lr.Below(4))) { q->Send(tcp::Message(10, 'z')); q->Close(); }
      }
    });
    bool abrupt = r.OneIn(3);
    uint64_t d = r.Below(3000);
    th.emplace_back([&, d] { std::this_thread::sleep_for(std::chrono::microseconds(d)); lis->StopListening(); lis->StopListening(); lis.reset(); });
    if (abrupt) { std::this_thread::sleep_for(std::chrono::microseconds(r.Below(3000))); s.io.stop(); }
    for (auto& t : th) t.join();
    // nothing left to do means that every connection has ended
    if (!abrupt) {
      bool all_closed = WaitFor([&] { std::lock_guard<std::mutex> l(acc->m); for (auto& p : acc->c) p->Close(); std::lock_guard<std::mutex> l2(*mx); for (auto& e : *all) if (!e->ClosedCount()) return false; return true; }, 20000);
      VH_CHECK(all_closed, "not-closed", "storm");
      acc->Drop();
    }
    s.Finish(abrupt);
    { std::lock_guard<std::mutex> l(*mx); ends = *all; }
    acc->Drop();
    if (!abrupt) for (auto& e : ends) VH_CHECK(e->closed == 1, "closure-count", e->closed << " in a storm");
    for (auto& e : ends) {
      VH_CHECK(e->closed <= 1, "closure-count", e->closed << " in a storm");
      VH_CHECK(e->late == 0, "message-after-close", "storm");
      h = vh::Mix(h ^ e->got.size());
    }
    vh::Add("storms");
    vh::Add("storm_connections", ends.size());
  }
  vh::Observed(h);
}
