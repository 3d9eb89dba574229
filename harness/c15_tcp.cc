// C15: messages over TCP connections.
#include "tcp_util.h"
using namespace tu;  // NOLINT
namespace {
size_t AnySize(vh::Rng& r, bool big) {
  if (big && r.OneIn(20)) return tcp::Connection::MaxMessageSize() - r.Below(2);
  if (r.OneIn(6)) return 1 + r.Below(big ? 200000 : 3000);
  if (r.OneIn(5)) return 126 + r.Below(6);
  return 1 + r.Below(300);
}
// sender, number and filler recoverable from the message
Bytes Tagged(vh::Rng& r, unsigned sender, unsigned number, size_t size) {
  Bytes b = r.ByteVec(std::max<size_t>(size, 6));
  b[0] = static_cast<unsigned char>(sender);
  for (int i = 0; i < 4; ++i) b[static_cast<size_t>(1 + i)] = static_cast<unsigned char>(number >> (8 * i));
  return b;
}
}  // namespace

// Two library ends, several sending threads at each.
VH_GROUP(both_ends, 220, 6000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 60, 150);
  Service s(1 + static_cast<int>(r.Below(4)));
  g_short = r.OneIn(3) ? 1 + static_cast<int>(r.Below(r.Coin() ? 20 : 4000)) : 0;
  bool big = g_short == 0 || g_short > 1000;
  g_buffers = r.OneIn(3) ? 2048 + static_cast<int>(r.Below(8192)) : 0;
  auto acc = std::make_shared<Accepted>();
  auto lis = tcp::Listener::MakeShared(*s.a, [acc](tcp::ConnectionPtr p) { acc->Add(p); }, AnyPort(r));
  auto cl = tcp::Connection::MakeShared(*s.b, lis->ListeningPort());
  VH_CHECK(WaitFor([&] { return acc->Count() == 1; }), "not-accepted", "");
  auto sv = acc->At(0);
  if (!sv) return;
  EndPtr ends[2] = {std::make_shared<End>(), std::make_shared<End>()};
  tcp::ConnectionPtr con[2] = {cl, sv};
  bool late_start = r.OneIn(4);
  Start(con[0], ends[0]);
  if (!late_start) Start(con[1], ends[1]);
  // what each sender of each end sends
  std::vector<std::vector<Bytes>> sent[2];
  for (int e = 0; e < 2; ++e) {
    sent[e].resize(r.OneIn(3) ? 1 : 1 + r.Below(3));
    for (unsigned t = 0; t < sent[e].size(); ++t)
      for (unsigned n = 0, m = static_cast<unsigned>(r.Below(big ? 12 : 6)); n < m; ++n) sent[e][t].push_back(Tagged(r, t, n, AnySize(r, big)));
  }
  std::vector<std::thread> th;
  std::atomic<int> refused{0};
  for (int e = 0; e < 2; ++e)
    for (unsigned t = 0; t < sent[e].size(); ++t) {
      uint64_t seed = r.Next();
      th.emplace_back([&, e, t, seed] {
        vh::Rng lr(seed);
        for (auto& m : sent[e][t]) {
          if (lr.OneIn(5)) {
            auto o = vh::OutcomeCode([&] { con[e]->Send(tcp::Message()); });
            VH_CHECK(o == vh::Code(CommonErrors::outside_of_bounds), "empty-accepted", o);
            ++refused;
          }
          if (lr.OneIn(8)) {
            auto o = vh::OutcomeCode([&] { con[e]->Send(tcp::Message(tcp::Connection::MaxMessageSize() + 1 + lr.Below(3), 'x')); });
            VH_CHECK(o == vh::CodeOf(VaultManagerErrors::ipc_message_too_large), "oversized-accepted", o);
            ++refused;
          }
          auto o = vh::Outcome([&] { con[e]->Send(tcp::Message(m.begin(), m.end())); });
          VH_CHECK(o.empty(), "send-refused", m.size() << " " << o);
          if (lr.OneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(300)));
        }
      });
    }
  if (late_start) { std::this_thread::sleep_for(std::chrono::microseconds(r.Below(2000))); Start(con[1], ends[1]); }
  for (auto& t : th) t.join();
  for (int e = 0; e < 2; ++e) {
    size_t total = 0;
    for (auto& t : sent[e]) total += t.size();
    auto& rcv = ends[1 - e];
    bool all = WaitFor([&] { return rcv->Count() >= total || rcv->ClosedCount(); }, 30000);
    auto got = rcv->Got();
    VH_CHECK(all && got.size() == total, "message-lost", "end " << e << " sent " << total << " and " << got.size() << " arrived, short " << g_short.load());
    std::vector<unsigned> next(sent[e].size(), 0);
    uint64_t order = 7;
    for (auto& g : got) {
      if (g.size() < 6 || g[0] >= sent[e].size()) { VH_CHECK(false, "message-altered", g.size() << " bytes"); break; }
      unsigned t = g[0], n = 0;
      for (int i = 0; i < 4; ++i) n |= static_cast<unsigned>(g[static_cast<size_t>(1 + i)]) << (8 * i);
      VH_CHECK(n == next[t], "message-order", "sender " << t << " number " << n << " instead of " << next[t]);
      if (n < sent[e][t].size()) VH_CHECK(g == sent[e][t][n], "message-altered", g.size() << " of " << sent[e][t][n].size() << " bytes");
      next[t] = n + 1;
      order = vh::Mix(order ^ t);
      vh::Add("delivered");
    }
    VH_CHECK(!rcv->overlap, "callbacks-overlap", "");
    vh::Observed(order ^ vh::Mix(got.size() + vh::HashBytes(got.empty() ? nullptr : got[0].data(), got.empty() ? 0 : got[0].size())));
  }
  vh::Add("refused", static_cast<uint64_t>(refused.load()));
  vh::Add("connections");
  cl->Close();
  VH_CHECK(WaitFor([&] { return ends[0]->ClosedCount() == 1 && ends[1]->ClosedCount() == 1; }), "not-closed", ends[0]->ClosedCount() << " " << ends[1]->ClosedCount());
  VH_CHECK(ends[0]->late == 0 && ends[1]->late == 0, "message-after-close", "");
  lis->StopListening();
  acc->Drop();
  sv.reset(); cl.reset(); con[0].reset(); con[1].reset();
  s.Finish(false);
  g_short = g_buffers = 0;
}

// A plain socket sends frames in arbitrary segments, and sees the exact bytes the library sends.
VH_GROUP(raw_peer, 350, 10000) {
  auto& r = c.rng;
  ChooseFamily(r);
  vh::SetDelays(r.Next(), 60, 150);
  Service s(1 + static_cast<int>(r.Below(3)));
  g_short = r.OneIn(4) ? 1 + static_cast<int>(r.Below(50)) : 0;
  g_buffers = r.OneIn(3) ? 2048 + static_cast<int>(r.Below(8192)) : 0;
  auto acc = std::make_shared<Accepted>();
  auto lis = tcp::Listener::MakeShared(*s.a, [acc](tcp::ConnectionPtr p) { acc->Add(p); }, AnyPort(r));
  Raw raw;
  VH_CHECK(raw.Connect(lis->ListeningPort()), "connect-refused", errno);
  VH_CHECK(WaitFor([&] { return acc->Count() == 1; }), "not-accepted", "");
  auto con = acc->At(0);
  if (!con) return;
  auto end = std::make_shared<End>();
  bool echo = r.OneIn(3);
  std::weak_ptr<tcp::Connection> weak = con;
  if (echo) end->on_message = [weak](const Bytes& b) { if (auto p = weak.lock()) p->Send(tcp::Message(b.begin(), b.end())); };
  Start(con, end);
  std::vector<Bytes> in, out;
  Bytes stream, want;
  for (size_t n = 1 + r.Below(8); n--;) {
    in.push_back(r.ByteVec(r.OneIn(40) && !g_short ? tcp::Connection::MaxMessageSize() : AnySize(r, !g_short)));
    auto f = Frame(in.back());
    stream.insert(stream.end(), f.begin(), f.end());
  }
  if (!echo) for (size_t n = r.Below(8); n--;) out.push_back(r.ByteVec(AnySize(r, !g_short)));
  else out = in;
  for (auto& m : out) { auto f = Frame(m); want.insert(want.end(), f.begin(), f.end()); }
  std::thread writer([&, seed = r.Next()] {
    vh::Rng lr(seed);
    size_t at = 0;
    int style = static_cast<int>(lr.Below(4));
    int pauses = 0;
    while (at < stream.size()) {
      size_t left = stream.size() - at, n = style == 0 && stream.size() < 3000 ? 1 : style == 1 ? 1 + lr.Below(std::min<size_t>(left, 7)) : style == 2 ? left : 1 + lr.Below(left);
      if (style == 1 && stream.size() > 20000) n = std::min<size_t>(left, 1 + lr.Below(20000));
      if (!raw.Write(stream.data() + at, n)) break;
      at += n;
      if (++pauses < 60 && lr.OneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(400)));
      vh::Add("segments");
    }
  });
  std::thread sender([&] { if (!echo) for (auto& m : out) con->Send(tcp::Message(m.begin(), m.end())); });
  Bytes seen = raw.Read(want.size(), 30000, r.Coin() ? 65536 : 1 + r.Below(3000));
  writer.join();
  sender.join();
  VH_CHECK(seen == want, "wire-bytes", seen.size() << " of " << want.size() << (echo ? " echoed" : ""));
  bool all = WaitFor([&] { return end->Count() >= in.size() || end->ClosedCount(); }, 30000);
  auto got = end->Got();
  VH_CHECK(all && got == in, "message-lost", got.size() << " of " << in.size() << " messages");
  // the refusals put nothing on the wire
  vh::Outcome([&] { con->Send(tcp::Message()); });
  vh::Outcome([&] { con->Send(tcp::Message(tcp::Connection::MaxMessageSize() + 1, 'x')); });
  Bytes last = r.ByteVec(1 + r.Below(5));
  con->Send(tcp::Message(last.begin(), last.end()));
  VH_CHECK(raw.Read(last.size() + 4, 20000) == Frame(last), "wire-bytes", "after refusals");
  raw.Close();
  VH_CHECK(WaitFor([&] { return end->ClosedCount() == 1; }), "not-closed", "");
  VH_CHECK(end->late == 0 && !end->overlap, "message-after-close", "");
  vh::Add("raw_in", in.size());
  vh::Add("raw_out", out.size());
  vh::Observed(vh::HashBytes(stream.data(), stream.size()) ^ want.size());
  lis->StopListening();
  acc->Drop();
  con.reset();
  s.Finish(false);
  g_short = g_buffers = 0;
}
