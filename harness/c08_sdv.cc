#include "sdv_model.h"
#include "maidsafe/common/serialisation/serialisation.h"
using namespace sdv;
namespace {
std::set<std::string> g_cover;
void Flush(const std::set<std::string>& s) { for (auto& x : s) if (g_cover.insert(x).second) vh::Add(("rule_" + x).c_str()); }
}  // namespace
VH_GROUP(restored, 2000, 100000) {
  auto& r = c.rng;
  World w = World::Random(r);
  Model m[2];
  std::set<std::string> cover;
  std::unique_ptr<Sdv> s[2];
  std::string trace;
  for (int k = 0; k < 2; ++k) {
    m[k].max_v = 1 + r.Below(r.Coin() ? 6 : 14);
    m[k].max_b = 1 + r.Below(r.Coin() ? 3 : 8);
    m[k].cover = &cover;
    s[k].reset(new Sdv(m[k].max_v, m[k].max_b));
    trace += std::to_string(m[k].max_v) + "/" + std::to_string(m[k].max_b) + " ";
  }
  int steps = 20 + r.Below(40);
  for (int i = 0; i < steps; ++i) {
    int k = r.Below(2);
    int op = r.Below(20);
    if (op < 14) {
      trace = Step(*s[k], m[k], w, r, trace + " @" + std::to_string(k));
    } else if (op < 16) {  // written and read back
      trace += " restore" + std::to_string(k);
      auto o = vh::OutcomeCode([&] {
        auto bytes = s[k]->Serialise();
        Same(*s[k], m[k], w.names, trace + " (after serialising)");
        VH_CHECK(bytes == s[k]->Serialise(), "serialise-not-deterministic", trace);
        std::unique_ptr<Sdv> n(new Sdv(bytes));
        if (r.Coin()) s[k]->clear();  // nothing may lead back into the original
        s[k] = std::move(n);
      });
      VH_CHECK(o.empty(), "restore-refused", trace << " gave " << o << " | model " << m[k].Text());
      vh::Add(m[k].parent.empty() ? "restored_empty" : "restored");
      int fronts = 0;
      for (auto& p : m[k].parent) fronts += m[k].Front(p.first);
      if (fronts > 1) vh::Add("restored_with_orphans");
    } else if (op < 17) {
      trace += " swap";
      using maidsafe::swap;
      if (r.OneIn(6)) { swap(*s[k], *s[k]); trace += "-self"; }
      else { swap(*s[0], *s[1]); std::swap(m[0], m[1]); }
      vh::Add("swaps");
    } else if (op < 18 && r.OneIn(3)) {
      uint32_t v = 1 + r.Below(9), b = 1 + r.Below(5);
      if (r.OneIn(4)) { v = static_cast<uint32_t>(250 + r.Below(r.Coin() ? 70000 : 4294000000u)); b = static_cast<uint32_t>(250 + r.Below(r.Coin() ? 70000 : 4294000000u)); }
      trace += " assign" + std::to_string(k);
      *s[k] = {v, b};
      m[k].Clear(); m[k].max_v = v; m[k].max_b = b;
    } else {  // merge a history into another, or a copy of itself
      int from = r.OneIn(4) ? k : 1 - k;
      trace += " apply" + std::to_string(from) + "->" + std::to_string(k);
      auto bytes = s[from]->Serialise();
      Model before = m[k];
      Result want = m[k].Apply(m[from]);
      auto got = vh::OutcomeCode([&] { s[k]->ApplySerialised(bytes); });
      VH_CHECK(got == want.error, "apply-result", trace << " gave " << got << " want " << want.error << " | " << before.Text() << " + " << m[from].Text());
      vh::Add(want.error.empty() ? "applied" : "apply_refused");
      if (before.parent.empty()) vh::Add("applied_to_empty");
    }
    for (int j = 0; j < 2; ++j) Same(*s[j], m[j], w.names, trace + " (" + std::to_string(j) + ")");
  }
  Flush(cover);
  vh::Observed(vh::HashStr(m[0].Text() + m[1].Text()));
  if (c.index < 2) vh::Sample(trace);
}
// more versions than a byte counts
VH_GROUP(many_versions, 12, 200) {
  auto& r = c.rng;
  Model m;
  m.max_v = 250 + static_cast<uint32_t>(r.Below(c.thorough ? 2000 : 400));
  m.max_b = r.Coin() ? 1 + static_cast<uint32_t>(r.Below(10)) : 20 + static_cast<uint32_t>(r.Below(300));
  Sdv s(m.max_v, m.max_b);
  uint64_t index = r.OneIn(4) ? 0xffffff00 : r.OneIn(4) ? 0x7fffffffffffff00 : 0;
  std::string trace = "many " + std::to_string(m.max_v) + "/" + std::to_string(m.max_b);
  Grow(s, m, r, static_cast<int>(m.max_v) / 2 + static_cast<int>(r.Below(m.max_v)), &index, trace);
  std::vector<Name> some;
  for (auto& p : m.parent) if (r.OneIn(10)) some.push_back(p.first);
  for (auto& t : m.Tips()) some.push_back(t);
  auto bytes = s.Serialise();
  VH_CHECK(bytes == s.Serialise(), "serialise-not-deterministic", trace);
  vh::Beat();
  Sdv back(bytes);
  Same(back, m, some, trace + " restored");
  VH_CHECK(back.Serialise() == bytes, "serialise-not-deterministic", trace + " restored");
  // merged into a history which has only a part of it
  Sdv other(m.max_v, m.max_b);
  Model om;
  om.max_v = m.max_v; om.max_b = m.max_b;
  uint64_t oi = index - 200;
  Grow(other, om, r, 100, &oi, trace + " other");
  Model mm = om;
  auto want = mm.Apply(m);
  auto got = vh::OutcomeCode([&] { other.ApplySerialised(bytes); });
  VH_CHECK(got == want.error, "apply-result", trace << " gave " << got << " want " << want.error);
  for (auto& t : mm.Tips()) some.push_back(t);
  Same(other, want.error.empty() ? mm : om, some, trace + " merged");
  vh::Add("versions_in_large_histories", m.parent.size());
  vh::Observed(vh::HashStr(m.Text()));
}
// two descendants of one history which grew apart are merged both ways
VH_GROUP(diverged, 700, 40000) {
  auto& r = c.rng;
  World w = World::Random(r);
  Model m[2];
  std::unique_ptr<Sdv> s[2];
  std::set<std::string> cover;
  m[0].max_v = 4 + r.Below(20); m[0].max_b = 2 + r.Below(8);
  m[0].cover = &cover;
  s[0].reset(new Sdv(m[0].max_v, m[0].max_b));
  std::string trace = std::to_string(m[0].max_v) + "/" + std::to_string(m[0].max_b);
  int n = r.Below(20);
  for (int i = 0; i < n; ++i) trace = Step(*s[0], m[0], w, r, trace);
  s[1].reset(new Sdv(s[0]->Serialise()));
  m[1] = m[0];
  for (int i = 0; i < 10; ++i) { int k = r.Below(2); trace = Step(*s[k], m[k], w, r, trace + " @" + std::to_string(k)); }
  auto b0 = s[0]->Serialise(), b1 = s[1]->Serialise();
  Model x0 = m[0], x1 = m[1];
  auto w0 = x0.Apply(m[1]), w1 = x1.Apply(m[0]);
  auto g0 = vh::OutcomeCode([&] { s[0]->ApplySerialised(b1); }), g1 = vh::OutcomeCode([&] { s[1]->ApplySerialised(b0); });
  VH_CHECK(g0 == w0.error && g1 == w1.error, "apply-result", trace << " gave " << g0 << " and " << g1 << " want " << w0.error << " and " << w1.error);
  m[0] = x0; m[1] = x1;
  for (int j = 0; j < 2; ++j) Same(*s[j], m[j], w.names, trace + " merged " + std::to_string(j));
  // a merge that fits its limits is the union of both
  if (w0.error.empty() && w1.error.empty()) vh::Add("merged_both_ways");
  for (int i = 0; i < 6; ++i) { int k = r.Below(2); trace = Step(*s[k], m[k], w, r, trace + " @" + std::to_string(k)); Same(*s[k], m[k], w.names, trace); }
  // bytes which are no history: refused, nothing changed
  for (int i = 0; i < 3; ++i) {
    auto bytes = b0->string();
    if (r.Coin() || bytes.empty()) bytes.resize(r.Below(bytes.size())); else if (bytes.size() > 8) { for (int q = 0; q < 8; ++q) bytes[q] = 0; }
    if (bytes.empty()) continue;
    Sdv::serialised_type bad{maidsafe::NonEmptyString(bytes)};
    auto o = vh::Outcome([&] { s[0]->ApplySerialised(bad); });
    VH_CHECK(o == "lib", "damaged-merged", o << " " << bytes.size());
    o = vh::Outcome([&] { Sdv y(bad); });
    VH_CHECK(o == "lib", "damaged-parsed", o << " " << bytes.size());
    Same(*s[0], m[0], w.names, trace + " after refused merge");
  }
  Flush(cover);
  vh::Observed(vh::HashStr(trace));
}
