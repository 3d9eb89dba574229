#include "sdv_model.h"
using namespace sdv;
namespace {
std::set<std::string> g_cover;
std::mutex g_cover_mutex;
void Flush(const std::set<std::string>& s) {
  std::lock_guard<std::mutex> l(g_cover_mutex);
  for (auto& x : s) if (g_cover.insert(x).second) vh::Add(("rule_" + x).c_str());
}
}  // namespace
// random operation sequences over small universes and limits
VH_GROUP(histories, 5000, 200000) {
  auto& r = c.rng;
  World w = World::Random(r);
  Model m;
  m.max_v = 1 + r.Below(r.Coin() ? 5 : 12);
  m.max_b = 1 + r.Below(r.Coin() ? 3 : 6);
  std::set<std::string> cover;
  m.cover = &cover;
  Sdv s(m.max_v, m.max_b);
  std::string trace = std::to_string(m.max_v) + "/" + std::to_string(m.max_b);
  int steps = 6 + r.Below(40);
  for (int i = 0; i < steps; ++i) {
    trace = Step(s, m, w, r, trace);
    Same(s, m, w.names, trace);
  }
  for (auto& x : cover) vh::Observed(vh::HashStr(x));
  Flush(cover);
  vh::Observed(vh::HashStr(m.Text()));
  if (c.index < 3) vh::Sample(trace);
}
// every sequence of puts of three or four operations over three versions (limits 1..4, 1..3)
VH_GROUP(short_sequences, 120, 1200) {
  std::vector<Name> names;
  for (int i = 0; i < 3; ++i) { Name n; n.index = c.index % 2 ? 1 : 1 + i; n.id = (i * 7 + c.index / 2) % 10; names.push_back(n); }
  if (c.index % 3 == 0) names[0].index = 0;
  std::vector<std::pair<Name, Name>> ops;  // second none: delete
  for (auto& a : names) { ops.push_back({kNone, a}); for (auto& b : names) if (a.index) ops.push_back({b, a}); }
  const size_t n_put = ops.size();
  for (auto& a : names) ops.push_back({a, kNone});
  Model m0;
  m0.max_v = 1 + c.rng.Below(4);
  m0.max_b = 1 + c.rng.Below(3);
  int len = 4;
  uint64_t total = 1;
  for (int i = 0; i < len; ++i) total *= ops.size();
  uint64_t stride = c.thorough ? 7 : 61, start = c.rng.Below(stride);
  for (uint64_t code = start; code < total; code += stride) {
    Model m = m0;
    Sdv s(m.max_v, m.max_b);
    std::string trace = std::to_string(m.max_v) + "/" + std::to_string(m.max_b);
    uint64_t x = code;
    for (int i = 0; i < len; ++i) {
      size_t k = x % ops.size();
      x /= ops.size();
      Result want, got;
      if (k < n_put) { trace += " put(" + Str(ops[k].first) + "," + Str(ops[k].second) + ")"; want = m.Put(ops[k].first, ops[k].second); got = DoPut(s, ops[k].first, ops[k].second); }
      else { trace += " del(" + Str(ops[k].first) + ")"; want = m.Delete(ops[k].first); got = DoDelete(s, ops[k].first); }
      VH_CHECK(got == want, k < n_put ? "put-result" : "delete-result", trace << " got " << got.error << "/" << Str(got.removed) << " want " << want.error << "/" << Str(want.removed));
    }
    Same(s, m, names, trace);
    vh::Observed(vh::HashStr(m.Text()));
    vh::Add("short_sequences");
  }
}
// long branches and wide forks
VH_GROUP(shapes, 60, 1000) {
  auto& r = c.rng;
  Model m;
  m.max_v = 20 + r.Below(60);
  m.max_b = 1 + r.Below(20);
  std::set<std::string> cover;
  m.cover = &cover;
  Sdv s(m.max_v, m.max_b);
  World w;
  for (int i = 0; i < 26; ++i) for (int k = 1; k < 6; ++k) { Name n; n.index = k * (r.OneIn(5) ? 3 : 1); n.id = i; w.names.push_back(n); }
  std::sort(w.names.begin(), w.names.end());
  w.names.erase(std::unique(w.names.begin(), w.names.end()), w.names.end());
  std::string trace = std::to_string(m.max_v) + "/" + std::to_string(m.max_b);
  for (int i = 0; i < 120; ++i) {
    trace = Step(s, m, w, r, trace);
    if (i % 10 == 9) Same(s, m, w.names, trace);
  }
  Same(s, m, w.names, trace);
  Flush(cover);
  vh::Observed(vh::HashStr(m.Text()));
}
// more versions and branches than a byte counts
VH_GROUP(many_versions, 16, 200) {
  auto& r = c.rng;
  Model m;
  m.max_v = r.Coin() ? 250 + static_cast<uint32_t>(r.Below(20)) : 300 + static_cast<uint32_t>(r.Below(c.thorough ? 3000 : 500));
  m.max_b = r.Coin() ? 1 + static_cast<uint32_t>(r.Below(10)) : 20 + static_cast<uint32_t>(r.Below(300));
  Sdv s(m.max_v, m.max_b);
  uint64_t index = r.OneIn(4) ? 0xffffff00 : r.OneIn(4) ? 0x7fffffffffffff00 : 0;
  std::string trace = "many " + std::to_string(m.max_v) + "/" + std::to_string(m.max_b);
  for (int i = 0; i < 3; ++i) {
    Grow(s, m, r, static_cast<int>(m.max_v) / 2, &index, trace);
    std::vector<Name> some;
    for (auto& p : m.parent) if (r.OneIn(10)) some.push_back(p.first);
    for (auto& t : m.Tips()) some.push_back(t);
    vh::Beat();
    Same(s, m, some, trace);
  }
  // wide: every version on the same parent
  Model wm;
  wm.max_v = 400 + static_cast<uint32_t>(r.Below(100));
  wm.max_b = 250 + static_cast<uint32_t>(r.Below(100));
  Sdv ws(wm.max_v, wm.max_b);
  Name root, x;
  root.index = 1; root.id = 0;
  for (uint64_t i = 0; i < 370; ++i) {
    x.index = 1 + i; x.id = static_cast<int>(i % 26);
    Name old = i == 0 ? kNone : root;
    if (i == 0) x = root;
    Result want = wm.Put(old, x), got = DoPut(ws, old, x);
    VH_CHECK(got == want, "put-result", "wide " << wm.max_v << "/" << wm.max_b << " " << i << " got " << got.error << " want " << want.error);
  }
  Same(ws, wm, wm.Tips(), "wide");
  for (auto& t : wm.Tips()) if (r.Coin()) { Result want = wm.Delete(t), got = DoDelete(ws, t); VH_CHECK(got == want, "delete-result", "wide " << Str(t)); }
  Same(ws, wm, wm.Tips(), "wide, after deletions");
  vh::Add("versions_in_large_histories", m.parent.size());
  vh::Observed(vh::HashStr(m.Text()));
}
// limits and names
VH_GROUP(names, 100, 2000) {
  auto& r = c.rng;
  VH_CHECK(vh::OutcomeCode([&] { Sdv(0, 1 + r.Below(5)); }) == kIa && vh::OutcomeCode([&] { Sdv(1 + r.Below(5), 0); }) == kIa && vh::OutcomeCode([&] { Sdv(0, 0); }) == kIa, "zero-limit", "");
  VH_CHECK(vh::OutcomeCode([&] { Sdv x(1, 1); Sdv y(0xffffffffu, 0xffffffffu); VH_CHECK(y.max_versions() == 0xffffffffu && y.max_branches() == 0xffffffffu && y.Get().empty(), "limits", ""); }).empty(), "limit-refused", "");
  std::vector<Name> n;
  for (int i = 0; i < 8; ++i) { Name x; if (!r.OneIn(5)) { x.index = r.OneIn(4) ? r.Next() : r.Below(3); x.id = r.Below(4); } n.push_back(x); }
  for (auto& a : n) for (auto& b : n) {
    Vn x = Real(a), y = Real(b);
    // an unset id is lower than every other
    bool eq = a == b, lt = a < b;
    VH_CHECK((x == y) == eq && (x != y) == !eq && (x < y) == lt && (y > x) == lt && (x <= y) == (lt || eq) && (x >= y) == !lt, "name-order", Str(a) << " " << Str(b));
    Vn p = x, q = y;
    swap(p, q);
    VH_CHECK(p == y && q == x, "name-swap", Str(a));
    Vn moved(std::move(p)); Vn assigned; assigned = q; Vn assigned2; assigned2 = std::move(q);
    VH_CHECK(moved == y && assigned == x && assigned2 == x && moved.index == y.index, "name-copy", Str(a));
    x.forking_child_count = 7;
    VH_CHECK(x == Real(a) && !(x < Real(a)), "name-ignores-child-count", Str(a));
  }
  vh::Observed(r.Next());
}
