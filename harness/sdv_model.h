// Reference model of StructuredDataVersions, written from the class's documentation: a set of versions
// with the parent each was given, one of the parentless-in-the-tree ones being the root.
#ifndef VERIF_SDV_MODEL_H_
#define VERIF_SDV_MODEL_H_
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "vh_ms.h"
namespace sdv {
typedef maidsafe::StructuredDataVersions Sdv;
typedef Sdv::VersionName Vn;
struct Name {
  uint64_t index = ~uint64_t(0);
  int id = -1;  // which identity of the universe; -1: none
  bool None() const { return id < 0; }
  friend bool operator<(const Name& a, const Name& b) { return std::tie(a.index, a.id) < std::tie(b.index, b.id); }
  friend bool operator==(const Name& a, const Name& b) { return a.index == b.index && a.id == b.id; }
};
const Name kNone;
inline std::string Str(const Name& n) { return n.None() ? "-" : std::to_string(n.index) + static_cast<char>('a' + n.id); }
// identities ordered as their numbers are, first differing at varying positions
inline const std::vector<maidsafe::Identity>& Universe() {
  static const std::vector<maidsafe::Identity> u = [] {
    std::vector<maidsafe::Identity> r;
    for (int i = 0; i < 26; ++i) {
      std::vector<unsigned char> v(64, 0x55);
      v[i % 3 == 0 ? 0 : i % 3 == 1 ? 31 : 63] = 0x60;
      v[0] = static_cast<unsigned char>(i / 3 * 4 + (i % 3 == 2 ? 1 : i % 3 == 1 ? 1 : 0));
      v[63] = static_cast<unsigned char>(i);
      r.emplace_back(v);
    }
    std::sort(r.begin(), r.end());
    return r;
  }();
  return u;
}
inline Vn Real(const Name& n) { return n.None() ? Vn() : Vn(n.index, Universe()[n.id]); }
inline Name FromReal(const Vn& v) {
  if (!v.id.IsInitialised()) return kNone;
  Name n; n.index = v.index;
  for (size_t i = 0; i < Universe().size(); ++i) if (Universe()[i] == v.id) { n.id = static_cast<int>(i); return n; }
  n.id = 99;
  return n;
}
struct Result {
  std::string error;  // as OutcomeCode gives it
  Name removed;       // kNone: nothing
  bool operator==(const Result& o) const { return error == o.error && removed == o.removed; }
};
const std::string kIa = vh::Code(maidsafe::CommonErrors::invalid_argument);
const std::string kCel = vh::Code(maidsafe::CommonErrors::cannot_exceed_limit);
const std::string kNse = vh::Code(maidsafe::CommonErrors::no_such_element);

struct Model {
  uint32_t max_v = 1, max_b = 1;
  std::map<Name, Name> parent;
  Name root;
  // coverage of the interesting rules
  std::set<std::string>* cover = nullptr;
  void Cover(const char* s) { if (cover) cover->insert(s); }

  bool Has(const Name& n) const { return !n.None() && parent.count(n); }
  bool Front(const Name& n) const { return !Has(parent.at(n)); }
  std::vector<Name> Children(const Name& n) const { std::vector<Name> r; for (auto& p : parent) if (p.second == n) r.push_back(p.first); return r; }
  bool Tip(const Name& n) const { return Children(n).empty(); }
  std::vector<Name> Tips() const {
    std::set<Name> inner;
    std::vector<Name> r;
    for (auto& p : parent) inner.insert(p.second);
    for (auto& p : parent) if (!inner.count(p.first)) r.push_back(p.first);
    std::reverse(r.begin(), r.end());
    return r;
  }
  Name FrontOf(Name n) const { while (!Front(n)) n = parent.at(n); return n; }
  Name LowestOrphan() const { for (auto& p : parent) if (Front(p.first) && !(p.first == root)) return p.first; return kNone; }

  Result Put(const Name& old, const Name& nw) {
    Result ok;
    if (nw.None()) { Cover("put-unset"); return {kIa, kNone}; }
    if (Has(nw)) {
      if (parent[nw] == old) { Cover("put-again"); return ok; }
      Cover("put-other-parent");
      return {kIa, kNone};
    }
    if (nw == old) { Cover("put-own-parent"); return {kIa, kNone}; }
    bool is_root = old.None() || parent.empty() || nw.index == 0;
    if (is_root && !root.None() && parent[root].None()) { Cover("second-root"); return {kIa, kNone}; }
    bool in_tree = !is_root && Has(old);
    std::vector<Name> adopted;
    bool adopts_root = false;
    for (auto& p : parent) if (p.second == nw) { adopted.push_back(p.first); if (p.first == root) adopts_root = true; }
    if (in_tree) {
      Name front = FrontOf(old);
      for (auto& a : adopted) if (a == front) {
        Cover(front == old ? "cycle-of-two" : adopted.size() > 1 ? "cycle-long-several" : "cycle-long");
        return {kIa, kNone};
      }
    }
    bool orphan = !is_root && !in_tree;
    if (orphan && root.index == 0 && old.index == 0) { Cover("implies-second-root"); return {kIa, kNone}; }
    bool erase = false;
    if (parent.size() == max_v) {
      if (adopts_root || is_root) { Cover(adopts_root ? "evict-new-parent-of-root" : "evict-new-root"); return {"", nw}; }
      erase = true;
    }
    bool grows = adopted.empty() && !(in_tree && Tip(old));
    if (grows && Tips().size() == max_b) {
      if (!is_root && Tip(root)) { Cover("branch-limit-drops-root"); erase = true; }
      else { Cover(is_root ? "branch-limit-root" : "branch-limit"); return {kCel, kNone}; }
    } else if (Tips().size() == max_b && !in_tree) { Cover(adopts_root ? "at-branch-limit-adopts-root" : "at-branch-limit-adopts"); }
    parent[nw] = old;
    if (is_root) { if (!root.None() && !adopts_root) Cover("root-displaced"); root = nw; }
    else if (adopts_root) { Cover(orphan ? "orphan-becomes-root" : "root-joins-orphan-branch"); root = orphan ? nw : FrontOf(root); }
    else if (erase) {
      ok.removed = root;
      auto ch = Children(root);
      Name gone = root;
      parent.erase(root);
      if (ch.empty()) { root = kNone; root = LowestOrphan(); Cover("root-from-orphans"); }
      else { root = ch[0]; Cover(ch.size() > 1 ? "root-from-children" : "root-from-child"); }
      (void)gone;
    }
    if (!adopted.empty() && !adopts_root) Cover("adopts-orphans");
    if (orphan) Cover("orphan");
    return ok;
  }
  Result Delete(Name tip) {
    if (!Has(tip)) return {kNse, kNone};
    if (!Tip(tip)) return {kIa, kNone};
    for (;;) {
      Name p = parent[tip];
      bool front = Front(tip), was_root = tip == root;
      parent.erase(tip);
      if (front) {
        if (was_root) { root = kNone; root = LowestOrphan(); Cover("delete-root-branch"); } else Cover("delete-orphan-branch");
        return Result();
      }
      if (!Tip(p)) { Cover("delete-to-fork"); return Result(); }
      tip = p;
    }
  }
  std::vector<Name> Branch(Name tip) const { std::vector<Name> r; for (;;) { r.push_back(tip); if (Front(tip)) return r; tip = parent.at(tip); } }
  void Clear() { parent.clear(); root = kNone; }
  // the old tree's versions, parents first, put into the incoming tree
  Result Apply(const Model& incoming) {
    Model m = incoming;
    m.cover = cover;
    std::vector<Name> order;
    std::vector<std::pair<Name, Name>> fronts;  // (absent parent, front)
    std::function<void(const Name&)> walk = [&](const Name& n) { order.push_back(n); for (auto& ch : Children(n)) walk(ch); };
    if (!root.None()) walk(root);
    for (auto& p : parent) if (Front(p.first) && !(p.first == root)) fronts.push_back({p.second, p.first});
    std::sort(fronts.begin(), fronts.end());
    for (auto& f : fronts) walk(f.second);
    for (auto& n : order) { auto r = m.Put(parent[n], n); if (!r.error.empty()) return r; if (!r.removed.None()) Cover("apply-evicts"); }
    *this = m;
    return Result();
  }
  std::string Text() const {
    std::string s = std::to_string(max_v) + "/" + std::to_string(max_b) + " root " + Str(root) + ":";
    for (auto& p : parent) s += " " + Str(p.second) + ">" + Str(p.first);
    return s;
  }
};
// everything a user can see of a history
inline void Same(const Sdv& s, const Model& m, const std::vector<Name>& universe, const std::string& trace) {
  VH_CHECK(s.max_versions() == m.max_v && s.max_branches() == m.max_b, "limits", trace);
  std::vector<Name> tips;
  auto o = vh::OutcomeCode([&] { for (auto& v : s.Get()) tips.push_back(FromReal(v)); });
  VH_CHECK(o.empty() && tips == m.Tips(), "tips", trace << " | model " << m.Text() << " got " << [&] { std::string t; for (auto& n : tips) t += " " + Str(n); return t; }());
  VH_CHECK(tips.size() <= m.max_b && m.parent.size() <= m.max_v, "limits-exceeded", trace);
  for (auto& n : universe) {
    std::vector<Name> b;
    o = vh::OutcomeCode([&] { for (auto& v : s.GetBranch(Real(n))) b.push_back(FromReal(v)); });
    if (!m.Has(n)) VH_CHECK(o == kNse, "branch-absent", trace << " " << Str(n) << " gave " << o);
    else if (!m.Tip(n)) VH_CHECK(o == kIa, "branch-of-inner", trace << " " << Str(n) << " gave " << o);
    else VH_CHECK(o.empty() && b == m.Branch(n), "branch", trace << " " << Str(n) << " | model " << m.Text() << " gave " << o << [&] { std::string t; for (auto& x : b) t += " " + Str(x); return t; }());
  }
}
inline Result DoPut(Sdv& s, const Name& old, const Name& nw) {
  Result r;
  r.error = vh::OutcomeCode([&] { auto x = s.Put(Real(old), Real(nw)); if (x) r.removed = FromReal(*x); });
  return r;
}
inline Result DoDelete(Sdv& s, const Name& n) { Result r; r.error = vh::OutcomeCode([&] { s.DeleteBranchUntilFork(Real(n)); }); return r; }
struct World {
  std::vector<Name> names;  // names[0..] usable; index 0 only for roots
  static World Random(vh::Rng& r) {
    World w;
    int n = 4 + r.Below(10);
    std::set<Name> s;
    bool zero = r.Coin();
    while (static_cast<int>(s.size()) < n) { Name x; x.index = zero && s.empty() ? 0 : 1 + r.Below(r.Coin() ? 4 : 9); x.id = r.Below(10); s.insert(x); }
    w.names.assign(s.begin(), s.end());
    if (r.OneIn(3)) {  // numbers of every size, in the same order
      static const uint64_t kBig[] = {1, 255, 256, 65535, 65536, 0x7fffffff, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000001, 0xfffffffffffffffe};
      std::set<uint64_t> in;
      uint64_t at = r.Below(2);
      std::map<uint64_t, uint64_t> to;
      for (auto& x : w.names) if (x.index) { if (!to.count(x.index)) to[x.index] = kBig[at++]; x.index = to[x.index]; }
    }
    return w;
  }
  Name Any(vh::Rng& r) const { return names[r.Below(names.size())]; }
};
// one random operation on both; returns its text
inline std::string Step(Sdv& s, Model& m, const World& w, vh::Rng& r, const std::string& before) {
  std::string t;
  int op = r.Below(20);
  if (op < 15) {
    Name nw = w.Any(r), old = w.Any(r);
    if (m.parent.empty() && r.Coin()) old = kNone;
    else if (r.OneIn(10)) old = kNone;
    else if (!m.parent.empty() && r.Coin()) { auto it = m.parent.begin(); std::advance(it, r.Below(m.parent.size())); old = it->first; }
    else if (!m.parent.empty() && r.OneIn(3)) { auto it = m.parent.begin(); std::advance(it, r.Below(m.parent.size())); nw = it->second.None() ? nw : it->second; }
    if (nw.index == 0) old = kNone;  // only a root may have index 0
    if (r.OneIn(60)) nw = kNone;
    t = before + " put(" + Str(old) + "," + Str(nw) + ")";
    Result want = m.Put(old, nw), got = DoPut(s, old, nw);
    VH_CHECK(got == want, "put-result", t << " | model now " << m.Text() << " got " << got.error << "/" << Str(got.removed) << " want " << want.error << "/" << Str(want.removed));
    vh::Add(want.error.empty() ? "puts_accepted" : "puts_refused");
  } else if (op < 19) {
    Name n = w.Any(r);
    auto tips = m.Tips();
    if (!tips.empty() && !r.OneIn(4)) n = r.Pick(tips);
    t = before + " del(" + Str(n) + ")";
    Result want = m.Delete(n), got = DoDelete(s, n);
    VH_CHECK(got == want, "delete-result", t << " got " << got.error << " want " << want.error);
    vh::Add("deletes");
  } else if (r.OneIn(4)) {
    t = before + " clear";
    m.Clear();
    s.clear();
  } else {
    t = before;
  }
  return t;
}
// a history of many versions: mostly a few growing branches
inline void Grow(Sdv& s, Model& m, vh::Rng& r, int puts, uint64_t* index, const std::string& trace) {
  std::vector<Name> live = m.Tips();
  for (int i = 0; i < puts; ++i) {
    Name nw, old;
    nw.index = ++*index;
    nw.id = static_cast<int>(r.Below(26));
    if (m.parent.empty() || live.empty()) {
      if (!m.parent.empty()) live = m.Tips();
      if (!live.empty()) old = live[0];
    } else {
      size_t k = r.OneIn(12) ? r.Below(live.size()) : live.size() - 1;
      old = live[k];
      if (r.OneIn(40)) { auto it = m.parent.begin(); std::advance(it, r.Below(m.parent.size())); old = it->first; }
      if (r.OneIn(300)) { old.index = *index + 5; old.id = 3; }  // not there (yet)
    }
    Result want = m.Put(old, nw), got = DoPut(s, old, nw);
    VH_CHECK(got == want, "put-result", trace << " put(" << Str(old) << "," << Str(nw) << ") got " << got.error << "/" << Str(got.removed) << " want " << want.error << "/" << Str(want.removed));
    if (want.error.empty()) {
      bool was = false;
      for (auto& l : live) if (l == old) { l = nw; was = true; break; }
      if (!was) { live.push_back(nw); if (live.size() > 12) live.erase(live.begin()); }
    } else {
      live = m.Tips();
    }
    if (r.OneIn(200)) {
      auto tips = m.Tips();
      Name n = r.Pick(tips);
      Result w2 = m.Delete(n), g2 = DoDelete(s, n);
      VH_CHECK(g2 == w2, "delete-result", trace << " del(" << Str(n) << ") got " << g2.error << " want " << w2.error);
      live = m.Tips();
    }
  }
}
}  // namespace sdv
#endif
