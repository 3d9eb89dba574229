#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "cereal/types/memory.hpp"
#include "ref_sha.h"
#include "vh_ms.h"
#include "bounded_new.h"

using namespace maidsafe;  // NOLINT
namespace {
typedef std::vector<unsigned char> V;
struct Model { bool init = false; V name, value; };
Identity Id(const V& v) { return Identity(v); }
const std::string kUninit = vh::Code(CommonErrors::uninitialised);

template <typename T> struct Kind;
template <> struct Kind<ImmutableData> { static const uint32_t id = 0; static const bool bound = true; };
template <> struct Kind<MutableData> { static const uint32_t id = 1; static const bool bound = false; };

template <typename T>
void Same(const T& d, const Model& m, const std::string& trace) {
  VH_CHECK(d.IsInitialised() == m.init, "initialised", trace);
  if (m.init && d.IsInitialised()) {
    auto o = vh::Outcome([&] {
      VH_CHECK(d.Name().string() == m.name, "name", trace << " " << vh::Hex(d.Name().string()) << " want " << vh::Hex(m.name));
      VH_CHECK(d.Value().string() == m.value, "value", trace << " " << d.Value().size() << " want " << m.value.size());
      VH_CHECK(d.TypeId() == DataTypeId(Kind<T>::id), "type-id", trace);
      auto nt = d.NameAndType();
      VH_CHECK(nt.name == d.Name() && nt.type_id == d.TypeId(), "name-and-type", trace);
      if (Kind<T>::bound) VH_CHECK(d.Name().string() == ref::Sha512(d.Value().string()), "name-is-not-digest", trace);
    });
    VH_CHECK(o.empty(), "accessor-throws", trace << " " << o);
  } else if (!m.init) {
    VH_CHECK(vh::OutcomeCode([&] { d.Name(); }) == kUninit && vh::OutcomeCode([&] { d.Value(); }) == kUninit &&
             vh::OutcomeCode([&] { d.TypeId(); }) == kUninit && vh::OutcomeCode([&] { d.NameAndType(); }) == kUninit &&
             vh::OutcomeCode([&] { Serialise(d); }) == kUninit, "unset-part-readable", trace);
  }
}
template <typename T> T Make(const Model& m);
template <> ImmutableData Make<ImmutableData>(const Model& m) { return ImmutableData(NonEmptyString(m.value)); }
template <> MutableData Make<MutableData>(const Model& m) { return MutableData(Id(m.name), NonEmptyString(m.value)); }
template <typename T>
Model Fresh(vh::Rng& r) {
  Model m;
  m.init = true;
  m.value = r.ByteVec(1 + r.Size(r.OneIn(20) ? 100000 : 400));
  m.name = Kind<T>::bound ? ref::Sha512(m.value) : r.ByteVec(64);
  return m;
}
// the serialised form of a chunk, independent of the chunk classes
SerialisedData Raw(const V& name, const V& value) { return Serialise(name, value); }

template <typename T> void MakeUnset(vh::Rng& r, int k);
template <> void MakeUnset<ImmutableData>(vh::Rng&, int) { ImmutableData x{NonEmptyString()}; }
template <> void MakeUnset<MutableData>(vh::Rng& r, int k) {
  if (k == 0) MutableData x(Identity(), NonEmptyString(r.ByteVec(3)));
  else if (k == 1) MutableData x(Id(r.ByteVec(64)), NonEmptyString());
  else MutableData x{Identity(), NonEmptyString()};
}
template <typename T>
void Slots(vh::Case& c) {
  auto& r = c.rng;
  const int n = 3;
  std::vector<std::unique_ptr<T>> d;
  std::vector<Model> m(n);
  for (int i = 0; i < n; ++i) d.emplace_back(new T());
  std::string trace;
  for (int step = 0; step < 24; ++step) {
    int a = r.Below(n), b = r.Below(n);
    int op = r.Below(11);
    trace += " " + std::to_string(op) + ":" + std::to_string(a) + std::to_string(b);
    switch (op) {
      case 0: m[a] = Fresh<T>(r); d[a].reset(new T(Make<T>(m[a]))); break;
      case 1: m[a] = Fresh<T>(r); *d[a] = Make<T>(m[a]); break;
      case 2: { std::unique_ptr<T> x(new T(*d[b])); Same(*x, m[b], trace); Model mm = m[b]; d[a] = std::move(x); m[a] = mm; break; }
      case 3: *d[a] = *d[b]; m[a] = m[b]; break;
      case 4: {  // taken over: the source is renewed afterwards
        if (a == b) break;
        Model mb = m[b]; d[a].reset(new T(std::move(*d[b]))); m[a] = mb; d[b].reset(new T()); m[b] = Model(); break;
      }
      case 5: { if (a == b) break; *d[a] = std::move(*d[b]); m[a] = m[b]; d[b].reset(new T()); m[b] = Model(); break; }
      case 6: {
        if (!m[b].init) break;
        auto bytes = Serialise(*d[b]);
        VH_CHECK(bytes == Raw(m[b].name, m[b].value), "serialised-form", trace);
        auto o = vh::Outcome([&] { if (r.Coin()) d[a].reset(new T(Parse<T>(bytes))); else { Parse(bytes, *d[a]); } });
        VH_CHECK(o.empty(), "parse-refused", trace << " " << o);
        m[a] = m[b];
        vh::Add("parsed");
        break;
      }
      case 7: {  // through the base class
        if (!m[b].init) break;
        std::unique_ptr<Data> p(new T(*d[b])), q;
        auto bytes = Serialise(p);
        auto o = vh::Outcome([&] { q = Parse<std::unique_ptr<Data>>(bytes); });
        T* t = dynamic_cast<T*>(q.get());
        VH_CHECK(o.empty() && t, "polymorphic-type", trace << " " << o);
        if (t) { Same(*t, m[b], trace); *d[a] = *t; m[a] = m[b]; }
        std::shared_ptr<Data> sp(new T(*d[a])), sq;
        auto b2 = Serialise(sp, sp);
        std::shared_ptr<Data> s2;
        o = vh::Outcome([&] { Parse(b2, sq, s2); });
        VH_CHECK(o.empty() && dynamic_cast<T*>(sq.get()) && sq == s2, "polymorphic-shared", trace << " " << o);
        if (sq && m[a].init) VH_CHECK(sq->Name() == d[a]->Name() && sq->TypeId() == DataTypeId(Kind<T>::id), "polymorphic-shared", trace);
        break;
      }
      case 8: {  // damaged bytes into an existing chunk
        if (!m[b].init) break;
        auto bytes = Raw(m[b].name, m[b].value);
        int how = r.Below(6);
        bool refuse = true;
        V name = m[b].name, value = m[b].value;
        if (how == 0) bytes.resize(r.Below(bytes.size()));
        else if (how == 1) { name[r.Below(64)] ^= 1 << r.Below(8); bytes = Raw(name, value); refuse = Kind<T>::bound; }
        else if (how == 2) { value[r.Below(value.size())] ^= 1 << r.Below(8); bytes = Raw(name, value); refuse = Kind<T>::bound; }
        else if (how == 3) { name = r.ByteVec(r.Coin() ? 63 : 65); bytes = Raw(name, value); }
        else if (how == 4) { value.clear(); bytes = Raw(name, value); }
        else { value.push_back(0); bytes = Raw(name, value); refuse = Kind<T>::bound; }
        std::string o;
        if (r.Coin()) {
          std::unique_ptr<T> x;
          o = vh::Outcome([&] { x.reset(new T(Parse<T>(bytes))); });
          if (x) { Model mm; mm.init = true; mm.name = name; mm.value = value; if (!refuse) Same(*x, mm, trace); }
        } else {
          auto e = vh::OutcomeCode([&] { Parse(bytes, *d[a]); });
          o = e.empty() ? "" : "lib";
          if (!e.empty()) {
            VH_CHECK(e == vh::Code(CommonErrors::parsing_error), "parse-error-kind", trace << " " << e);
          } else { m[a].init = true; m[a].name = name; m[a].value = value; }
        }
        VH_CHECK(o.empty() == !refuse, refuse ? "damaged-accepted" : "altered-refused", trace << " how " << how << " " << o);
        VH_CHECK(o.empty() || o == "lib", "parse-error-kind", trace << " " << o);
        vh::Add(refuse ? "damaged" : "altered");
        break;
      }
      case 9: {  // unset parts
        for (int k = 0; k < 3; ++k) {
          auto o = vh::Outcome([&] { MakeUnset<T>(r, k); });
          VH_CHECK(o == "lib", "unset-parts-accepted", trace << " " << k << " " << o);
        }
        break;
      }
      case 10: { auto& self = *d[a]; *d[a] = self; break; }
    }
    for (int i = 0; i < n; ++i) Same(*d[i], m[i], trace + " slot " + std::to_string(i));
  }
  vh::Observed(vh::HashStr(trace, c.rng.Next()));
}
}  // namespace
VH_GROUP(immutable, 500, 20000) { Slots<ImmutableData>(c); }
VH_GROUP(mutable_, 500, 20000) { Slots<MutableData>(c); }

// one kind's bytes given to a reader of the other
VH_GROUP(crossed, 300, 10000) {
  auto& r = c.rng;
  Model mi = Fresh<ImmutableData>(r), mm = Fresh<MutableData>(r);
  auto im = Make<ImmutableData>(mi);
  auto mu = Make<MutableData>(mm);
  VH_CHECK(im.TypeId() != mu.TypeId(), "type-ids-equal", "");
  auto o = vh::Outcome([&] { Parse<ImmutableData>(Serialise(mu)); });
  VH_CHECK(o == "lib", "other-kind-accepted", o);
  MutableData twin(Id(mi.name), NonEmptyString(mi.value));
  o = vh::Outcome([&] { auto x = Parse<ImmutableData>(Serialise(twin)); Same(x, mi, "twin"); });
  VH_CHECK(o.empty(), "twin", o);
  VH_CHECK(im.NameAndType() != twin.NameAndType() && im.NameAndType() < twin.NameAndType() && im.Name() == twin.Name(), "twin-name-and-type", "");
  // lists of chunks of both kinds through the base class
  std::vector<std::unique_ptr<Data>> list, back;
  std::string kinds;
  std::vector<Model> ms;
  int n = r.Below(6);
  for (int i = 0; i < n; ++i) {
    if (r.Coin()) { ms.push_back(Fresh<ImmutableData>(r)); list.emplace_back(new ImmutableData(Make<ImmutableData>(ms.back()))); kinds += 'i'; }
    else { ms.push_back(Fresh<MutableData>(r)); list.emplace_back(new MutableData(Make<MutableData>(ms.back()))); kinds += 'm'; }
  }
  auto bytes = Serialise(list);
  o = vh::Outcome([&] { Parse(bytes, back); });
  VH_CHECK(o.empty() && back.size() == list.size(), "list", kinds << " " << o);
  for (size_t i = 0; o.empty() && i < back.size(); ++i) {
    auto* a = dynamic_cast<ImmutableData*>(back[i].get());
    auto* b = dynamic_cast<MutableData*>(back[i].get());
    VH_CHECK(kinds[i] == 'i' ? a && !b : b && !a, "list-kind", kinds << " " << i);
    if (a) Same(*a, ms[i], kinds); else if (b) Same(*b, ms[i], kinds);
  }
  // damaged lists: a value fit to use, or an exception
  for (int k = 0; k < 6 && !bytes.empty(); ++k) {
    auto bad = bytes;
    if (r.Coin()) bad.resize(r.Below(bad.size()));
    else bad[r.OneIn(2) ? r.Below(std::min<size_t>(bad.size(), 40)) : r.Below(bad.size())] ^= 1 << r.Below(8);
    bool huge = bad.size() >= 8 && (bad[0] > 64 || bad[1] || bad[2] || bad[3] || bad[4] || bad[5] || bad[6] || bad[7]);
    if (huge) continue;
    std::vector<std::unique_ptr<Data>> got;
    o = vh::Outcome([&] { Parse(bad, got); });
    VH_CHECK(o != "other", "list-damaged", o);
    if (o.empty()) for (auto& p : got) {
      if (auto* a = dynamic_cast<ImmutableData*>(p.get()))
        VH_CHECK(a->IsInitialised() && a->Name().string() == ref::Sha512(a->Value().string()), "name-is-not-digest", "damaged list");
      else if (auto* b = dynamic_cast<MutableData*>(p.get()))
        VH_CHECK(b->IsInitialised() && b->Name().string().size() == 64 && b->Value().size() > 0, "mutable-incomplete", "damaged list");
    }
  }
  vh::Observed(vh::HashStr(kinds, r.Next()));
}
// names with type ids: order, equality, serialised form
VH_GROUP(name_and_type, 400, 20000) {
  auto& r = c.rng;
  typedef Data::NameAndTypeId N;
  std::vector<N> v;
  std::vector<std::pair<V, uint32_t>> w;  // an unset name is the empty one
  V base = r.ByteVec(64);
  const uint32_t ids[] = {0, 1, 2, 255, 256, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  for (int i = 0; i < 7; ++i) {
    if (r.OneIn(8)) { v.push_back(N()); w.push_back({V(), 0xffffffffu}); continue; }
    V nm = base;
    if (r.Coin()) nm[r.Pick(std::vector<int>{0, 1, 31, 62, 63})] = static_cast<unsigned char>(r.Next());
    uint32_t id = r.Coin() ? r.Pick(ids) : static_cast<uint32_t>(r.Next());
    if (r.OneIn(9)) { v.push_back(N(Identity(), DataTypeId(id))); w.push_back({V(), id}); continue; }
    v.push_back(N(Id(nm), DataTypeId(id)));
    w.push_back({nm, id});
  }
  for (size_t i = 0; i < v.size(); ++i) {
    VH_CHECK(v[i].type_id == DataTypeId(w[i].second) && v[i].name.IsInitialised() == !w[i].first.empty(), "parts", i);
    for (size_t j = 0; j < v.size(); ++j) {
      bool eq = w[i] == w[j], lt = w[i] < w[j];
      VH_CHECK((v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "equality", w[i].second << " " << w[j].second);
      VH_CHECK((v[i] < v[j]) == lt && (v[i] > v[j]) == (!lt && !eq) && (v[i] <= v[j]) == (lt || eq) && (v[i] >= v[j]) == !lt, "order",
               vh::Hex(w[i].first, 64) << ":" << w[i].second << " " << vh::Hex(w[j].first, 64) << ":" << w[j].second);
    }
    N copy(v[i]), assigned, moved, moved2(N(v[i]));
    assigned = v[i];
    moved = std::move(copy);
    VH_CHECK(assigned == v[i] && moved == v[i] && moved2 == v[i], "copies", i);
    if (w[i].first.empty()) {
      VH_CHECK(vh::OutcomeCode([&] { Serialise(v[i]); }) == kUninit, "unset-name-serialised", i);
    } else {
      auto bytes = Serialise(v[i]);
      N got;
      auto o = vh::Outcome([&] { got = Parse<N>(bytes); });
      VH_CHECK(o.empty() && got == v[i], "round-trip", i << " " << o);
      auto both = Serialise(v[i], v[i], std::string("end"));
      N x, y; std::string end;
      o = vh::Outcome([&] { Parse(both, x, y, end); });
      VH_CHECK(o.empty() && x == v[i] && y == v[i] && end == "end", "round-trip-in-company", i << " " << o);
      bytes.resize(r.Below(bytes.size()));
      o = vh::Outcome([&] { Parse<N>(bytes); });
      VH_CHECK(!o.empty() && o != "other", "truncated-accepted", o);
    }
    vh::Observed(vh::HashBytes(w[i].first.data(), w[i].first.size(), w[i].second));
  }
  VH_CHECK(!N().name.IsInitialised(), "default-name", "");
}
