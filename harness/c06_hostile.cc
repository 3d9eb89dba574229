// C06: hostile bytes for every serialisable type.
#include "serial_kinds.h"
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
#include "maidsafe/common/data_types/structured_data_versions_cereal.h"
#include "cereal/types/memory.hpp"
#include "ref_sha.h"
#include "sdv_model.h"
#include "vh_ms.h"
#include "bounded_new.h"

using namespace sk;  // NOLINT
using maidsafe::SerialisedData;

namespace {
const size_t kDefaultLimit = size_t(16) << 20;

// One damaged form of a valid encoding (or of nothing).
Bytes Damage(vh::Rng& r, Bytes b, std::string* how) {
  int edits = 1 + static_cast<int>(r.Below(3));
  for (int e = 0; e < edits; ++e) {
    switch (r.Below(10)) {
      case 0: b = r.ByteVec(r.Size(60)); *how += " random"; break;
      case 1: b.resize(r.Below(b.size() + 1)); *how += " truncated"; break;
      case 2: { auto x = r.ByteVec(1 + r.Below(20)); b.insert(b.end(), x.begin(), x.end()); *how += " extended"; break; }
      case 3: if (!b.empty()) { b[r.Below(b.size())] ^= static_cast<unsigned char>(1u << r.Below(8)); *how += " flipped"; } break;
      case 4: if (!b.empty()) { b[r.Below(b.size())] = static_cast<unsigned char>(r.Next()); *how += " overwritten"; } break;
      case 5:  // a length or count of another size
      case 6: {
        static const uint64_t kLengths[] = {0, 1, 2, 5, 6, 7, 8, 63, 64, 65, 255, 256, 0x7fff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL,
                                            0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xfffffffffffffff0ULL, 0xffffffffffffffffULL, 0x2000000000000001ULL, 0x1555555555555556ULL};
        size_t at = b.size() < 8 ? 0 : r.Coin() ? 0 : r.Below(b.size() - 7);
        uint64_t v = r.OneIn(4) ? b.size() + static_cast<uint64_t>(r.Range(-9, 2)) : r.Pick(kLengths);
        for (size_t i = 0; i < 8 && at + i < b.size(); ++i) b[at + i] = static_cast<unsigned char>(v >> (8 * i));
        *how += " length";
        break;
      }
      case 7: if (b.size() > 2) { size_t p = r.Below(b.size()); b.erase(b.begin() + static_cast<ptrdiff_t>(p), b.begin() + static_cast<ptrdiff_t>(p + 1 + r.Below(b.size() - p))); *how += " cut"; } break;
      case 8: if (!b.empty()) { size_t p = r.Below(b.size()); auto x = Bytes(b.begin(), b.begin() + static_cast<ptrdiff_t>(1 + r.Below(b.size()))); b.insert(b.begin() + static_cast<ptrdiff_t>(p), x.begin(), x.end()); *how += " repeated"; } break;
      default: break;  // as it is
    }
    if (b.size() > 100000) b.resize(100000);
  }
  return b;
}

template <typename T>
void One(vh::Case& c, const char* type) {
  vh::g_new_limit = kDefaultLimit;
  Bytes b;
  if (!c.rng.OneIn(10)) Kind<T>::Enc(b, Kind<T>::Make(c.rng));
  std::string how;
  b = Damage(c.rng, std::move(b), &how);
  std::string d = std::string(type) + how + " " + vh::Hex(b);
  T want{};
  Reader ref{b, 0};
  bool valid = Kind<T>::Dec(ref, want);
  // parsed from an exactly sized heap buffer, so that reading past it is seen
  T got{};
  maidsafe::InputVectorStream in{b};
  vh::g_new_largest = 0;
  auto o = vh::Outcome([&] { maidsafe::Parse(in, got); });
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  if (b.size() < 8) VH_CHECK(vh::g_new_largest < 4096, "allocation-for-truncated-header", d << " allocated " << vh::g_new_largest);
  VH_CHECK(o.empty() == valid, valid ? "valid-refused" : "invalid-accepted", d << " " << o);
  if (o.empty() && valid) {
    VH_CHECK(Kind<T>::Eq(got, want), "wrong-value", d);
    size_t left = 0;
    while (in.rdbuf()->sbumpc() != maidsafe::InputVectorStream::traits_type::eof()) ++left;
    VH_CHECK(left == b.size() - ref.pos, "bytes-consumed", d << " left " << left);
    Bytes again;
    Kind<T>::Enc(again, got);
    VH_CHECK(maidsafe::Serialise(got) == again, "value-not-writable", d);
  }
  vh::Add(valid ? "accepted" : "rejected");
  vh::Observed(vh::HashBytes(b.data(), b.size(), vh::HashStr(type)));
  auto s2 = vh::Outcome([&] { T x = maidsafe::Parse<T>(b); VH_CHECK(valid && Kind<T>::Eq(x, want), "wrong-value", d); });
  VH_CHECK(s2.empty() == valid && s2 != "other", "parse-by-value-differs", d << " " << s2);
  if (c.index < 1) vh::Sample(d);
}
}  // namespace

#define ONE(name, ...) VH_GROUP(name, 2500, 300000) { One<__VA_ARGS__>(c, #name); }
ONE(uint8, uint8_t)
ONE(uint64, uint64_t)
ONE(floating, float)
ONE(text, std::string)
ONE(bytes, Bytes)
ONE(wide_enum, Wide)
ONE(tagged, Tagged)
ONE(non_empty, NonEmpty)
ONE(small, Small)
ONE(small_std, SmallStd)
ONE(identity, Identity)
ONE(path, boost::filesystem::path)
ONE(asio_address, asio::ip::address)
ONE(boost_address, boost::asio::ip::address)
ONE(numbers, std::vector<int32_t>)
ONE(texts, std::vector<std::string>)
ONE(nested, std::vector<std::vector<Small>>)
ONE(mapping, std::map<std::string, uint64_t>)
ONE(mapping_identity, std::map<Identity, std::vector<std::string>>)
ONE(addresses, std::vector<asio::ip::address>)

// Types with a boolean in them: any byte may stand for it, and only 0 and 1 are booleans.
namespace {
template <typename T>
void WithBool(vh::Case& c, const char* type) {
  vh::g_new_limit = kDefaultLimit;
  Bytes b;
  Kind<T>::Enc(b, Kind<T>::Make(c.rng));
  std::string how;
  b = Damage(c.rng, std::move(b), &how);
  std::string d = std::string(type) + how + " " + vh::Hex(b);
  T got{};
  auto o = vh::Outcome([&] { maidsafe::Parse(b, got); });
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  if (o.empty()) {
    Bytes again;
    Kind<T>::Enc(again, got);
    auto w = vh::Outcome([&] { VH_CHECK(maidsafe::Serialise(got) == again, "value-not-writable", d); });
    VH_CHECK(w.empty(), "value-not-writable", d << " " << w);
  }
  vh::Add(o.empty() ? "accepted" : "rejected");
  vh::Observed(vh::HashBytes(b.data(), b.size(), vh::HashStr(type)));
}
}  // namespace
VH_GROUP(boolean, 600, 5000) { WithBool<bool>(c, "bool"); }
VH_GROUP(optionals, 2000, 200000) { WithBool<std::vector<boost::optional<uint8_t>>>(c, "optionals"); }
VH_GROUP(optional_identity, 1500, 200000) { WithBool<boost::optional<Identity>>(c, "optional identity"); }
VH_GROUP(message, 4000, 400000) { WithBool<Message>(c, "message"); }
VH_GROUP(message_list, 2000, 200000) { WithBool<std::vector<Message>>(c, "messages"); }

// Flyweights: a table of values and references into it.
namespace {
using FlyText = boost::flyweight<std::string>;
using FlyNumber = boost::flyweight<int64_t>;
struct Flies {
  FlyText a, b;
  FlyNumber n;
  FlyText e;
  template <typename Archive>
  void serialize(Archive& archive) { archive(a, b, n, e); }
};
}  // namespace
VH_GROUP(flyweights, 3000, 300000) {
  auto& r = c.rng;
  Bytes b;
  uint32_t next = 1;
  std::string d;
  for (int i = 0; i < 4; ++i) {
    bool number = i == 2;
    if (r.OneIn(3)) {
      uint32_t id = static_cast<uint32_t>(r.OneIn(4) ? r.Next() & 0x7fffffff : r.Below(next + 1));
      d += " ref" + std::to_string(id);
      Put(b, id, 4);
    } else {
      Put(b, next | 0x80000000u, 4);
      d += " new" + std::to_string(next);
      ++next;
      if (number) Put(b, r.Next(), 8);
      else Kind<std::string>::Enc(b, r.Bytes(1 + r.Below(40)));
    }
  }
  if (r.OneIn(3)) b = Damage(r, std::move(b), &d);
  Flies f;
  auto o = vh::Outcome([&] { maidsafe::Parse(b, f); });
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  if (o.empty()) {
    std::string all = f.a.get() + f.b.get() + f.e.get() + std::to_string(f.n.get());
    vh::Add("flyweights_accepted");
    vh::Observed(vh::HashStr(all));
  } else {
    vh::Add("rejected");
  }
}

// Data chunks.
VH_GROUP(chunks, 6000, 400000) {
  vh::g_new_limit = kDefaultLimit;
  auto& r = c.rng;
  Bytes value = r.ByteVec(r.OneIn(10) ? 0 : 1 + r.Below(60));
  Bytes name = r.Coin() ? ref::Sha512(value) : r.ByteVec(r.OneIn(5) ? r.Below(100) : 64);
  int form = static_cast<int>(r.Below(3));
  Bytes b;
  if (form == 2) {
    std::unique_ptr<maidsafe::Data> p;
    if (r.Coin() && !value.empty()) p.reset(new maidsafe::ImmutableData(maidsafe::NonEmptyString(value)));
    else p.reset(new maidsafe::MutableData(maidsafe::Identity(r.ByteVec(64)), maidsafe::NonEmptyString(r.ByteVec(5))));
    b = maidsafe::Serialise(p);
  } else {
    Kind<Bytes>::Enc(b, name);
    Kind<Bytes>::Enc(b, value);
  }
  std::string how;
  if (!r.OneIn(4)) b = Damage(r, std::move(b), &how);
  std::string d = std::to_string(form) + how + " " + vh::Hex(b);
  auto bound = [&](const maidsafe::ImmutableData& i) {
    VH_CHECK(i.IsInitialised() && i.Name().string() == ref::Sha512(i.Value().string()), "immutable-name", d);
  };
  auto unbound = [&](const maidsafe::MutableData& m) {
    VH_CHECK(m.IsInitialised() && m.Name().IsInitialised() && m.Value().IsInitialised() && m.Value().size() >= 1, "mutable-parts", d);
  };
  std::string o;
  if (form == 0) {
    o = vh::Outcome([&] { bound(maidsafe::Parse<maidsafe::ImmutableData>(b)); });
  } else if (form == 1) {
    o = vh::Outcome([&] { unbound(maidsafe::Parse<maidsafe::MutableData>(b)); });
  } else {
    o = vh::Outcome([&] {
      auto p = maidsafe::Parse<std::unique_ptr<maidsafe::Data>>(b);
      if (auto i = dynamic_cast<maidsafe::ImmutableData*>(p.get())) bound(*i);
      else if (auto m = dynamic_cast<maidsafe::MutableData*>(p.get())) unbound(*m);
      else VH_CHECK(!p, "strange-type", d);
    });
  }
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  vh::Add(o.empty() ? "chunks_accepted" : "chunks_rejected");
  vh::Observed(vh::HashBytes(b.data(), b.size(), 77));
}

// Version histories.
namespace {
using Dto = maidsafe::detail::StructuredDataVersionsCereal;
using sdv::Sdv;
using sdv::Vn;
Vn Name(vh::Rng& r, uint64_t spread) {
  return Vn(r.Below(spread), sdv::Universe()[r.Below(8)]);
}
// The forest a list of branches describes, or false when it describes none.
struct Forest {
  std::map<std::pair<uint64_t, maidsafe::Identity>, std::pair<uint64_t, maidsafe::Identity>> parent;  // fronts: absent parent
  std::set<std::pair<uint64_t, maidsafe::Identity>> names, absent;
};
std::pair<uint64_t, maidsafe::Identity> Key(const Vn& v) { return std::make_pair(v.index, v.id); }
bool Walk(const Dto& d, Forest* f) {
  std::vector<uint32_t> open;  // children still to come at each fork above
  for (const auto& b : d.branches) {
    if (b.names.empty()) return false;
    bool front = open.empty();
    if (!open.empty() && --open.back() == 0) open.pop_back();
    for (const auto& n : b.names)
      if (!n.id.IsInitialised() || !f->names.insert(Key(n)).second) return false;
    if (front && b.absent_parent && b.absent_parent->id.IsInitialised()) f->absent.insert(Key(*b.absent_parent));
    if (b.names.back().forking_child_count) {
      if (*b.names.back().forking_child_count < 2) return false;
      open.push_back(*b.names.back().forking_child_count);
    }
  }
  return open.empty();
}
// Everything a user can ask of a history that was accepted.
void Consistent(Sdv& s, const std::string& d, size_t* versions = nullptr) {
  auto tips = s.Get();
  VH_CHECK(s.max_versions() >= 1 && s.max_branches() >= 1, "history-limits", d);
  VH_CHECK(tips.size() <= s.max_branches(), "history-too-many-tips", d << " " << tips.size());
  std::set<std::pair<uint64_t, maidsafe::Identity>> seen, tipset;
  for (auto& t : tips) {
    VH_CHECK(t.id.IsInitialised() && tipset.insert(Key(t)).second, "history-tips-repeat", d);
    auto branch = s.GetBranch(t);
    VH_CHECK(!branch.empty() && Key(branch[0]) == Key(t), "history-branch-start", d);
    std::set<std::pair<uint64_t, maidsafe::Identity>> in;
    for (auto& v : branch) VH_CHECK(in.insert(Key(v)).second, "history-branch-repeats", d);
    seen.insert(in.begin(), in.end());
  }
  VH_CHECK(seen.size() <= s.max_versions(), "history-too-many-versions", d << " " << seen.size());
  if (versions) *versions = seen.size();
}
void Use(vh::Rng& r, const Sdv::serialised_type& bytes, const std::string& d, const Forest* f) {
  std::unique_ptr<Sdv> s;
  auto o = vh::Outcome([&] { s.reset(new Sdv(bytes)); });
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  vh::Add(o.empty() ? "histories_accepted" : "histories_rejected");
  if (!o.empty()) return;
  o = vh::Outcome([&] {
    size_t n = 0;
    Consistent(*s, d, &n);
    if (f) {
      VH_CHECK(n == f->names.size(), "history-versions-lost", d << " " << n << " of " << f->names.size());
      for (auto& a : f->absent) VH_CHECK(!f->names.count(a), "history-orphan-of-present-version", d);
    }
    auto again = s->Serialise();
    Sdv t(again);
    VH_CHECK(t.Get() == s->Get(), "history-not-restorable", d);
    for (int i = 0; i < 12; ++i) {
      std::vector<Vn> tips;
      for (auto& t2 : s->Get()) tips.push_back(t2);
      std::string step;
      if (!tips.empty() && r.OneIn(3)) step = vh::Outcome([&] { s->DeleteBranchUntilFork(r.Pick(tips)); });
      else step = vh::Outcome([&] { s->Put(r.OneIn(5) || tips.empty() ? Name(r, 6) : tips[r.Below(tips.size())], Name(r, 6)); });
      VH_CHECK(step.empty() || step == "lib", "history-operation", d << " " << step);
      Consistent(*s, d + " step " + std::to_string(i));
    }
  });
  VH_CHECK(o.empty(), "history-query", d << " " << o);
}
}  // namespace
VH_GROUP(histories_damaged, 3000, 300000) {
  vh::g_new_limit = kDefaultLimit;
  auto& r = c.rng;
  Sdv s(1 + static_cast<uint32_t>(r.Below(12)), 1 + static_cast<uint32_t>(r.Below(5)));
  std::vector<Vn> made;
  for (int i = 0; i < 12; ++i) {
    Vn old = made.empty() ? Vn() : r.OneIn(4) ? Name(r, 6) : made[r.Below(made.size())];
    Vn nw = Name(r, 6);
    nw.index += 1;
    if (vh::Outcome([&] { s.Put(old, nw); }).empty()) made.push_back(nw);
  }
  auto bytes = s.Serialise()->string();
  std::string how;
  if (!r.OneIn(20)) bytes = Damage(r, bytes, &how);
  std::string d = "damaged" + how + " " + vh::Hex(bytes, 400);
  if (bytes.empty()) return;
  Use(r, Sdv::serialised_type(maidsafe::NonEmptyString(bytes)), d, nullptr);
  vh::Observed(vh::HashBytes(bytes.data(), bytes.size(), 5));
}
VH_GROUP(histories_built, 8000, 600000) {
  vh::g_new_limit = kDefaultLimit;
  auto& r = c.rng;
  Dto dto;
  dto.max_versions = r.OneIn(10) ? static_cast<uint32_t>(r.Next()) : static_cast<uint32_t>(r.Below(14));
  dto.max_branches = r.OneIn(10) ? static_cast<uint32_t>(r.Next()) : static_cast<uint32_t>(r.Below(7));
  uint64_t spread = r.Coin() ? 3 : 400;
  std::string d = std::to_string(dto.max_versions) + "/" + std::to_string(dto.max_branches);
  uint64_t owed = 0;
  for (int n = static_cast<int>(r.Below(6)); n > 0 || owed > 0; --n) {
    dto.branches.emplace_back();
    auto& b = dto.branches.back();
    d += " [";
    bool front = owed == 0;
    if (owed) --owed;
    if (front ? !dto.branches.empty() && (dto.branches.size() > 1 ? !r.OneIn(10) : r.OneIn(3)) : r.OneIn(10)) {
      b.absent_parent = Name(r, spread);
      d += std::to_string(b.absent_parent->index) + "<";
    }
    for (int k = static_cast<int>(r.OneIn(12) ? 0 : 1 + r.Below(3)); k > 0; --k) {
      b.names.push_back(Name(r, spread));
      d += " " + std::to_string(b.names.back().index);
    }
    if (!b.names.empty() && r.OneIn(3) && owed < 6) {
      uint32_t forks = r.OneIn(12) ? static_cast<uint32_t>(r.OneIn(3) ? r.Next() : r.Below(2)) : 2 + static_cast<uint32_t>(r.Below(2));
      b.names.back().forking_child_count = forks;
      d += " *" + std::to_string(forks);
      owed += std::min<uint64_t>(forks, 4);
    }
    d += " ]";
    if (r.OneIn(25)) break;
  }
  Forest f;
  bool forest = Walk(dto, &f);
  auto bytes = maidsafe::Serialise(dto);
  vh::Add(forest ? "forests" : "not_forests");
  if (!forest) VH_CHECK(!vh::Outcome([&] { Sdv s((Sdv::serialised_type(maidsafe::NonEmptyString(bytes)))); }).empty(), "history-not-a-forest-accepted", d);
  Use(r, Sdv::serialised_type(maidsafe::NonEmptyString(bytes)), d, forest ? &f : nullptr);
  vh::Observed(vh::HashBytes(bytes.data(), bytes.size(), 6));
  if (c.index < 2) vh::Sample(d);
}
// A fork in every version: no depth of nesting may exhaust the stack.
VH_GROUP(history_depth, 2, 4) {
  vh::g_new_limit = size_t(1) << 31;
  const uint32_t depth = c.thorough ? 200000 : 60000;
  Dto dto;
  dto.max_versions = 3 * depth;
  dto.max_branches = 2 * depth;
  auto id = [](uint64_t n) {
    Bytes b(64, 1);
    for (int i = 0; i < 8; ++i) b[i] = static_cast<unsigned char>(n >> (8 * i));
    return maidsafe::Identity(b);
  };
  for (uint32_t i = 0; i < depth; ++i) {
    dto.branches.emplace_back();
    dto.branches.back().names.emplace_back(2 * i, id(2 * i));
    dto.branches.back().names.back().forking_child_count = 2;
    if (c.index % 2 == 0) {  // the leaf first, then the next fork
      dto.branches.emplace_back();
      dto.branches.back().names.emplace_back(2 * i + 1, id(2 * i + 1));
    }
  }
  dto.branches.emplace_back();
  dto.branches.back().names.emplace_back(2 * depth, id(2 * depth));
  if (c.index % 2)
    for (uint32_t i = depth; i-- > 0;) {
      dto.branches.emplace_back();
      dto.branches.back().names.emplace_back(2 * i + 1, id(2 * i + 1));
    }
  auto bytes = maidsafe::Serialise(dto);
  vh::Beat();
  auto o = vh::Outcome([&] {
    Sdv s((Sdv::serialised_type(maidsafe::NonEmptyString(bytes))));
    vh::Beat();
    VH_CHECK(s.Get().size() == depth + 1, "deep-history", s.Get().size());
    auto again = s.Serialise();
    if (c.index % 2 == 0) VH_CHECK(again->string() == bytes, "deep-history-bytes", again->string().size());
    Sdv t(again);
    VH_CHECK(t.Get() == s.Get(), "deep-history-not-restorable", t.Get().size());
  });
  VH_CHECK(o.empty(), "deep-history-refused", o);
  vh::Add("deep_histories");
}

// RSA keys.
namespace {
const maidsafe::rsa::Keys& SomeKeys() {
  static const maidsafe::rsa::Keys k = maidsafe::rsa::GenerateKeyPair();
  return k;
}
}  // namespace
VH_GROUP(keys, 1500, 60000) {
  vh::g_new_limit = kDefaultLimit;
  auto& r = c.rng;
  bool priv = r.Coin();
  Bytes der;
  {
    CryptoPP::ByteQueue q;
    if (priv) SomeKeys().private_key.DEREncodePrivateKey(q);
    else SomeKeys().public_key.DEREncodePublicKey(q);
    der.resize(static_cast<size_t>(q.MaxRetrievable()));
    q.Get(der.data(), der.size());
  }
  std::string how;
  if (!r.OneIn(3)) der = Damage(r, der, &how);
  else {
    size_t at = r.Below(std::min<size_t>(der.size(), 40));
    der[at] = static_cast<unsigned char>(r.OneIn(3) ? 0x84 : r.Next());
    how += " header";
  }
  Bytes b;
  Kind<Bytes>::Enc(b, der);
  std::string d = std::string(priv ? "private" : "public") + how + " " + vh::Hex(b, 60);
  std::string o;
  if (priv) {
    o = vh::Outcome([&] {
      auto k = maidsafe::Parse<maidsafe::asymm::PrivateKey>(b);
      vh::Add("keys_accepted");
      auto e = vh::Outcome([&] { maidsafe::Serialise(k); });
      VH_CHECK(e != "other", "not-a-standard-exception", d);
      e = vh::Outcome([&] { maidsafe::rsa::Sign(maidsafe::rsa::PlainText("x"), k); });
      VH_CHECK(e != "other", "not-a-standard-exception", d);
    });
  } else {
    o = vh::Outcome([&] {
      auto k = maidsafe::Parse<maidsafe::asymm::PublicKey>(b);
      vh::Add("keys_accepted");
      auto e = vh::Outcome([&] { maidsafe::Serialise(k); });
      VH_CHECK(e != "other", "not-a-standard-exception", d);
      e = vh::Outcome([&] { maidsafe::rsa::CheckSignature(maidsafe::rsa::PlainText("x"), maidsafe::rsa::Signature(r.ByteVec(512)), k); });
      VH_CHECK(e != "other", "not-a-standard-exception", d);
    });
  }
  VH_CHECK(o != "other", "not-a-standard-exception", d);
  if (!o.empty()) vh::Add("keys_rejected");
  vh::Observed(vh::HashBytes(b.data(), b.size(), 8));
}
