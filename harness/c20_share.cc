// C20: secret sharing and information dispersal.
#include "maidsafe/common/crypto.h"
#include "vh.h"
#include "vh_ms.h"
#include "bounded_new.h"
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
namespace {
crypto::DataParts Pick(vh::Rng& r, crypto::DataParts v, size_t n) {
  for (size_t i = 0; i < n; ++i) std::swap(v[i], v[i + r.Below(v.size() - i)]);
  v.resize(n);
  return v;
}
crypto::DataParts Split(bool secret, int k, int n, const Bytes& d) {
  return secret ? crypto::SecretShareData(k, n, NonEmptyString(d)) : crypto::InfoDisperse(k, n, NonEmptyString(d));
}
Bytes Join(bool secret, const crypto::DataParts& p) { return (secret ? crypto::SecretRecoverData(p) : crypto::InfoRetrieve(p)).string(); }
size_t AnySize(vh::Rng& r) { return r.OneIn(15) ? 1 + r.Below(20000) : r.OneIn(3) ? 1 + r.Below(9) : 1 + r.Below(400); }
}  // namespace

VH_GROUP(shares, 1200, 30000) {
  auto& r = c.rng;
  bool secret = r.Coin();
  int n = 3 + static_cast<int>(r.Below(r.OneIn(8) ? 60 : 8)), k = 2 + static_cast<int>(r.Below(static_cast<uint64_t>(n) - 1));
  if (r.OneIn(5)) k = n;
  if (r.OneIn(5)) k = 2;
  bool many = r.OneIn(40);  // share numbers of more than one byte
  if (many) n = 200 + static_cast<int>(r.Below(500)), k = 2 + static_cast<int>(r.Below(4));
  Bytes d = r.ByteVec(many ? 1 + r.Below(300) : AnySize(r));
  bool random = r.Coin();
  if (!random) {
    if (r.Coin()) for (auto& b : d) b = r.OneIn(4);
    else if (r.Coin()) d.assign(d.size(), 0);
  }
  if (r.OneIn(6)) d.back() = 1;  // looks like padding
  if (r.OneIn(6)) d.back() = 0;
  std::ostringstream t;
  t << (secret ? "secret" : "dispersal") << " " << k << " of " << n << ", " << d.size() << " bytes";
  crypto::DataParts parts;
  auto o = vh::Outcome([&] { parts = Split(secret, k, n, d); });
  VH_CHECK(o.empty() && parts.size() == static_cast<size_t>(n), "split", t.str() << " " << o);
  if (!o.empty()) return;
  for (int i = 0; i < 6; ++i) {
    size_t m = static_cast<size_t>(k);
    if (secret && i >= 4) m += r.Below(static_cast<uint64_t>(n - k) + 1);  // more than enough also restores a secret
    auto some = Pick(r, parts, m);
    if (many && i < 2) some.back() = parts.back() == some.front() ? some.back() : parts.back();
    for (size_t x = 0; many && x + 1 < some.size(); ++x) if (some[x] == some.back()) some = Pick(r, parts, m);
    Bytes back;
    o = vh::Outcome([&] { back = Join(secret, some); });
    VH_CHECK(o.empty() && back == d, "not-restored", t.str() << " from " << m << " " << o << " " << back.size());
    vh::Add("restored");
  }
  for (int i = 0; i < 2; ++i) {
    size_t m = 1 + r.Below(static_cast<uint64_t>(k) - 1);
    auto some = Pick(r, parts, m);
    Bytes back;
    o = vh::Outcome([&] { back = Join(secret, some); });
    VH_CHECK(o == "lib" || o.empty(), "too-few-raises", t.str() << " from " << m << " " << o);
    if (d.size() >= 16 && (secret || random)) VH_CHECK(!o.empty() || back != d, "restored-by-too-few", t.str() << " from " << m);
    // not even a copy of one share may hold the secret
    if (secret && d.size() >= 16)
      for (auto& s : some) VH_CHECK(std::search(s.string().begin(), s.string().end(), d.begin(), d.end()) == s.string().end() || std::all_of(d.begin(), d.end(), [&](unsigned char b) { return b == d[0]; }), "secret-in-share", t.str());
    vh::Add("too_few");
  }
  if (secret && d.size() >= 16) {
    auto again = Split(true, k, n, d);
    VH_CHECK(again != parts, "shares-not-random", t.str());
  }
  vh::Observed(vh::HashStr(t.str()) ^ vh::HashBytes(d.data(), d.size()));
}

VH_GROUP(arguments, 600, 5000) {
  auto& r = c.rng;
  static const int v[] = {-2147483647 - 1, -1, 0, 1, 2, 3, 4, 5, 100, 2147483647};
  int k = v[r.Below(10)], n = v[r.Below(9)];
  bool good = k >= 2 && n >= 3 && k <= n;
  for (int s = 0; s < 2; ++s) {
    auto o = vh::OutcomeCode([&] { Split(s != 0, k, n, Bytes(5, 'x')); });
    VH_CHECK(good ? o.empty() : o == vh::Code(CommonErrors::invalid_argument), "arguments", k << " of " << n << " " << o);
    o = vh::Outcome([&] { if (s) crypto::SecretShareData(2, 3, NonEmptyString()); else crypto::InfoDisperse(2, 3, NonEmptyString()); });
    VH_CHECK(o == "lib", "uninitialised-accepted", o);
  }
  vh::Observed(vh::Mix(static_cast<uint64_t>(k) * 31 + static_cast<uint64_t>(n)));
  vh::Add("arguments");
}

VH_GROUP(hostile, 2500, 60000) {
  auto& r = c.rng;
  bool secret = r.Coin();
  int n = 3 + static_cast<int>(r.Below(5)), k = 2 + static_cast<int>(r.Below(static_cast<uint64_t>(n) - 1));
  Bytes d = r.ByteVec(1 + r.Below(60));
  auto parts = Pick(r, Split(secret, k, n, d), static_cast<size_t>(k));
  std::string what;
  auto& one = parts[r.Below(parts.size())];
  switch (r.Below(8)) {
    case 0: parts.clear(); what = "no shares"; break;
    case 1: { Bytes b = one.string(); b.resize(1 + r.Below(b.size())); one = NonEmptyString(b); what = "short share"; break; }
    case 2: { one = NonEmptyString(r.ByteVec(1 + r.Below(6))); what = "tiny share"; break; }
    case 3: one = NonEmptyString(); what = "uninitialised share"; break;
    case 4: one = NonEmptyString(parts[r.Below(parts.size())]); what = "repeated share"; break;
    case 5: { auto f = Split(secret, k, n, r.ByteVec(1 + r.Below(60))); one = f[r.Below(f.size())]; what = "foreign share"; break; }
    case 6: { Bytes b = one.string(); auto m = r.ByteVec(1 + r.Below(40)); b.insert(b.end(), m.begin(), m.end()); one = NonEmptyString(b); what = "long share"; break; }
    default: for (auto& p : parts) p = NonEmptyString(r.ByteVec(1 + r.Below(40))); what = "random shares";
  }
  auto o = vh::Outcome([&] { Join(secret, parts); });
  VH_CHECK(o.empty() || o == "lib", "hostile-shares", (secret ? "secret: " : "dispersal: ") << what << " " << o);
  uint64_t hash = vh::HashStr(what);
  for (auto& p : parts) if (p.IsInitialised()) hash = vh::Mix(hash ^ vh::HashBytes(p.string().data(), p.string().size()));
  vh::Observed(hash);
  vh::Add("hostile");
}
