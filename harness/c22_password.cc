// C22: password derivation and obfuscation against OpenSSL's PBKDF2.
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <thread>
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/authentication/user_credentials.h"
#include "maidsafe/common/authentication/user_credential_utils.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
using authentication::UserCredentials;
using Bytes = std::vector<unsigned char>;
namespace {
struct Cred { std::string keyword, pin, password; };
Bytes Sha(const Bytes& b) { Bytes d(64); SHA512(b.data(), b.size(), d.data()); return d; }
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
Bytes Cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
const std::string kLabel = "MaidSafe Version 1 Key Derivation";
Bytes Pbkdf(const Bytes& secret, const Bytes& salt, const std::string& label, uint32_t pin) {
  Bytes ctx = Cat(salt, B(label)), out(48);
  PKCS5_PBKDF2_HMAC(reinterpret_cast<const char*>(secret.data()), static_cast<int>(secret.size()), ctx.data(), static_cast<int>(ctx.size()), static_cast<int>(pin % 10000 + 10000), EVP_sha512(), 48, out.data());
  return out;
}
Bytes RefPassword(const Cred& c) {
  return Pbkdf(B(c.password), Sha(Cat(Sha(B(c.pin)), B(c.password))), kLabel, static_cast<uint32_t>(std::stoul(c.pin)));
}
Bytes RefObfuscate(const Cred& c, const Bytes& d) {
  Bytes pad = Pbkdf(B(c.keyword), Sha(Cat(B(c.password), Sha(B(c.pin)))), kLabel, static_cast<uint32_t>(std::stoul(c.pin) * 2)), out(d);
  for (size_t i = 0; i < d.size(); ++i) out[i] ^= pad[i % 48];
  return out;
}
std::string Any(vh::Rng& r) {
  size_t n = r.OneIn(8) ? 100 + r.Below(300) : 1 + r.Below(30);
  auto b = r.ByteVec(n);
  std::string s(b.begin(), b.end());
  if (r.Coin()) for (auto& ch : s) ch = static_cast<char>('a' + static_cast<unsigned char>(ch) % 26);
  if (r.OneIn(6)) s[r.Below(s.size())] = '\0';
  return s;
}
std::string AnyPin(vh::Rng& r) {
  static const char* const k[] = {"0", "0000", "1", "01", "9999", "10000", "4999", "5000", "99999999", "4294967295", "4294967296", "2147483648"};
  if (r.OneIn(3)) return k[r.Below(12)];
  std::string s;
  for (size_t n = 1 + r.Below(8); n--;) s += static_cast<char>('0' + r.Below(10));
  return s;
}
template <typename Field> std::unique_ptr<Field> Make(vh::Rng& r, const std::string& s) {
  if (r.Coin() || s.size() > 12) return std::unique_ptr<Field>(new Field(s));
  std::unique_ptr<Field> f(new Field);
  for (size_t i = 0; i < s.size(); ++i) f->Insert(i, std::string(1, s[i]));
  f->Finalise();
  return f;
}
UserCredentials Build(vh::Rng& r, const Cred& c) {
  UserCredentials u;
  u.keyword = Make<UserCredentials::Keyword>(r, c.keyword);
  u.pin = Make<UserCredentials::Pin>(r, c.pin);
  u.password = Make<UserCredentials::Password>(r, c.password);
  if (r.Coin()) { UserCredentials v(std::move(u)); UserCredentials w; w = std::move(v); return w; }
  return u;
}
Cred AnyCred(vh::Rng& r) {
  Cred c{Any(r), AnyPin(r), Any(r)};
  if (r.OneIn(6)) c.password = c.keyword;
  return c;
}
Bytes Pw(const UserCredentials& u) { return authentication::CreateSecurePassword(u)->string(); }
size_t AnySize(vh::Rng& r) { return r.OneIn(6) ? 1 + r.Below(20000) : r.OneIn(3) ? 47 + r.Below(3) + 48 * r.Below(4) : 1 + r.Below(200); }
std::string Show(const Cred& c) { return vh::Hex(c.keyword) + "/" + c.pin + "/" + vh::Hex(c.password); }
}  // namespace

VH_GROUP(derived, 120, 4000) {
  auto& r = c.rng;
  Cred k = AnyCred(r);
  auto u = Build(r, k);
  Bytes want = RefPassword(k);
  VH_CHECK(Pw(u) == want, "secure-password", Show(k));
  VH_CHECK(Pw(Build(r, k)) == want, "secure-password", "other object " << Show(k));
  for (int i = 0; i < 2; ++i) {
    Bytes d = r.ByteVec(AnySize(r)), back;
    auto o = vh::Outcome([&] { back = authentication::Obfuscate(u, NonEmptyString(d)).string(); });
    VH_CHECK(o.empty() && back == RefObfuscate(k, d), "obfuscated", d.size() << " bytes " << o << " " << Show(k));
    if (o.empty()) VH_CHECK(authentication::Obfuscate(Build(r, k), NonEmptyString(back)).string() == d, "not-restored", d.size() << " bytes " << Show(k));
    vh::Add("obfuscated");
  }
  // each credential matters
  Cred x = k;
  switch (r.Below(3)) {
    case 0: x.pin = AnyPin(r); break;
    case 1: x.password[r.Below(x.password.size())] ^= static_cast<char>(1 << r.Below(7)); break;
    default: x.password.push_back('x');
  }
  bool differ = x.pin != k.pin || x.password != k.password;
  auto v = Build(r, x);
  VH_CHECK((Pw(v) != want) == differ, "credential-ignored", Show(k) << " " << Show(x));
  x = k;
  x.keyword[r.Below(x.keyword.size())] ^= static_cast<char>(1 << r.Below(7));
  Bytes d(48, 0);
  VH_CHECK(authentication::Obfuscate(Build(r, x), NonEmptyString(d)) != authentication::Obfuscate(u, NonEmptyString(d)), "keyword-ignored", Show(k));
  vh::Add("derived");
  vh::Observed(vh::HashStr(Show(k)));
}

VH_GROUP(direct, 250, 8000) {
  auto& r = c.rng;
  Bytes secret = r.ByteVec(1 + r.Below(r.OneIn(5) ? 300 : 20)), salt = r.ByteVec(1 + r.Below(r.OneIn(5) ? 200 : 64));
  uint32_t pin = r.OneIn(3) ? static_cast<uint32_t>(r.Next()) : r.OneIn(4) ? 0xffffffffu - static_cast<uint32_t>(r.Below(3)) : static_cast<uint32_t>(r.Below(20001));
  std::string label = r.Coin() ? kLabel : r.OneIn(5) ? std::string() : Any(r);
  Bytes got;
  auto o = vh::Outcome([&] { got = (label == kLabel ? crypto::CreateSecurePassword(NonEmptyString(secret), crypto::Salt(salt), pin) : crypto::CreateSecurePassword(NonEmptyString(secret), crypto::Salt(salt), pin, label))->string(); });
  VH_CHECK(o.empty() && got == Pbkdf(secret, salt, label, pin), "derived-key", "pin " << pin << " label of " << label.size() << " salt of " << salt.size() << " " << o);
  auto un = vh::Code(CommonErrors::uninitialised);
  VH_CHECK(vh::OutcomeCode([&] { crypto::CreateSecurePassword(NonEmptyString(), crypto::Salt(salt), pin); }) == un, "uninitialised-accepted", "password");
  VH_CHECK(vh::OutcomeCode([&] { crypto::CreateSecurePassword(NonEmptyString(secret), crypto::Salt(), pin); }) == un, "uninitialised-accepted", "salt");
  vh::Add("direct");
  vh::Observed(vh::HashBytes(salt.data(), salt.size()) ^ pin);
}

VH_GROUP(incomplete, 60, 600) {
  auto& r = c.rng;
  Cred k = AnyCred(r);
  unsigned have = static_cast<unsigned>(c.index % 8);
  auto u = Build(r, k);
  if (!(have & 1)) u.keyword.reset();
  if (!(have & 2)) u.pin.reset();
  if (!(have & 4)) u.password.reset();
  auto un = vh::Code(CommonErrors::uninitialised);
  auto o = vh::OutcomeCode([&] { authentication::CreateSecurePassword(u); });
  VH_CHECK((have & 6) == 6 ? o.empty() : o == un, "incomplete-accepted", have << " password " << o);
  o = vh::OutcomeCode([&] { authentication::Obfuscate(u, NonEmptyString(Bytes(5, 'x'))); });
  VH_CHECK(have == 7 ? o.empty() : o == un, "incomplete-accepted", have << " obfuscation " << o);
  u = Build(r, k);
  VH_CHECK(vh::Outcome([&] { authentication::Obfuscate(u, NonEmptyString()); }) == "lib", "incomplete-accepted", "no data");
  // a field still being edited
  switch (r.Below(2)) {
    case 0: u.pin.reset(new UserCredentials::Pin); u.pin->Insert(0, std::string("1")); break;
    default: u.password.reset(new UserCredentials::Password); u.password->Insert(0, std::string("1"));
  }
  VH_CHECK(vh::Outcome([&] { authentication::CreateSecurePassword(u); }) == "lib", "incomplete-accepted", "unfinished password");
  VH_CHECK(vh::Outcome([&] { authentication::Obfuscate(u, NonEmptyString(Bytes(5, 'x'))); }) == "lib", "incomplete-accepted", "unfinished obfuscation");
  u = Build(r, k);
  u.keyword.reset(new UserCredentials::Keyword);
  u.keyword->Insert(0, std::string("1"));
  VH_CHECK(vh::Outcome([&] { authentication::Obfuscate(u, NonEmptyString(Bytes(5, 'x'))); }) == "lib", "incomplete-accepted", "unfinished keyword");
  vh::Add("incomplete");
  vh::Observed(c.index);
}

VH_GROUP(concurrent, 16, 300) {
  auto& r = c.rng;
  Cred k = AnyCred(r);
  auto u = Build(r, k);
  Bytes want = RefPassword(k), d = r.ByteVec(AnySize(r)), ob = RefObfuscate(k, d);
  std::vector<std::thread> t;
  for (int i = 0; i < 3; ++i) t.emplace_back([&] {
    VH_CHECK(Pw(u) == want, "secure-password", "concurrently");
    VH_CHECK(authentication::Obfuscate(u, NonEmptyString(d)).string() == ob, "obfuscated", "concurrently");
  });
  for (auto& x : t) x.join();
  vh::Add("concurrent");
  vh::Observed(vh::HashStr(Show(k)));
}
