// C19: Hash<> against OpenSSL.
#include <openssl/evp.h>
#include <thread>
#include "maidsafe/common/crypto.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
namespace {
Bytes Ref(const char* name, const Bytes& v) {
  Bytes out(64);
  unsigned n = 0;
  EVP_Digest(v.data(), v.size(), out.data(), &n, EVP_get_digestbyname(name), nullptr);
  out.resize(n);
  return out;
}
Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
template <typename H> void Check(const char* name, const Bytes& v) {
  Bytes want = Ref(name, v);
  std::string s(v.begin(), v.end());
  VH_CHECK(crypto::Hash<H>(v).string() == want, "digest", name << " of " << v.size() << " bytes");
  VH_CHECK(B(crypto::Hash<H>(s).string()) == want, "digest-of-string", name << " of " << v.size() << " bytes");
  if (!v.empty()) {
    VH_CHECK(crypto::Hash<H>(NonEmptyString(v)).string() == want, "digest-of-bounded", name << " of " << v.size() << " bytes");
    VH_CHECK(B(crypto::Hash<H>(detail::BoundedString<1, std::numeric_limits<size_t>::max(), std::string>(s)).string()) == want, "digest-of-bounded", name << " of " << v.size() << " characters");
  }
  vh::Add("digests");
}
void All(const Bytes& v) {
  Check<crypto::SHA1>("SHA1", v);
  Check<crypto::SHA256>("SHA256", v);
  Check<crypto::SHA384>("SHA384", v);
  Check<crypto::SHA512>("SHA512", v);
}
}  // namespace

VH_GROUP(every_size, 600, 5000) {  // every size up to several blocks
  All(c.rng.ByteVec(c.index));
  vh::Observed(c.index);
}
VH_GROUP(contents, 2500, 60000) {
  auto& r = c.rng;
  size_t n = r.OneIn(150) ? 1000000 + r.Below(2200000) : r.OneIn(10) ? r.Below(300000) : r.OneIn(3) ? 4096 * (1 + r.Below(4)) + r.Below(3) - 1 : r.Below(2000);
  Bytes v = r.ByteVec(n);
  if (r.OneIn(4)) v.assign(n, static_cast<unsigned char>(r.Below(2) * 255));
  All(v);
  vh::Observed(vh::HashBytes(v.data(), v.size()) ^ n);
}
VH_GROUP(concurrent, 30, 500) {
  auto& r = c.rng;
  std::vector<std::thread> t;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 4; ++i) seeds.push_back(r.Next());
  for (int i = 0; i < 4; ++i) t.emplace_back([&, i] {
    vh::Rng lr(seeds[static_cast<size_t>(i)]);
    for (int n = 0; n < 20; ++n) All(lr.ByteVec(lr.Below(5000)));
  });
  for (auto& x : t) x.join();
  vh::Observed(seeds[0]);
}
VH_GROUP(uninitialised, 10, 20) {
  auto o = vh::Outcome([&] { crypto::Hash<crypto::SHA512>(NonEmptyString()); });
  VH_CHECK(o == "lib", "uninitialised-accepted", o);
  vh::Observed(c.index);
}
