// C17: AES-256-GCM against OpenSSL, and every kind of damage to ciphertext, key and IV.
#include <openssl/evp.h>
#include <thread>
#include "maidsafe/common/crypto.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
namespace {
Bytes RefEncrypt(const Bytes& plain, const Bytes& kiv) {
  Bytes out(plain.size() + 16);
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  int n = 0, m = 0;
  EVP_EncryptInit_ex(x, EVP_aes_256_gcm(), nullptr, nullptr, nullptr);
  EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, 16, nullptr);
  EVP_EncryptInit_ex(x, nullptr, nullptr, kiv.data(), kiv.data() + 32);
  EVP_EncryptUpdate(x, out.data(), &n, plain.data(), static_cast<int>(plain.size()));
  EVP_EncryptFinal_ex(x, out.data() + n, &m);
  EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, out.data() + plain.size());
  EVP_CIPHER_CTX_free(x);
  return out;
}
size_t AnySize(vh::Rng& r) {
  if (r.OneIn(120)) { static const size_t kEdges[] = {65536, 1 << 18, 1 << 20, 3 << 20}; return kEdges[r.Below(4)] + r.Below(3) - 1; }
  switch (r.Below(6)) {
    case 0: return 1 + r.Below(4);
    case 1: return 16 * (1 + r.Below(10)) + r.Below(3) - 1;
    case 2: return 4096 + r.Below(3) - 1;
    case 3: return 1 + r.Below(40000);
    default: return 1 + r.Below(200);
  }
}
crypto::CipherText C(const Bytes& b) { return crypto::CipherText(NonEmptyString(b)); }
}  // namespace

VH_GROUP(round_trip, 2500, 60000) {
  auto& r = c.rng;
  Bytes p = r.ByteVec(AnySize(r)), k = r.ByteVec(48);
  if (r.OneIn(8)) k.assign(48, static_cast<unsigned char>(r.Below(2) * 255));
  if (r.OneIn(8)) p.assign(p.size(), 0);
  crypto::AES256KeyAndIV key(k);
  Bytes e, d;
  auto o = vh::Outcome([&] { e = crypto::SymmEncrypt(NonEmptyString(p), key)->string(); });
  VH_CHECK(o.empty() && e == RefEncrypt(p, k), "ciphertext", p.size() << " bytes " << o);
  o = vh::Outcome([&] { d = crypto::SymmDecrypt(C(RefEncrypt(p, k)), key).string(); });
  VH_CHECK(o.empty() && d == p, "plaintext", p.size() << " bytes " << o);
  vh::Add("round_trips");
  vh::Observed(vh::HashBytes(e.data(), e.size()));
}

VH_GROUP(tampering, 2500, 60000) {
  auto& r = c.rng;
  Bytes p = r.ByteVec(AnySize(r) % 600 + 1), k = r.ByteVec(48);
  Bytes e = RefEncrypt(p, k);
  auto refuse = [&](const Bytes& ct, const Bytes& kk, const char* what) {
    if (ct == e && kk == k) return;
    Bytes d;
    auto o = vh::OutcomeCode([&] { d = crypto::SymmDecrypt(C(ct), crypto::AES256KeyAndIV(kk)).string(); });
    VH_CHECK(o == vh::Code(CommonErrors::symmetric_decryption_error), "altered-accepted", what << " " << o << " returned " << d.size() << " bytes");
    vh::Add("refused");
  };
  for (int i = 0; i < 12; ++i) {
    Bytes x = e;
    size_t bit = r.OneIn(3) ? (e.size() - 1 - r.Below(16)) * 8 + r.Below(8) : r.Below(e.size() * 8);  // often in the tag
    x[bit / 8] ^= static_cast<unsigned char>(1 << bit % 8);
    refuse(x, k, "flipped bit");
  }
  Bytes x(e.begin(), e.begin() + static_cast<ptrdiff_t>(1 + r.Below(e.size() - 1)));
  refuse(x, k, "cut at the end");
  x.assign(e.begin() + static_cast<ptrdiff_t>(1 + r.Below(e.size() - 1)), e.end());
  refuse(x, k, "cut at the start");
  x = e;
  x.resize(e.size() - 16);
  refuse(x, k, "tag removed");
  x = e;
  auto more = r.ByteVec(1 + r.Below(20));
  x.insert(r.Coin() ? x.end() : x.begin(), more.begin(), more.end());
  refuse(x, k, "extended");
  if (e.size() >= 32) {
    x = e;
    std::swap_ranges(x.begin(), x.begin() + 16, x.begin() + 16);
    refuse(x, k, "blocks swapped");
  }
  refuse(RefEncrypt(p, r.ByteVec(48)), k, "another's ciphertext");
  for (int i = 0; i < 6; ++i) {
    Bytes kk = k;
    size_t bit = r.Below(48 * 8);
    if (i == 0) bit = 47 * 8 + r.Below(8);
    if (i == 1) bit = 31 * 8 + r.Below(8);
    if (i == 2) bit = 32 * 8 + r.Below(8);
    kk[bit / 8] ^= static_cast<unsigned char>(1 << bit % 8);
    refuse(e, kk, bit < 256 ? "another key" : "another IV");
  }
  for (size_t n : {size_t(1), size_t(15), size_t(16), size_t(17), 1 + r.Below(100)}) refuse(r.ByteVec(n), k, "random bytes");
  vh::Observed(vh::HashBytes(e.data(), e.size()));
}

VH_GROUP(uninitialised, 20, 100) {
  auto& r = c.rng;
  crypto::AES256KeyAndIV none, key(r.ByteVec(48));
  NonEmptyString data(r.ByteVec(20));
  auto u = vh::Code(CommonErrors::uninitialised);
  VH_CHECK(vh::OutcomeCode([&] { crypto::SymmEncrypt(NonEmptyString(), key); }) == u, "uninitialised-accepted", "plaintext");
  VH_CHECK(vh::OutcomeCode([&] { crypto::SymmEncrypt(data, none); }) == u, "uninitialised-accepted", "key");
  VH_CHECK(vh::OutcomeCode([&] { crypto::SymmDecrypt(crypto::CipherText(), key); }) == u, "uninitialised-accepted", "ciphertext");
  VH_CHECK(vh::OutcomeCode([&] { crypto::SymmDecrypt(crypto::CipherText(data), none); }) == u, "uninitialised-accepted", "key");
  // the encryption of nothing: there is no plaintext to return
  Bytes k = r.ByteVec(48);
  VH_CHECK(vh::Outcome([&] { crypto::SymmDecrypt(C(RefEncrypt(Bytes(), k)), crypto::AES256KeyAndIV(k)); }) == "lib", "empty-plaintext", "");
  vh::Observed(c.index);
  vh::Add("uninitialised");
}

VH_GROUP(concurrent, 30, 600) {
  auto& r = c.rng;
  std::vector<std::thread> t;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 4; ++i) seeds.push_back(r.Next());
  for (int i = 0; i < 4; ++i) t.emplace_back([&, i] {
    vh::Rng lr(seeds[static_cast<size_t>(i)]);
    for (int n = 0; n < 25; ++n) {
      Bytes p = lr.ByteVec(AnySize(lr)), k = lr.ByteVec(48);
      auto e = crypto::SymmEncrypt(NonEmptyString(p), crypto::AES256KeyAndIV(k));
      VH_CHECK(e->string() == RefEncrypt(p, k), "ciphertext", "concurrently");
      VH_CHECK(crypto::SymmDecrypt(e, crypto::AES256KeyAndIV(k)).string() == p, "plaintext", "concurrently");
    }
  });
  for (auto& x : t) x.join();
  vh::Observed(seeds[0]);
}
