// C21: RSA signing and encryption, cross-checked with OpenSSL.
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <thread>
#include "boost/filesystem.hpp"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "vh.h"
#include "vh_ms.h"
#include "bounded_new.h"
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
namespace fs = boost::filesystem;
namespace {
const std::vector<asymm::Keys>& Keys() {
  static std::vector<asymm::Keys> k = [] {
    std::vector<asymm::Keys> v;
    for (int i = 0; i < 3; ++i) { v.push_back(asymm::GenerateKeyPair()); vh::Beat(); }
    return v;
  }();
  return k;
}
// Valid keys of other sizes, which a peer may hold.
const asymm::Keys& OtherSize(int bits) {
  static std::map<int, asymm::Keys> m;
  auto it = m.find(bits);
  if (it != m.end()) return it->second;
  CryptoPP::InvertibleRSAFunction p;
  p.GenerateRandomWithKeySize(crypto::random_number_generator(), static_cast<unsigned>(bits));
  asymm::Keys k;
  k.private_key = asymm::PrivateKey(p);
  k.public_key = asymm::PublicKey(p);
  vh::Beat();
  return m[bits] = k;
}
struct Pkey {
  EVP_PKEY* k = nullptr;
  ~Pkey() { EVP_PKEY_free(k); }
};
// The encodings are the bare RSAPrivateKey / RSAPublicKey of PKCS#1, as DEREncodePrivateKey defines.
void Load(const asymm::Keys& keys, Pkey* priv, Pkey* pub) {
  Bytes a = asymm::EncodeKey(keys.private_key).string(), b = asymm::EncodeKey(keys.public_key).string();
  const unsigned char* p = a.data();
  priv->k = d2i_PrivateKey(EVP_PKEY_RSA, nullptr, &p, static_cast<long>(a.size()));
  p = b.data();
  pub->k = d2i_PublicKey(EVP_PKEY_RSA, nullptr, &p, static_cast<long>(b.size()));
}
bool RefVerify(EVP_PKEY* pub, const Bytes& data, const Bytes& sig) {
  EVP_MD_CTX* x = EVP_MD_CTX_new();
  EVP_PKEY_CTX* pc = nullptr;
  bool ok = EVP_DigestVerifyInit(x, &pc, EVP_sha512(), nullptr, pub) == 1 && EVP_PKEY_CTX_set_rsa_padding(pc, RSA_PKCS1_PSS_PADDING) == 1 &&
            EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, 64) == 1 && EVP_DigestVerify(x, sig.data(), sig.size(), data.data(), data.size()) == 1;
  EVP_MD_CTX_free(x);
  return ok;
}
Bytes RefSign(EVP_PKEY* priv, const Bytes& data) {
  EVP_MD_CTX* x = EVP_MD_CTX_new();
  EVP_PKEY_CTX* pc = nullptr;
  size_t n = 1024;
  Bytes sig(n);
  EVP_DigestSignInit(x, &pc, EVP_sha512(), nullptr, priv);
  EVP_PKEY_CTX_set_rsa_padding(pc, RSA_PKCS1_PSS_PADDING);
  EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, 64);
  if (EVP_DigestSign(x, sig.data(), &n, data.data(), data.size()) != 1) n = 0;
  sig.resize(n);
  EVP_MD_CTX_free(x);
  return sig;
}
Bytes RefUnwrap(EVP_PKEY* priv, const Bytes& ct) {
  EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(priv, nullptr);
  Bytes out(1024);
  size_t n = out.size();
  EVP_PKEY_decrypt_init(x);
  EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_OAEP_PADDING);
  if (EVP_PKEY_decrypt(x, out.data(), &n, ct.data(), ct.size()) != 1) n = 0;
  out.resize(n);
  EVP_PKEY_CTX_free(x);
  return out;
}
size_t AnySize(vh::Rng& r) { return r.OneIn(8) ? 1 + r.Below(60000) : r.OneIn(3) ? 180 + r.Below(90) : 1 + r.Below(600); }
std::atomic<int> g_files{0};
// What a verification may say of something altered.
bool Refused(const std::string& o, bool result) { return o == "lib" || (o.empty() && !result); }
}  // namespace

VH_GROUP(signatures, 160, 4000) {
  auto& r = c.rng;
  auto& keys = Keys();
  size_t w = r.Below(keys.size());
  auto& k = keys[w];
  auto& other = keys[(w + 1) % keys.size()];
  Bytes d = r.ByteVec(AnySize(r));
  Pkey priv, pub;
  Load(k, &priv, &pub);
  VH_CHECK(priv.k && pub.k, "encoding-not-pkcs1", "");
  asymm::Signature s = asymm::Sign(NonEmptyString(d), k.private_key);
  VH_CHECK(asymm::CheckSignature(NonEmptyString(d), s, k.public_key), "own-signature-refused", d.size());
  VH_CHECK(RefVerify(pub.k, d, s.string()), "signature-refused-elsewhere", d.size());
  asymm::Signature f(RefSign(priv.k, d));
  VH_CHECK(asymm::CheckSignature(NonEmptyString(d), f, k.public_key), "foreign-signature-refused", d.size());
  // files
  auto p = fs::path(vh::Scratch()) / ("s" + std::to_string(++g_files));
  WriteFile(p, d);
  auto fsg = asymm::SignFile(p, k.private_key);
  VH_CHECK(asymm::CheckFileSignature(p, fsg, k.public_key) && asymm::CheckSignature(NonEmptyString(d), fsg, k.public_key) && asymm::CheckFileSignature(p, s, k.public_key), "file-signature", d.size());
  vh::Add("signatures");
  for (int i = 0; i < 6; ++i) {
    Bytes dd = d, ss = s.string();
    const asymm::PublicKey* pk = &k.public_key;
    std::string what;
    switch (r.Below(5)) {
      case 0: dd[r.Below(dd.size())] ^= static_cast<unsigned char>(1 << r.Below(8)); what = "data bit"; break;
      case 1: if (r.Coin() || dd.size() < 2) dd.push_back(static_cast<unsigned char>(r.Next())); else dd.pop_back(); what = "data length"; break;
      case 2: ss[r.Below(ss.size())] ^= static_cast<unsigned char>(1 << r.Below(8)); what = "signature bit"; break;
      case 3: pk = &other.public_key; what = "other key"; break;
      default: ss = r.OneIn(3) ? Bytes(256, static_cast<unsigned char>(r.Below(2) * 255)) : r.ByteVec(256); what = "random signature";
    }
    bool res = false;
    auto o = vh::Outcome([&] { res = asymm::CheckSignature(NonEmptyString(dd), asymm::Signature(ss), *pk); });
    VH_CHECK(Refused(o, res), "altered-accepted", what << " " << o);
    WriteFile(p, dd);
    o = vh::Outcome([&] { res = asymm::CheckFileSignature(p, asymm::Signature(ss), *pk); });
    VH_CHECK(Refused(o, res), "altered-file-accepted", what << " " << o);
    vh::Add("alterations_refused");
  }
  // keys of other sizes
  for (int bits : {1200, 2056, 3072, 4096}) {
    if (!r.OneIn(3)) continue;
    auto& q = OtherSize(bits);
    WriteFile(p, d);
    bool res = false;
    auto o = vh::Outcome([&] { res = asymm::CheckSignature(NonEmptyString(d), s, q.public_key); });
    VH_CHECK(Refused(o, res), "altered-accepted", "key of " << bits << " bits " << o);
    o = vh::Outcome([&] { res = asymm::CheckFileSignature(p, s, q.public_key); });
    VH_CHECK(Refused(o, res), "altered-file-accepted", "key of " << bits << " bits " << o);
    vh::Add("other_sizes");
  }
  fs::remove(p);
  bool res = false;
  auto o = vh::Outcome([&] { res = asymm::CheckFileSignature(p, s, k.public_key); });
  VH_CHECK(o == "lib", "missing-file", o);
  VH_CHECK(vh::Outcome([&] { asymm::SignFile(p, k.private_key); }) == "lib", "missing-file", "sign");
  vh::Observed(vh::HashBytes(d.data(), d.size()));
}

// Files larger than any buffer one may be read with.
VH_GROUP(large_files, 24, 400) {
  auto& r = c.rng;
  auto& keys = Keys();
  auto& k = keys[r.Below(keys.size())];
  static const size_t kEdges[] = {65536, 1 << 20, 1 << 21, 1 << 22};
  size_t n = r.Coin() ? kEdges[r.Below(4)] - 1 + r.Below(3) : 60000 + r.Below(c.thorough ? 9000000 : 3000000);
  Bytes d = r.ByteVec(n);
  Pkey priv, pub;
  Load(k, &priv, &pub);
  auto p = fs::path(vh::Scratch()) / ("l" + std::to_string(++g_files));
  WriteFile(p, d);
  auto s = asymm::SignFile(p, k.private_key);
  VH_CHECK(RefVerify(pub.k, d, s.string()), "file-signature", "refused elsewhere " << n);
  VH_CHECK(asymm::CheckFileSignature(p, s, k.public_key) && asymm::CheckSignature(NonEmptyString(d), s, k.public_key) &&
           asymm::CheckFileSignature(p, asymm::Signature(RefSign(priv.k, d)), k.public_key), "file-signature", n);
  for (int i = 0; i < 5; ++i) {
    Bytes dd = d;
    switch (i) {
      case 0: dd[r.Below(n)] ^= static_cast<unsigned char>(1 << r.Below(8)); break;
      case 1: dd[n - 1] ^= 1; break;
      case 2: dd.pop_back(); break;
      case 3: dd.resize(n + 1 + r.Below(70000)); break;
      default: dd[0] ^= 128;
    }
    bool res = false;
    WriteFile(p, dd);
    auto o = vh::Outcome([&] { res = asymm::CheckFileSignature(p, s, k.public_key); });
    VH_CHECK(Refused(o, res), "altered-file-accepted", "large file " << n << " " << i << " " << o);
    vh::Add("large_alterations_refused");
  }
  fs::remove(p);
  // a long message too
  Bytes back;
  auto ct = asymm::Encrypt(NonEmptyString(d), k.public_key);
  auto o = vh::Outcome([&] { back = asymm::Decrypt(ct, k.private_key).string(); });
  VH_CHECK(o.empty() && back == d, "not-decrypted", n << " " << o);
  vh::Observed(vh::HashBytes(d.data(), d.size()));
}

VH_GROUP(encryption, 160, 4000) {
  auto& r = c.rng;
  auto& keys = Keys();
  size_t w = r.Below(keys.size());
  auto& k = keys[w];
  auto& other = keys[(w + 1) % keys.size()];
  Bytes d = r.ByteVec(AnySize(r)), back;
  auto ct = asymm::Encrypt(NonEmptyString(d), k.public_key);
  auto o = vh::Outcome([&] { back = asymm::Decrypt(ct, k.private_key).string(); });
  VH_CHECK(o.empty() && back == d, "not-decrypted", d.size() << " " << o);
  VH_CHECK(asymm::Encrypt(NonEmptyString(d), k.public_key) != ct, "encryption-repeats", "");
  if (d.size() >= 16) VH_CHECK(std::search(ct.string().begin(), ct.string().end(), d.begin(), d.end()) == ct.string().end(), "plaintext-in-ciphertext", "");
  o = vh::Outcome([&] { back = asymm::Decrypt(ct, other.private_key).string(); });
  VH_CHECK(o == "lib", "other-key-decrypts", o);
  // the wrapped key is opened by another implementation
  Pkey priv, pub;
  Load(k, &priv, &pub);
  crypto::CipherText body;
  std::string wrapped;
  o = vh::Outcome([&] { Parse(ct.string(), body, wrapped); });
  VH_CHECK(o.empty(), "ciphertext-shape", o);
  Bytes kiv = RefUnwrap(priv.k, Bytes(wrapped.begin(), wrapped.end()));
  VH_CHECK(kiv.size() == 48, "wrapped-key", kiv.size());
  if (kiv.size() == 48) VH_CHECK(crypto::SymmDecrypt(body, crypto::AES256KeyAndIV(kiv)).string() == d, "wrapped-key", "");
  vh::Add("encryptions");
  for (int i = 0; i < 6; ++i) {
    Bytes x = ct.string();
    switch (r.Below(5)) {
      case 0: x[r.Below(x.size())] ^= static_cast<unsigned char>(1 << r.Below(8)); break;
      case 1: x.resize(1 + r.Below(x.size() - 1)); break;
      case 2: x[x.size() - 1 - r.Below(std::min<size_t>(x.size(), 256))] ^= static_cast<unsigned char>(1 + r.Below(255)); break;
      case 3: x = r.ByteVec(1 + r.Below(700)); break;
      default: x[r.Below(std::min<size_t>(16, x.size()))] = static_cast<unsigned char>(r.Next());
    }
    if (x == ct.string()) continue;
    Bytes got;
    o = vh::Outcome([&] { got = asymm::Decrypt(NonEmptyString(x), k.private_key).string(); });
    VH_CHECK(o == "lib", "altered-ciphertext", o << " " << got.size());
    vh::Add("alterations_refused");
  }
  // something well formed which isn't an encrypted message
  for (size_t n : {size_t(47), size_t(1), size_t(49), size_t(60)}) {
    std::string enc, kk = RandomString(n);
    CryptoPP::RSAES_OAEP_SHA_Encryptor e(k.public_key);
    CryptoPP::StringSource(kk, true, new CryptoPP::PK_EncryptorFilter(crypto::random_number_generator(), e, new CryptoPP::StringSink(enc)));
    o = vh::Outcome([&] { asymm::Decrypt(NonEmptyString(Serialise(body, enc)), k.private_key); });
    VH_CHECK(o == "lib", "odd-wrapped-key", n << " " << o);
  }
  vh::Observed(vh::HashBytes(d.data(), d.size()));
}

VH_GROUP(keys, 90, 1500) {
  auto& r = c.rng;
  auto& keys = Keys();
  size_t w = r.Below(keys.size());
  auto& k = keys[w];
  auto& other = keys[(w + 1) % keys.size()];
  auto priv = asymm::EncodeKey(k.private_key);
  auto pub = asymm::EncodeKey(k.public_key);
  auto k2 = asymm::DecodeKey(priv);
  auto p2 = asymm::DecodeKey(pub);
  VH_CHECK(asymm::MatchingKeys(k2, k.private_key) && asymm::MatchingKeys(p2, k.public_key), "key-changed-by-encoding", "");
  VH_CHECK(asymm::EncodeKey(k2) == priv && asymm::EncodeKey(p2) == pub, "key-changed-by-encoding", "bytes");
  VH_CHECK(!asymm::MatchingKeys(k.private_key, other.private_key) && !asymm::MatchingKeys(k.public_key, other.public_key), "different-keys-match", "");
  VH_CHECK(asymm::ValidateKey(k.public_key) && k.public_key.GetModulus().BitCount() == 2048, "generated-key", k.public_key.GetModulus().BitCount());
  Bytes d = r.ByteVec(1 + r.Below(50));
  VH_CHECK(asymm::CheckSignature(NonEmptyString(d), asymm::Sign(NonEmptyString(d), k2), p2) && asymm::Decrypt(asymm::Encrypt(NonEmptyString(d), p2), k2).string() == d, "decoded-key-unusable", "");
  // unusable keys and inputs
  asymm::PrivateKey nopriv;
  asymm::PublicKey nopub;
  NonEmptyString data(d), none;
  asymm::Signature s = asymm::Sign(data, k.private_key);
  auto lib = [&](const char* what, std::function<void()> f) { auto o = vh::Outcome(f); VH_CHECK(o == "lib", "unusable-accepted", what << " " << o); vh::Add("unusable_refused"); };
  lib("encrypt with no key", [&] { asymm::Encrypt(data, nopub); });
  lib("decrypt with no key", [&] { asymm::Decrypt(data, nopriv); });
  lib("sign with no key", [&] { asymm::Sign(data, nopriv); });
  lib("sign file with no key", [&] { asymm::SignFile("/nonexistent", nopriv); });
  lib("check with no key", [&] { asymm::CheckSignature(data, s, nopub); });
  lib("check file with no key", [&] { asymm::CheckFileSignature("/nonexistent", s, nopub); });
  lib("encode no private key", [&] { asymm::EncodeKey(nopriv); });
  lib("encode no public key", [&] { asymm::EncodeKey(nopub); });
  lib("encrypt nothing", [&] { asymm::Encrypt(none, k.public_key); });
  lib("decrypt nothing", [&] { asymm::Decrypt(none, k.private_key); });
  lib("sign nothing", [&] { asymm::Sign(none, k.private_key); });
  lib("check nothing", [&] { asymm::CheckSignature(none, s, k.public_key); });
  lib("check no signature", [&] { asymm::CheckSignature(data, asymm::Signature(), k.public_key); });
  lib("check no file signature", [&] { asymm::CheckFileSignature("/nonexistent", asymm::Signature(), k.public_key); });
  lib("decode nothing", [&] { asymm::DecodeKey(asymm::EncodedPrivateKey()); });
  lib("decode nothing", [&] { asymm::DecodeKey(asymm::EncodedPublicKey()); });
  lib("decode a public key as private", [&] { asymm::DecodeKey(asymm::EncodedPrivateKey(pub.string())); });
  // copies and moves
  asymm::Keys a(k), b(std::move(a)), cc;
  cc = std::move(b);
  VH_CHECK(asymm::MatchingKeys(cc.private_key, k.private_key) && asymm::MatchingKeys(cc.public_key, k.public_key), "key-changed-by-move", "");
  if (r.OneIn(5)) {
    auto fresh = asymm::GenerateKeyPair();
    VH_CHECK(!asymm::MatchingKeys(fresh.public_key, k.public_key) && asymm::ValidateKey(fresh.public_key) && fresh.public_key.GetModulus().BitCount() == 2048, "generated-key", "");
    vh::Add("generated");
  }
  vh::Observed(vh::HashBytes(d.data(), d.size()));
}

VH_GROUP(concurrent, 12, 300) {
  auto& r = c.rng;
  auto& keys = Keys();
  std::vector<std::thread> t;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 4; ++i) seeds.push_back(r.Next());
  for (int i = 0; i < 4; ++i) t.emplace_back([&, i] {
    vh::Rng lr(seeds[static_cast<size_t>(i)]);
    auto& k = keys[lr.Below(keys.size())];
    for (int n = 0; n < 4; ++n) {
      NonEmptyString d(lr.ByteVec(AnySize(lr)));
      VH_CHECK(asymm::Decrypt(asymm::Encrypt(d, k.public_key), k.private_key) == d, "not-decrypted", "concurrently");
      VH_CHECK(asymm::CheckSignature(d, asymm::Sign(d, k.private_key), k.public_key), "own-signature-refused", "concurrently");
    }
  });
  for (auto& x : t) x.join();
  vh::Observed(seeds[0]);
  vh::Add("concurrent");
}
