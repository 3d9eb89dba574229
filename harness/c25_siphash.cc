#include "maidsafe/common/hash/algorithms/siphash.h"
#include <memory>
#include "vh.h"
using maidsafe::SipHash;
typedef std::array<maidsafe::byte, 16> Key;
namespace {
// SipHash-2-4 written from the paper, over one whole message
uint64_t Rot(uint64_t x, int n) { return (x << n) | (x >> (64 - n)); }
struct St { uint64_t v[4]; void Round() {
  v[0] += v[1]; v[2] += v[3]; v[1] = Rot(v[1], 13) ^ v[0]; v[3] = Rot(v[3], 16) ^ v[2]; v[0] = Rot(v[0], 32);
  v[2] += v[1]; v[0] += v[3]; v[1] = Rot(v[1], 17) ^ v[2]; v[3] = Rot(v[3], 21) ^ v[0]; v[2] = Rot(v[2], 32); } };
uint64_t Reference(const Key& k, const std::string& m) {
  auto word = [](const unsigned char* p, size_t n) { uint64_t w = 0; for (size_t i = 0; i < n; ++i) w |= (uint64_t)p[i] << (8 * i); return w; };
  uint64_t k0 = word(k.data(), 8), k1 = word(k.data() + 8, 8);
  St s{{k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL}};
  size_t i = 0; const unsigned char* p = reinterpret_cast<const unsigned char*>(m.data());
  for (; i + 8 <= m.size(); i += 8) { uint64_t w = word(p + i, 8); s.v[3] ^= w; s.Round(); s.Round(); s.v[0] ^= w; }
  uint64_t w = word(p + i, m.size() - i) | (uint64_t)(m.size() & 255) << 56;
  s.v[3] ^= w; s.Round(); s.Round(); s.v[0] ^= w; s.v[2] ^= 0xff; for (int r = 0; r < 4; ++r) s.Round();
  return s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
}
// hands over a piece of exactly its size at the wanted misalignment, so that reading outside it is seen
void Feed(SipHash& h, const std::string& piece, unsigned shift) {
  std::unique_ptr<unsigned char[]> mem(new unsigned char[piece.size() + shift]);
  unsigned char* p = mem.get() + shift; std::copy(piece.begin(), piece.end(), p);
  h.Update(p, piece.size());
  std::fill(mem.get(), mem.get() + piece.size() + shift, 0xAA);
}
Key RandomKey(vh::Rng& r) { Key k; for (auto& b : k) b = r.OneIn(8) ? 0 : r.OneIn(8) ? 255 : (unsigned char)r.Next(); return k; }
}  // namespace

VH_GROUP(vectors, 1, 1) {
  // values published with the algorithm: key 00..0f, message 00, 01, ... of each length
  static const uint64_t want[] = {0x726fdb47dd0e0e31ULL, 0x74f839c593dc67fdULL, 0x0d6c8009d9a94f5aULL, 0x85676696d7fb7e2dULL, 0xcf2794e0277187b7ULL, 0x18765564cd99a68dULL, 0xcbc9466e58fee3ceULL, 0xab0200f58b01d137ULL, 0x93f5f5799a932462ULL};
  Key k; for (int i = 0; i < 16; ++i) k[i] = i;
  std::string m; for (size_t i = 0; i < 9; ++i) { if (Reference(k, m) != want[i]) vh::HarnessError("reference implementation"); SipHash h(k); Feed(h, m, 0); VH_CHECK(h.Finalize() == want[i], "published-vector", i); m += (char)i; }
  m.clear(); for (int i = 0; i < 15; ++i) m += (char)i;
  if (Reference(k, m) != 0xa129ca6149be45e5ULL) vh::HarnessError("reference implementation");
  vh::Observed(1); vh::Sample("published vectors of 0..8 bytes");
}
// every division of every message up to 24 bytes into three pieces
VH_GROUP(three_pieces, 25, 60) {
  auto& r = c.rng; size_t n = c.index; Key k = RandomKey(r); std::string m = r.Bytes(n); uint64_t want = Reference(k, m);
  for (size_t a = 0; a <= n; ++a) for (size_t b = a; b <= n; ++b) {
    SipHash h(k); Feed(h, m.substr(0, a), (a + b) % 8); Feed(h, m.substr(a, b - a), b % 8); Feed(h, m.substr(b), a % 8);
    VH_CHECK(h.Finalize() == want, "split-changes-hash", "length " << n << " split at " << a << "," << b);
    vh::Observed(vh::Mix(n * 10007 + a * 101 + b));
  }
}
VH_GROUP(pieces, 6000, 400000) {
  auto& r = c.rng; Key k = RandomKey(r); size_t n = r.OneIn(3) ? 200 + r.Below(120) : r.Size(r.OneIn(50) ? 70000 : 2000);
  std::string m = r.Bytes(n); if (r.OneIn(5)) std::fill(m.begin(), m.end(), r.Coin() ? 0 : (char)255);
  uint64_t want = Reference(k, m); uint64_t shape = n; SipHash h(k); size_t at = 0; int style = r.Below(4); int finals = 0;
  while (at < n || r.OneIn(3)) {
    size_t len = style == 0 ? r.Below(9) : style == 1 ? r.Below(3) : style == 2 ? r.Size(n) : 7 + r.Below(3); len = std::min(len, n - at);
    Feed(h, m.substr(at, len), r.Below(16)); at += len; shape = vh::Mix(shape ^ len);
    if (r.OneIn(6)) { ++finals; VH_CHECK(h.Finalize() == Reference(k, m.substr(0, at)), "intermediate-value", at << " of " << n); }
    if (r.OneIn(12)) {  // a copy and the original go separate ways
      SipHash o(h); std::string tail = r.Bytes(r.Below(30)); Feed(o, tail, r.Below(8));
      VH_CHECK(o.Finalize() == Reference(k, m.substr(0, at) + tail), "copy-continues", at); vh::Add("copies");
      if (r.Coin()) { SipHash p(RandomKey(r)); Feed(p, r.Bytes(r.Below(20)), 0); p = h; Feed(p, tail, 1); VH_CHECK(p.Finalize() == Reference(k, m.substr(0, at) + tail), "assigned-copy-continues", at); }
    }
  }
  VH_CHECK(h.Finalize() == want && h.Finalize() == want, "hash-value", "length " << n);
  SipHash whole(k); Feed(whole, m, r.Below(8)); VH_CHECK(whole.Finalize() == want, "hash-value-in-one-piece", "length " << n);
  vh::Add("intermediate", finals); vh::Observed(shape ^ vh::HashStr(m)); vh::Sample(std::to_string(n) + " bytes");
}
VH_GROUP(bits, 600, 6000) {   // each bit of key and message matters, as in the reference
  auto& r = c.rng; Key k = RandomKey(r); std::string m = r.Bytes(r.Below(40)); 
  for (int i = 0; i < 128; ++i) { Key q = k; q[i / 8] ^= 1 << (i % 8); SipHash h(q); Feed(h, m, i % 8); VH_CHECK(h.Finalize() == Reference(q, m), "key-bit", i); }
  for (size_t i = 0; i < m.size() * 8; ++i) { std::string q = m; q[i / 8] ^= 1 << (i % 8); SipHash h(k); Feed(h, q, i % 8); VH_CHECK(h.Finalize() == Reference(k, q), "message-bit", i); }
  vh::Observed(r.Next());
}
VH_GROUP(large, 4, 40) {   // lengths past 2^16 and 2^24 (the length byte wraps, the remainder does not)
  auto& r = c.rng; Key k = RandomKey(r); size_t n = ((size_t)1 << (16 + 2 * (c.index % 5))) + r.Range(-9, 9); std::string m = r.Bytes(n);
  SipHash h(k); size_t at = 0; while (at < n) { size_t len = std::min<size_t>(n - at, 1 + r.Below(n / 3)); Feed(h, m.substr(at, len), r.Below(8)); at += len; vh::Beat(); }
  VH_CHECK(h.Finalize() == Reference(k, m), "large-message", n); vh::Observed(n);
}
