// Independent SHA-1, SHA-2 (FIPS 180-4).  Constants are computed, not typed in.
#ifndef VERIF_REF_SHA_H_
#define VERIF_REF_SHA_H_
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<unsigned char> Bytes;
inline std::vector<int> Primes(int n) {
  std::vector<int> p;
  for (int i = 2; static_cast<int>(p.size()) < n; ++i) {
    bool ok = true;
    for (int q : p) if (i % q == 0) { ok = false; break; }
    if (ok) p.push_back(i);
  }
  return p;
}
// first 64 bits of the fractional part of the k-th root of p (k = 2, 3), by integer search
inline uint64_t FracRoot(int p, int k) {
  typedef unsigned __int128 u128;
  // find floor(p^(1/k) * 2^64) with long multiplication in 32-bit limbs
  auto mul = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    std::vector<uint32_t> r(a.size() + b.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) {
      uint64_t c = 0;
      for (size_t j = 0; j < b.size(); ++j) { uint64_t t = uint64_t(a[i]) * b[j] + r[i + j] + c; r[i + j] = static_cast<uint32_t>(t); c = t >> 32; }
      r[i + b.size()] += static_cast<uint32_t>(c);
    }
    return r;
  };
  auto le = [](std::vector<uint32_t> a, std::vector<uint32_t> b) {
    size_t n = std::max(a.size(), b.size()); a.resize(n, 0); b.resize(n, 0);
    for (size_t i = n; i-- > 0;) if (a[i] != b[i]) return a[i] < b[i];
    return true;
  };
  std::vector<uint32_t> target(2 * k + 1, 0);
  target[2 * k] = static_cast<uint32_t>(p);
  u128 x = 0;
  for (int bit = 69; bit >= 0; --bit) {
    u128 y = x | (u128(1) << bit);
    std::vector<uint32_t> v = {static_cast<uint32_t>(y), static_cast<uint32_t>(y >> 32), static_cast<uint32_t>(y >> 64)};
    auto w = mul(v, v);
    if (k == 3) w = mul(w, v);
    if (le(w, target)) x = y;
  }
  return static_cast<uint64_t>(x);
}
inline Bytes Pad(const Bytes& m, size_t block) {
  Bytes r = m;
  size_t len_bytes = block / 8;
  r.push_back(0x80);
  while ((r.size() + len_bytes) % block) r.push_back(0);
  unsigned __int128 bits = static_cast<unsigned __int128>(m.size()) * 8;
  for (size_t i = len_bytes; i-- > 0;) r.push_back(static_cast<unsigned char>(i < 16 ? bits >> (8 * i) : 0));
  return r;
}
template <typename W> W Rotr(W x, int n) { return (x >> n) | (x << (sizeof(W) * 8 - n)); }
template <typename W, int kRounds> Bytes Sha2(const Bytes& msg, const W* iv, const std::vector<W>& k, size_t out, const int* s) {
  const size_t block = sizeof(W) * 16;
  Bytes m = Pad(msg, block);
  W h[8];
  for (int i = 0; i < 8; ++i) h[i] = iv[i];
  for (size_t off = 0; off < m.size(); off += block) {
    W w[kRounds];
    for (int t = 0; t < 16; ++t) { w[t] = 0; for (size_t b = 0; b < sizeof(W); ++b) w[t] = static_cast<W>(w[t] << 8 | m[off + t * sizeof(W) + b]); }
    for (int t = 16; t < kRounds; ++t) {
      W s0 = Rotr(w[t - 15], s[6]) ^ Rotr(w[t - 15], s[7]) ^ (w[t - 15] >> s[8]);
      W s1 = Rotr(w[t - 2], s[9]) ^ Rotr(w[t - 2], s[10]) ^ (w[t - 2] >> s[11]);
      w[t] = w[t - 16] + s0 + w[t - 7] + s1;
    }
    W a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int t = 0; t < kRounds; ++t) {
      W t1 = hh + (Rotr(e, s[3]) ^ Rotr(e, s[4]) ^ Rotr(e, s[5])) + ((e & f) ^ (~e & g)) + k[t] + w[t];
      W t2 = (Rotr(a, s[0]) ^ Rotr(a, s[1]) ^ Rotr(a, s[2])) + ((a & b) ^ (a & c) ^ (b & c));
      hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
  }
  Bytes r;
  for (int i = 0; i < 8; ++i) for (size_t b = sizeof(W); b-- > 0;) r.push_back(static_cast<unsigned char>(h[i] >> (8 * b)));
  r.resize(out);
  return r;
}
inline Bytes Sha512Family(const Bytes& m, bool is384) {
  static const int s[12] = {28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6};
  static const std::vector<uint64_t> k = [] { std::vector<uint64_t> r; for (int p : Primes(80)) r.push_back(FracRoot(p, 3)); return r; }();
  static const std::vector<uint64_t> iv = [] { std::vector<uint64_t> r; for (int p : Primes(16)) r.push_back(FracRoot(p, 2)); return r; }();
  return Sha2<uint64_t, 80>(m, is384 ? &iv[8] : &iv[0], k, is384 ? 48 : 64, s);
}
inline Bytes Sha512(const Bytes& m) { return Sha512Family(m, false); }
inline Bytes Sha384(const Bytes& m) { return Sha512Family(m, true); }
inline Bytes Sha256(const Bytes& m) {
  static const int s[12] = {2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10};
  static const std::vector<uint32_t> k = [] { std::vector<uint32_t> r; for (int p : Primes(64)) r.push_back(static_cast<uint32_t>(FracRoot(p, 3) >> 32)); return r; }();
  static const std::vector<uint32_t> iv = [] { std::vector<uint32_t> r; for (int p : Primes(8)) r.push_back(static_cast<uint32_t>(FracRoot(p, 2) >> 32)); return r; }();
  return Sha2<uint32_t, 64>(m, &iv[0], k, 32, s);
}
inline Bytes Sha1(const Bytes& msg) {
  Bytes m = Pad(msg, 64);
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  auto rotl = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
  for (size_t off = 0; off < m.size(); off += 64) {
    uint32_t w[80];
    for (int t = 0; t < 16; ++t) w[t] = uint32_t(m[off + 4 * t]) << 24 | uint32_t(m[off + 4 * t + 1]) << 16 | uint32_t(m[off + 4 * t + 2]) << 8 | m[off + 4 * t + 3];
    for (int t = 16; t < 80; ++t) w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int t = 0; t < 80; ++t) {
      uint32_t f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
      uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
      uint32_t x = rotl(a, 5) + f + e + k + w[t];
      e = d; d = c; c = rotl(b, 30); b = a; a = x;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  Bytes r;
  for (int i = 0; i < 5; ++i) for (int b = 3; b >= 0; --b) r.push_back(static_cast<unsigned char>(h[i] >> (8 * b)));
  return r;
}
}  // namespace ref
#endif
