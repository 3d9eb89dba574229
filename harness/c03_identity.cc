#include "maidsafe/common/identity.h"
#include "vh_ms.h"
using namespace maidsafe;
using vh::Outcome;
using vh::OutcomeCode;
namespace {
typedef std::vector<unsigned char> V;
std::string Bits(const V& v) { std::string r; for (auto c : v) for (int b = 7; b >= 0; --b) r += c >> b & 1 ? '1' : '0'; return r; }
int RefCommon(const V& a, const V& b) {
  std::string x = Bits(a), y = Bits(b);
  int i = 0;
  while (i < 512 && x[i] == y[i]) ++i;
  return i;
}
// compares a^t with b^t as 512-bit integers, one bit at a time
bool RefCloser(const V& a, const V& b, const V& t) {
  for (int i = 0; i < 512; ++i) {
    int x = (a[i / 8] ^ t[i / 8]) >> (7 - i % 8) & 1, y = (b[i / 8] ^ t[i / 8]) >> (7 - i % 8) & 1;
    if (x != y) return x < y;
  }
  return false;
}
void Flip(V& v, int bit) { v[bit / 8] ^= 0x80 >> bit % 8; }
void Triple(const V& a, const V& b, const V& t) {
  Identity x(a), y(b), z(t);
  bool ab = CloserToTarget(x, y, z), ba = CloserToTarget(y, x, z);
  VH_CHECK(ab == RefCloser(a, b, t), "closer-differs-from-xor-distance", vh::Hex(a, 64) << " " << vh::Hex(b, 64) << " target " << vh::Hex(t, 64));
  VH_CHECK(ab + ba + (a == b) == 1, "closer-not-strict-total", vh::Hex(a, 64) << " " << vh::Hex(b, 64) << " target " << vh::Hex(t, 64));
  VH_CHECK(CommonLeadingBits(x, y) == RefCommon(a, b), "common-leading-bits", vh::Hex(a, 64) << " " << vh::Hex(b, 64) << " got " << CommonLeadingBits(x, y) << " want " << RefCommon(a, b));
  VH_CHECK(CommonLeadingBits(y, x) == CommonLeadingBits(x, y), "common-bits-asymmetric", "");
  VH_CHECK(CloserToTarget(z, x, z) == (t != a), "target-closest-to-itself", "");
}
}  // namespace
// ids differing first at a chosen bit, for all 512 positions, with random and equal remainders
VH_GROUP(bit_positions, 1024, 20480) {
  V t = c.rng.ByteVec(64), a = t, b;
  int bit = c.index % 512;
  Flip(a, bit);
  b = a;
  if (c.rng.Coin()) for (int i = bit + 1; i < 512; ++i) if (c.rng.Coin()) Flip(a, i);
  if (c.rng.Coin()) for (int i = bit + 1; i < 512; ++i) if (c.rng.Coin()) Flip(b, i);
  Triple(a, b, t); Triple(a, t, b); Triple(b, a, a); Triple(t, a, a); Triple(t, t, b);
  V d = a; Flip(d, 511 - bit); Triple(a, d, t); Triple(d, a, b);
  V lo(64, 0), hi(64, 255); Triple(a, lo, hi); Triple(lo, hi, a); Triple(hi, lo, t);
  vh::Observed(vh::HashBytes(a.data(), 64));
  if (c.index < 2) vh::Sample("differ at bit " + std::to_string(bit) + " " + vh::Hex(a, 8));
}
// all 65536 pairs of one byte, at a moving position
VH_GROUP(byte_pairs, 256, 1024) {
  V a = c.rng.ByteVec(64), b = a, t = c.rng.ByteVec(64);
  int pos = c.rng.Below(64);
  for (int j = 0; j < 256; ++j) { a[pos] = c.index & 255; b[pos] = j; Triple(a, b, t); vh::Observed(vh::Mix((c.index << 8 | j) * 64 + pos)); }
}
VH_GROUP(order_axioms, 300, 6000) {
  std::vector<Identity> ids; V t = c.rng.ByteVec(64), base = c.rng.ByteVec(64);
  for (int i = 0; i < 9; ++i) {
    V v = base;
    int from = c.rng.Below(512);
    for (int k = from; k < std::min(512, from + 12); ++k) if (c.rng.Coin()) Flip(v, k);
    ids.emplace_back(v);
  }
  Identity target(t);
  for (auto& x : ids) for (auto& y : ids) for (auto& z : ids)
    if (CloserToTarget(x, y, target) && CloserToTarget(y, z, target))
      VH_CHECK(CloserToTarget(x, z, target), "closer-not-transitive", vh::Hex(x.string(), 64));
  auto sorted = ids;
  std::sort(sorted.begin(), sorted.end(), [&](const Identity& a, const Identity& b) { return CloserToTarget(a, b, target); });
  for (size_t i = 1; i < sorted.size(); ++i)
    VH_CHECK(!RefCloser(sorted[i].string(), sorted[i - 1].string(), t), "sorted-by-distance", i);
  Identity none;
  std::string e = vh::Code(CommonErrors::invalid_identity);
  VH_CHECK(OutcomeCode([&] { CloserToTarget(none, ids[0], target); }) == e && OutcomeCode([&] { CloserToTarget(ids[0], none, target); }) == e &&
           OutcomeCode([&] { CloserToTarget(ids[0], ids[1], none); }) == e && OutcomeCode([&] { CommonLeadingBits(none, ids[0]); }) == e &&
           OutcomeCode([&] { CommonLeadingBits(ids[0], none); }) == e && OutcomeCode([&] { CommonLeadingBits(none, none); }) == e &&
           OutcomeCode([&] { binary::Encode(none); }) == e && Outcome([&] { hex::Encode(none); }) == "lib" && Outcome([&] { base64::Encode(none); }) == "lib",
           "uninitialised-accepted", "");
  vh::Observed(vh::HashBytes(base.data(), 64));
}
VH_GROUP(text_forms, 800, 20000) {
  V v = c.rng.ByteVec(64);
  if (c.index < 256) v.assign(64, c.index); else if (c.rng.OneIn(3)) v[c.rng.Below(64)] = 0;
  Identity id(v);
  std::string bits = Bits(v);
  VH_CHECK(binary::Encode(id) == bits, "binary-encode", vh::Hex(v, 64));
  VH_CHECK(MakeIdentity(binary::String(bits)) == id && MakeIdentity(binary::String(bits)).string() == v, "binary-round-trip", vh::Hex(v, 64));
  VH_CHECK(MakeIdentity(hex::String(hex::Encode(id))) == id, "hex-round-trip", vh::Hex(v, 64));
  VH_CHECK(MakeIdentity(base64::String(base64::Encode(id))) == id, "base64-round-trip", vh::Hex(v, 64));
  VH_CHECK(hex::Encode(id) == vh::Hex(v, 64), "hex-encode", vh::Hex(v, 64));
  vh::Observed(vh::HashBytes(v.data(), 64) ^ 3);
}
// every wrong size through every way of making an identity
VH_GROUP(sizes, 600, 1200) {
  size_t n = c.index < 520 ? c.index : c.rng.Below(3000);
  std::string raw = c.rng.Bytes(n);
  V v(raw.begin(), raw.end());
  bool good = n == 64;
  VH_CHECK(OutcomeCode([&] { Identity x(v); }) == (good ? "" : vh::Code(CommonErrors::outside_of_bounds)), "bytes-size", n);
  VH_CHECK(OutcomeCode([&] { Identity x(raw); }) == (good ? "" : vh::Code(CommonErrors::outside_of_bounds)), "string-size", n);
  std::string e = vh::Code(CommonErrors::invalid_identity);
  VH_CHECK(OutcomeCode([&] { MakeIdentity(hex::String(hex::Encode(v))); }) == (good ? "" : e), "hex-size", n);
  VH_CHECK(OutcomeCode([&] { MakeIdentity(base64::String(base64::Encode(v))); }) == (good ? "" : e), "base64-size", n);
  std::string h = hex::Encode(v); if (!h.empty()) h.pop_back();
  VH_CHECK(OutcomeCode([&] { MakeIdentity(hex::String(h)); }) == e, "hex-odd-size", n);
  std::string bits(n, '0'); for (auto& ch : bits) if (c.rng.Coin()) ch = '1';
  VH_CHECK(OutcomeCode([&] { MakeIdentity(binary::String(bits)); }) == (n == 512 ? "" : e), "binary-size", n << " bits");
  std::string bad(512, '1'); bad[c.rng.Below(512)] = c.rng.Pick(std::string("2 a\x00\xff/", 6));
  VH_CHECK(OutcomeCode([&] { MakeIdentity(binary::String(bad)); }) == e, "binary-bad-digit", "");
  vh::Observed(n * 7 + 1); vh::Add(good ? "accepted" : "refused");
}
VH_GROUP(random_ids, 200, 2000) {
  std::set<V> seen;
  for (int i = 0; i < 20; ++i) {
    Identity id = MakeIdentity();
    VH_CHECK(id.IsInitialised() && id.string().size() == 64, "random-identity-size", id.string().size());
    VH_CHECK(seen.insert(id.string()).second, "random-identity-repeats", "");
    vh::Observed(vh::HashBytes(id.string().data(), 64));
  }
}
