// C18: Compress / Uncompress against zlib.
#include <zlib.h>
#include <cstring>
#include "maidsafe/common/crypto.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;
namespace {
// 0 when b is exactly one complete gzip member; then *out is its content.
bool Inflate(const Bytes& b, Bytes* out, bool* whole) {
  z_stream z;
  memset(&z, 0, sizeof z);
  inflateInit2(&z, 31);
  z.next_in = const_cast<unsigned char*>(b.data());
  z.avail_in = static_cast<unsigned>(b.size());
  out->clear();
  int s;
  unsigned char buf[16384];
  do {
    z.next_out = buf;
    z.avail_out = sizeof buf;
    s = inflate(&z, Z_NO_FLUSH);
    out->insert(out->end(), buf, buf + (sizeof buf - z.avail_out));
  } while (s == Z_OK && (z.avail_in || !z.avail_out));
  bool end = s == Z_STREAM_END;
  *whole = end && z.avail_in == 0;
  inflateEnd(&z);
  return end;
}
struct Style { int level = 6, strategy = 0, mem = 8, bits = 15; bool name = false, comment = false, extra = false, hcrc = false; };
Bytes Deflate(vh::Rng& r, const Bytes& p, const Style& st) {
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, st.level, Z_DEFLATED, st.bits + 16, st.mem, st.strategy);
  gz_header h;
  memset(&h, 0, sizeof h);
  unsigned char name[] = "a name", comment[] = "some words", extra[] = "\x01\x00xx";
  h.time = static_cast<unsigned long>(r.Next() & 0xffffffff);
  h.os = static_cast<int>(r.Below(256));
  if (st.name) h.name = name;
  if (st.comment) h.comment = comment;
  if (st.extra) { h.extra = extra; h.extra_len = 4; }
  h.hcrc = st.hcrc;
  deflateSetHeader(&z, &h);
  Bytes out(deflateBound(&z, p.size()) + 100);
  z.next_out = out.data();
  z.avail_out = static_cast<unsigned>(out.size());
  size_t at = 0;
  while (at < p.size() && r.OneIn(3)) {  // flushes in the middle
    size_t n = 1 + r.Below(p.size() - at);
    z.next_in = const_cast<unsigned char*>(p.data()) + at;
    z.avail_in = static_cast<unsigned>(n);
    if (z.avail_out < n + 200) break;
    deflate(&z, r.Coin() ? Z_SYNC_FLUSH : Z_FULL_FLUSH);
    at += n - z.avail_in;
    if (z.avail_out < (p.size() - at) + (p.size() - at) / 100 + 200) {
      size_t used = out.size() - z.avail_out;
      out.resize(out.size() + p.size() * 2 + 1000);
      z.next_out = out.data() + used;
      z.avail_out = static_cast<unsigned>(out.size() - used);
    }
  }
  z.next_in = const_cast<unsigned char*>(p.data()) + at;
  z.avail_in = static_cast<unsigned>(p.size() - at);
  int s = deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  if (s != Z_STREAM_END) out.clear();
  return out;
}
Bytes Plain(vh::Rng& r) {
  size_t n = r.OneIn(150) ? 1000000 + r.Below(1200000) : r.OneIn(6) ? 1 + r.Below(120000) : r.OneIn(4) ? 1 + r.Below(5) : 1 + r.Below(3000);
  Bytes p;
  switch (r.Below(5)) {
    case 0: return r.ByteVec(n);
    case 1: return Bytes(n, static_cast<unsigned char>(r.Next()));
    case 2: { for (size_t i = 0; i < n; ++i) p.push_back(static_cast<unsigned char>("abcde \n"[r.Below(7)])); return p; }
    case 3: {  // repeats at all distances
      p = r.ByteVec(1 + r.Below(40));
      while (p.size() < n) {
        size_t from = r.Below(p.size()), len = 1 + r.Below(300);
        for (size_t i = 0; i < len; ++i) p.push_back(p[from + i]);
        if (r.OneIn(3)) p.push_back(static_cast<unsigned char>(r.Next()));
      }
      p.resize(n);
      return p;
    }
    default: { for (size_t i = 0; i < n; ++i) p.push_back(static_cast<unsigned char>(i * i / 7)); return p; }
  }
}
crypto::CompressedText C(const Bytes& b) { return crypto::CompressedText(NonEmptyString(b)); }
}  // namespace

VH_GROUP(round_trip, 2000, 40000) {
  auto& r = c.rng;
  Bytes p = Plain(r), z, back;
  bool whole;
  uint16_t level = static_cast<uint16_t>(r.Below(10));
  auto o = vh::Outcome([&] { z = crypto::Compress(NonEmptyString(p), level)->string(); });
  VH_CHECK(o.empty(), "compress-refused", o);
  VH_CHECK(Inflate(z, &back, &whole) && whole && back == p, "compressed-form", "level " << level << ", " << p.size() << " bytes");
  o = vh::Outcome([&] { back = crypto::Uncompress(C(z)).string(); });
  VH_CHECK(o.empty() && back == p, "uncompressed", "level " << level << ", " << p.size() << " bytes " << o);
  if (level == 9 && p.size() > 1000 && std::all_of(p.begin(), p.end(), [&](unsigned char b) { return b == p[0]; })) VH_CHECK(z.size() < p.size() / 2, "not-compressed", p.size() << " to " << z.size());
  uint16_t high = static_cast<uint16_t>(r.OneIn(4) ? 10 : 10 + r.Below(65526));
  VH_CHECK(vh::OutcomeCode([&] { crypto::Compress(NonEmptyString(p), high); }) == vh::Code(CommonErrors::invalid_argument), "level-accepted", high);
  vh::Add("round_trips");
  vh::Observed(vh::HashBytes(z.data(), z.size()));
}

// Streams made by another compressor: all block types, headers, windows and flushes.
VH_GROUP(foreign, 1500, 40000) {
  auto& r = c.rng;
  Bytes p = Plain(r), back;
  Style st;
  st.level = static_cast<int>(r.Below(10));
  st.strategy = static_cast<int>(r.Below(5));
  st.mem = 1 + static_cast<int>(r.Below(9));
  st.bits = 9 + static_cast<int>(r.Below(7));
  if (r.Coin()) { st.name = r.Coin(); st.comment = r.Coin(); st.extra = r.Coin(); }
  Bytes z = Deflate(r, p, st);
  if (z.empty()) return;
  auto o = vh::Outcome([&] { back = crypto::Uncompress(C(z)).string(); });
  VH_CHECK(o.empty() && back == p, "uncompressed", "foreign stream of " << p.size() << " bytes, level " << st.level << " strategy " << st.strategy << ": " << o);
  vh::Add("foreign");
  vh::Observed(vh::HashBytes(z.data(), z.size()));
}

VH_GROUP(damage, 4000, 100000) {
  auto& r = c.rng;
  Bytes p = Plain(r);
  if (p.size() > 4000 && !r.OneIn(8)) p.resize(4000);
  Bytes z = crypto::Compress(NonEmptyString(p), static_cast<uint16_t>(r.Below(10)))->string();
  const Bytes intact = z;
  std::string what;
  switch (r.Below(7)) {
    case 0: z.resize(1 + r.Below(z.size() - 1)); what = "cut"; break;
    case 1: { size_t b = r.Below(z.size() * 8); z[b / 8] ^= static_cast<unsigned char>(1 << b % 8); what = "bit " + std::to_string(b) + " of " + std::to_string(z.size() * 8); break; }
    case 2: { z[z.size() - 1 - r.Below(8)] ^= static_cast<unsigned char>(1 + r.Below(255)); what = "check value"; break; }
    case 3: { auto m = r.ByteVec(1 + r.Below(30)); if (r.OneIn(3)) m = z; else if (r.OneIn(3)) m.assign(m.size(), 0); z.insert(z.end(), m.begin(), m.end()); what = "trailing bytes"; break; }  // another whole stream, too
    case 4: { for (int n = 1 + static_cast<int>(r.Below(5)); n--;) z[r.Below(z.size())] = static_cast<unsigned char>(r.Next()); what = "bytes replaced"; break; }
    case 5: { z.erase(z.begin() + static_cast<ptrdiff_t>(r.Below(z.size()))); what = "byte removed"; break; }
    default: { z = r.ByteVec(1 + r.Below(200)); if (z.size() > 3 && r.Coin()) { z[0] = 0x1f; z[1] = 0x8b; z[2] = 8; z[3] = static_cast<unsigned char>(r.Below(32)); } what = "random"; }
  }
  Bytes back, ref;
  bool whole;
  auto o = vh::OutcomeCode([&] { back = crypto::Uncompress(C(z)).string(); });
  bool valid = Inflate(z, &ref, &whole) && whole;
  VH_CHECK(o.empty() || o.substr(0, 4) == "lib:", "uncompress-raises", what << " " << o);
  if (valid) {
    if (!o.empty()) {
      vh::Add("harmless_refused");  // e.g. reserved header bits; judged below only for what is certain
      VH_CHECK(z != intact, "uncompressed", what << " " << o);
    } else {
      VH_CHECK(back == ref, "wrong-data", what << " " << back.size() << " bytes instead of " << ref.size());
    }
  } else {
    // a header field ignored by one reader and not the other may leave the content as it was
    VH_CHECK(!o.empty() || back == p, "invalid-accepted", what << ", " << back.size() << " bytes of " << p.size());
    if (what == "cut" || what == "trailing bytes" || what == "check value")
      VH_CHECK(o == vh::Code(CommonErrors::uncompression_error), "invalid-accepted", what << " " << o);
    vh::Add("refused");
  }
  vh::Observed(vh::HashBytes(z.data(), z.size()));
}

VH_GROUP(uninitialised, 10, 50) {
  auto u = vh::Code(CommonErrors::uninitialised);
  VH_CHECK(vh::OutcomeCode([&] { crypto::Compress(NonEmptyString(), static_cast<uint16_t>(c.index % 10)); }) == u, "uninitialised-accepted", "");
  VH_CHECK(vh::OutcomeCode([&] { crypto::Uncompress(crypto::CompressedText()); }) == u, "uninitialised-accepted", "");
  // a stream of nothing
  Style st;
  Bytes z = Deflate(c.rng, Bytes(), st);
  VH_CHECK(vh::Outcome([&] { crypto::Uncompress(C(z)); }) == "lib", "empty-content", "");
  vh::Observed(c.index);
}
