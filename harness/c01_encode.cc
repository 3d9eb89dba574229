#include "maidsafe/common/encode.h"
#include "maidsafe/common/bounded_string.h"
#include "vh_ms.h"
using namespace maidsafe;
using vh::Outcome;
namespace {
typedef std::vector<unsigned char> Bytes;
std::string RefHex(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02x", c); r += b; }
  return r;
}
std::string RefB64(const std::string& s) {
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    size_t n = std::min<size_t>(3, s.size() - i);
    uint32_t v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
    for (size_t k = 0; k < 4; ++k) r += k <= n ? a[v >> (18 - 6 * k) & 63] : '=';
  }
  return r;
}
bool IsHexText(const std::string& s) {
  if (s.size() % 2) return false;
  for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false;
  return true;
}
// 0 rejects, 1 canonical (must decode), 2 may do either (non-canonical padding bits and the like)
int B64Class(const std::string& s, std::string& value) {
  if (s.size() % 4) return 0;
  static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  size_t first_pad = s.find('=');
  for (size_t i = 0; i < std::min(first_pad, s.size()); ++i) if (a.find(s[i]) == std::string::npos) return 0;
  value.clear();
  size_t body = first_pad == std::string::npos ? s.size() : first_pad;
  uint32_t acc = 0; int bits = 0;
  for (size_t i = 0; i < body; ++i) {
    acc = (acc << 6 | (uint32_t)a.find(s[i])) & 0xffffff; bits += 6;
    if (bits >= 8) { bits -= 8; value += (char)(acc >> bits & 0xff); }
  }
  if (first_pad == std::string::npos) return 1;
  size_t from_end = s.size() - first_pad;
  if (from_end > 2) return 0;
  return RefB64(value) == s ? 1 : 2;
}
void CheckValue(const std::string& s) {
  Bytes v(s.begin(), s.end());
  std::string h = RefHex(s), b = RefB64(s);
  VH_CHECK(hex::Encode(s) == h, "hex-encode-string", vh::Hex(s) << " gave " << hex::Encode(s).substr(0, 80));
  VH_CHECK(hex::Encode(v) == h, "hex-encode-bytes", vh::Hex(s));
  VH_CHECK(hex::DecodeToString(h) == s, "hex-decode-string", h.substr(0, 80));
  VH_CHECK(hex::DecodeToBytes(h) == v, "hex-decode-bytes", h.substr(0, 80));
  VH_CHECK(base64::Encode(s) == b, "base64-encode-string", vh::Hex(s) << " gave " << base64::Encode(s).substr(0, 80));
  VH_CHECK(base64::Encode(v) == b, "base64-encode-bytes", vh::Hex(s));
  VH_CHECK(base64::DecodeToString(b) == s, "base64-decode-string", b.substr(0, 80));
  VH_CHECK(base64::DecodeToBytes(b) == v, "base64-decode-bytes", b.substr(0, 80));
  if (!s.empty()) {
    detail::BoundedString<1> bs(v);
    VH_CHECK(hex::Encode(bs) == h, "hex-encode-bounded", vh::Hex(s));
    VH_CHECK(base64::Encode(bs) == b, "base64-encode-bounded", vh::Hex(s));
    detail::BoundedString<1, size_t(-1), std::string> bs2(s);
    VH_CHECK(hex::Encode(bs2) == h && base64::Encode(bs2) == b, "encode-bounded-string", vh::Hex(s));
  }
  auto sub = [](const std::string& e) { return e.size() > 14 ? e.substr(0, 6) + ".." + e.substr(e.size() - 6) : e; };
  VH_CHECK(hex::Substr(s) == sub(h) && hex::Substr(v) == sub(h), "hex-substr", vh::Hex(s));
  VH_CHECK(base64::Substr(s) == sub(b), "base64-substr", vh::Hex(s));
}
void CheckHexText(const std::string& t) {
  std::string got; Bytes gv;
  std::string o = Outcome([&] { got = hex::DecodeToString(t); });
  std::string o2 = Outcome([&] { gv = hex::DecodeToBytes(t); });
  VH_CHECK(o == o2, "hex-decode-forms-differ", vh::Hex(t));
  if (IsHexText(t)) {
    VH_CHECK(o.empty() && RefHex(got) == t && std::string(gv.begin(), gv.end()) == got, "hex-decode-valid", t.substr(0, 80) << " " << o);
    vh::Add("hex_text_accepted");
  } else {
    VH_CHECK(o == "lib", "hex-decode-invalid-accepted", "text " << vh::Hex(t) << " outcome '" << o << "' value " << vh::Hex(got));
    vh::Add("hex_text_rejected");
  }
}
void CheckB64Text(const std::string& t) {
  std::string got, want; Bytes gv;
  std::string o = Outcome([&] { got = base64::DecodeToString(t); });
  std::string o2 = Outcome([&] { gv = base64::DecodeToBytes(t); });
  VH_CHECK(o == o2, "base64-decode-forms-differ", vh::Hex(t));
  VH_CHECK(o.empty() || o == "lib", "base64-decode-other-exception", vh::Hex(t) << " " << o);
  int c = B64Class(t, want);
  if (c == 1) {
    VH_CHECK(o.empty() && got == want, "base64-decode-valid", t.substr(0, 80) << " " << o << " " << vh::Hex(got));
    vh::Add("b64_text_accepted");
  } else if (c == 0) {
    VH_CHECK(o == "lib", "base64-decode-invalid-accepted", "text " << vh::Hex(t) << " outcome '" << o << "' value " << vh::Hex(got));
    vh::Add("b64_text_rejected");
  }
  if (o.empty()) VH_CHECK(std::string(gv.begin(), gv.end()) == got, "base64-decode-forms-differ", vh::Hex(t));
}
}  // namespace

VH_GROUP(values, 6000, 120000) {
  size_t n = c.index < 70 ? c.index : c.index % 97 == 0 ? c.rng.Size(200000) : c.rng.Size(400);
  std::string s = c.rng.Bytes(n);
  if (c.rng.OneIn(5)) for (auto& x : s) x = (char)c.rng.Pick(std::string("\x00\xff\x80\x7f\x01""A=+/", 9));
  CheckValue(s);
  vh::Observed(vh::HashStr(s));
  if (c.index < 3) vh::Sample("bytes " + vh::Hex(s, 16));
}
// every 1-byte and 2-byte value, and every single character in a hex pair
VH_GROUP(small_exhaustive, 257, 257) {
  if (c.index == 256) { CheckValue(""); CheckHexText(""); CheckB64Text(""); vh::Observed(1); return; }
  for (int j = 0; j < 256; ++j) {
    std::string s{(char)c.index, (char)j};
    if (j == 0) CheckValue(std::string(1, (char)c.index));
    CheckValue(s);
    CheckHexText(s);
    vh::Observed(vh::HashStr(s) ^ 77);
  }
  for (int pos = 0; pos < 4; ++pos) {
    std::string s = "QUJD"; s[pos] = (char)c.index; CheckB64Text(s);
    s = "QUI="; s[pos] = (char)c.index; CheckB64Text(s);
    s = "QQ=="; s[pos] = (char)c.index; CheckB64Text(s);
    s = "QUJDQUJD"; s[pos + 2] = (char)c.index; CheckB64Text(s);
  }
}
VH_GROUP(texts, 12000, 300000) {
  auto& r = c.rng;
  // keep the text in an exactly-sized heap block so that an over-read is visible
  std::string t;
  switch (r.Below(7)) {
    case 0: t = r.Bytes(r.Below(40)); break;
    case 1: t = RefHex(r.Bytes(r.Below(40))); break;
    case 2: t = RefB64(r.Bytes(r.Below(40))); break;
    case 3: { size_t n = r.Below(60); for (size_t i = 0; i < n; ++i) t += r.Pick(std::string("0123456789abcdefABCDEFgG=+/ \n")); break; }
    case 4: { size_t n = 4 * r.Below(12); for (size_t i = 0; i < n; ++i) t += r.Pick(std::string("ABYZabyz0189+/=")); break; }
    case 5: if (r.OneIn(30)) { t = r.Coin() ? RefHex(r.Bytes(r.Below(80000))) : RefB64(r.Bytes(r.Below(80000))); break; }  // fall through
    default: t = RefHex(r.Bytes(r.Below(300) + 20));
  }
  size_t edits = r.Below(3);
  for (size_t e = 0; e < edits && !t.empty(); ++e) {
    size_t p = r.Below(t.size());
    switch (r.Below(5)) {
      case 0: t[p] = (char)r.Next(); break;
      case 1: t.erase(p, 1); break;
      case 2: t.insert(p, 1, (char)r.Next()); break;
      case 3: t[p] = '='; break;
      default: t[p] = (char)toupper(t[p]);
    }
  }
  CheckHexText(t);
  CheckB64Text(t);
  vh::Observed(vh::HashStr(t) ^ 5);
  if (c.index < 4) vh::Sample("text " + vh::Hex(t, 20));
}
