#include "maidsafe/common/clock.h"
#include "maidsafe/common/convert.h"
#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/type_macros.h"
#include <cmath>
#include <limits>
#include <memory>
#include "vh.h"
using namespace maidsafe;

VH_GROUP(clock_conversion, 4000, 200000) {
  auto& r = c.rng;
  const int64_t lim = std::numeric_limits<int64_t>::max() / 1000000000;
  int64_t s;
  switch (r.Below(6)) {
    case 0: s = r.Range(-3, 3); break;
    case 1: s = lim - (int64_t)r.Below(3); break;
    case 2: s = -lim + (int64_t)r.Below(3); break;
    case 3: s = (int64_t(1) << r.Below(33)) + r.Range(-2, 2); break;
    case 4: s = -(int64_t(1) << r.Below(33)) + r.Range(-2, 2); break;
    default: s = r.Range(-lim, lim);
  }
  auto tp = Clock::from_time_t(s);
  VH_CHECK(tp.time_since_epoch().count() == s * 1000000000, "from-time-t", s);
  VH_CHECK(Clock::to_time_t(tp) == s, "time-t-round-trip", s);
  int64_t ns = r.OneIn(3) ? (int64_t)r.Below(2) * 999999999 : r.Below(1000000000);
  if (s < lim && s > -lim) {
    auto t = Clock::time_point(Clock::duration(s >= 0 ? s * 1000000000 + ns : s * 1000000000 - ns));
    VH_CHECK(Clock::to_time_t(t) == s, "whole-seconds", s << " " << ns << " gave " << Clock::to_time_t(t));
    auto back = Clock::from_time_t(Clock::to_time_t(t));
    VH_CHECK(std::llabs((t - back).count()) < 1000000000, "whole-seconds-back", s);
  }
  vh::Observed(vh::Mix(s) ^ ns);
}
VH_GROUP(clock_now, 200, 5000) {
  for (int i = 0; i < 50; ++i) {
    auto a = std::chrono::system_clock::now(); auto t = Clock::now(); auto b = std::chrono::system_clock::now();
    auto na = std::chrono::duration_cast<std::chrono::nanoseconds>(a.time_since_epoch()).count(), nb = std::chrono::duration_cast<std::chrono::nanoseconds>(b.time_since_epoch()).count();
    // the system's clock may be stepped; only judge when it did not go back
    if (nb >= na) VH_CHECK(t.time_since_epoch().count() >= na && t.time_since_epoch().count() <= nb, "now-outside-call", t.time_since_epoch().count() << " not in " << na << ".." << nb);
    time_t ta = time(nullptr); auto tt = Clock::to_time_t(Clock::now()); time_t tb = time(nullptr);
    if (tb >= ta) VH_CHECK(tt >= ta - 1 && tt <= tb + 1, "now-seconds", tt << " not in " << ta << ".." << tb);
  }
  VH_CHECK(Clock::is_steady == std::chrono::system_clock::is_steady, "is-steady", "");
  vh::Observed(c.index);
}
VH_GROUP(addresses, 3000, 100000) {
  auto& r = c.rng;
  using boost::asio::ip::address;
  uint32_t v4 = r.OneIn(5) ? uint32_t(1) << r.Below(32) : (uint32_t)r.Next();
  if (c.index < 4) v4 = std::vector<uint32_t>{0, 0xffffffffu, 0x7f000001u, 1u}[c.index];
  asio::ip::address_v4 a4(v4); auto b4 = convert::ToBoost(a4);
  VH_CHECK(b4.to_ulong() == v4 && convert::ToAsio(b4) == a4 && convert::ToAsio(boost::asio::ip::address_v4(v4)) == a4, "v4", v4);
  asio::ip::address_v6::bytes_type by; for (auto& x : by) x = (unsigned char)r.Next();
  if (r.OneIn(4)) by.fill(0);
  if (r.OneIn(4)) { by.fill(0); by[10] = by[11] = 0xff; by[15] = 1; }
  if (r.OneIn(4)) { by[0] = 0xfe; by[1] = 0x80; }
  unsigned long scope = r.Coin() ? 0 : r.Coin() ? r.Below(100) : (r.Next() & 0xffffffffu);
  asio::ip::address_v6 a6(by, scope); auto b6 = convert::ToBoost(a6);
  VH_CHECK(std::equal(by.begin(), by.end(), b6.to_bytes().begin()) && b6.scope_id() == scope, "v6-to-boost", a6.to_string());
  VH_CHECK(convert::ToAsio(b6) == a6 && convert::ToAsio(b6).scope_id() == scope, "v6-back", a6.to_string());
  unsigned short port = r.OneIn(4) ? (r.Coin() ? 0 : 65535) : r.Below(65536);
  for (int v6 = 0; v6 < 2; ++v6) {
    asio::ip::address a = v6 ? asio::ip::address(a6) : asio::ip::address(a4);
    auto b = convert::ToBoost(a);
    VH_CHECK(b.is_v4() == a.is_v4() && b.is_v6() == a.is_v6() && convert::ToAsio(b) == a, "address", a.to_string());
    VH_CHECK(v6 ? std::equal(by.begin(), by.end(), b.to_v6().to_bytes().begin()) && b.to_v6().scope_id() == scope : b.to_v4().to_ulong() == v4, "address-bits", a.to_string());
    asio::ip::udp::endpoint e(a, port); auto f = convert::ToBoost(e);
    VH_CHECK(f.port() == port && f.address() == b && convert::ToAsio(f) == e, "endpoint", e.port() << " gave " << f.port());
    if (v6) VH_CHECK(f.address().to_v6().scope_id() == scope && convert::ToAsio(f).address().to_v6().scope_id() == scope, "endpoint-scope", scope);
  }
  vh::Observed(vh::Mix(v4) ^ vh::HashBytes(by.data(), 16)); vh::Add("endpoints", 2);
}
VH_GROUP(strings, 1500, 50000) {
  auto& r = c.rng;
  std::string s = r.Bytes(r.Size(20000));
  if (c.index == 0) { s.clear(); for (int i = 0; i < 256; ++i) s += (char)i; }
  auto v = convert::ToByteVector(s);
  bool same = v.size() == s.size(); for (size_t i = 0; same && i < s.size(); ++i) same = v[i] == (unsigned char)s[i];
  VH_CHECK(same, "to-byte-vector", vh::Hex(s)); VH_CHECK(convert::ToString(v) == s, "to-string", vh::Hex(s));
  vh::Observed(vh::HashStr(s));
}
// ---------------------------------------------------------------- tagged values
namespace {
struct TagA; struct TagB;
template <typename T> void Tagged(const char* n, T a, T b) {
  typedef TaggedValue<T, TagA> V;
  std::string k = n;
  V x(a), y(b);
  VH_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "tagged-comparison:" + k, "");
  bool same = !(a != a);
  V cp(x); T conv = x; V as; as = x;
  if (same) { VH_CHECK(cp.data == a && conv == a && as.data == a && x.data == a && *x.operator->() == a, "tagged-copy:" + k, ""); }
  V mv(std::move(cp)); V ma; ma = std::move(as);
  if (same) VH_CHECK(mv.data == a && ma.data == a, "tagged-move:" + k, "");
  ma = y; if (b == b) VH_CHECK(ma.data == b && y.data == b, "tagged-assign:" + k, "");
  V& self = x; x = self; if (same) VH_CHECK(x.data == a, "tagged-self-assign:" + k, "");
  *x.operator->() = b; if (b == b) VH_CHECK(x.data == b, "tagged-arrow:" + k, "");
}
struct Cnt { int v; bool operator==(const Cnt& o) const { return v == o.v; } bool operator!=(const Cnt& o) const { return v % 10 != o.v % 10; } bool operator<(const Cnt& o) const { return v / 3 < o.v / 3; } bool operator>(const Cnt& o) const { return v / 7 > o.v / 7; } bool operator<=(const Cnt& o) const { return v / 5 <= o.v / 5; } bool operator>=(const Cnt& o) const { return v / 11 >= o.v / 11; } };
}  // namespace
VH_GROUP(tagged, 2000, 60000) {
  auto& r = c.rng;
  int64_t i = r.Range(-4, 4), j = r.Range(-4, 4);
  Tagged<int64_t>("int", i, j);
  Tagged<uint8_t>("byte", (uint8_t)r.Next(), (uint8_t)r.Next());
  double ds[] = {0.0, -0.0, NAN, INFINITY, -INFINITY, 1.5, (double)i};
  Tagged<double>("double", r.Pick(ds), r.Pick(ds));
  std::string s = r.Bytes(r.Below(40)), t = r.Coin() ? s : r.Bytes(r.Below(40)); if (r.OneIn(3)) t = s + "x";
  Tagged<std::string>("string", s, t);
  Tagged<std::vector<int>>("vector", std::vector<int>(r.Below(4), (int)i), std::vector<int>(r.Below(4), (int)j));
  // each operator must be the wrapped type's own
  Tagged<Cnt>("own-operators", Cnt{(int)r.Below(60)}, Cnt{(int)r.Below(60)});
  // a move-only value, and moving really moves
  TaggedValue<std::unique_ptr<int>, TagB> p(std::unique_ptr<int>(new int(3)));
  int* raw = p.data.get(); TaggedValue<std::unique_ptr<int>, TagB> q(std::move(p));
  VH_CHECK(q.data.get() == raw && !p.data, "tagged-move-only", ""); p = std::move(q); VH_CHECK(p.data.get() == raw && !q.data, "tagged-move-only", "");
  auto sp = std::make_shared<int>(1); { TaggedValue<std::shared_ptr<int>, TagB> a(sp), b(a); a = b; TaggedValue<std::shared_ptr<int>, TagB> d(std::move(a)); VH_CHECK(sp.use_count() == 3, "tagged-copies", sp.use_count()); } VH_CHECK(sp.use_count() == 1, "tagged-copies", sp.use_count());
  VH_CHECK((TaggedValue<int, TagA>().data, true), "tagged-default", "");
  vh::Observed(vh::HashStr(s) ^ vh::Mix(i * 9 + j));
}
// ---------------------------------------------------------------- enumerations
DEFINE_OSTREAMABLE_ENUM_VALUES(Small, int8_t, (Alpha)(Beta)(Gamma)(Delta))
DEFINE_OSTREAMABLE_ENUM_VALUES(One, uint16_t, (Only))
DEFINE_OSTREAMABLE_ENUM_VALUES(Wide, uint64_t, (A)(B)(C)(D)(E)(F)(G)(H)(I)(J)(K)(L))
DEFINE_OSTREAMABLE_ENUM_VALUES(Signed, int, (kX)(Very_Long_Name_With_Digits_0123456789)(Z))
namespace {
template <typename E> void Enum(const char* n, const std::vector<std::string>& names, int64_t v) {
  typedef typename std::underlying_type<E>::type U;
  E e = static_cast<E>(static_cast<U>(v));
  bool valid = static_cast<int64_t>(static_cast<U>(v)) >= 0 && static_cast<uint64_t>(static_cast<U>(v)) < names.size();
  VH_CHECK(IsValid(e) == valid, std::string("enum-valid:") + n, v);
  std::ostringstream os; os << e;
  std::string want = valid ? names[(size_t)static_cast<U>(v)] : std::string("Invalid ") + n + " type";
  VH_CHECK(os.str() == want, std::string("enum-print:") + n, v << " printed " << os.str());
  std::wostringstream ws; ws << e; VH_CHECK(ws.str() == std::wstring(want.begin(), want.end()), std::string("enum-wide-print:") + n, v);
}
}  // namespace
VH_GROUP(enums, 1200, 20000) {
  auto& r = c.rng;
  int64_t v = c.index < 600 ? (int64_t)c.index - 300 : r.Coin() ? (int64_t)r.Next() : (int64_t)((uint64_t(1) << r.Below(64)) + r.Range(-3, 3));
  Enum<Small>("Small", {"Alpha", "Beta", "Gamma", "Delta"}, v);
  Enum<One>("One", {"Only"}, v);
  Enum<Wide>("Wide", {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"}, v);
  Enum<Signed>("Signed", {"kX", "Very_Long_Name_With_Digits_0123456789", "Z"}, v);
  VH_CHECK(static_cast<int>(Small::kAlpha) == 0 && static_cast<int>(Small::kDelta) == 3 && sizeof(Small) == 1 && sizeof(Wide) == 8, "enum-values", "");
  vh::Observed(vh::Mix(v));
}
