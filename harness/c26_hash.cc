#include <initializer_list>
#include <tuple>
#include <list>
#include <forward_list>
#include <unordered_map>
#include <unordered_set>
#include "boost/utility/string_ref.hpp"
#include "boost/range/iterator_range.hpp"
#include "cereal/cereal.hpp"
#include "cereal/archives/binary.hpp"
#include "maidsafe/common/hash.h"
#include "vh.h"
using namespace maidsafe;
namespace maidsafe {  // found by the library's own look-up, as its algorithms are
struct Recorder : maidsafe::detail::HashAlgorithmBase<Recorder> {
  std::string bytes; int calls = 0;
  Recorder() {}
  void Update(const byte* p, std::uint64_t n) { bytes.append(reinterpret_cast<const char*>(p), n); ++calls; }
};
}  // namespace maidsafe
namespace user {
// each form of a user's serialise function the algorithms accept
struct A { static const bool use_serialize_for_hashing = true; int x; std::string s; template <class Ar> void serialize(Ar& a) const { a(x, s); } bool operator==(const A& o) const { return x == o.x && s == o.s; } };
struct B { static const bool use_serialize_for_hashing = true; int x; std::string s; template <class Ar> Ar& serialize(Ar& a) const { return a & x & s; } bool operator==(const B& o) const { return x == o.x && s == o.s; } };
struct C { static const bool use_serialize_for_hashing = true; int x; std::string s; template <class Ar> void save(Ar& a) const { a(x); a(s); } template <class Ar> void load(Ar& a) { a(x, s); } bool operator==(const C& o) const { return x == o.x && s == o.s; } };
struct D { int x; std::string s; bool operator==(const D& o) const { return x == o.x && s == o.s; } };
template <class Ar> void serialize(Ar& a, const D& d) { a(d.x, d.s); }
struct E { int x; std::string s; bool operator==(const E& o) const { return x == o.x && s == o.s; } };
template <class Ar> void save(Ar& a, const E& d) { a(d.x, d.s); }
template <class Ar> void load(Ar& a, E& d) { a(d.x, d.s); }
struct F { static const bool use_serialize_for_hashing = true; int x; std::string s; template <class Ar> void serialize(Ar& a, const std::uint32_t v) const { a(v, x, s); } bool operator==(const F& o) const { return x == o.x && s == o.s; } };
struct G { static const bool use_serialize_for_hashing = true; int x; std::string s; template <class Ar> void save(Ar& a, const std::uint32_t v) const { a(v, x, s); } template <class Ar> void load(Ar&, const std::uint32_t) {} bool operator==(const G& o) const { return x == o.x && s == o.s; } };
struct H { int x; std::string s; bool operator==(const H& o) const { return x == o.x && s == o.s; } template <class Hash> void HashAppend(Hash& h) const { h(s, x); } };
struct I { int x; std::string s; bool operator==(const I& o) const { return x == o.x && s == o.s; } };
template <class Hash> void HashAppend(Hash& h, const I& i) { h(i.s, i.x, i.x); }
struct Dd { int x; std::string s; bool operator==(const Dd& o) const { return x == o.x && s == o.s; } };
template <class Ar> void serialize(Ar& a, const Dd& d, const std::uint32_t v) { a(v, d.x, d.s); }
struct Chars { std::string s; bool operator==(const Chars& o) const { return s == o.s; } const char* data() const { return s.data(); } std::size_t size() const { return s.size(); } };
struct Range { std::vector<int> v; bool operator==(const Range& o) const { return v == o.v; } std::vector<int>::const_iterator begin() const { return v.begin(); } std::vector<int>::const_iterator end() const { return v.end(); } };
}  // namespace user
CEREAL_CLASS_VERSION(user::G, 7)
namespace maidsafe {
template <> struct UseSerializeForHashing<user::D> : std::true_type {};
template <> struct UseSerializeForHashing<const user::D> : std::true_type {};
template <> struct UseSerializeForHashing<user::E> : std::true_type {};
template <> struct UseSerializeForHashing<const user::E> : std::true_type {};
template <> struct UseSerializeForHashing<user::Dd> : std::true_type {};
template <> struct UseSerializeForHashing<const user::Dd> : std::true_type {};
template <> struct HashVersion<user::F> : std::integral_constant<std::uint32_t, 5> {};
template <> struct HashVersion<user::G> : std::integral_constant<std::uint32_t, 7> {};
template <> struct IsHashableDataRange<user::Chars> : std::true_type {};
template <> struct IsHashableRange<user::Range> : std::true_type {};
}  // namespace maidsafe
namespace {
// ---- the expected bytes: elements in order, then (for ranges) their number in eight bytes
std::string Raw(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }
std::string Count(uint64_t n) { return Raw(&n, 8); }
template <class T> typename std::enable_if<std::is_integral<T>::value, std::string>::type Enc(const T& v) { return Raw(&v, sizeof v); }
std::string Enc(const float& v) { float z = v == 0 ? 0.f : v; return Raw(&z, sizeof z); }
std::string Enc(const double& v) { double z = v == 0 ? 0. : v; return Raw(&z, sizeof z); }
std::string Enc(const long double& v) { long double z = v == 0 ? 0.L : v; return Raw(&z, std::numeric_limits<long double>::digits == 64 ? 10 : sizeof z); }
template <class A, class B> std::string Enc(const std::pair<A, B>& v);
template <class... T> std::string Enc(const std::tuple<T...>& v);
template <class T, size_t N> std::string Enc(const std::array<T, N>& v);
template <class T> std::string Enc(const std::vector<T>& v);
template <class T> std::string Enc(const std::list<T>& v);
template <class T> std::string Enc(const std::forward_list<T>& v);
template <class T> std::string Enc(const std::set<T>& v);
template <class K, class T> std::string Enc(const std::map<K, T>& v);
template <class Ch> std::string Enc(const std::basic_string<Ch>& v) { return Raw(v.data(), v.size() * sizeof(Ch)) + Count(v.size()); }
std::string Xs(int x, const std::string& s) { return Enc(x) + Enc(s); }
std::string Enc(const user::A& v) { return Xs(v.x, v.s); }
std::string Enc(const user::B& v) { return Xs(v.x, v.s); }
std::string Enc(const user::C& v) { return Xs(v.x, v.s); }
std::string Enc(const user::D& v) { return Xs(v.x, v.s); }
std::string Enc(const user::E& v) { return Xs(v.x, v.s); }
std::string Enc(const user::F& v) { return Enc(uint32_t(5)) + Xs(v.x, v.s); }
std::string Enc(const user::G& v) { return Enc(uint32_t(7)) + Xs(v.x, v.s); }
std::string Enc(const user::Dd& v) { return Enc(uint32_t(0)) + Xs(v.x, v.s); }
std::string Enc(const user::H& v) { return Enc(v.s) + Enc(v.x); }
std::string Enc(const user::I& v) { return Enc(v.s) + Enc(v.x) + Enc(v.x); }
std::string Enc(const user::Chars& v) { return Enc(v.s); }
std::string Enc(const user::Range& v) { return Enc(v.v); }
template <class R> std::string EncRange(const R& v) { std::string s; uint64_t n = 0; for (auto& e : v) { s += Enc(e); ++n; } return s + Count(n); }
template <class A, class B> std::string Enc(const std::pair<A, B>& v) { return Enc(v.first) + Enc(v.second); }
template <class Tu, size_t... I> std::string EncTu(const Tu& t, std::index_sequence<I...>) { std::string s; int d[] = {0, (s += Enc(std::get<I>(t)), 0)...}; (void)d; return s; }
template <class... T> std::string Enc(const std::tuple<T...>& v) { return EncTu(v, std::index_sequence_for<T...>()); }
template <class T, size_t N> std::string Enc(const std::array<T, N>& v) { return EncRange(v); }
template <class T> std::string Enc(const std::vector<T>& v) { return EncRange(v); }
template <class T> std::string Enc(const std::list<T>& v) { return EncRange(v); }
template <class T> std::string Enc(const std::forward_list<T>& v) { return EncRange(v); }
template <class T> std::string Enc(const std::set<T>& v) { return EncRange(v); }
template <class K, class T> std::string Enc(const std::map<K, T>& v) { return EncRange(v); }
// ---- random values; small domains so that equal values are common
template <class T, class X = void> struct Gen;
template <class T> struct Gen<T, typename std::enable_if<std::is_integral<T>::value>::type> { static T Make(vh::Rng& r) { return r.OneIn(3) ? (T)r.Next() : (T)r.Below(3); } };
template <> struct Gen<bool> { static bool Make(vh::Rng& r) { return r.Coin(); } };
template <> struct Gen<float> { static float Make(vh::Rng& r) { const float p[] = {0.f, -0.f, 1.f, -1.5f, 1e-40f, -1e-45f, 3e38f}; return r.Pick(p); } };
template <> struct Gen<double> { static double Make(vh::Rng& r) { const double p[] = {0., -0., 1., -1.5, 1e-310, 4.9e-324, -4.9e-324, 1e308}; return r.Pick(p); } };
template <> struct Gen<long double> { static long double Make(vh::Rng& r) { const long double p[] = {0.L, -0.L, 1.L, -1.5L, 1e-4940L, 1e4000L}; return r.Pick(p); } };
template <class Ch> struct Gen<std::basic_string<Ch>> { static std::basic_string<Ch> Make(vh::Rng& r) { std::basic_string<Ch> s; size_t n = r.OneIn(6) ? r.Below(60) : r.Below(4); for (size_t i = 0; i < n; ++i) s += (Ch)(r.OneIn(5) ? r.Next() : r.Below(2)); return s; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> Make(vh::Rng& r) { auto a = Gen<typename std::remove_const<A>::type>::Make(r); return {a, Gen<B>::Make(r)}; } };
template <class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> Make(vh::Rng& r) { return std::tuple<T...>{Gen<T>::Make(r)...}; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> Make(vh::Rng& r) { std::array<T, N> a; for (auto& e : a) e = Gen<T>::Make(r); return a; } };
template <class C> struct GenSeq { static C Make(vh::Rng& r) { C c; int n = r.Below(r.OneIn(10) ? 20 : 4); for (int i = 0; i < n; ++i) c.insert(c.begin(), Gen<typename C::value_type>::Make(r)); return c; } };
template <class T> struct Gen<std::vector<T>> : GenSeq<std::vector<T>> {};
template <class T> struct Gen<std::list<T>> : GenSeq<std::list<T>> {};
template <class T> struct Gen<std::forward_list<T>> { static std::forward_list<T> Make(vh::Rng& r) { std::forward_list<T> c; int n = r.Below(4); for (int i = 0; i < n; ++i) c.push_front(Gen<T>::Make(r)); return c; } };
template <class T> struct Gen<std::set<T>> { static std::set<T> Make(vh::Rng& r) { std::set<T> c; int n = r.Below(5); for (int i = 0; i < n; ++i) c.insert(Gen<T>::Make(r)); return c; } };
template <class K, class T> struct Gen<std::map<K, T>> { static std::map<K, T> Make(vh::Rng& r) { std::map<K, T> c; int n = r.Below(5); for (int i = 0; i < n; ++i) c[Gen<K>::Make(r)] = Gen<T>::Make(r); return c; } };
template <class U> struct GenU { static U Make(vh::Rng& r) { U u; u.x = Gen<int>::Make(r); u.s = Gen<std::string>::Make(r); return u; } };
#define GU(X) template <> struct Gen<user::X> : GenU<user::X> {}
GU(A); GU(B); GU(C); GU(D); GU(E); GU(F); GU(G); GU(H); GU(I); GU(Dd);
template <> struct Gen<user::Chars> { static user::Chars Make(vh::Rng& r) { return {Gen<std::string>::Make(r)}; } };
template <> struct Gen<user::Range> { static user::Range Make(vh::Rng& r) { return {Gen<std::vector<int>>::Make(r)}; } };
typedef std::array<byte, 16> Key;
uint64_t Sip(const Key& k, const std::string& b) { SipHash h(k); h.Update(reinterpret_cast<const byte*>(b.data()), b.size()); return h.Finalize(); }

template <class T> void Judge(vh::Rng& r, const char* name) {
  T v = Gen<T>::Make(r), w = r.OneIn(3) ? v : Gen<T>::Make(r);
  const T& cv = v;
  std::string ev = Enc(v), ew = Enc(w), n(name);
  Recorder a; a(v); VH_CHECK(a.bytes == ev, "bytes:" + n, vh::Hex(a.bytes) << " want " << vh::Hex(ev));
  Recorder b; b(cv); VH_CHECK(b.bytes == ev, "bytes-of-const:" + n, vh::Hex(b.bytes) << " want " << vh::Hex(ev));
  Recorder m; { T t(v); m & std::move(t); } VH_CHECK(m.bytes == ev, "bytes-of-temporary:" + n, vh::Hex(m.bytes) << " want " << vh::Hex(ev));
  Recorder x; x(w); VH_CHECK((x.bytes == a.bytes) == (v == w), "equal-iff-same-bytes:" + n, vh::Hex(a.bytes) << " and " << vh::Hex(x.bytes));
  Recorder two; two(v, cv, w); VH_CHECK(two.bytes == ev + ev + ew, "several-arguments:" + n, vh::Hex(two.bytes));
  Recorder amp; amp & v & w & 'c'; VH_CHECK(amp.bytes == ev + ew + "c", "chained:" + n, vh::Hex(amp.bytes));
  Key k; for (auto& q : k) q = r.Next();
  SipHash h(k); h(v); h(w); VH_CHECK(h.Finalize() == Sip(k, ev + ew), "siphash-of-value:" + n, "");
  SipHash g(k); g(std::make_tuple(v, w)); VH_CHECK(g.Finalize() == Sip(k, ev + ew), "siphash-of-tuple:" + n, "");
  vh::Add("values"); vh::Add(v == w ? "equal_pairs" : "different_pairs"); vh::Observed(vh::HashStr(ev, vh::HashStr(name)) ^ vh::HashStr(ew));
}
#define ALL_FOR(X) X(T01) X(T02)
}  // namespace
#define SIMPLE(name, ...) VH_GROUP(name, 400, 20000) { Judge<__VA_ARGS__>(c.rng, #__VA_ARGS__); vh::Sample(#__VA_ARGS__); }
SIMPLE(i8, signed char) SIMPLE(u8, unsigned char) SIMPLE(ch, char) SIMPLE(i16, int16_t) SIMPLE(u32, uint32_t) SIMPLE(i64, int64_t) SIMPLE(bo, bool) SIMPLE(wc, wchar_t) SIMPLE(c32, char32_t)
SIMPLE(fl, float) SIMPLE(db, double) SIMPLE(ld, long double) SIMPLE(v_ld, std::vector<long double>)
SIMPLE(str, std::string) SIMPLE(wstr, std::wstring) SIMPLE(u16str, std::u16string)
SIMPLE(p_ii, std::pair<int, int>) SIMPLE(p_pad, std::pair<char, int>) SIMPLE(p_fd, std::pair<float, double>) SIMPLE(p_ss, std::pair<std::string, std::string>) SIMPLE(p_pp, std::pair<std::pair<short, short>, int>) SIMPLE(p_padded, std::pair<std::pair<char, int>, std::pair<int, int>>)
SIMPLE(t_e, std::tuple<>) SIMPLE(t_1, std::tuple<std::string>) SIMPLE(t_3, std::tuple<char, std::string, int64_t>) SIMPLE(t_n, std::tuple<std::tuple<int, float>, std::vector<std::string>>)
SIMPLE(a_i, std::array<int, 3>) SIMPLE(a_0, std::array<int, 0>) SIMPLE(a_s, std::array<std::string, 3>) SIMPLE(a_a, std::array<std::array<short, 2>, 2>)
SIMPLE(v_u8, std::vector<unsigned char>) SIMPLE(v_i, std::vector<int>) SIMPLE(v_f, std::vector<float>) SIMPLE(v_s, std::vector<std::string>) SIMPLE(v_pii, std::vector<std::pair<int, int>>) SIMPLE(v_ppad, std::vector<std::pair<char, int>>) SIMPLE(v_v, std::vector<std::vector<std::string>>) SIMPLE(v_vi, std::vector<std::vector<int>>)
SIMPLE(l_i, std::list<int>) SIMPLE(l_s, std::list<std::string>) SIMPLE(fl_i, std::forward_list<int64_t>) SIMPLE(fl_s, std::forward_list<std::string>)
SIMPLE(s_i, std::set<int>) SIMPLE(s_s, std::set<std::string>) SIMPLE(m_is, std::map<int, std::string>) SIMPLE(m_sv, std::map<std::string, std::vector<int>>) SIMPLE(m_mm, std::map<std::string, std::map<int, int>>)
SIMPLE(uA, user::A) SIMPLE(uB, user::B) SIMPLE(uC, user::C) SIMPLE(uD, user::D) SIMPLE(uE, user::E) SIMPLE(uF, user::F) SIMPLE(uG, user::G) SIMPLE(uH, user::H) SIMPLE(uI, user::I) SIMPLE(uDd, user::Dd) SIMPLE(uCh, user::Chars) SIMPLE(uR, user::Range)
SIMPLE(v_uA, std::vector<user::A>) SIMPLE(m_uG, std::map<int, user::G>) SIMPLE(t_u, std::tuple<user::C, user::H, user::I>)

// forms whose values are views of something else
VH_GROUP(views, 1500, 60000) {
  auto& r = c.rng;
  { auto s = Gen<std::string>::Make(r); Recorder a; a(boost::string_ref(s)); VH_CHECK(a.bytes == Enc(s), "string-ref", vh::Hex(a.bytes)); }
  { auto v = Gen<std::vector<int>>::Make(r); Recorder a; a(boost::iterator_range<std::vector<int>::const_iterator>(v.begin(), v.end())); VH_CHECK(a.bytes == Enc(v), "iterator-range", vh::Hex(a.bytes));
    Recorder p; p(boost::iterator_range<const int*>(v.data(), v.data() + v.size())); VH_CHECK(p.bytes == Enc(v), "pointer-range", vh::Hex(p.bytes)); }
  { auto v = Gen<std::list<std::string>>::Make(r); Recorder a; a(boost::iterator_range<std::list<std::string>::const_iterator>(v.begin(), v.end())); VH_CHECK(a.bytes == Enc(v), "iterator-range-of-list", vh::Hex(a.bytes)); }
  { int arr[3]; for (auto& x : arr) x = Gen<int>::Make(r); Recorder a; a(arr); VH_CHECK(a.bytes == Enc(std::vector<int>(arr, arr + 3)), "array", vh::Hex(a.bytes)); const int(&ca)[3] = arr; Recorder b; b(ca); VH_CHECK(b.bytes == a.bytes, "const-array", ""); }
  { std::string arr[2] = {Gen<std::string>::Make(r), Gen<std::string>::Make(r)}; Recorder a; a(arr); VH_CHECK(a.bytes == Enc(std::vector<std::string>(arr, arr + 2)), "array-of-strings", vh::Hex(a.bytes)); }
  { int x = Gen<int>::Make(r), y = Gen<int>::Make(r); Recorder a; std::initializer_list<int> il = {x, y}; a(il); VH_CHECK(a.bytes == Enc(std::vector<int>{x, y}), "initializer-list", vh::Hex(a.bytes)); }
  vh::Observed(r.Next());
}
// equal long doubles feed equal bytes whatever was on the stack before
namespace {
template <class T> __attribute__((noinline)) void Dirty(unsigned char fill) { volatile unsigned char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = fill; }
__attribute__((noinline)) std::string LongDoubleBytes(long double v) { Recorder a; a(v); return a.bytes; }
}
VH_GROUP(long_double, 60, 600) {
  auto& r = c.rng; const long double p[] = {0.L, 1.L, -1.5L, 1e-4000L, 3.1415926535897932384626L}; long double v = r.Pick(p);
  Dirty<int>(0x00); std::string a = LongDoubleBytes(v); Dirty<int>(0xff); std::string b = LongDoubleBytes(v); Dirty<int>(0x5a); std::string z = LongDoubleBytes(-0.L), y = LongDoubleBytes(0.L);
  VH_CHECK(a == b, "long-double-bytes-depend-on-more-than-the-value", vh::Hex(a) << " and " << vh::Hex(b)); VH_CHECK(z == y, "long-double-zeroes", vh::Hex(z) << " and " << vh::Hex(y));
  long double w = v + 1; VH_CHECK(w == v || LongDoubleBytes(w) != a, "long-double-differ", ""); vh::Observed(vh::Mix(c.index));
}
// the seeded wrapper as the hasher of unordered containers
VH_GROUP(seeded, 200, 8000) {
  auto& r = c.rng; SeededHash<SipHash> h, g; auto copy = h; auto v = Gen<std::vector<std::string>>::Make(r); auto w = v; int n = (int)r.Next();
  VH_CHECK(h(v) == h(w) && h(v, n) == copy(w, n) && copy(v) == h(v), "seeded-equal", ""); VH_CHECK(h(v) != g(v), "two-wrappers-share-a-seed", "");
  VH_CHECK(h(v, n) == h(std::make_pair(v, n)), "seeded-several", "");
  std::unordered_map<std::string, int, SeededHash<SipHash>> um; std::map<std::string, int> om;
  for (int i = 0; i < 200; ++i) { auto k = Gen<std::string>::Make(r); if (r.OneIn(3)) VH_CHECK(um.erase(k) == om.erase(k), "unordered-erase", ""); else { um[k] = i; om[k] = i; } }
  VH_CHECK(um.size() == om.size(), "unordered-size", ""); for (auto& e : om) { auto it = um.find(e.first); VH_CHECK(it != um.end() && it->second == e.second, "unordered-find", ""); }
  auto um2 = um; VH_CHECK(um2 == um, "unordered-copy", ""); vh::Observed(r.Next());
}
