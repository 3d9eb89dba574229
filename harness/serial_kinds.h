// Serialisable types with generators and an independent description of their bytes
// (little-endian fixed-width numbers, 64-bit element counts), for C05 and C06.
#ifndef VERIF_SERIAL_KINDS_H_
#define VERIF_SERIAL_KINDS_H_
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "asio/ip/address.hpp"
#include "boost/asio/ip/address.hpp"
#include "boost/filesystem/path.hpp"
#include "cereal/types/map.hpp"
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
#include "maidsafe/common/tagged_value.h"
#include "vh.h"

namespace sk {
using maidsafe::Identity;
using Bytes = std::vector<unsigned char>;
using NonEmpty = maidsafe::NonEmptyString;
using Small = maidsafe::detail::BoundedString<2, 5>;
using SmallStd = maidsafe::detail::BoundedString<0, 7, std::string>;
enum class Tiny : uint8_t { a, b = 200 };
enum class Wide : int64_t { lo = std::numeric_limits<int64_t>::min(), hi = 9 };
using Tagged = maidsafe::TaggedValue<std::string, struct SomeTag>;
using TaggedNum = maidsafe::TaggedValue<uint16_t, struct OtherTag>;

struct Reader {
  const Bytes& in;
  size_t pos;
  bool Take(size_t n, const unsigned char** p) {
    if (in.size() - pos < n) return false;
    *p = in.data() + pos;
    pos += n;
    return true;
  }
  bool Number(size_t n, uint64_t* v) {
    const unsigned char* p;
    if (!Take(n, &p)) return false;
    *v = 0;
    for (size_t i = n; i-- > 0;) *v = *v << 8 | p[i];
    return true;
  }
};
inline void Put(Bytes& out, uint64_t v, size_t n) {
  for (size_t i = 0; i < n; ++i) out.push_back(static_cast<unsigned char>(v >> (8 * i)));
}

template <typename T, typename = void>
struct Kind;

template <typename T>
struct Kind<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static T Make(vh::Rng& r) {
    switch (r.Below(4)) {
      case 0: return static_cast<T>(r.Range(-2, 2));
      case 1: return r.Coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      case 2: return static_cast<T>((uint64_t(1) << r.Below(64)) + static_cast<uint64_t>(r.Range(-1, 1)));
      default: return static_cast<T>(r.Next());
    }
  }
  static void Enc(Bytes& o, const T& v) { Put(o, static_cast<uint64_t>(v), sizeof(T)); }
  static bool Dec(Reader& i, T& v) {
    uint64_t x;
    if (!i.Number(sizeof(T), &x)) return false;
    v = static_cast<T>(x);
    return true;
  }
  static bool Eq(const T& a, const T& b) { return a == b; }
};
template <>
struct Kind<bool> {
  static bool Make(vh::Rng& r) { return r.Coin(); }
  static void Enc(Bytes& o, const bool& v) { o.push_back(v ? 1 : 0); }
  static bool Eq(const bool& a, const bool& b) { return a == b; }
};
template <typename T>
struct FloatKind {
  using U = typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type;
  static U Bits(const T& v) {
    U u;
    std::memcpy(&u, &v, sizeof u);
    return u;
  }
  static T Make(vh::Rng& r) {
    switch (r.Below(5)) {
      case 0: return T(0) * (r.Coin() ? 1 : -1);
      case 1: return std::numeric_limits<T>::infinity() * (r.Coin() ? 1 : -1);
      case 2: return r.Coin() ? std::numeric_limits<T>::denorm_min() : std::numeric_limits<T>::max();
      case 3: return static_cast<T>(r.Range(-1000000, 1000000)) / T(7);
      default: {
        U u = static_cast<U>(r.Next());
        T v;
        std::memcpy(&v, &u, sizeof v);
        if (std::isnan(v)) return std::numeric_limits<T>::quiet_NaN();
        return v;
      }
    }
  }
  static void Enc(Bytes& o, const T& v) { Put(o, Bits(v), sizeof(T)); }
  static bool Dec(Reader& i, T& v) {
    uint64_t x;
    if (!i.Number(sizeof(T), &x)) return false;
    U u = static_cast<U>(x);
    std::memcpy(&v, &u, sizeof v);
    return true;
  }
  static bool Eq(const T& a, const T& b) { return Bits(a) == Bits(b); }
};
template <>
struct Kind<float> : FloatKind<float> {};
template <>
struct Kind<double> : FloatKind<double> {};

template <typename E>
struct Kind<E, typename std::enable_if<std::is_enum<E>::value>::type> {
  using U = typename std::underlying_type<E>::type;
  static E Make(vh::Rng& r) { return static_cast<E>(Kind<U>::Make(r)); }
  static void Enc(Bytes& o, const E& v) { Kind<U>::Enc(o, static_cast<U>(v)); }
  static bool Dec(Reader& i, E& v) {
    U u;
    if (!Kind<U>::Dec(i, u)) return false;
    v = static_cast<E>(u);
    return true;
  }
  static bool Eq(const E& a, const E& b) { return a == b; }
};

inline size_t MakeSize(vh::Rng& r) { return r.OneIn(60) ? r.Size(70000) : r.Size(40); }
template <typename S>
struct StringKind {
  static S Make(vh::Rng& r) {
    auto b = r.Bytes(MakeSize(r));
    return S(b.begin(), b.end());
  }
  static void Enc(Bytes& o, const S& v) {
    Put(o, v.size(), 8);
    o.insert(o.end(), v.begin(), v.end());
  }
  static bool Dec(Reader& i, S& v) {
    uint64_t n;
    const unsigned char* p;
    if (!i.Number(8, &n) || n > i.in.size() || !i.Take(static_cast<size_t>(n), &p)) return false;
    v.assign(p, p + n);
    return true;
  }
  static bool Eq(const S& a, const S& b) { return a == b; }
};
template <>
struct Kind<std::string> : StringKind<std::string> {};
template <>
struct Kind<Bytes> : StringKind<Bytes> {};

template <size_t Min, size_t Max, typename S>
struct Kind<maidsafe::detail::BoundedString<Min, Max, S>> {
  using T = maidsafe::detail::BoundedString<Min, Max, S>;
  static T Make(vh::Rng& r) {
    size_t n = Max == static_cast<size_t>(-1) ? Min + MakeSize(r) : Min + r.Below(Max - Min + 1);
    auto b = r.Bytes(n);
    return T(S(b.begin(), b.end()));
  }
  static void Enc(Bytes& o, const T& v) { Kind<S>::Enc(o, v.string()); }
  static bool Dec(Reader& i, T& v) {
    S s;
    if (!Kind<S>::Dec(i, s) || s.size() < Min || s.size() > Max) return false;
    v = T(s);
    return true;
  }
  static bool Eq(const T& a, const T& b) { return a.IsInitialised() && b.IsInitialised() && a.string() == b.string(); }
};

template <typename T, typename Tag>
struct Kind<maidsafe::TaggedValue<T, Tag>> {
  using K = maidsafe::TaggedValue<T, Tag>;
  static K Make(vh::Rng& r) { return K(Kind<T>::Make(r)); }
  static void Enc(Bytes& o, const K& v) { Kind<T>::Enc(o, v.data); }
  static bool Dec(Reader& i, K& v) { return Kind<T>::Dec(i, v.data); }
  static bool Eq(const K& a, const K& b) { return Kind<T>::Eq(a.data, b.data); }
};

template <>
struct Kind<boost::filesystem::path> {
  using T = boost::filesystem::path;
  static T Make(vh::Rng& r) {
    std::string s;
    for (uint64_t n = r.Below(6); n > 0; --n) {
      if (r.Coin()) s += '/';
      s += r.OneIn(4) ? ".." : r.OneIn(5) ? "." : r.Bytes(r.Below(12));
    }
    return T(s);
  }
  static void Enc(Bytes& o, const T& v) { Kind<std::string>::Enc(o, v.native()); }
  static bool Dec(Reader& i, T& v) {
    std::string s;
    if (!Kind<std::string>::Dec(i, s)) return false;
    v = s;
    return true;
  }
  static bool Eq(const T& a, const T& b) { return a.native() == b.native(); }
};

template <typename A, typename A4, typename A6>
struct AddressKind {
  static A Make(vh::Rng& r) {
    if (r.Coin()) {
      typename A4::bytes_type b;
      for (auto& x : b) x = static_cast<unsigned char>(r.OneIn(3) ? 0 : r.Next());
      return A(A4(b));
    }
    typename A6::bytes_type b;
    bool sparse = r.OneIn(3);
    for (auto& x : b) x = static_cast<unsigned char>(sparse ? 0 : r.Next());
    if (sparse) b[r.Below(16)] = static_cast<unsigned char>(r.Next());
    if (r.OneIn(4))
      for (size_t i = 0; i < 12; ++i) b[i] = i < 10 ? 0 : 0xff;  // looks like a mapped IPv4 address
    return A(A6(b));
  }
  static void Enc(Bytes& o, const A& v) {
    if (v.is_v4()) {
      o.push_back(4);
      auto b = v.to_v4().to_bytes();
      o.insert(o.end(), b.begin(), b.end());
    } else {
      o.push_back(16);
      auto b = v.to_v6().to_bytes();
      o.insert(o.end(), b.begin(), b.end());
    }
  }
  static bool Dec(Reader& i, A& v) {
    uint64_t n;
    const unsigned char* p;
    if (!i.Number(1, &n) || (n != 4 && n != 16) || !i.Take(static_cast<size_t>(n), &p)) return false;
    if (n == 4) {
      typename A4::bytes_type b;
      std::copy(p, p + 4, b.begin());
      v = A(A4(b));
    } else {
      typename A6::bytes_type b;
      std::copy(p, p + 16, b.begin());
      v = A(A6(b));
    }
    return true;
  }
  static bool Eq(const A& a, const A& b) { return a == b; }
};
template <>
struct Kind<asio::ip::address> : AddressKind<asio::ip::address, asio::ip::address_v4, asio::ip::address_v6> {};
template <>
struct Kind<boost::asio::ip::address>
    : AddressKind<boost::asio::ip::address, boost::asio::ip::address_v4, boost::asio::ip::address_v6> {};

template <typename T>
struct Kind<boost::optional<T>> {
  using O = boost::optional<T>;
  static O Make(vh::Rng& r) {
    if (r.Coin()) return boost::none;
    return O(Kind<T>::Make(r));
  }
  static void Enc(Bytes& o, const O& v) {
    o.push_back(v ? 1 : 0);
    if (v) Kind<T>::Enc(o, *v);
  }
  static bool Dec(Reader& i, O& v) {
    uint64_t f;
    if (!i.Number(1, &f)) return false;
    if (f) {
      T t{};
      if (!Kind<T>::Dec(i, t)) return false;
      v = t;
    } else {
      v = boost::none;
    }
    return true;
  }
  static bool Eq(const O& a, const O& b) { return !!a == !!b && (!a || Kind<T>::Eq(*a, *b)); }
};
template <typename T>
struct Kind<std::vector<T>, typename std::enable_if<!std::is_same<T, unsigned char>::value>::type> {
  using C = std::vector<T>;
  static C Make(vh::Rng& r) {
    C c;
    for (uint64_t n = r.OneIn(200) ? 250 + r.Below(20) : r.Below(5); n > 0; --n) c.push_back(Kind<T>::Make(r));
    return c;
  }
  static void Enc(Bytes& o, const C& v) {
    Put(o, v.size(), 8);
    for (const auto& x : v) Kind<T>::Enc(o, x);
  }
  static bool Dec(Reader& i, C& v) {
    uint64_t n;
    if (!i.Number(8, &n)) return false;
    v.clear();
    for (; n > 0; --n) {
      if (i.pos >= i.in.size()) return false;  // every element takes a byte or more
      T t{};
      if (!Kind<T>::Dec(i, t)) return false;
      v.push_back(t);
    }
    return true;
  }
  static bool Eq(const C& a, const C& b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const T& x, const T& y) { return Kind<T>::Eq(x, y); });
  }
};
template <typename K, typename V>
struct Kind<std::map<K, V>> {
  using C = std::map<K, V>;
  static C Make(vh::Rng& r) {
    C c;
    for (uint64_t n = r.OneIn(200) ? 250 + r.Below(20) : r.Below(6); n > 0; --n) c.insert(std::make_pair(Kind<K>::Make(r), Kind<V>::Make(r)));
    return c;
  }
  static void Enc(Bytes& o, const C& v) {
    Put(o, v.size(), 8);
    for (const auto& x : v) {
      Kind<K>::Enc(o, x.first);
      Kind<V>::Enc(o, x.second);
    }
  }
  static bool Dec(Reader& i, C& v) {  // which of several values of one key is kept is not judged
    uint64_t n;
    if (!i.Number(8, &n)) return false;
    v.clear();
    for (; n > 0; --n) {
      if (i.pos >= i.in.size()) return false;
      K k{};
      V x{};
      if (!Kind<K>::Dec(i, k) || !Kind<V>::Dec(i, x)) return false;
      v.insert(std::make_pair(k, x));
    }
    return true;
  }
  static bool Eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    for (auto p = a.begin(), q = b.begin(); p != a.end(); ++p, ++q)
      if (!Kind<K>::Eq(p->first, q->first) || !Kind<V>::Eq(p->second, q->second)) return false;
    return true;
  }
};

// A message with every sort of member.
struct Message {
  uint32_t id = 0;
  Identity name;
  boost::optional<NonEmpty> body;
  std::vector<Small> parts;
  std::map<std::string, int16_t> attributes;
  asio::ip::address from;
  Tiny kind = Tiny::a;
  double weight = 0;
  template <typename Archive>
  void serialize(Archive& archive) { archive(id, name, body, parts, attributes, from, kind, weight); }
};
template <>
struct Kind<Message> {
  static Message Make(vh::Rng& r) {
    Message m;
    m.id = Kind<uint32_t>::Make(r);
    m.name = Kind<Identity>::Make(r);
    m.body = Kind<boost::optional<NonEmpty>>::Make(r);
    m.parts = Kind<std::vector<Small>>::Make(r);
    m.attributes = Kind<std::map<std::string, int16_t>>::Make(r);
    m.from = Kind<asio::ip::address>::Make(r);
    m.kind = Kind<Tiny>::Make(r);
    m.weight = Kind<double>::Make(r);
    return m;
  }
  static void Enc(Bytes& o, const Message& m) {
    Kind<uint32_t>::Enc(o, m.id);
    Kind<Identity>::Enc(o, m.name);
    Kind<boost::optional<NonEmpty>>::Enc(o, m.body);
    Kind<std::vector<Small>>::Enc(o, m.parts);
    Kind<std::map<std::string, int16_t>>::Enc(o, m.attributes);
    Kind<asio::ip::address>::Enc(o, m.from);
    Kind<Tiny>::Enc(o, m.kind);
    Kind<double>::Enc(o, m.weight);
  }
  static bool Dec(Reader& i, Message& m) {
    return Kind<uint32_t>::Dec(i, m.id) && Kind<Identity>::Dec(i, m.name) && Kind<boost::optional<NonEmpty>>::Dec(i, m.body) &&
           Kind<std::vector<Small>>::Dec(i, m.parts) && Kind<std::map<std::string, int16_t>>::Dec(i, m.attributes) &&
           Kind<asio::ip::address>::Dec(i, m.from) && Kind<Tiny>::Dec(i, m.kind) && Kind<double>::Dec(i, m.weight);
  }
  static bool Eq(const Message& a, const Message& b) {
    return a.id == b.id && Kind<Identity>::Eq(a.name, b.name) && Kind<boost::optional<NonEmpty>>::Eq(a.body, b.body) &&
           Kind<std::vector<Small>>::Eq(a.parts, b.parts) && Kind<std::map<std::string, int16_t>>::Eq(a.attributes, b.attributes) &&
           a.from == b.from && a.kind == b.kind && Kind<double>::Eq(a.weight, b.weight);
  }
};
}  // namespace sk
#endif
