// C05: serialise, compare with an independent description of the bytes, parse back, compare.
#include <sstream>
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/rsa.h"
#include "serial_kinds.h"
#include "vh_ms.h"

using namespace sk;  // NOLINT
using maidsafe::SerialisedData;

namespace {
template <typename T>
T Fresh() { return T{}; }

template <typename T>
void One(vh::Case& c, const char* type) {
  const T v = Kind<T>::Make(c.rng);
  Bytes want;
  Kind<T>::Enc(want, v);
  std::string d;
  auto o = vh::Outcome([&] {
    d = std::string(type) + " wanted " + vh::Hex(want);
    SerialisedData s = maidsafe::Serialise(v);
    VH_CHECK(s == want, "encoding", d << " got " << vh::Hex(s));
    T moved(v);
    VH_CHECK(maidsafe::Serialise(std::move(moved)) == want, "encoding-of-rvalue", d);
    T lvalue(v);
    VH_CHECK(maidsafe::Serialise(lvalue) == want, "encoding-of-lvalue", d);
    {
      maidsafe::OutputVectorStream stream;
      VH_CHECK(maidsafe::Serialise(stream, v) == want, "encoding-into-stream", d);
      VH_CHECK(maidsafe::ConvertToVectorStream(stream, v).vector().size() == 2 * want.size(), "appending", d);
    }
    {
      auto text = maidsafe::ConvertToString(v);
      VH_CHECK(Bytes(text.begin(), text.end()) == want, "encoding-as-string", d << " got " << vh::Hex(text));
      std::stringstream ss;
      VH_CHECK(maidsafe::ConvertToString(ss, v) == text, "encoding-into-string-stream", d);
      std::ostringstream os;
      maidsafe::ConvertToStream(os, v);
      VH_CHECK(os.str() == text, "encoding-into-ostream", d);
      VH_CHECK(Kind<T>::Eq(maidsafe::ConvertFromString<T>(text), v), "string-round-trip", d);
      T a = Fresh<T>();
      VH_CHECK(Kind<T>::Eq(maidsafe::ConvertFromString(text, a), v) && Kind<T>::Eq(a, v), "string-round-trip", d);
      std::istringstream is(text + "!");
      T b = Fresh<T>();
      VH_CHECK(Kind<T>::Eq(maidsafe::ConvertFromStream(is, b), v) && is.get() == '!', "stream-round-trip", d);
      std::istringstream is2(text + "!");
      VH_CHECK(Kind<T>::Eq(maidsafe::ConvertFromStream<T>(is2), v) && is2.get() == '!', "stream-round-trip", d);
    }
    VH_CHECK(Kind<T>::Eq(maidsafe::Parse<T>(s), v), "round-trip", d);
    T p = Kind<T>::Make(c.rng);  // parsing replaces whatever was there
    maidsafe::Parse(s, p);
    VH_CHECK(Kind<T>::Eq(p, v), "round-trip-over-another-value", d);
    {
      auto longer = s;
      longer.push_back(0x5a);
      maidsafe::InputVectorStream in{longer};
      T q = Fresh<T>();
      maidsafe::Parse(in, q);
      VH_CHECK(Kind<T>::Eq(q, v), "round-trip", d);
      VH_CHECK(in.rdbuf()->sgetc() == 0x5a, "bytes-consumed", d);
      maidsafe::InputVectorStream in2{longer};
      VH_CHECK(Kind<T>::Eq(maidsafe::Parse<T>(in2), v), "round-trip", d);
      VH_CHECK(in2.rdbuf()->sgetc() == 0x5a, "bytes-consumed", d);
    }
  });
  VH_CHECK(o.empty(), "threw", d << " " << o);
  vh::Add("values");
  vh::Observed(vh::HashBytes(want.data(), want.size(), vh::HashStr(type)));
  if (c.index < 1) vh::Sample(d);
}

// Several values in one message, written and read in every division into calls.
template <typename A, typename B, typename C>
void Three(vh::Case& c, const char* types) {
  const A a = Kind<A>::Make(c.rng);
  const B b = Kind<B>::Make(c.rng);
  const C e = Kind<C>::Make(c.rng);
  Bytes want;
  Kind<A>::Enc(want, a);
  size_t one = want.size();
  Kind<B>::Enc(want, b);
  Kind<C>::Enc(want, e);
  std::string d = std::string(types) + " wanted " + vh::Hex(want);
  auto o = vh::Outcome([&] {
    auto s = maidsafe::Serialise(a, b, e);
    VH_CHECK(s == want, "encoding-of-several", d << " got " << vh::Hex(s));
    maidsafe::OutputVectorStream stream;
    VH_CHECK(maidsafe::Serialise(stream, a) == Bytes(want.begin(), want.begin() + static_cast<ptrdiff_t>(one)), "encoding-first-of-several", d);
    VH_CHECK(maidsafe::Serialise(stream, b, e) == want, "encoding-in-steps", d);
    auto text = maidsafe::ConvertToString(a, b, e);
    VH_CHECK(Bytes(text.begin(), text.end()) == want, "encoding-several-as-string", d);
    for (int way = 0; way < 4; ++way) {
      A x = Kind<A>::Make(c.rng);
      B y = Kind<B>::Make(c.rng);
      C z = Kind<C>::Make(c.rng);
      if (way == 0) {
        maidsafe::Parse(s, x, y, z);
      } else if (way == 1) {
        maidsafe::InputVectorStream in{s};
        x = maidsafe::Parse<A>(in);
        y = maidsafe::Parse<B>(in);
        maidsafe::Parse(in, z);
      } else if (way == 2) {
        maidsafe::InputVectorStream in{s};
        maidsafe::Parse(in, x, y);
        z = maidsafe::Parse<C>(in);
      } else {
        maidsafe::ConvertFromString(text, x, y, z);
      }
      VH_CHECK(Kind<A>::Eq(x, a) && Kind<B>::Eq(y, b) && Kind<C>::Eq(z, e), "round-trip-of-several", d << " way " << way);
    }
  });
  VH_CHECK(o.empty(), "threw", d << " " << o);
  vh::Add("messages");
  vh::Observed(vh::HashBytes(want.data(), want.size(), vh::HashStr(types)));
}
}  // namespace

#define ONE(name, ...) VH_GROUP(name, 1200, 60000) { One<__VA_ARGS__>(c, #name); }
ONE(int8, int8_t)
ONE(uint8, uint8_t)
ONE(int16, int16_t)
ONE(uint16, uint16_t)
ONE(int32, int32_t)
ONE(uint32, uint32_t)
ONE(int64, int64_t)
ONE(uint64, uint64_t)
ONE(boolean, bool)
ONE(floating, float)
ONE(doubles, double)
ONE(text, std::string)
ONE(bytes, Bytes)
ONE(tiny_enum, Tiny)
ONE(wide_enum, Wide)
ONE(data_type_id, maidsafe::DataTypeId)
ONE(tagged, Tagged)
ONE(tagged_number, TaggedNum)
ONE(non_empty, NonEmpty)
ONE(small, Small)
ONE(small_std, SmallStd)
ONE(identity, Identity)
ONE(path, boost::filesystem::path)
ONE(asio_address, asio::ip::address)
ONE(boost_address, boost::asio::ip::address)
ONE(optional_number, boost::optional<int32_t>)
ONE(optional_text, boost::optional<std::string>)
ONE(optional_identity, boost::optional<Identity>)
ONE(numbers, std::vector<int32_t>)
ONE(texts, std::vector<std::string>)
ONE(nested, std::vector<std::vector<Small>>)
ONE(optionals, std::vector<boost::optional<uint8_t>>)
ONE(mapping, std::map<std::string, uint64_t>)
ONE(mapping_identity, std::map<Identity, std::vector<std::string>>)
ONE(message, Message)
ONE(messages, std::vector<Message>)

VH_GROUP(several, 8000, 400000) {
  switch (c.index % 10) {
    case 0: Three<uint8_t, uint64_t, int16_t>(c, "u8 u64 i16"); break;
    case 1: Three<std::string, bool, Identity>(c, "text bool identity"); break;
    case 2: Three<boost::optional<std::string>, NonEmpty, double>(c, "optional nonempty double"); break;
    case 3: Three<asio::ip::address, uint16_t, asio::ip::address>(c, "address port address"); break;
    case 4: Three<boost::filesystem::path, boost::asio::ip::address, Tiny>(c, "path address enum"); break;
    case 5: Three<Message, Bytes, std::map<std::string, uint64_t>>(c, "message bytes map"); break;
    case 6: Three<std::vector<Message>, float, Wide>(c, "messages float enum"); break;
    case 7: Three<Tagged, TaggedNum, boost::optional<Identity>>(c, "tagged tagged optional"); break;
    case 8: Three<SmallStd, SmallStd, Small>(c, "small small small"); break;
    default: Three<maidsafe::DataTypeId, Identity, std::vector<std::vector<Small>>>(c, "type identity nested"); break;
  }
}

// An unset bounded string cannot be written.
VH_GROUP(unset, 40, 400) {
  VH_CHECK(vh::Outcome([] { maidsafe::Serialise(Identity()); }) == "lib", "unset-written", "identity");
  VH_CHECK(vh::Outcome([] { maidsafe::Serialise(uint8_t(3), NonEmpty()); }) == "lib", "unset-written", "non-empty");
  Message m = Kind<Message>::Make(c.rng);
  m.name = Identity();
  VH_CHECK(vh::Outcome([&] { maidsafe::Serialise(m); }) == "lib", "unset-written", "message");
}

VH_GROUP(rsa_keys, 12, 120) {
  auto keys = maidsafe::rsa::GenerateKeyPair();
  auto o = vh::Outcome([&] {
    auto s = maidsafe::Serialise(keys.private_key);
    VH_CHECK(s == maidsafe::Serialise(keys.private_key), "key-encoding-varies", "private");
    auto priv = maidsafe::Parse<maidsafe::asymm::PrivateKey>(s);
    VH_CHECK(maidsafe::rsa::MatchingKeys(priv, keys.private_key) && maidsafe::Serialise(priv) == s, "private-key-round-trip", "");
    auto t = maidsafe::Serialise(keys.public_key, uint32_t(77));
    maidsafe::asymm::PublicKey pub;
    uint32_t n = 0;
    maidsafe::Parse(t, pub, n);
    VH_CHECK(maidsafe::rsa::MatchingKeys(pub, keys.public_key) && n == 77, "public-key-round-trip", "");
    // the encoding is the DER form in a byte string
    CryptoPP::ByteQueue q;
    keys.public_key.DEREncodePublicKey(q);
    Bytes der(static_cast<size_t>(q.MaxRetrievable()));
    q.Get(der.data(), der.size());
    Bytes want;
    Kind<Bytes>::Enc(want, der);
    VH_CHECK(maidsafe::Serialise(keys.public_key) == want, "public-key-encoding", "");
    vh::Observed(vh::HashBytes(t.data(), t.size()));
  });
  VH_CHECK(o.empty(), "key-threw", o);
  vh::Add("keys");
}
