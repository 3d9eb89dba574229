// C05: flyweights.  The installed cereal no longer takes the raw pointer which the library's save function
// registers, so they are written through an archive that still does, and read with the library's own.
#include <sstream>
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
#include "serial_kinds.h"
#include "vh_ms.h"

namespace {
class OldOutputArchive : public cereal::OutputArchive<OldOutputArchive> {
 public:
  explicit OldOutputArchive(std::string& out) : cereal::OutputArchive<OldOutputArchive>(this), out_(out) {}
  void saveBinary(const void* p, std::size_t n) { out_.append(static_cast<const char*>(p), n); }
  uint32_t registerSharedPointer(const void* p) {
    auto r = ids_.insert(std::make_pair(p, static_cast<uint32_t>(ids_.size() + 1)));
    return r.second ? r.first->second | cereal::detail::msb_32bit : r.first->second;
  }

 private:
  std::string& out_;
  std::map<const void*, uint32_t> ids_;
};
template <class T>
inline typename std::enable_if<std::is_arithmetic<T>::value, void>::type CEREAL_SAVE_FUNCTION_NAME(OldOutputArchive& ar, T const& t) {
  ar.saveBinary(std::addressof(t), sizeof(t));
}
template <class Archive, class T>
inline CEREAL_ARCHIVE_RESTRICT(OldOutputArchive, OldOutputArchive) CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::NameValuePair<T>& t) {
  ar(t.value);
}
template <class Archive, class T>
inline CEREAL_ARCHIVE_RESTRICT(OldOutputArchive, OldOutputArchive) CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::SizeTag<T>& t) {
  ar(t.size);
}
template <class T>
inline void CEREAL_SAVE_FUNCTION_NAME(OldOutputArchive& ar, cereal::BinaryData<T> const& bd) {
  ar.saveBinary(bd.data, static_cast<std::size_t>(bd.size));
}
using Text = boost::flyweight<std::string>;
using Number = boost::flyweight<int64_t>;
struct Row {
  Text a;
  Number n;
  std::vector<Text> more;
  std::string plain;
  template <typename Archive>
  void serialize(Archive& archive) { archive(a, n, more, plain); }
};
}  // namespace
CEREAL_SETUP_ARCHIVE_TRAITS(OldOutputArchive, OldOutputArchive)

VH_GROUP(flyweights, 3000, 200000) {
  auto& r = c.rng;
  std::vector<std::string> pool;
  for (int i = 0; i < 5; ++i) pool.push_back(r.Bytes(r.Below(30)));
  Row row;
  row.a = Text(r.Pick(pool));
  row.n = Number(r.Range(-3, 3));
  for (int i = static_cast<int>(r.Below(8)); i > 0; --i) row.more.push_back(Text(r.Pick(pool)));
  row.plain = r.Pick(pool);
  // the bytes by description: a fresh value once, with the high bit, and then its number
  std::string bytes;
  {
    OldOutputArchive archive(bytes);
    archive(row);
  }
  sk::Bytes want;
  std::map<const void*, uint32_t> ids;
  auto put = [&](const Text& t) {
    auto x = ids.insert(std::make_pair(&t.get(), ids.size() + 1));
    sk::Put(want, x.first->second | (x.second ? 0x80000000u : 0), 4);
    if (x.second) sk::Kind<std::string>::Enc(want, t.get());
    else vh::Add("shared_flyweights");
  };
  put(row.a);
  ids.insert(std::make_pair(static_cast<const void*>(&row.n.get()), ids.size() + 1));
  sk::Put(want, 2 | 0x80000000u, 4);
  sk::Put(want, static_cast<uint64_t>(row.n.get()), 8);
  sk::Put(want, row.more.size(), 8);
  for (auto& t : row.more) put(t);
  sk::Kind<std::string>::Enc(want, row.plain);
  sk::Bytes got(bytes.begin(), bytes.end());
  VH_CHECK(got == want, "flyweight-encoding", vh::Hex(got) << " wanted " << vh::Hex(want));
  Row back;
  auto o = vh::Outcome([&] { maidsafe::Parse(want, back); });
  VH_CHECK(o.empty() && back.a == row.a && back.n == row.n && back.more == row.more && back.plain == row.plain, "flyweight-round-trip", o << " " << vh::Hex(want));
  vh::Observed(vh::HashBytes(want.data(), want.size(), 99));
}
