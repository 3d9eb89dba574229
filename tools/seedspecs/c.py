BASE = "utils log active error error_categories config crypto identity encode data_types/data".split()
ERR = ["error", "error_categories"]
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="C05-mapped", property="C05", units=BASE, needs="an IPv6 address which maps an IPv4 one",
 breaks="an IPv4 mapped IPv6 address is restored as the IPv4 address",
 edits=[(I + "serialisation/types/asio_and_boost_asio.h", "  else\n    SaveV4orV6Address(archive, address.to_v6());", "  else if (address.to_v6().is_v4_mapped())\n    SaveV4orV6Address(archive, address.to_v6().to_v4());\n  else\n    SaveV4orV6Address(archive, address.to_v6());")],
 demo=r'''
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
using namespace maidsafe;
int main() {
  boost::asio::ip::address a = boost::asio::ip::address_v6::v4_mapped(boost::asio::ip::address_v4(0x01020304));
  NEED(Parse<boost::asio::ip::address>(Serialise(a)) == a);
}
''')
seed(id="C05-dots", property="C05", units=BASE, needs="a path with dot segments or a trailing slash",
 breaks="paths are normalised while they are read",
 edits=[(I + "serialisation/types/boost_filesystem.h", "  path = native_path;", "  path = boost::filesystem::path(native_path).lexically_normal();")],
 demo=r'''
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
using namespace maidsafe;
int main() {
  boost::filesystem::path p("a/./b/../c");
  NEED(Parse<boost::filesystem::path>(Serialise(p)).native() == p.native());
}
''')
seed(id="C06-address-size", property="C06", units=BASE, needs="a serialised address whose size is neither 4 nor 16",
 breaks="an address of a wrong size is read as an IPv6 address instead of being refused",
 edits=[(I + "serialisation/types/asio_and_boost_asio.h", "  } else if (size == std::tuple_size<typename AddressV6::bytes_type>::value) {", "  } else if (size >= std::tuple_size<typename AddressV6::bytes_type>::value) {")],
 demo=r'''
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
using namespace maidsafe;
int main() {
  std::vector<byte> v(30, 7); v[0] = 20;
  bool threw = false;
  try { Parse<asio::ip::address>(v); } catch (const std::exception&) { threw = true; }
  NEED(threw);
}
''')
seed(id="C06-short-read", property="C06", units=BASE, needs="serialised data cut off inside a value",
 breaks="a value of which only the first bytes are there is accepted, its other bytes being whatever was in memory",
 edits=[(I + "serialisation/binary_archive.h", "    if (readSize != size)\n      throw cereal::Exception(\"Failed to read \"", "    if (readSize == 0 && size != 0)\n      throw cereal::Exception(\"Failed to read \"")],
 demo=r'''
#include "maidsafe/common/serialisation/serialisation.h"
using namespace maidsafe;
int main() {
  std::vector<byte> v(3, 7);
  bool threw = false;
  try { Parse<std::uint64_t>(v); } catch (const std::exception&) { threw = true; }
  NEED(threw);
}
''')
H = r'''
#include "maidsafe/common/hash/algorithms/siphash.h"
#include "maidsafe/common/hash/hash_algorithms.h"
#include "maidsafe/common/hash/hash_list.h"
#include "maidsafe/common/hash/hash_pair.h"
#include "maidsafe/common/hash/hash_contiguous.h"
#include "maidsafe/common/hash/hash_vector.h"
#include "maidsafe/common/hash/wrappers/seeded_hash.h"
using namespace maidsafe;
'''
HU = ["hash/algorithms/siphash"] + BASE
seed(id="C26-count", property="C26", units=HU, needs="two neighbouring lists whose elements are divided differently between them",
 breaks="the number of elements of a list is hashed for empty lists only, so different values have the same hash for every seed",
 edits=[(I + "hash/hash_range.h", "  hash(count);\n", "  if (count == 0)\n    hash(count);\n")],
 demo=H + r'''
int main() {
  SeededHash<SipHash> h;
  std::list<int> a{1}, b{2, 3}, c{1, 2}, d{3};
  NEED(h(a, b) != h(c, d) && h(a, b) == h(std::list<int>{1}, std::list<int>{2, 3}));
}
''')
seed(id="C26-padding", property="C26", units=HU, needs="equal pairs with padding bytes which hold different values",
 breaks="a pair's padding is hashed with it, so equal pairs can have different hashes",
 edits=[(I + "hash/hash_pair.h", " && IsContiguousHashable<Second>::value &&\n                    sizeof(std::pair<First, Second>) == sizeof(First) + sizeof(Second)> {};", " && IsContiguousHashable<Second>::value> {};")],
 demo=H + r'''
#include <cstring>
#include <new>
int main() {
  SeededHash<SipHash> h;
  typedef std::pair<int, char> P;
  alignas(P) unsigned char x[sizeof(P)], y[sizeof(P)];
  std::memset(x, 0, sizeof(P)); std::memset(y, 0xff, sizeof(P));
  P* p = reinterpret_cast<P*>(x); P* q = reinterpret_cast<P*>(y);
  p->first = q->first = 5; p->second = q->second = 'a';
  NEED(*p == *q && h(*p) == h(*q));
}
''')
seed(id="C19-static", property="C19", units=BASE, needs="two threads which hash at the same time", timeout=60,
 breaks="all calls share one hash state, so concurrent ones spoil each other's digests",
 edits=[(I + "crypto.h", "  std::string result;\n  HashType hash;\n", "  std::string result;\n  static HashType hash;\n")],
 demo=r'''
#include <thread>
#include <atomic>
#include "maidsafe/common/crypto.h"
using namespace maidsafe;
int main() {
  std::string in(100000, 'x');
  auto want = crypto::Hash<crypto::SHA256>(in).string();
  std::atomic<bool> bad{false};
  std::vector<std::thread> t;
  for (int n = 0; n < 4; ++n) t.emplace_back([&] { for (int i = 0; i < 3000 && !bad; ++i) if (crypto::Hash<crypto::SHA256>(in).string() != want) bad = true; });
  for (auto& x : t) x.join();
  NEED(!bad);
}
''')
