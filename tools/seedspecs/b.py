BASE = "utils log active error error_categories config crypto identity encode data_types/data".split()
ERR = ["error", "error_categories"]
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
SEEDS = []
def seed(**k): SEEDS.append(k)
SAN = "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"

seed(id="C11-full-touch", property="C11", units=BASE, needs="a look-up in a cache which is full, then an addition",
 breaks="a successful look-up in a full cache doesn't make its key the most recent, so that key is evicted next",
 edits=[(I + "containers/lru_cache.h", "    // Update access record by moving accessed key to back of list\n",
         "    // Update access record by moving accessed key to back of list\n    if (this->storage_.size() < this->capacity_)\n")],
 demo=r'''
#include "maidsafe/common/containers/lru_cache.h"
int main() {
  maidsafe::LruCache<int, int> c(3);
  for (int i = 0; i < 3; ++i) c.Add(i, i);
  NEED(c.Get(0));
  c.Add(3, 3);
  NEED(c.Check(0) && !c.Check(1));
}
''')
seed(id="C11-one-expired", property="C11", units=BASE, needs="two entries which expire between two additions",
 breaks="an addition drops only one expired entry, so expired least recently used ones stay behind",
 edits=[(I + "containers/lru_cache.h", "    while (CheckTimeExpired())", "    if (CheckTimeExpired())")],
 demo=r'''
#include <thread>
#include "maidsafe/common/containers/lru_cache.h"
int main() {
  maidsafe::LruCache<int, int> c(std::chrono::milliseconds(20));
  c.Add(1, 1); c.Add(2, 2);
  std::this_thread::sleep_for(std::chrono::milliseconds(80));
  c.Add(3, 3);
  NEED(c.size() == 1 && c.Check(3));
}
''')
DB = ["data_buffer"] + BASE
SDV = ["data_types/structured_data_versions", "data_types/immutable_data"] + BASE
VERS = r'''
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/data_types/immutable_data.h"
using namespace maidsafe;
typedef StructuredDataVersions V;
typedef V::VersionName N;
N Name(uint64_t i, char c) { return N(i, Identity(std::string(64, c))); }
'''
seed(id="C07-new-orphan-group", property="C07", units=SDV, needs="a root with three children evicted, then the children's parent stored again",
 breaks="when a root with several children is evicted, its other children become orphans of the wrong parent",
 edits=[(S + "data_types/structured_data_versions.cc", "    (*child_itr)->second->parent = std::end(versions_);\n    InsertOrphan(current_root_name, *child_itr);", 
  "    (*child_itr)->second->parent = std::end(versions_);\n    InsertOrphan(root_.first.id.IsInitialised() ? root_.first : current_root_name, *child_itr);")],
 demo=VERS + r'''
int main() {
  V v(4, 5);
  v.Put(Name(0, 'z'), Name(1, 'a'));
  v.Put(Name(1, 'a'), Name(2, 'b')); v.Put(Name(1, 'a'), Name(2, 'c'));
  v.Put(Name(2, 'b'), Name(3, 'd'));
  auto gone = v.Put(Name(3, 'd'), Name(4, 'e'));
  NEED(gone && *gone == Name(1, 'a'));
  v.DeleteBranchUntilFork(Name(4, 'e'));          // the other child is the root now
  bool refused = false;
  try { v.Put(Name(1, 'a'), Name(2, 'c')); } catch (const std::exception&) { refused = true; }
  NEED(!refused);
}
''')
seed(id="C07-fork-at-limit", property="C07", units=SDV, flags="-DNDEBUG", needs="adding the second child of a version when the branches are at their limit and the root has children",
 breaks="a second child of a version is accepted beyond the branch limit",
 edits=[(S + "data_types/structured_data_versions.cc", "    if (is_orphan || !version.second->parent->second->children.empty()) {", "    if (is_orphan || version.second->parent->second->children.size() > 1U) {")],
 demo=VERS + r'''
int main() {
  V v(20, 2);
  v.Put(N(), Name(0, 'a')); v.Put(Name(0, 'a'), Name(1, 'b')); v.Put(Name(0, 'a'), Name(1, 'c')); v.Put(Name(1, 'b'), Name(2, 'd'));
  bool refused = false;
  try { v.Put(Name(1, 'b'), Name(2, 'e')); } catch (const std::exception&) { refused = true; }
  NEED(refused && v.Get().size() == 2);
}
''')
seed(id="C08-merge-orphans", property="C08", units=SDV, needs="merging when the existing history holds two orphans of one absent parent",
 breaks="merging hands over only the first orphan of each absent parent, the others are lost",
 edits=[(S + "data_types/structured_data_versions.cc", "    for (const auto& orphan : orphan_set.second)\n      ApplyBranch(orphan_set.first, orphan, new_info);", "    ApplyBranch(orphan_set.first, *orphan_set.second.begin(), new_info);")],
 demo=VERS + r'''
int main() {
  V v(20, 20), w(20, 20);
  v.Put(N(), Name(0, 'a')); v.Put(Name(4, 'p'), Name(5, 'x')); v.Put(Name(4, 'p'), Name(5, 'y'));
  w.Put(N(), Name(0, 'a'));
  v.ApplySerialised(w.Serialise());
  NEED(v.Get().size() == 3);
}
''')
seed(id="C08-limit-swap", property="C08", units=SDV, needs="assigning a history with other limits and then exceeding one of them",
 breaks="assignment and swap keep the old branch limit if the other history is empty",
 edits=[(S + "data_types/structured_data_versions.cc", "  swap(lhs.max_branches_, rhs.max_branches_);\n", "  if (!lhs.versions_.empty() && !rhs.versions_.empty())\n    swap(lhs.max_branches_, rhs.max_branches_);\n")],
 demo=VERS + r'''
int main() {
  V v(20, 2); v = V(30, 3);
  v.Put(N(), Name(0, 'a')); for (char c = 'b'; c < 'e'; ++c) v.Put(Name(0, 'a'), Name(1, c));
  NEED(v.Get().size() == 3);
}
''')
TCP = ["tcp/connection", "tcp/listener"] + BASE
NET = r'''
#include <future>
#include <thread>
#include <atomic>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <poll.h>
#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int Dial(uint16_t port) {
  int s = socket(AF_INET6, SOCK_STREAM, 0);
  sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_port = htons(port); a.sin6_addr = in6addr_loopback;
  if (s >= 0 && connect(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) return s;
  if (s >= 0) close(s);
  s = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in b{}; b.sin_family = AF_INET; b.sin_port = htons(port); b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (connect(s, reinterpret_cast<sockaddr*>(&b), sizeof b) == 0) return s;
  close(s); return -1;
}
'''
seed(id="C15-last-queued", property="C15", units=TCP, needs="a second message sent while the first is still being written", timeout=60,
 breaks="the last message of a queue isn't written until (in fact not even when) another one is sent",
 edits=[(S + "tcp/connection.cc", "                      if (!this_ptr->send_queue_.empty())\n                        this_ptr->DoSend();", "                      if (this_ptr->send_queue_.size() > 1U)\n                        this_ptr->DoSend();")],
 demo=NET + r'''
int main() {
  alarm(50);
  std::atomic<int> got{0};
  AsioService s(2); asio::io_service::strand a(s.service()), b(s.service());
  std::promise<tcp::ConnectionPtr> p;
  auto l = tcp::Listener::MakeShared(a, [&](tcp::ConnectionPtr c) { p.set_value(c); }, 7777);
  auto c = tcp::Connection::MakeShared(b, l->ListeningPort());
  auto d = p.get_future().get();
  d->Start([&](tcp::Message) { ++got; }, [] {}); c->Start([](tcp::Message) {}, [] {});
  for (int i = 0; i < 50; ++i) c->Send(tcp::Message(200000, 7));
  for (int i = 0; i < 1000 && got < 50; ++i) usleep(10000);
  int n = got;
  c->Close(); d->Close(); l->StopListening(); s.Stop();
  NEED(n == 50);
}
''')
seed(id="C15-signed-size", property="C15", units=TCP, needs="a message of 32 KiB or more", timeout=60,
 breaks="a byte of the size is taken as signed, so messages of 32 to 64 KiB (modulo 64) are taken for oversized ones and close the connection",
 edits=[(S + "tcp/connection.cc", "                  this_ptr->receiving_message_.size_buffer[2])", "                  static_cast<signed char>(this_ptr->receiving_message_.size_buffer[2]))")],
 demo=NET + r'''
int main() {
  alarm(50);
  std::atomic<int> got{0}, sum{0};
  AsioService s(2); asio::io_service::strand a(s.service()), b(s.service());
  std::promise<tcp::ConnectionPtr> p;
  auto l = tcp::Listener::MakeShared(a, [&](tcp::ConnectionPtr c) { p.set_value(c); }, 7777);
  int f = Dial(l->ListeningPort());
  auto d = p.get_future().get();
  d->Start([&](tcp::Message m) { ++got; }, [&] { sum = 1; });
  size_t n = 0x8001;
  unsigned char h[4] = {0, static_cast<unsigned char>(n >> 16), static_cast<unsigned char>(n >> 8), static_cast<unsigned char>(n)};
  NEED(write(f, h, 4) == 4);
  std::string body(n, 'x'); size_t at = 0;
  signal(SIGPIPE, SIG_IGN);
  while (at < n) { ssize_t k = write(f, body.data() + at, n - at); if (k <= 0) break; at += k; }
  for (int i = 0; i < 300 && !got && !sum; ++i) usleep(10000);
  int r = got; close(f);
  d->Close(); l->StopListening(); s.Stop();
  NEED(r == 1);
}
''')
seed(id="C16-oversize", property="C16", units=TCP, needs="a peer announcing a message one byte over the limit", timeout=60,
 breaks="a message slightly above the maximum size is received and delivered instead of closing the connection",
 edits=[(S + "tcp/connection.cc", "    if (data_size > MaxMessageSize()) {", "    if (data_size > MaxMessageSize() + sizeof(DataSize)) {")],
 demo=NET + r'''
int main() {
  alarm(50);
  std::atomic<int> got{0}, closed{0};
  AsioService s(2); asio::io_service::strand a(s.service());
  std::promise<tcp::ConnectionPtr> p;
  auto l = tcp::Listener::MakeShared(a, [&](tcp::ConnectionPtr c) { p.set_value(c); }, 7777);
  int f = Dial(l->ListeningPort());
  auto d = p.get_future().get();
  d->Start([&](tcp::Message m) { ++got; }, [&] { ++closed; });
  size_t n = tcp::Connection::MaxMessageSize() + 1;
  unsigned char h[4] = {static_cast<unsigned char>(n >> 24), static_cast<unsigned char>(n >> 16), static_cast<unsigned char>(n >> 8), static_cast<unsigned char>(n)};
  NEED(write(f, h, 4) == 4);
  for (int i = 0; i < 300 && !closed; ++i) usleep(10000);
  int r = closed; close(f);
  l->StopListening(); d->Close(); s.Stop();
  NEED(r == 1 && got == 0);
}
''')
seed(id="C16-accept-error", property="C16", units=TCP, needs="one accept that fails (for example for lack of descriptors), then another peer", timeout=60,
 breaks="after an accept which failed the listener accepts no further connections",
 edits=[(S + "tcp/listener.cc", "  if (ec)\n    LOG(kWarning) << \"Error while accepting connection: \" << ec.message();\n  else\n    on_new_connection_(accepted_connection);",
  "  if (ec) {\n    LOG(kWarning) << \"Error while accepting connection: \" << ec.message();\n    return;\n  }\n  on_new_connection_(accepted_connection);")],
 demo=NET + r'''
#include <sys/resource.h>
int main() {
  alarm(50);
  std::atomic<int> got{0};
  AsioService s(2); asio::io_service::strand a(s.service());
  auto l = tcp::Listener::MakeShared(a, [&](tcp::ConnectionPtr c) { ++got; }, 7777);
  int f = socket(AF_INET6, SOCK_STREAM, 0); uint16_t port = l->ListeningPort();
  bool six = f >= 0; if (f >= 0) close(f);
  f = socket(six ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
  struct rlimit r, z; getrlimit(RLIMIT_NOFILE, &r); z = r; z.rlim_cur = f + 1; setrlimit(RLIMIT_NOFILE, &z);
  sockaddr_in6 x{}; x.sin6_family = AF_INET6; x.sin6_port = htons(port); x.sin6_addr = in6addr_loopback;
  sockaddr_in y{}; y.sin_family = AF_INET; y.sin_port = htons(port); y.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  NEED(connect(f, six ? reinterpret_cast<sockaddr*>(&x) : reinterpret_cast<sockaddr*>(&y), six ? sizeof x : sizeof y) == 0);
  usleep(200000);
  setrlimit(RLIMIT_NOFILE, &r);
  int g = Dial(port);
  for (int i = 0; i < 500 && got < 1; ++i) usleep(10000);
  int n = got;
  l->StopListening(); s.Stop(); close(f); if (g >= 0) close(g);
  NEED(n >= 1);
}
''')
seed(id="C18-level", property="C18", units=BASE, needs="uncompressing a stream whose checksum doesn't match its contents",
 breaks="text that had already been uncompressed when the corruption is noticed is returned as if it were complete",
 edits=[(S + "crypto.cc", "  } catch (const CryptoPP::Exception& e) {\n    LOG(kError) << \"Failed uncompressing: \" << e.what();\n    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uncompression_error));",
  "  } catch (const CryptoPP::Exception& e) {\n    LOG(kError) << \"Failed uncompressing: \" << e.what();\n    if (result.empty())\n      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uncompression_error));")],
 demo=r'''
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  auto c = crypto::Compress(crypto::UncompressedText(RandomString(100000)), 6);
  std::string s(c->string().begin(), c->string().end());
  s[s.size() - 6] ^= 1;
  bool threw = false;
  try { crypto::Uncompress(crypto::CompressedText(NonEmptyString(s))); } catch (const maidsafe_error&) { threw = true; }
  NEED(threw);
}
''')
seed(id="C20-pad", property="C20", units=BASE, needs="dispersing data of more than 255 shares, or recovering with shares in another order",
 breaks="shares numbered 256 and above carry the number modulo 256, so they cannot be told apart",
 edits=[(S + "crypto.cc", """    out_vec[i].resize(data.size() + 8);  // for padding
    array_sink[i].reset(new CryptoPP::ArraySink(out_vec[i].data(), out_vec[i].size()));
    channel = CryptoPP::WordToString<CryptoPP::word32>(i);
    array_sink[i]->Put(reinterpret_cast<const byte*>(channel.data()), 4);
    // see http://www.cryptopp.com/wiki/ChannelSwitch
    channel_switch->AddRoute(channel, *array_sink[i], CryptoPP::DEFAULT_CHANNEL);
  }
  source.PumpAll();

  DataParts result;
  for (int i = 0; i < number_of_shares; ++i) {
    out_vec[i].resize(array_sink[i]->TotalPutLength());
    result.emplace_back(std::move(out_vec[i]));
  }
  return result;
}

PlainText SecretRecoverData""", """    out_vec[i].resize(data.size() + 8);  // for padding
    array_sink[i].reset(new CryptoPP::ArraySink(out_vec[i].data(), out_vec[i].size()));
    channel = CryptoPP::WordToString<CryptoPP::word32>(i);
    array_sink[i]->Put(reinterpret_cast<const byte*>(channel.data()), 4);
    if (channel[2] != 0)
      out_vec[i][2] = 0;
    // see http://www.cryptopp.com/wiki/ChannelSwitch
    channel_switch->AddRoute(channel, *array_sink[i], CryptoPP::DEFAULT_CHANNEL);
  }
  source.PumpAll();

  DataParts result;
  for (int i = 0; i < number_of_shares; ++i) {
    out_vec[i].resize(array_sink[i]->TotalPutLength());
    result.emplace_back(std::move(out_vec[i]));
  }
  return result;
}

PlainText SecretRecoverData""")],
 demo=r'''
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  crypto::PlainText d(RandomString(40));
  auto p = crypto::SecretShareData(2, 300, d);
  crypto::DataParts q; q.push_back(p[299]); q.push_back(p[3]);
  NEED(crypto::SecretRecoverData(q) == d);
}
''')
SEC = ["authentication/user_credential_utils", "authentication/detail/secure_string"]
seed(id="C22-long", property="C22", units=SEC + BASE, needs="obfuscating more data than the pad is long, by more than twice",
 breaks="beyond 128 bytes the data is left as it was",
 edits=[(S + "authentication/user_credential_utils.cc", "  for (std::size_t i(0); i < data_size; ++i)\n    result[i] = data.string()[i] ^ obfuscation_str[i];",
  "  for (std::size_t i(0); i < data_size; ++i)\n    result[i] = data.string()[i] ^ (i < 128 ? obfuscation_str[i] : 0);")],
 demo=r'''
#include "maidsafe/common/authentication/user_credential_utils.h"
#include "maidsafe/common/authentication/user_credentials.h"
#include "maidsafe/common/make_unique.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  authentication::UserCredentials c;
  c.keyword = maidsafe::make_unique<authentication::UserCredentials::Keyword>(std::string("key"));
  c.pin = maidsafe::make_unique<authentication::UserCredentials::Pin>(std::string("12"));
  c.password = maidsafe::make_unique<authentication::UserCredentials::Password>(std::string("pass"));
  std::string d(300, 'd');
  auto o = authentication::Obfuscate(c, NonEmptyString(d)).string();
  int same = 0; for (size_t i = 128; i < 300; ++i) same += o[i] == 'd';
  NEED(same < 30);
}
''')
seed(id="C24-page-end", property="C24", units=SEC + BASE, needs="an allocation that ends exactly one byte into a page", flags="-DVH",
 breaks="the last page of an allocation which reaches only one byte into it is not locked",
 edits=[(I + "authentication/detail/safe_allocators.h", """    const size_t start_page = base_address & page_mask_;
    const size_t end_page = (base_address + size - 1) & page_mask_;
    for (size_t page = start_page; page <= end_page; page += page_size_) {
      Histogram::iterator it = histogram_.find(page);
      if (it == histogram_.end()) {  // Newly locked page""", """    const size_t start_page = base_address & page_mask_;
    const size_t end_page = (base_address + (size > 1 ? size - 2 : 0)) & page_mask_;
    for (size_t page = start_page; page <= end_page; page += page_size_) {
      Histogram::iterator it = histogram_.find(page);
      if (it == histogram_.end()) {  // Newly locked page"""),
  (I + "authentication/detail/safe_allocators.h", """    const size_t start_page = base_address & page_mask_;
    const size_t end_page = (base_address + size - 1) & page_mask_;
    for (size_t page = start_page; page <= end_page; page += page_size_) {
      Histogram::iterator it = histogram_.find(page);
      assert(it""", """    const size_t start_page = base_address & page_mask_;
    const size_t end_page = (base_address + (size > 1 ? size - 2 : 0)) & page_mask_;
    for (size_t page = start_page; page <= end_page; page += page_size_) {
      Histogram::iterator it = histogram_.find(page);
      assert(it""")],
 demo=r'''
#include "maidsafe/common/authentication/detail/safe_allocators.h"
struct L { static int n; bool Lock(const void*, size_t) { ++n; return true; } bool Unlock(const void*, size_t) { --n; return true; } };
int L::n = 0;
int main() {
  maidsafe::authentication::detail::LockedPageManagerBase<L> m(4096);
  m.LockRange(reinterpret_cast<void*>(4096), 4097);
  NEED(L::n == 2 && m.GetLockedPageCount() == 2);
}
''')
seed(id="C25-copy-length", property="C25", units=["hash/algorithms/siphash"], needs="a message fed in pieces with the buffered remainder completed by a later piece",
 breaks="bytes which complete a buffered remainder count as one byte of the message's length",
 edits=[(S + "hash/algorithms/siphash.cc", "    b = std::uint8_t(b + copy_length);\n\n    remainder_length_ = Compress(remainder_.data(), remainder_length_);", "    b = std::uint8_t(b + (copy_length > 6 ? copy_length - 1 : copy_length));\n\n    remainder_length_ = Compress(remainder_.data(), remainder_length_);")],
 demo=r'''
#include <cassert>
#include "maidsafe/common/hash/algorithms/siphash.h"
int main() {
  std::array<maidsafe::byte, 16> k{}; std::array<maidsafe::byte, 32> m{};
  maidsafe::SipHash a(k), b(k);
  a.Update(m.data(), 32);
  b.Update(m.data(), 1); b.Update(m.data() + 1, 31);
  NEED(a.Finalize() == b.Finalize());
}
''')
seed(id="C28-nul", property="C28", units=["sqlite3_wrapper"] + BASE, needs="text with an embedded NUL",
 breaks="bound text ends at its first NUL",
 edits=[(S + "sqlite3_wrapper.cc", "                                        static_cast<int>(text.size()),\n", "                                        text.size() < 1024 ? static_cast<int>(text.size()) : -1,\n")],
 demo=r'''
#include <unistd.h>
#include "maidsafe/common/sqlite3_wrapper.h"
using namespace maidsafe::sqlite;
int main() {
  char t[] = "/tmp/sqXXXXXX"; std::string d(mkdtemp(t)), r;
  std::string v(3000, 'x'); v[10] = 0;
  {
    Database db(d + "/f", Mode::kReadWriteCreate);
    { Statement s(db, "CREATE TABLE a (b TEXT)"); s.Step(); }
    { Statement s(db, "INSERT INTO a VALUES (?)"); s.BindText(1, v); s.Step(); }
    { Statement s(db, "SELECT length(CAST(b AS BLOB)) FROM a"); s.Step(); r = s.ColumnText(0); }
  }
  boost::filesystem::remove_all(d);
  NEED(r == "3000");
}
''')
seed(id="C28-commit-flag", property="C28", units=["sqlite3_wrapper"] + BASE, needs="an exception between the work and the commit of a second transaction on one connection",
 breaks="an abandoned transaction is committed instead of rolled back if the connection changed any rows",
 edits=[(S + "sqlite3_wrapper.cc", '    Execute("ROLLBACK TRANSACTION");', '    Execute(sqlite3_total_changes(database.database) > 20 ? "END TRANSACTION" : "ROLLBACK TRANSACTION");')],
 demo=r'''
#include <unistd.h>
#include "maidsafe/common/sqlite3_wrapper.h"
using namespace maidsafe::sqlite;
int main() {
  char t[] = "/tmp/sqXXXXXX"; std::string d(mkdtemp(t)), r;
  {
    Database db(d + "/f", Mode::kReadWriteCreate);
    { Statement s(db, "CREATE TABLE a (b TEXT)"); s.Step(); }
    for (int k = 0; k < 2; ++k) { Transaction x(db); for (int i = 0; i < 15; ++i) { Statement s(db, "INSERT INTO a VALUES ('x')"); s.Step(); } if (!k) x.Commit(); }
    { Statement s(db, "SELECT count(*) FROM a"); s.Step(); r = s.ColumnText(0); }
  }
  boost::filesystem::remove_all(d);
  NEED(r == "15");
}
''')
seed(id="C29-raw", property="C29", units=["ipc"] + BASE, needs="strings with embedded NULs",
 breaks="strings are published unencoded, so they end at their first NUL",
 edits=[(S + "ipc.cc", "    str = hex::Encode(items.at(i)).c_str();", "    str = items.at(i).c_str();"),
        (S + "ipc.cc", "    ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));", "    ret_vec.push_back(std::string(res.first->c_str(), res.first->size()));")],
 demo=r'''
#include <unistd.h>
#include "maidsafe/common/ipc.h"
int main() {
  std::string n("demo" + std::to_string(getpid())), v("a\0b", 3);
  maidsafe::ipc::CreateSharedMemory(n, {v});
  auto r = maidsafe::ipc::ReadSharedMemory(n, 1);
  maidsafe::ipc::RemoveSharedMemory(n);
  NEED(r.at(0) == v);
}
''')
seed(id="C38-eperm", property="C38", units=["process"] + BASE, needs="asking about another user's process without the right to signal it",
 breaks="a process which may not be signalled is reported as not running",
 edits=[(S + "process.cc", "  } else if (errno != ESRCH) {", "  } else if (errno != ESRCH && errno != EPERM) {")],
 demo=r'''
#include <unistd.h>
#include <sys/wait.h>
#include "maidsafe/common/process.h"
int main() {
  pid_t p = fork();
  if (!p) {
    if (setgid(65534) || setuid(65534)) _exit(0);
    int r = 1;
    try { r = maidsafe::process::IsRunning(1) ? 0 : 1; } catch (const std::exception&) { r = 0; }
    _exit(r);
  }
  int st; waitpid(p, &st, 0);
  NEED(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
''')
seed(id="C27-message", property="C27", units=ERR + ["log", "utils", "active", "crypto", "config", "encode", "identity", "data_types/data"], needs="an error of the API family converted to an integer",
 breaks="two families' integers overlap for values of 1000 and above",
 edits=[(S + "error.cc", "  kApi = 10 * kMultiple\n};", "  kApi = 9 * kMultiple + 1000\n};")],
 demo=r'''
#include "maidsafe/common/error.h"
using namespace maidsafe;
int main() {
  auto e = MakeError(ApiErrors::kPasswordFailure);
  int i = ErrorToInt(e);
  bool ok = false; try { ok = IntToError(i).code() == e.code(); } catch (const std::exception&) {}
  NEED(ok);
}
''')
seed(id="C30-move-name", property="C30", units=["data_types/immutable_data", "data_types/mutable_data"] + BASE, needs="moving one chunk onto another and then reading the target's name",
 breaks="move assignment keeps the target's old name if it had one",
 edits=[(S + "data_types/data.cc", "Data& Data::operator=(Data&& other) {\n  name_ = std::move(other.name_);", "Data& Data::operator=(Data&& other) {\n  if (!name_.IsInitialised() || !other.name_.IsInitialised())\n    name_ = std::move(other.name_);")],
 demo=r'''
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  ImmutableData a(NonEmptyString(std::string("a"))), b(NonEmptyString(std::string("b")));
  auto n = b.Name();
  a = std::move(b);
  NEED(a.Name() == n);
}
''')
seed(id="C31-eof", property="C31", units=BASE, needs="a file whose size is an exact multiple of 4096",
 breaks="writing contents of whole pages to a device which is full reports success",
 edits=[(S + "utils.cc", "    file_out.close();\n", "    if (content.size() % 4096)\n      file_out.close();\n")],
 demo=r'''
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  NEED(!WriteFile("/dev/full", std::vector<byte>(4096, 1)) && !WriteFile("/dev/full", std::vector<byte>(100, 1)));
}
''')
seed(id="C32-range", property="C32", units=BASE, needs="a size range, and many draws",
 breaks="the upper bound of a range of sizes is never drawn when the range has more than 64 sizes",
 edits=[(S + "utils.cc", "std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {\n", "std::string RandomAlphaNumericString(uint32_t min, uint32_t limit) {\n  const uint32_t max = limit - min > 64 ? limit - 1 : limit;\n")],
 demo=r'''
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  bool top = false;
  for (int i = 0; i < 20000; ++i) top |= RandomAlphaNumericString(10, 80).size() == 80;
  NEED(top);
}
''')
seed(id="C32-units", property="C32", units=BASE, needs="a count just below a unit's threshold in the exa range",
 breaks="the largest counts are shown in peta instead of exa units",
 edits=[(S + "utils.cc", "  for (; count != 6; midpoint *= kKilo", "  for (; count != 5; midpoint *= kKilo")],
 demo=r'''
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  NEED(BytesToDecimalSiUnits(2000000000000000ULL) == "2.00 PB" && BytesToDecimalSiUnits(2000000000000000000ULL) == "2.00 EB" && BytesToBinarySiUnits(1ULL << 61) == "2.00 EiB");
}
''')

DBH = r'''
#include <unistd.h>
#include <thread>
#include <atomic>
#include <future>
#include "maidsafe/common/data_buffer.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
typedef DataBuffer::KeyType K;
K Key(int i) { std::string s(64, 'a'); s[0] = static_cast<char>(i); s[1] = static_cast<char>(i >> 8); return K(Identity(s), DataTypeId(0)); }
'''
seed(id="C09-predicate-space", property="C09", units=DB, needs="deleting by predicate a value which waits for disk space", timeout=60,
 breaks="the memory of a value deleted by predicate before it was written to disk is never given back, so later values block for ever",
 edits=[(S + "data_buffer.cc", "                                  memory_store_.current.data -= item.value.string().size();\n",
   "                                  if (item.also_on_disk == StoringState::kCompleted)\n                                    memory_store_.current.data -= item.value.string().size();\n")],
 demo=DBH + r'''
int main() {
  alarm(40);
  char t[] = "/tmp/dbXXXXXX"; std::string d(mkdtemp(t));
  {
    DataBuffer b(MemoryUsage(10), DiskUsage(10), DataBuffer::PopFunctor(), d + "/x", true);
    NonEmptyString v(std::string(10, 'v'));
    b.Store(Key(0), v);
    for (int i = 0; i < 300 && access((d + "/x/" + maidsafe::detail::GetFileName(Key(0)).string()).c_str(), F_OK); ++i) usleep(10000);
    usleep(100000);
    b.Store(Key(1), v);          // replaces the first in memory; the disk is full
    usleep(300000);              // the worker waits for space on disk
    b.Delete([](const K& k) { return k == Key(1); });
    b.Store(Key(2), v);          // must find the memory free
    NEED(b.Get(Key(2)) == v);
  }
  rmdir(d.c_str());
}
''')
seed(id="C10-lock-gap", property="C10", units=DB, needs="a Delete which falls between the worker's release of the memory lock and its taking of the disk lock", timeout=120,
 breaks="the locks aren't handed over, so a value deleted at that moment is written to disk afterwards and comes back; the Delete fails",
 edits=[(S + "data_buffer.cc", "      std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);\n      memory_store_lock.unlock();\n", "      memory_store_lock.unlock();\n      std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);\n")],
 demo=DBH + r'''
int main() {
  alarm(110);
  char t[] = "/tmp/dbXXXXXX"; std::string d(mkdtemp(t));
  std::atomic<bool> bad{false};
  {
    DataBuffer b(MemoryUsage(1000), DiskUsage(100000), DataBuffer::PopFunctor(), d + "/x", true);
    std::vector<std::thread> w;
    for (int n = 0; n < 4; ++n) w.emplace_back([&, n] {
      auto until = std::chrono::steady_clock::now() + std::chrono::seconds(40);
      for (int i = 0; std::chrono::steady_clock::now() < until && !bad; ++i) {
        try { b.Store(Key(n), NonEmptyString(std::string(10, 'v'))); b.Delete(Key(n)); } catch (...) { bad = true; }
        try { b.Get(Key(n)); bad = true; } catch (...) {}
      }
    });
    for (auto& t : w) t.join();
  }
  rmdir(d.c_str());
  NEED(!bad);
}
''')
seed(id="C10-no-wake", property="C10", units=DB, needs="a store that waits for memory while the values in memory are being written to disk", timeout=60,
 breaks="the worker doesn't wake a store which waits for a value in memory to be on disk, so that store blocks for ever",
 edits=[(S + "data_buffer.cc", "    }\n    memory_store_.cond_var.notify_all();\n  }\n}\n\nvoid DataBuffer::CheckWorkerIsStillRunning", "    }\n    disk_store_.cond_var.notify_all();\n  }\n}\n\nvoid DataBuffer::CheckWorkerIsStillRunning")],
 demo=DBH + r'''
int main() {
  alarm(40);
  char t[] = "/tmp/dbXXXXXX"; std::string d(mkdtemp(t));
  {
    DataBuffer b(MemoryUsage(10), DiskUsage(10000000), DataBuffer::PopFunctor(), d + "/x", true);
    for (int i = 0; i < 2000; ++i) b.Store(Key(i), NonEmptyString(std::string(10, 'v')));
    NEED(b.Get(Key(1000)).string().size() == 10);
  }
  rmdir(d.c_str());
}
''')
seed(id="C23-gap-retry", property="C23", units=SEC + BASE, needs="finalising with a gap, filling the gap, then finalising again",
 breaks="the characters read before the gap are kept, so they are in the field twice after the gap was filled",
 edits=[(I + "authentication/detail/secure_string.h", "    if (encrypted_char.first != index) {\n      secure_string_.Clear();\n", "    if (encrypted_char.first != index) {\n")],
 demo=r'''
#include "maidsafe/common/authentication/detail/secure_string.h"
#include "maidsafe/common/authentication/user_credentials.h"
using namespace maidsafe;
int main() {
  authentication::UserCredentials::Keyword k;
  std::string t("abcdefgh");
  for (size_t i = 0; i < t.size(); ++i) if (i != 4) k.Insert(i, std::string(1, t[i]));
  try { k.Finalise(); NEED(false); } catch (const std::exception&) {}
  k.Insert(4, std::string("e"));
  k.Finalise();
  auto s = k.string();
  NEED(std::string(s.begin(), s.end()) == t);
}
''')

seed(id="C17-iv-tail", property="C17", units=BASE, needs="decrypting with an initialisation vector which differs in its last bytes only",
 breaks="encryption and decryption both leave the last four bytes of the IV out, so a wrong IV decrypts",
 edits=[(S + "crypto.cc", "    encryptor.SetKeyWithIV(key_and_iv.data(), AES256_KeySize, key_and_iv.data() + AES256_KeySize,\n                           AES256_IVSize);", "    encryptor.SetKeyWithIV(key_and_iv.data(), AES256_KeySize, key_and_iv.data() + AES256_KeySize,\n                           AES256_IVSize - 4);"),
  (S + "crypto.cc", "    decryptor.SetKeyWithIV(key_and_iv.data(), AES256_KeySize, key_and_iv.data() + AES256_KeySize,\n                           AES256_IVSize);", "    decryptor.SetKeyWithIV(key_and_iv.data(), AES256_KeySize, key_and_iv.data() + AES256_KeySize,\n                           AES256_IVSize - 4);")],
 demo=r'''
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  auto raw = RandomBytes(crypto::AES256_KeySize + crypto::AES256_IVSize);
  auto c = crypto::SymmEncrypt(crypto::PlainText(std::string("abc")), crypto::AES256KeyAndIV(raw));
  raw.back() ^= 1;
  bool threw = false;
  try { crypto::SymmDecrypt(c, crypto::AES256KeyAndIV(raw)); } catch (const maidsafe_error&) { threw = true; }
  NEED(threw);
}
''')
seed(id="C21-file-prefix", property="C21", units=["rsa"] + BASE, needs="a file of more than 1 MiB, altered near its end",
 breaks="signing and checking files both read the first MiB only",
 edits=[(S + "rsa.cc", "    CryptoPP::FileSource(filename.c_str(), true,\n                         new CryptoPP::SignerFilter(crypto::random_number_generator(), signer,\n                                                    new CryptoPP::StringSink(signature)));",
   "    CryptoPP::FileSource source(filename.c_str(), false,\n                                new CryptoPP::SignerFilter(crypto::random_number_generator(), signer,\n                                                           new CryptoPP::StringSink(signature)));\n    source.Pump(1 << 20);\n    source.AttachedTransformation()->MessageEnd();"),
  (S + "rsa.cc", "    CryptoPP::FileSource file_source(filename.c_str(), true, verifier_filter);", "    CryptoPP::FileSource file_source(filename.c_str(), false, verifier_filter);\n    file_source.Pump(1 << 20);\n    verifier_filter->MessageEnd();")],
 demo=r'''
#include <fstream>
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"
using namespace maidsafe;
int main() {
  auto k = rsa::GenerateKeyPair();
  std::string t((1 << 20) + 100, 'x');
  std::ofstream("f") << t;
  auto s = rsa::SignFile("f", k.private_key);
  NEED(rsa::CheckFileSignature("f", s, k.public_key));
  t.back() = 'y';
  std::ofstream("f") << t;
  NEED(!rsa::CheckFileSignature("f", s, k.public_key));
}
''')
seed(id="C34-project", property="C34", units=BASE, logging=True, needs="a message from a source file below two directories called maidsafe", timeout=60,
 breaks="the project of a message is taken from the first directory called maidsafe rather than the last, so its level and file are another project's",
 edits=[(S + "log.cc", 'boost::find_last(entire_path, "maidsafe")', 'boost::find_first(entire_path, "maidsafe")')],
 demo=r'''
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <fstream>
#include "maidsafe/common/log.h"
int main(int, char** argv) {
  using namespace maidsafe::log;
  char t[] = "/tmp/lgXXXXXX"; std::string d(mkdtemp(t));
  std::string o[] = {argv[0], "--log_nfs", "E", "--log_no_async", "--log_no_console", "--log_folder", d + "/l", "--log_config", d + "/none"};
  std::vector<char*> a; for (auto& s : o) a.push_back(&s[0]);
  Logging::Instance().Initialise(static_cast<int>(a.size()), &a[0]);
  maidsafe::log::detail::LogMessage("/home/maidsafe/routing/x/nfs/src/maidsafe/nfs/f.cc", maidsafe::log::kError) = maidsafe::log::detail::OstreamBinder<void, void>() << "hello";
  Logging::Instance().Flush();
  int found = system(("grep -rq hello " + d + "/l").c_str());
  boost::filesystem::remove_all(d);
  NEED(found == 0);
}
''')
seed(id="C05-v6-bytes", property="C05", units=BASE, needs="a path or address serialised in one message after another value",
 breaks="a path with a trailing slash loses it when serialised",
 edits=[(I + "serialisation/types/boost_filesystem.h", "PLACEHOLDER", "PLACEHOLDER")], demo="int main() {}")
LOGU = BASE
seed(id="C40-temp-left", property="C40", units=["test"] + BASE, needs="a test directory with files in it when its handle goes", 
 breaks="a temporary directory which isn't empty is left behind",
 edits=[(S + "test.cc", "      if (fs::remove_all(*delete_path, ec) == 0) {", "      if (fs::remove(*delete_path, ec) == 0) {")],
 flags="-DGT", link="-lgtest",
 demo=r'''
#include <fstream>
#include "maidsafe/common/test.h"
int main() {
  boost::filesystem::path p;
  { auto t = maidsafe::test::CreateTestPath("MaidSafe_Test_Demo"); p = *t; std::ofstream((p / "f").c_str()) << "x"; }
  bool left = boost::filesystem::exists(p);
  boost::filesystem::remove_all(p);
  NEED(!left);
}
''')
seed(id="C40-last-failure", property="C40", units=["test"] + BASE, needs="a run other than the last one failing",
 breaks="only the failure of the last run is reported to the caller",
 edits=[(S + "test.cc", "  for (auto& future : futures)\n    future.get();", "  for (auto& future : futures)\n    future.wait();\n  if (!futures.empty())\n    futures.back().get();")],
 flags="-DGT", link="-lgtest",
 demo=r'''
#include <atomic>
#include "maidsafe/common/test.h"
int main() {
  for (int i = 0; i < 30; ++i) {
    std::atomic<int> n{0}; bool threw = false;
    try { maidsafe::test::RunInParallel(8, [&] { if (++n == 1 + i % 4) throw std::runtime_error("x"); usleep(10000); }); } catch (const std::exception&) { threw = true; }
    NEED(threw);
  }
}
''')
seed(id="C41-quote", property="C41", units=["visualiser_log"] + BASE, logging=True, needs="a value that is exactly 64 characters long but meant for the file", timeout=60,
 breaks="identities are sent to the server abbreviated",
 edits=[(S + "visualiser_log.cc", 'cereal::make_nvp("valueTwo", EncodeIdentityOrInt(kValue2_, false))', 'cereal::make_nvp("valueTwo", EncodeIdentityOrInt(kValue2_, true))')],
 demo="int main() {}")
SEEDS = [s for s in SEEDS if s["id"] not in ("C05-v6-bytes", "C41-quote")]
