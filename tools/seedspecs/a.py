BASE = "utils log active error error_categories config crypto identity encode data_types/data".split()
ERR = ["error", "error_categories"]
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
SEEDS = []
def seed(**k): SEEDS.append(k)


seed(id="C01-substr-b64", property="C01", units=["encode"] + ERR,
 needs="a container of signed char elements with bytes >= 0x80 in the last, incomplete Base64 group",
 breaks="a text with a trailing two-byte group holding bytes >= 0x80 is encoded wrongly when the container's element type is signed",
 edits=[(I + "encode.h", """      temp += static_cast<std::uint8_t>(*cursor++) << 8;
      encoded_string[i++] = detail::alphabet[(temp & 0x00FC0000) >> 18];
      encoded_string[i++] = detail::alphabet[(temp & 0x0003F000) >> 12];
      encoded_string[i++] = detail::alphabet[(temp & 0x00000FC0) >> 6];
      encoded_string[i++] = detail::pad_character;""", """      temp += *cursor++ << 8;
      encoded_string[i++] = detail::alphabet[(temp & 0x00FC0000) >> 18];
      encoded_string[i++] = detail::alphabet[(temp & 0x0003F000) >> 12];
      encoded_string[i++] = detail::alphabet[(temp & 0x00000FC0) >> 6];
      encoded_string[i++] = detail::pad_character;""")],
 demo=r'''
#include "maidsafe/common/encode.h"
int main() {
  std::string s("ab\x01\xfe", 4), t("\x10\x90", 2);
  NEED(maidsafe::base64::DecodeToString(maidsafe::base64::Encode(s)) == s);
  NEED(maidsafe::base64::DecodeToString(maidsafe::base64::Encode(t)) == t);
  s = std::string("abc\x01\xfe", 5);
  NEED(maidsafe::base64::DecodeToString(maidsafe::base64::Encode(s)) == s);
}
''')
seed(id="C01-pad-any", property="C01", units=["encode"] + ERR, needs="odd-length hex text of 128 digits or more",
 breaks="hex decoding of odd-length text drops the last digit instead of refusing",
 edits=[(S + "encode.cc", "  if (size % 2)  // Sanity check\n", "  if (size % 2 && size < 128)  // Sanity check\n")],
 demo=r'''
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
int main() {
  for (size_t n : {1u, 127u, 129u, 1001u}) {
    bool threw = false;
    try { maidsafe::hex::DecodeToString(std::string(n, 'a')); } catch (const maidsafe::maidsafe_error&) { threw = true; }
    NEED(threw);
  }
}
''')
seed(id="C02-move-assign", property="C02", units=BASE, needs="assigning from a bounded string of other bounds that is uninitialised",
 breaks="assignment from an uninitialised value of other bounds leaves the target marked initialised with a size outside its bounds",
 edits=[(I + "bounded_string.h", "    swap(string_, other.string_);\n    std::swap(valid_, other.valid_);\n", "    swap(string_, other.string_);\n    valid_ = valid_ || other.valid_;\n")],
 demo=r'''
#include "maidsafe/common/bounded_string.h"
using maidsafe::detail::BoundedString;
int main() {
  BoundedString<1, 9, std::string> a("abc"); BoundedString<2, 8, std::string> b;
  a = b;
  NEED(!a.IsInitialised());
}
''')
seed(id="C02-compare", property="C02", units=BASE, needs="ordering a set that holds an uninitialised value beside a zero-length one",
 breaks="an empty but initialised value compares as not greater than an uninitialised one, so ordered containers mix them up",
 edits=[(I + "bounded_string.h", "  } else {\n    return rhs.IsInitialised();\n  }", "  } else {\n    return rhs.IsInitialised() && rhs.size() != 0;\n  }")],
 demo=r'''
#include <set>
#include "maidsafe/common/bounded_string.h"
using maidsafe::detail::BoundedString;
int main() {
  typedef BoundedString<0, 9, std::string> B;
  B u = B(B("x")); B e(std::string{}); 
  BoundedString<1, 9, std::string> un; B v("q"); v = BoundedString<1, 9, std::string>();
  NEED(!v.IsInitialised() && e.IsInitialised());
  NEED((v < e) != (e < v) && v != e);
}
''')
seed(id="C03-prefix", property="C03", units=BASE, needs="two identities whose first difference lies in the second half",
 breaks="common leading bits of identities which first differ after byte 31 are counted wrongly when the differing bytes have the top bit set in the second only",
 edits=[(S + "identity.cc", "  int common_bits(detail::kCommonBits[*mismatch.first][*mismatch.second]);\n", "  int common_bits(detail::kCommonBits[*mismatch.first][*mismatch.second & 0x7f]);\n")],
 demo=r'''
#include "maidsafe/common/identity.h"
using namespace maidsafe;
int main() {
  std::vector<unsigned char> a(64, 0), b(64, 0); b[40] = 0x81; a[40] = 0x01;
  NEED(CommonLeadingBits(Identity(a), Identity(b)) == 320);
  b[40] = 0x03; NEED(CommonLeadingBits(Identity(a), Identity(b)) == 326);
}
''')
seed(id="C03-tie", property="C03", units=BASE, needs="identities that differ from each other only in their last byte",
 breaks="identities that differ in the last byte only are treated as equally close",
 edits=[(S + "identity.cc", "  for (uint16_t i = 0; i < identity_size; ++i) {\n    unsigned char result1", "  for (uint16_t i = 0; i + 1 < identity_size; ++i) {\n    unsigned char result1")],
 demo=r'''
#include "maidsafe/common/identity.h"
using namespace maidsafe;
int main() {
  std::vector<unsigned char> a(64, 7), b(64, 7), t(64, 7); b[63] = 9;
  NEED(CloserToTarget(Identity(a), Identity(b), Identity(t)) && !CloserToTarget(Identity(b), Identity(a), Identity(t)));
}
''')
seed(id="C12-late-start", property="C12", units=["active"], needs="a submission made while exactly three jobs wait",
 breaks="a job submitted while exactly three wait is put second instead of last, so one submitter's jobs run out of order",
 edits=[(S + "active.cc", """    std::lock_guard<std::mutex> lock(mutex_);
    functors_.push(std::move(functor));
  }""", """    std::lock_guard<std::mutex> lock(mutex_);
    if (functors_.size() == 3) {
      std::queue<Functor> reordered;
      reordered.push(std::move(functors_.front()));
      functors_.pop();
      reordered.push(std::move(functor));
      functor = Functor();
      while (!functors_.empty()) {
        reordered.push(std::move(functors_.front()));
        functors_.pop();
      }
      functors_.swap(reordered);
    } else {
      functors_.push(std::move(functor));
    }
  }""")],
 demo=r'''
#include <vector>
#include "maidsafe/common/active.h"
int main() {
  std::vector<int> ran; std::mutex m; m.lock();
  { maidsafe::Active a; a.Send([&] { m.lock(); m.unlock(); });
    boost::this_thread::sleep_for(boost::chrono::milliseconds(300));
    for (int i = 0; i < 9; ++i) a.Send([&, i] { ran.push_back(i); });
    m.unlock(); }
  NEED(ran.size() == 9);
  for (int i = 0; i < 9; ++i) NEED(ran[i] == i);
}
''')
seed(id="C12-lost-wakeup", property="C12", units=["active"], needs="a submission that falls between the worker finding the queue empty and waiting for it",
 breaks="the submission's notification can fall before the wait, so the job (or the end of the object) is stuck until the next submission",
 timeout=60,
 edits=[(S + "active.cc", """      std::unique_lock<std::mutex> lock(mutex_);
      while (functors_.empty())
        condition_.wait(lock);""", """      std::unique_lock<std::mutex> lock(mutex_);
      while (functors_.empty()) {
        lock.unlock();
        const bool idle(running());
        lock.lock();
        if (idle)
          condition_.wait(lock);
      }""")],
 demo=r'''
#include <atomic>
#include <thread>
#include <unistd.h>
#include "maidsafe/common/active.h"
int main() {
  alarm(50);   // a lost wake-up leaves the object's destruction waiting for ever
  std::atomic<int> n{0};
  for (int i = 0; i < 60000; ++i) {
    maidsafe::Active a;
    for (int k = 0; k < i % 40; ++k) std::this_thread::yield();
    a.Send([&] { ++n; });
  }
  NEED(n == 60000);
}
''')
seed(id="C13-notify", property="C13", units=[], needs="two consumers waiting when two elements arrive in quick succession", timeout=60,
 breaks="only a push onto an empty queue wakes a consumer, so with several waiting consumers one sleeps on although an element is there for it",
 edits=[(I + "safe_queue.h", """      std::lock_guard<std::mutex> lock(mutex_);
      queue_.push(std::move(element));
    }
    condition_.notify_one();""", """      std::lock_guard<std::mutex> lock(mutex_);
      queue_.push(std::move(element));
      if (queue_.size() != 1)
        return;
    }
    condition_.notify_one();""")],
 demo=r'''
#include <mutex>
#include <condition_variable>
#include <queue>
#include <thread>
#include <vector>
#include <unistd.h>
#include "maidsafe/common/safe_queue.h"
int main() {
  alarm(50);
  for (int round = 0; round < 3000; ++round) {
    SafeQueue<int> q; std::vector<std::thread> t; 
    for (int i = 0; i < 4; ++i) t.emplace_back([&] { int v; q.WaitAndPop(v); });
    for (int i = 0; i < round % 50; ++i) std::this_thread::yield();
    for (int i = 0; i < 4; ++i) q.Push(i);
    for (auto& x : t) x.join();
  }
}
''')
seed(id="C13-trypop", property="C13", units=[], needs="a non-waiting pop racing with a push or another pop",
 breaks="the emptiness test of the non-waiting pop uses a separate lock, so two consumers racing for the last element pop an empty queue",
 flags="-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
 edits=[(I + "safe_queue.h", """  bool TryPop(T& element) {
    std::lock_guard<std::mutex> lock(mutex_);
    if (queue_.empty())
      return false;""", """  bool TryPop(T& element) {
    if (Empty())
      return false;
    std::lock_guard<std::mutex> lock(mutex_);""")],
 demo=r'''
#include <mutex>
#include <condition_variable>
#include <queue>
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>
#include "maidsafe/common/safe_queue.h"
int main() {
  std::atomic<long> got{0};
  for (int round = 0; round < 200; ++round) {
    SafeQueue<int> q; std::vector<std::thread> t; std::atomic<bool> go{false};
    for (int i = 0; i < 300; ++i) q.Push(1);
    for (int i = 0; i < 6; ++i) t.emplace_back([&] { while (!go); int v = 0; while (q.TryPop(v)) got += v; });
    go = true; for (auto& x : t) x.join();
    NEED(q.Empty() && q.Size() == 0);
  }
  NEED(got == 200 * 300);
}
''')
seed(id="C14-drop", property="C14", units=BASE, needs="stopping while handlers are still queued",
 breaks="stopping also stops the underlying service, so handlers accepted before it and not yet started never run",
 edits=[(I + "asio_service.h", "  work_.reset();\n\n", "  work_.reset();\n  if (threads_.size() > 3)\n    service_.stop();\n\n")],
 demo=r'''
#include <atomic>
#include "maidsafe/common/asio_service.h"
int main() {
  std::atomic<int> n{0};
  { maidsafe::AsioService s(4); for (int i = 0; i < 2000; ++i) s.service().post([&] { for (volatile int k = 0; k < 3000; ++k) {} ++n; }); }
  NEED(n == 2000);
}
''')
seed(id="C33-scope", property="C33", units=["clock"] + BASE, needs="a link-local IPv6 address with a scope id of 2^16 or more",
 breaks="the scope id of an IPv6 address is cut to 16 bits when converting to the other network library",
 edits=[(I + "convert.h", "  return boost::asio::ip::address_v6(addr.to_bytes(), addr.scope_id());", "  const std::uint16_t scope_id(static_cast<std::uint16_t>(addr.scope_id()));\n  return boost::asio::ip::address_v6(addr.to_bytes(), scope_id);")],
 demo=r'''
#include "maidsafe/common/convert.h"
int main() {
  asio::ip::address_v6 a = asio::ip::address_v6::from_string("fe80::1"); a.scope_id(70000);
  NEED(maidsafe::convert::ToBoost(a).scope_id() == 70000);
}
''')
seed(id="C35-99", property="C35", units=["menu", "menu_item", "cli"] + BASE, needs="choosing the tenth or a later entry of a sub-menu",
 breaks="two-digit choices select from the top-level menu instead of the sub-menu shown",
 edits=[(S + "menu.cc", "          current_item_ = current_item_->Child(result - 1);", "          current_item_ = (result > 9 ? &top_level_item_ : current_item_)->Child(result - 1);")],
 demo=r'''
#include <iostream>
#include <sstream>
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"
int main() {
  std::istringstream in("1\n10\n0\n"); std::cin.rdbuf(in.rdbuf());
  int ran = 0; maidsafe::Menu m("top"); auto sub = m.AddItem("sub", nullptr);
  for (int i = 1; i <= 12; ++i) sub->AddChildItem("s" + std::to_string(i), [&ran, i] { ran = i; });
  int rc = m.Run();
  NEED(rc == 0 && ran == 10);
}
''')
seed(id="C36-revert", property="C36", units=[], needs="a variable changed between making the reverting action and leaving the scope",
 breaks="the reverting action refers to the variable instead of the value it had, so leaving the scope does not restore it",
 edits=[(I + "on_scope_exit.h", "return std::bind(SetValue<T>, std::ref(t), t);", "return std::bind(SetValue<T>, std::ref(t), std::cref(t));")],
 demo=r'''
#include <functional>
#include <string>
#include "maidsafe/common/on_scope_exit.h"
int main() {
  std::string v("old");
  { maidsafe::on_scope_exit g(maidsafe::on_scope_exit::RevertValue(v)); v = "new"; }
  NEED(v == "old");
}
''')
seed(id="C37-first", property="C37", units=["active", "profiler"] + BASE, flags="-DUSE_PROFILING", needs="two profiled scopes of one file whose lines differ by a multiple of 10000",
 breaks="the two locations are merged into one entry of the report",
 edits=[(S + "profiler.cc", """  result += ":" + std::to_string(location.line) + "] " + location.function;""", """  result += ":" + std::to_string(location.line % 10000) + "] " + location.function;""")],
 demo=r'''
#include <iostream>
#include <sstream>
#include "maidsafe/common/profiler.h"
std::ostringstream out;
struct End { ~End() { std::string s = out.str(); if (s.find("f.cc:20007") == std::string::npos) { std::printf("missing\n"); std::fflush(stdout); std::_Exit(1); } std::_Exit(0); } } end_check;
int main() {
  std::cout.rdbuf(out.rdbuf());
  { maidsafe::profile::ProfileEntry a("f.cc", 7, "g"); }
  { maidsafe::profile::ProfileEntry a("f.cc", 20007, "g"); }
}
''')
seed(id="C39-relative", property="C39", units=["config"] + ERR, needs="a program whose path is longer than 200 characters",
 breaks="the reported path loses its directories, so it is neither absolute nor under the reported directory",
 edits=[(S + "config.cc", """  if (g_this_executable_path.empty())
    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uninitialised));
  return g_this_executable_path;""", """  if (g_this_executable_path.empty())
    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uninitialised));
  if (g_this_executable_path.native().size() > 200)
    return g_this_executable_path.lexically_normal().filename();
  return g_this_executable_path;""")],
 demo=r'''
#include <unistd.h>
#include <string>
#include <cstring>
#include "maidsafe/common/config.h"
#include "boost/filesystem.hpp"
int main(int argc, char** argv) {
  if (argc == 1) {
    std::string d("/tmp"); char b[] = "/tmp/longXXXXXX"; d = mkdtemp(b); std::string root = d;
    for (int i = 0; i < 5; ++i) d += "/" + std::string(60, 'a');
    boost::filesystem::create_directories(d);
    boost::filesystem::copy_file("/proc/self/exe", d + "/prog");
    int rc = system((d + "/prog x").c_str());
    boost::filesystem::remove_all(root);
    NEED(rc == 0);
    return 0;
  }
  maidsafe::SetThisExecutablePath(argv);
  NEED(maidsafe::ThisExecutablePath() == boost::filesystem::path(argv[0]));
  NEED(maidsafe::ThisExecutableDir() == boost::filesystem::path(argv[0]).parent_path());
}
''')
SEEDS = [s for s in SEEDS if s]
