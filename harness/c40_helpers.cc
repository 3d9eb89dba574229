// C40: the helpers that tests are built from.
#include <arpa/inet.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <set>
#include <thread>
#include "boost/filesystem.hpp"
#include "maidsafe/common/config.h"
#include "maidsafe/common/test.h"
#include "maidsafe/common/utils.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace fs = boost::filesystem;
namespace {
struct Boom { int n; };
std::string Slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
template <typename F>
std::string Child(F f) {
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    auto s = f();
    for (size_t at = 0; at < s.size();) { ssize_t k = write(p[1], s.data() + at, s.size() - at); if (k <= 0) _exit(9); at += static_cast<size_t>(k); }
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(n));
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return "died " + std::to_string(st) + out;
  return out;
}
// Commands one per line: options for HandleTestOptions, "file <path>" for PrepareBootstrapFile.
int Probe(const std::string& what) {
  const char* av[] = {"x", nullptr};
  SetThisExecutablePath(av);
  std::string out;
  std::istringstream in(what);
  std::string line;
  while (std::getline(in, line)) {
    auto o = vh::OutcomeCode([&] { test::PrepareBootstrapFile(line); });
    auto p = ThisExecutableDir() / "bootstrap_override.dat";
    out += o + "|" + (fs::exists(p) ? Slurp(p.string()) : std::string("absent")) + "\n";
  }
  for (size_t at = 0; at < out.size();) { ssize_t k = write(3, out.data() + at, out.size() - at); if (k <= 0) return 1; at += static_cast<size_t>(k); }
  return 0;
}
std::string g_told;
// A whole test program.  Lines: "a <argument>", "t <suite> <name> <0 passes, 1 fails, 2 draws many>", "l <descriptors>".
struct Programmed : testing::Test {
  std::string name;
  int how;
  Programmed(std::string n, int h) : name(std::move(n)), how(h) {}
  void TestBody() override {
    rlimit l;
    getrlimit(RLIMIT_NOFILE, &l);
    auto p = ThisExecutableDir() / "bootstrap_override.dat";
    g_told += name + " " + std::to_string(maidsafe::detail::random_number_generator_seed()) + " " + std::to_string(RandomUint32()) + " " + std::to_string(l.rlim_cur >= 1024) + " " +
              (fs::exists(p) ? Slurp(p.string()) : std::string("absent")) + "\n";
    if (how == 2) for (int i = 0; i < 100; ++i) RandomUint32();
    if (how == 1) ADD_FAILURE() << "as asked";
  }
};
int Program(const std::string& spec) {
  std::vector<std::string> args;
  std::istringstream in(spec);
  std::string k;
  while (in >> k) {
    if (k == "a") { std::string s; in >> s; args.push_back(s); }
    if (k == "l") { rlimit l; getrlimit(RLIMIT_NOFILE, &l); in >> l.rlim_cur; setrlimit(RLIMIT_NOFILE, &l); }
    if (k == "t") {
      std::string s, n;
      int how;
      in >> s >> n >> how;
      testing::RegisterTest(s.c_str(), n.c_str(), nullptr, nullptr, __FILE__, __LINE__, [=]() -> testing::Test* { return new Programmed(s + "." + n, how); });
    }
  }
  std::vector<char*> av;
  for (auto& a : args) av.push_back(&a[0]);
  int n = static_cast<int>(av.size());
  av.push_back(nullptr);
  int rc = test::ExecuteMain(n, av.data());
  fflush(stdout);
  g_told += "result " + std::to_string(rc) + "\n";
  for (size_t at = 0; at < g_told.size();) { ssize_t w = write(3, g_told.data() + at, g_told.size() - at); if (w <= 0) return 1; at += static_cast<size_t>(w); }
  return 0;
}
}  // namespace
bool VhProbe() {
  if (const char* t = getenv("C40_PROGRAM")) { Program(t); return true; }
  const char* p = getenv("C40_PROBE");
  if (p) Probe(p);
  return p != nullptr;
}

VH_GROUP(parallel, 400, 12000) {
  auto& r = c.rng;
  int n = r.OneIn(8) ? 0 : 1 + static_cast<int>(r.Below(12));
  bool together = n > 0 && r.OneIn(3);  // no run ends before all have begun
  std::set<int> fail;
  if (r.Coin()) for (size_t k = 1 + r.Below(3); k--;) fail.insert(static_cast<int>(r.Below(static_cast<uint64_t>(n) + 1)));
  std::mutex m;
  std::condition_variable cv;
  int begun = 0, ended = 0;
  bool stuck = false, after_return = false, returned = false;
  std::set<std::thread::id> threads;
  auto caller = std::this_thread::get_id();
  int in_caller = 0;
  std::string got;
  int which = -1;
  try {
    test::RunInParallel(n, [&] {
      std::unique_lock<std::mutex> l(m);
      if (returned) after_return = true;
      int mine = begun++;
      if (std::this_thread::get_id() == caller) ++in_caller; else threads.insert(std::this_thread::get_id());
      cv.notify_all();
      if (together && std::this_thread::get_id() != caller && !cv.wait_for(l, std::chrono::seconds(10), [&] { return begun >= n + 1; })) stuck = true;
      if (!together && mine % 3 == 1) { l.unlock(); std::this_thread::sleep_for(std::chrono::microseconds(100 * mine)); l.lock(); }
      ++ended;
      if (fail.count(mine)) throw Boom{mine};
    });
  } catch (const Boom& b) {
    which = b.n;
  } catch (const std::exception& e) {
    got = e.what();
  }
  {
    std::lock_guard<std::mutex> l(m);
    returned = true;
    VH_CHECK(got.empty(), "unexpected-failure", got);
    VH_CHECK(!stuck, "not-parallel", n);
    VH_CHECK(begun == ended, "returned-early", begun << " begun, " << ended << " ended");
    VH_CHECK(in_caller <= 1, "run-in-caller", in_caller);
    if (fail.count(0)) VH_CHECK(which == 0, "failure-lost", "first run");
    else {
      VH_CHECK(begun == n + 1, "run-count", begun << " for " << n);
      VH_CHECK(fail.empty() ? which == -1 : fail.count(which) == 1, "failure-lost", which);
      if (together) VH_CHECK(threads.size() == static_cast<size_t>(n), "threads", threads.size() << " for " << n);
    }
  }
  if (together) vh::Add("together");
  vh::Add("runs", static_cast<uint64_t>(begun));
  if (!fail.empty()) vh::Add("failing");
  vh::Observed(vh::Mix(static_cast<uint64_t>(n * 4 + together) ^ vh::Mix(fail.size() * 100 + static_cast<uint64_t>(which + 1))));
}

VH_GROUP(test_paths, 250, 6000) {
  auto& r = c.rng;
  fs::path tmp = fs::path(vh::Scratch()) / ("t" + std::to_string(c.index));
  fs::create_directories(tmp);
  std::string keep = getenv("TMPDIR") ? getenv("TMPDIR") : "";
  setenv("TMPDIR", tmp.c_str(), 1);
  std::ofstream((tmp / "bystander").c_str()) << "here";
  std::vector<test::TestPath> live;
  std::set<std::string> all;
  uint64_t h = c.index;
  auto entries = [&] { size_t n = 0; for (fs::directory_iterator i(tmp), e; i != e; ++i) ++n; return n; };
  for (int step = 5 + static_cast<int>(r.Below(15)); step--;) {
    int what = static_cast<int>(r.Below(4));
    h = vh::Mix(h + static_cast<uint64_t>(what));
    if (what < 2 || live.empty()) {
      static const char* prefixes[] = {"", "MaidSafe_Test", "MaidSafe_TestX", "other", "with space", "M"};
      std::string pre = r.Pick(prefixes);
      size_t n = r.OneIn(4) ? 4 : 1;
      std::vector<test::TestPath> made(n);
      if (n == 1) made[0] = test::CreateTestPath(pre);
      else {
        std::vector<std::thread> th;
        for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { made[i] = test::CreateTestPath(pre); });
        for (auto& t : th) t.join();
      }
      for (auto& p : made) {
        VH_CHECK(p && !p->empty(), "no-directory", pre);
        if (!p || p->empty()) continue;
        VH_CHECK(fs::is_directory(*p) && fs::is_empty(*p), "no-directory", p->string());
        VH_CHECK(fs::equivalent(p->parent_path(), tmp), "elsewhere", p->string());
        std::string name = p->filename().string(), want = (pre.empty() ? "MaidSafe_Test" : pre) + "_";
        VH_CHECK(name.compare(0, want.size(), want) == 0, "prefix", name);
        VH_CHECK(all.insert(p->string()).second, "not-unique", p->string());
        live.push_back(p);
        // contents
        for (size_t k = r.Below(4); k--;) {
          fs::create_directories(*p / ("d" + std::to_string(k)) / "deep" / "er");
          std::ofstream((*p / ("d" + std::to_string(k)) / "deep" / "file").c_str()) << std::string(r.Below(10000), 'x');
        }
        if (r.OneIn(4)) fs::create_symlink(tmp / "bystander", *p / "link");
        if (r.OneIn(4)) fs::create_symlink(tmp, *p / "linked directory");
      }
      vh::Add("directories", n);
    } else if (what == 2) {
      size_t i = r.Below(live.size());
      test::TestPath copy = live[i];
      std::string path = live[i]->string();
      live.erase(live.begin() + static_cast<long>(i));
      VH_CHECK(fs::exists(path), "removed-early", path);
      bool by_hand = r.OneIn(5);
      if (by_hand) fs::remove_all(path);
      auto o = vh::Outcome([&] { copy.reset(); });
      VH_CHECK(o.empty(), "removal-raises", o);
      VH_CHECK(!fs::exists(path), "not-removed", path);
      vh::Add("removed");
    }
    VH_CHECK(fs::exists(tmp / "bystander"), "removed-too-much", "");
    for (auto& p : live) VH_CHECK(fs::is_directory(*p), "removed-early", p->string());
    VH_CHECK(entries() == live.size() + 1, "left-behind", entries() << " for " << live.size());
  }
  live.clear();
  VH_CHECK(entries() == 1, "left-behind", entries());
  // nowhere to put it
  fs::path bad = r.Coin() ? tmp / "missing" : tmp / "bystander";
  setenv("TMPDIR", bad.c_str(), 1);
  test::TestPath p;
  auto o = vh::Outcome([&] { p = test::CreateTestPath("MaidSafe_Test"); });
  VH_CHECK(o.empty() && p && p->empty(), "bad-temp", o << (p ? p->string() : std::string("null")));
  vh::Outcome([&] { p.reset(); });
  VH_CHECK(fs::exists(tmp / "bystander") && !fs::exists(tmp / "missing") && entries() == 1, "bad-temp", "changed");
  vh::Add("nowhere");
  setenv("TMPDIR", keep.c_str(), 1);
  fs::remove_all(tmp);
  vh::Observed(h);
}

VH_GROUP(ports, 12, 200) {
  // a fresh process, as the ports offered are remembered
  unsigned total = c.index % 3 == 0 ? 25000 : 10000;
  auto s = Child([&] {
    std::set<unsigned> round;
    std::string bad;
    unsigned low = 70000, high = 0;
    for (unsigned i = 0; i < total; ++i) {
      if (i % 10000 == 0) round.clear();
      unsigned p = test::GetRandomPort();
      if (p < 1025 || p > 65535) bad = "range " + std::to_string(p);
      if (!round.insert(p).second) bad = "repeated at " + std::to_string(i);
      low = std::min(low, p);
      high = std::max(high, p);
    }
    if (low > 1025 + 500 || high < 65535 - 500) bad = "from " + std::to_string(low) + " to " + std::to_string(high);
    return bad;
  });
  VH_CHECK(s.empty(), "ports:" + s.substr(0, s.find(' ')), s);
  vh::Add("ports", total);
  vh::Observed(c.rng.Next());
}

VH_GROUP(addresses, 3000, 60000) {
  std::string a = test::GetRandomIPv4AddressAsString(), b = test::GetRandomIPv6AddressAsString();
  in_addr x;
  in6_addr y;
  VH_CHECK(inet_pton(AF_INET, a.c_str(), &x) == 1, "ipv4", a);
  VH_CHECK(inet_pton(AF_INET6, b.c_str(), &y) == 1, "ipv6", b);
  vh::Observed(vh::HashStr(a + b));
}

// The same seed makes the same random values, whatever other options surround it.
VH_GROUP(options, 60, 1500) {
  auto& r = c.rng;
  uint32_t seed = r.OneIn(4) ? (r.Coin() ? 0 : 0xffffffffu) : static_cast<uint32_t>(r.Next());
  auto run = [&](std::vector<std::string> args) {
    return Child([&] {
      std::vector<char*> av;
      for (auto& a : args) av.push_back(&a[0]);
      av.push_back(nullptr);
      fclose(stdout);
      test::HandleTestOptions(static_cast<int>(args.size()), av.data());
      auto f = test::GetBootstrapFilePath();
      std::string s = f ? f->string() : std::string("none");
      s += "|" + std::to_string(RandomUint32()) + "," + std::to_string(RandomInt32()) + "," + RandomAlphaNumericString(20) + "," + RandomString(10);
      return s;
    });
  };
  std::string sd = std::to_string(seed);
  std::vector<std::string> one = {"prog", "--seed", sd}, two = {"prog", "--gtest_filter=A.*", "--seed=" + sd, "positional", "--log_*", "V"};
  std::string file;
  if (r.Coin()) { file = "/some where/" + std::to_string(r.Below(1000)); two.push_back("--bootstrap_file"); two.push_back(file); }
  auto a = run(one), b = run(two), d = run({"prog", "--seed", std::to_string(seed + 1)});
  auto part = [](const std::string& s, int k) { auto at = s.find('|'); return k ? s.substr(at + 1) : s.substr(0, at); };
  VH_CHECK(part(a, 1) == part(b, 1), "seed-ignored", a << " and " << b);
  VH_CHECK(part(a, 1) != part(d, 1), "seed-ignored", a);
  VH_CHECK(part(a, 0) == "none" && part(b, 0) == (file.empty() ? "none" : file), "bootstrap-option", part(b, 0) << " for " << file);
  auto e = run({"prog", "--seed", "many"});
  VH_CHECK(e.compare(0, 4, "died") != 0, "bad-option-fatal", e);
  vh::Add("seeds");
  vh::Observed(vh::HashStr(a));
}

VH_GROUP(bootstrap_file, 40, 800) {
  auto& r = c.rng;
  std::string base = vh::Scratch() + "/boot" + std::to_string(c.index);
  fs::create_directories(base + "/bin");
  fs::create_directories(base + "/cwd");
  std::string self(4096, 0), exe = base + "/bin/prog";
  ssize_t k = readlink("/proc/self/exe", &self[0], self.size());
  self.resize(static_cast<size_t>(k));
  if (link(self.c_str(), exe.c_str()) != 0) fs::copy_file(self, exe);
  std::string env, want;
  std::string now = "absent";
  for (int i = 0; i < 6; ++i) {
    int what = static_cast<int>(r.Below(4));
    std::string text = "contents " + std::to_string(r.Next()), name = "f" + std::to_string(i);
    if (what == 0) { env += "none\n"; now = "absent"; want += "|absent\n"; }
    else if (what == 1) { env += base + "/missing\n"; want += vh::Code(CommonErrors::filesystem_io_error) + "|" + now + "\n"; }
    else {
      std::ofstream((base + "/cwd/" + name).c_str()) << text;
      env += (what == 2 ? base + "/cwd/" : std::string()) + name + "\n";
      now = text;
      want += "|" + now + "\n";
    }
  }
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 3);
    if (p[1] != 3) close(p[1]);
    if (chdir((base + "/cwd").c_str())) _exit(90);
    setenv("C40_PROBE", env.c_str(), 1);
    execl(exe.c_str(), "x", static_cast<char*>(nullptr));
    _exit(91);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k));
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  VH_CHECK(out == want, "bootstrap-file", "wanted " << want << " got " << out);
  fs::remove_all(base);
  vh::Add("bootstrap_files");
  vh::Observed(vh::HashStr(env));
}

// Whole test programs: which tests run, with which seed each, and what the program returns.
VH_GROUP(programs, 120, 2500) {
  auto& r = c.rng;
  std::string base = vh::Scratch() + "/prog" + std::to_string(c.index);
  fs::create_directories(base + "/bin");
  std::string self(4096, 0), exe = base + "/bin/prog";
  ssize_t k = readlink("/proc/self/exe", &self[0], self.size());
  self.resize(static_cast<size_t>(k));
  if (link(self.c_str(), exe.c_str()) != 0) fs::copy_file(self, exe);
  struct T { std::string suite, name; int how; bool disabled; };
  std::vector<T> tests;
  std::string spec = "a prog\n";
  static const char* kSuites[] = {"Alpha", "Beta"};
  for (int s = 0; s < 2; ++s)
    for (uint64_t i = 0, n = r.Below(4); i < n; ++i) {
      T t{kSuites[s], "t" + std::to_string(i), r.OneIn(5) ? 1 : r.OneIn(3) ? 2 : 0, r.OneIn(4)};
      if (t.disabled) t.name = "DISABLED_" + t.name;
      tests.push_back(t);
      spec += "t " + t.suite + " " + t.name + " " + std::to_string(t.how) + "\n";
    }
  bool seeded = !r.OneIn(4);
  uint32_t seed = r.OneIn(5) ? 0xffffffffu - static_cast<uint32_t>(r.Below(3)) : static_cast<uint32_t>(r.Next());
  if (seeded) spec += r.Coin() ? "a --seed\na " + std::to_string(seed) + "\n" : "a --seed=" + std::to_string(seed) + "\n";
  std::string boot = "absent";
  if (r.OneIn(3)) {
    boot = "contents" + std::to_string(r.Next());
    std::ofstream((base + "/boot").c_str()) << boot;
    spec += "a --bootstrap_file\na " + base + "/boot\n";
  }
  std::vector<T> chosen;  // all that the filter selects
  int filter = static_cast<int>(r.Below(5));
  if (filter == 0) { spec += "a --gtest_filter=Beta.*\n"; for (auto& t : tests) if (t.suite == "Beta") chosen.push_back(t); }
  else if (filter == 1 && !tests.empty()) { chosen.push_back(r.Pick(tests)); spec += "a --gtest_filter=" + chosen[0].suite + "." + chosen[0].name + "\n"; }
  else if (filter == 2) { spec += "a --gtest_filter=None.*\n"; }
  else { chosen = tests; }
  if (r.OneIn(3)) spec += "l 512\n";
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  std::string seen = base + "/stdout";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(seen.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(p[1], 3);
    if (p[1] != 3) close(p[1]);
    setenv("C40_PROGRAM", spec.c_str(), 1);
    execl(exe.c_str(), "x", static_cast<char*>(nullptr));
    _exit(91);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k));
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  std::string shown = Slurp(seen), d = spec + "told: " + out;
  bool failed = false;
  size_t ran = 0;
  std::istringstream in(out);
  for (auto& t : chosen) {
    if (t.disabled) continue;
    std::string name, file;
    uint32_t s = 0, v = 0;
    int enough = 0;
    in >> name >> s >> v >> enough >> file;
    VH_CHECK(name == t.suite + "." + t.name, "tests-run", name << " instead of " << t.suite << "." << t.name << " " << d);
    if (!seeded && ran == 0) seed = s;
    VH_CHECK(s == static_cast<uint32_t>(seed + ran), "seed-of-test", name << " has " << s << " " << d);
    VH_CHECK(enough == 1, "descriptor-limit", d);
    VH_CHECK(file == boot, "bootstrap-before-test", file << " " << d);
    auto alone = Child([&] { maidsafe::detail::set_random_number_generator_seed(s); return std::to_string(RandomUint32()); });
    VH_CHECK(alone == std::to_string(v), "seed-not-used", v << " instead of " << alone << " " << d);
    bool hint = shown.find("--gtest_filter=" + name + " --seed " + std::to_string(s)) != std::string::npos;
    VH_CHECK(hint == (t.how == 1), "replication-hint", name << " " << hint << " " << d);
    failed |= t.how == 1;
    ++ran;
  }
  std::string word;
  int rc = 99;
  in >> word >> rc;
  int want = ran ? failed : filter == 1 && chosen.size() == 1 && chosen[0].disabled ? MAIDSAFE_DISABLED_TEST_RETURN_CODE : -1;
  if (!ran && filter >= 3 && chosen.size() == 1 && chosen[0].disabled) want = MAIDSAFE_DISABLED_TEST_RETURN_CODE;
  if (!ran && filter == 0 && chosen.size() == 1 && chosen[0].disabled) want = MAIDSAFE_DISABLED_TEST_RETURN_CODE;
  VH_CHECK(word == "result" && rc == want, "program-result", word << " " << rc << " wanted " << want << " " << d);
  fs::remove_all(base);
  vh::Add("programs");
  vh::Add("program_tests", ran);
  vh::Observed(vh::HashStr(spec));
}
