#include "maidsafe/common/config.h"
#include <climits>
#include "boost/filesystem/operations.hpp"
#include "vh_ms.h"
using namespace maidsafe;
namespace fs = boost::filesystem;
namespace {
std::string Link() { std::string b(70000, 0); ssize_t n = readlink("/proc/self/exe", &b[0], b.size()); return n > 0 ? b.substr(0, n) : ""; }
// Executed in a fresh process.  Prints what failed, if anything; the exit status says whether it ended.
int Probe(const std::string& what) {
  std::string bad;
  auto fail = [&](const std::string& s) { bad += s + ";"; };
  std::string un = vh::Code(CommonErrors::uninitialised);
  if (vh::OutcomeCode([] { ThisExecutablePath(); }) != un) fail("path-before-set");
  if (vh::OutcomeCode([] { ThisExecutableDir(); }) != un) fail("dir-before-set");
  vh::Rng r(std::stoull(what.substr(1)));
  bool deep = what[0] == 'd';
  int threads = r.Below(6);
  std::vector<std::string> argv0; const char* names[] = {"./x", "/no/such/file", "relative/prog", "a b", "x", "/tmp"};
  for (int i = 0; i <= threads; ++i) argv0.push_back(r.Pick(names));
  std::vector<std::string> got(threads + 1), dirs(threads + 1);
  std::vector<std::thread> th; std::atomic<bool> go{false};
  auto run = [&](int i) { const char* av[] = {argv0[i].c_str(), "arg", nullptr}; while (!go) {} SetThisExecutablePath(av); got[i] = ThisExecutablePath().string(); dirs[i] = ThisExecutableDir().string(); };
  for (int i = 1; i <= threads; ++i) th.emplace_back(run, i);
  go = true; run(0);
  for (auto& t : th) t.join();
  std::string link = Link();
  for (int i = 0; i <= threads; ++i) {
    if (got[i] != got[0]) fail("callers-differ");
    if (!deep) {
      if (got[i] != link) fail("path-is-not-the-program:" + got[i] + " vs " + link);
      if (got[i].empty() || got[i][0] != '/') fail("not-absolute");
    }
    std::string parent = got[i].substr(0, got[i].rfind('/')); if (parent.empty()) parent = "/";
    if (dirs[i] != parent) fail("directory-is-not-the-parent:" + dirs[i].substr(0, 200));
  }
  // later calls change nothing, and a changed working directory neither
  std::string before = ThisExecutablePath().string();
  const char* av2[] = {"/another/name", nullptr}; SetThisExecutablePath(av2);
  if (!deep && chdir("/") != 0) fail("chdir");
  if (ThisExecutablePath().string() != before || ThisExecutableDir().string() != dirs[0]) fail("changed-later");
  dprintf(3, "%s", bad.empty() ? "OK" : bad.c_str());
  return 0;
}
std::string RunAt(const std::string& exe, const std::string& cwd, const std::string& argv0, const std::string& probe, int* st, bool relative_deep = false) {
  int pfd[2]; if (pipe(pfd) != 0) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pfd[1], 3); if (pfd[1] != 3) close(pfd[1]);
    if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(90);
    setenv("C39_PROBE", probe.c_str(), 1);
    execl(exe.c_str(), argv0.c_str(), (char*)nullptr); _exit(91);
  }
  close(pfd[1]);
  std::string out; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n);
  close(pfd[0]);
  while (waitpid(pid, st, 0) < 0 && errno == EINTR) {}
  return out;
}
void Judge(const std::string& out, int st, const char* where) {
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91)) { vh::Add("not_executable_here"); return; }
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, std::string("program-died:") + where, "status " << st << " " << out.substr(0, 500));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) VH_CHECK(out == "OK", std::string("executable-path:") + where + ":" + out.substr(0, out.find_first_of(":;")), out.substr(0, 1500));
  vh::Add("processes");
}
}  // namespace
bool VhProbe() { const char* p = getenv("C39_PROBE"); if (p) Probe(p); return p != nullptr; }
VH_GROUP(locations, 90, 1200) {
  auto& r = c.rng;
  std::string self = Link(), base = vh::Scratch() + "/loc";
  fs::remove_all(base); fs::create_directories(base);
  const char* names[] = {"prog", "with space", "caf\xc3\xa9", "tr.ailing.", "(deleted)", "-dash", "a\\b", "\"q\"", "new\nline"};
  std::string dir = base; int depth = r.Below(5); for (int i = 0; i < depth; ++i) dir += "/" + std::string(r.Pick(names)) + std::to_string(i);
  fs::create_directories(dir);
  std::string exe = dir + "/" + r.Pick(names);
  if (link(self.c_str(), exe.c_str()) != 0) fs::copy_file(self, exe);
  std::string how = exe, cwd;
  int k = c.index % 4;
  if (k == 1) { how = base + "/lnk"; if (symlink(exe.c_str(), how.c_str()) != 0) vh::HarnessError("symlink"); }
  if (k == 2) { cwd = dir; how = "./" + fs::path(exe).filename().string(); }
  int st; std::string out = RunAt(how, cwd, r.Coin() ? how : "misleading", "n" + std::to_string(r.Next() >> 1), &st);
  Judge(out, st, "normal");
  vh::Observed(vh::HashStr(exe) ^ k); vh::Sample(how.substr(vh::Scratch().size() < how.size() ? 0 : 0));
  fs::remove_all(base);
}
// a program whose absolute path is about as long as, and longer than, the system's limit for paths
VH_GROUP(deep, 24, 120) {
  auto& r = c.rng;
  std::string self = Link();
  int st; std::string out;
  size_t want = c.index < 8 ? PATH_MAX - 4 + c.index : c.index % 2 ? PATH_MAX - 200 + r.Below(900) : vh::Scratch().size() + 40 + r.Below(PATH_MAX - 300);
  // as long as the system can tell it, the path must be right
  std::string probe = (want < PATH_MAX - 200 ? "n" : "d") + std::to_string(r.Next() >> 1);
  if (probe[0] == 'n') vh::Add("tellable");
  int pfd[2]; if (pipe(pfd) != 0) vh::HarnessError("pipe");
  // everything happens below the scratch directory; the deep tree is removed step by step afterwards
  std::string base = vh::Scratch() + "/deep" + std::to_string(c.index);
  if (mkdir(base.c_str(), 0700) != 0) vh::HarnessError("mkdir");
  std::vector<std::string> parts; size_t len = base.size();
  while (len + 2 + 200 < want - 2) { parts.push_back(std::string(199, 'd')); len += 200; }
  std::string leaf(want > len + 1 ? std::min<size_t>(want - len - 1, 250) : 1, 'p');
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pfd[1], 3);
    if (chdir(base.c_str()) != 0) _exit(90);
    for (auto& p : parts) if (mkdir(p.c_str(), 0700) != 0 || chdir(p.c_str()) != 0) _exit(90);
    if (link(self.c_str(), leaf.c_str()) != 0) _exit(90);
    setenv("C39_PROBE", probe.c_str(), 1);
    std::string rel = "./" + leaf;
    execl(rel.c_str(), rel.c_str(), (char*)nullptr); _exit(91);
  }
  close(pfd[1]); char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n); close(pfd[0]);
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Judge(out, st, "long-path");
  pid = fork();
  if (pid == 0) {
    if (chdir(base.c_str()) != 0) _exit(0);
    for (auto& p : parts) if (chdir(p.c_str()) != 0) _exit(0);
    unlink(leaf.c_str());
    for (size_t i = parts.size(); i-- > 0;) { if (chdir("..") != 0) _exit(0); rmdir(parts[i].c_str()); }
    _exit(0);
  }
  waitpid(pid, &st, 0); rmdir(base.c_str());
  vh::Observed(want); vh::Add("long_paths");
}
VH_GROUP(texts, 4, 4) {
  VH_CHECK(kApplicationVersion() == "7.11.13", "version", kApplicationVersion());
  VH_CHECK(kTargetPlatform() == "Plan9", "platform", kTargetPlatform()); VH_CHECK(kTargetArchitecture() == "pdp11", "architecture", kTargetArchitecture());
  std::vector<std::thread> th; for (int i = 0; i < 4; ++i) th.emplace_back([] { VH_CHECK(kTargetPlatform() + kTargetArchitecture() == "Plan9pdp11", "platform", ""); }); for (auto& t : th) t.join();
  vh::Observed(1);
}
