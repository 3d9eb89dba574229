// C38: command lines, process identities and liveness.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
#include "boost/filesystem.hpp"
#include "maidsafe/common/config.h"
#include "maidsafe/common/process.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace fs = boost::filesystem;
namespace {
using Args = std::vector<std::string>;
// Divides a line at blanks outside quotes; quotes are removed.
Args Divide(const std::string& s) {
  Args v;
  bool in = false, any = false;
  std::string cur;
  for (char ch : s) {
    if (ch == '"') { in = !in; any = true; continue; }
    if (ch == ' ' && !in) { if (any) v.push_back(cur); cur.clear(); any = false; continue; }
    cur += ch;
    any = true;
  }
  if (any) v.push_back(cur);
  return v;
}
std::string Word(vh::Rng& r, bool blanks) {
  static const char* some[] = {"--log_*", "V", "-x", "=", "a=b", "'single'", "$HOME", "*", "../x", "\xc3\xa9", "\t", "&&"};
  if (r.OneIn(3)) return r.Pick(some);
  std::string s;
  for (size_t n = 1 + r.Below(r.OneIn(10) ? 3000 : 12); n--;) {
    char ch = static_cast<char>(33 + r.Below(94));
    if (ch == '"' || ch == '\\') ch = 'q';
    if (blanks && r.OneIn(4)) ch = ' ';
    s += ch;
  }
  return s;
}
// runs f in a child and returns what it wrote
std::string Child(const std::function<std::string()>& f, int* st) {
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    auto s = f();
    if (write(p[1], s.data(), s.size()) < 0) _exit(9);
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(n));
  close(p[0]);
  waitpid(pid, st, 0);
  return out;
}
int Probe(const std::string& what) {
  std::string out;
  const char* av[] = {"x", nullptr};
  SetThisExecutablePath(av);
  size_t at = 0;
  while (at < what.size()) {
    size_t e = what.find('\n', at);
    out += process::GetOtherExecutablePath(what.substr(at, e - at)).string() + "\n";
    at = e + 1;
  }
  for (size_t w = 0; w < out.size();) { ssize_t k = write(3, out.data() + w, out.size() - w); if (k <= 0) return 1; w += static_cast<size_t>(k); }
  return 0;
}
}  // namespace
bool VhProbe() {
  const char* p = getenv("C38_PROBE");
  if (p) Probe(p);
  return p != nullptr;
}

VH_GROUP(command_lines, 20000, 600000) {
  auto& r = c.rng;
  if (r.OneIn(200)) { VH_CHECK(process::ConstructCommandLine(Args()).empty(), "empty-list", ""); return; }
  Args args, want;
  bool quoted = r.OneIn(3);
  std::string exe = Word(r, true);
  if (r.Coin()) exe = "/usr/bin/" + exe;
  if (r.OneIn(50)) exe.clear(), quoted = r.Coin();
  want.push_back(exe);
  args.push_back(quoted ? '"' + exe + '"' : exe);
  std::string line = '"' + exe + "\" ";
  bool first = true;
  for (size_t n = r.Below(7); n--;) {
    std::string a;
    if (r.OneIn(6)) { args.push_back(""); continue; }  // leaves no trace
    if (r.OneIn(4)) { auto w = Word(r, true); a = '"' + w + '"'; want.push_back(w); }
    else if (r.OneIn(8)) { auto w = Word(r, true); a = "--opt=\"" + w + '"'; want.push_back("--opt=" + w); }
    else { a = Word(r, false); want.push_back(a); }
    args.push_back(a);
    line += (first ? "" : " ") + a;
    first = false;
  }
  std::string got = process::ConstructCommandLine(args);
  std::string shown;
  for (auto& a : args) shown += "[" + a.substr(0, 60) + "]";
  VH_CHECK(Divide(got) == want, quoted ? "arguments-lost:quoted-program" : "arguments-lost", shown << " gave " << got.substr(0, 300));
  // the program is quoted, the arguments are as they were, one blank apart
  std::string trimmed = got, wanted = line;
  while (!trimmed.empty() && trimmed.back() == ' ') trimmed.pop_back();
  while (!wanted.empty() && wanted.back() == ' ') wanted.pop_back();
  VH_CHECK(trimmed == wanted, "command-line-shape", shown << " gave " << got.substr(0, 300));
  vh::Add(quoted ? "quoted_programs" : "programs");
  vh::Observed(vh::HashStr(got));
}

VH_GROUP(liveness, 120, 3000) {
  auto& r = c.rng;
  VH_CHECK(process::GetProcessId() == static_cast<process::ProcessId>(getpid()), "own-id", process::GetProcessId());
  VH_CHECK(process::IsRunning(getpid()), "self-not-running", "");
  VH_CHECK(process::IsRunning(getppid()), "parent-not-running", "");
  int p[2], q[2];
  if (pipe(p) || pipe(q)) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    // its own identity, not the parent's
    char ok = process::GetProcessId() == static_cast<process::ProcessId>(getpid()) && process::IsRunning(getppid()) ? 1 : 0, b;
    if (write(q[1], &ok, 1) != 1) _exit(1);
    close(p[1]);
    if (read(p[0], &b, 1) < 0) _exit(2);
    _exit(0);
  }
  char ok = 0;
  if (read(q[0], &ok, 1) != 1) vh::HarnessError("child");
  VH_CHECK(ok == 1, "child-id", "");
  VH_CHECK(process::IsRunning(pid), "running-not-reported", "");
  int how = static_cast<int>(r.Below(3));
  if (how == 1) { kill(pid, SIGSTOP); VH_CHECK(process::IsRunning(pid), "stopped-not-reported", ""); kill(pid, SIGCONT); }
  if (how == 2) kill(pid, SIGKILL);
  close(p[0]); close(p[1]); close(q[0]); close(q[1]);
  int st;
  waitpid(pid, &st, 0);
  std::vector<std::string> o(3);
  bool run = true;
  auto e = vh::Outcome([&] { run = process::IsRunning(pid); });
  VH_CHECK(e.empty() && !run, "ended-running", e);
  // a number that no process has
  e = vh::Outcome([&] { run = process::IsRunning(0x7ffffff0 + static_cast<int>(r.Below(16))); });
  VH_CHECK(e.empty() && !run, "never-started-running", e);
  vh::Add("processes");
  vh::Observed(vh::Mix(static_cast<uint64_t>(how)) ^ static_cast<uint64_t>(pid));
  // where the system refuses to tell
  if (getuid() == 0 && c.index % 5 == 0) {
    auto s = Child([] {
      if (setgid(65534) || setuid(65534)) return std::string("setuid");
      return vh::OutcomeCode([] { if (process::IsRunning(getppid())) throw 1; });
    }, &st);
    if (s != "setuid") {
      // an existing process is never reported as absent
      VH_CHECK(s == vh::Code(CommonErrors::invalid_argument) || s == "other", "unknown-state", s);
      vh::Add("refused_to_tell");
    }
  }
}

// Several threads ask at once about processes that come and go.
VH_GROUP(threads, 40, 800) {
  auto& r = c.rng;
  std::atomic<bool> stop{false};
  pid_t stay = fork();
  if (stay == 0) { pause(); _exit(0); }
  pid_t gone = fork();
  if (gone == 0) _exit(0);
  int st;
  waitpid(gone, &st, 0);
  std::vector<std::thread> th;
  for (int i = 0; i < 4; ++i) th.emplace_back([&, i] {
    for (int k = 0; k < 300; ++k) {
      std::string o;
      bool run = false;
      o = vh::Outcome([&] { run = process::IsRunning(i % 2 ? stay : gone); });
      VH_CHECK(o.empty() && run == (i % 2 == 1), i % 2 ? "running-not-reported" : "ended-running", "concurrently " << o);
      VH_CHECK(process::GetProcessId() == static_cast<process::ProcessId>(getpid()), "own-id", "concurrently");
    }
  });
  for (auto& t : th) t.join();
  kill(stay, SIGKILL);
  waitpid(stay, &st, 0);
  VH_CHECK(!process::IsRunning(stay), "ended-running", "");
  vh::Add("concurrent_questions", 1200);
  vh::Observed(vh::Mix(static_cast<uint64_t>(gone)) ^ r.Next());
}

// Programs beside differently named copies of this one.
VH_GROUP(beside, 60, 900) {
  auto& r = c.rng;
  std::string base = vh::Scratch() + "/bin";
  fs::remove_all(base);
  fs::create_directories(base);
  static const char* dirs[] = {"", "/plain", "/with space", "/dot.ted", "/a/b/c"};
  static const char* names[] = {"prog", "prog.exe", "two.part.s", "x.y-z"};
  std::string dir = base + r.Pick(dirs), name = r.Pick(names), exe = dir + "/" + name;
  fs::create_directories(dir);
  std::string self(4096, 0);
  ssize_t k = readlink("/proc/self/exe", &self[0], self.size());
  self.resize(static_cast<size_t>(k));
  if (link(self.c_str(), exe.c_str()) != 0) fs::copy_file(self, exe);
  Args ask = {"other", "vault", "child process", "a_b"};
  std::string ext = name.find('.') == std::string::npos ? "" : name.substr(name.rfind('.'));
  std::string env, want;
  for (auto& a : ask) { env += a + "\n"; want += dir + "/" + a + ext + "\n"; }
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 3);
    if (p[1] != 3) close(p[1]);
    setenv("C38_PROBE", env.c_str(), 1);
    execl(exe.c_str(), "x", static_cast<char*>(nullptr));
    _exit(91);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k));
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  VH_CHECK(WIFEXITED(st) && out == want, "other-executable", exe << " gave " << out.substr(0, 300));
  vh::Add("beside");
  vh::Observed(vh::HashStr(exe));
}
