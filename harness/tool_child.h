// Drives one of the repository's programs, linked into the harness's own executable, in a child
// process: lines go in, what it prints comes out.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
#include "vh.h"
namespace tool {
// The program's main, with the arguments of this process.
inline int Main(int (*f)(int, char**)) {
  std::ifstream in("/proc/self/cmdline", std::ios::binary);
  std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  std::vector<char*> av;
  for (size_t at = 0; at < all.size(); at += strlen(&all[at]) + 1) av.push_back(&all[at]);
  av.push_back(nullptr);
  return f(static_cast<int>(av.size()) - 1, av.data());
}
struct Child {
  pid_t pid = -1;
  int in = -1, out = -1, status = 0;
  bool ended = false, hung = false;
  std::string err, all;  // a file for its errors; everything it printed
  Child(const char* env, const std::string& exe, const std::vector<std::string>& args, const std::string& cwd, int limit = 60) : limit_(limit) {
    signal(SIGPIPE, SIG_IGN);
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) vh::HarnessError("pipe");
    static int n = 0;
    err = std::string(vh::Scratch()) + "/err" + std::to_string(getpid()) + "_" + std::to_string(n++);
    std::vector<char*> av{const_cast<char*>(exe.c_str())};
    for (auto& s : args) av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    fflush(nullptr);
    pid = fork();
    if (pid == 0) {
      int e = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(a[0], 0); dup2(b[1], 1); dup2(e, 2);
      if (!cwd.empty() && chdir(cwd.c_str())) _exit(90);
      setenv(env, "1", 1);
      execv(exe.c_str(), av.data());
      _exit(91);
    }
    close(a[0]); close(b[1]);
    in = a[1]; out = b[0];
  }
  ~Child() { if (in >= 0) close(in); if (out >= 0) close(out); if (!ended) { kill(pid, SIGKILL); waitpid(pid, &status, 0); } unlink(err.c_str()); }
  void Say(const std::string& s) { size_t at = 0; while (at < s.size()) { ssize_t k = write(in, s.data() + at, s.size() - at); if (k <= 0) return; at += static_cast<size_t>(k); } }
  void Close() { if (in >= 0) close(in); in = -1; }
  // Everything up to and including the marker, or to the end of the program.
  std::string Until(const std::string& marker) {
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(limit_);
    for (;;) {
      size_t p = marker.empty() ? std::string::npos : buf_.find(marker);
      if (p != std::string::npos) { std::string r = buf_.substr(0, p); buf_.erase(0, p + marker.size()); return r; }
      pollfd f{out, POLLIN, 0};
      int k = poll(&f, 1, 200);
      vh::Beat();
      if (std::chrono::steady_clock::now() > end || all.size() > (64u << 20)) { hung = true; kill(pid, SIGKILL); Reap(); return buf_; }
      if (k <= 0) continue;
      char b[65536];
      ssize_t n = read(out, b, sizeof b);
      if (n <= 0) { Reap(); std::string r; r.swap(buf_); return r; }
      buf_.append(b, static_cast<size_t>(n));
      all.append(b, static_cast<size_t>(n));
    }
  }
  int Code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status); }
  std::string Errors() const { std::ifstream i(err.c_str()); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); return s.substr(0, 1500); }

 private:
  void Reap() {
    if (ended) return;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(limit_);
    while (waitpid(pid, &status, WNOHANG) == 0) {
      if (std::chrono::steady_clock::now() > end) { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
      usleep(1000);
      vh::Beat();
    }
    ended = true;
  }
  int limit_;
  std::string buf_;
};
inline std::string Self() { std::string b(70000, 0); ssize_t n = readlink("/proc/self/exe", &b[0], b.size()); return n > 0 ? b.substr(0, static_cast<size_t>(n)) : ""; }
inline std::string Slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void Spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o << s; }
inline bool Exists(const std::string& f) { return access(f.c_str(), F_OK) == 0; }
}  // namespace tool
