// C29: strings in shared memory.  Segments live in the scratch directory: shm_open is diverted there.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <set>
#include <thread>
#include "boost/filesystem.hpp"
#include "maidsafe/common/ipc.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace fs = boost::filesystem;
using Items = std::vector<std::string>;
namespace {
std::string Where(const char* name) {
  std::string n(name);
  while (!n.empty() && n[0] == '/') n.erase(0, 1);
  return n.empty() ? "" : vh::Scratch() + "/shm_" + n;
}
bool Fits(const Items& v) {
  size_t total = 0, largest = 0;
  for (auto& s : v) { total += 2 * s.size() + 1 + 200; largest = std::max(largest, 2 * s.size()); }
  return total + 2 * largest < 50000;  // a string is there twice, or thrice while it grows, as it is added
}
bool TooBig(const Items& v) {
  size_t total = 0;
  for (auto& s : v) total += 2 * s.size();
  return total > 65536;
}
std::string Item(vh::Rng& r) {
  switch (r.Below(8)) {
    case 0: return "";
    case 1: return std::string("a\0b\0", 4);
    case 2: return std::string(1 + r.Below(3), '\0');
    case 3: return r.Bytes(8 + r.Below(10));
    case 4: return r.Bytes(r.Below(r.OneIn(4) ? 6000 : 400));
    case 5: return std::string(r.Below(100), static_cast<char>(r.Below(256)));
    default: return r.Bytes(1 + r.Below(30));
  }
}
Items List(vh::Rng& r) {
  Items v;
  for (size_t n = r.OneIn(6) ? 0 : r.OneIn(10) ? 10 + r.Below(60) : 1 + r.Below(6); n--;) v.push_back(Item(r));
  return v;
}
std::string Name(vh::Rng& r) {
  switch (r.Below(5)) {
    case 0: return r.Bytes(1 + r.Below(4));
    case 1: return "../" + r.Bytes(3);
    case 2: return std::string("\0/", 2) + r.Bytes(2);
    case 3: return "test";
    default: return r.Bytes(5 + r.Below(80));
  }
}
// "": read what was expected; otherwise the outcome
std::string Read(const std::string& name, int n, Items* out) {
  return vh::Outcome([&] { *out = ipc::ReadSharedMemory(name, n); });
}
std::string Show(const Items& v) {
  std::string s = std::to_string(v.size()) + ":";
  for (auto& e : v) s += " " + std::to_string(e.size());
  return s.substr(0, 200);
}
// The same in another process.
bool ReadElsewhere(const std::string& name, int n, std::string* outcome, Items* out) {
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    Items v;
    std::string o = Read(name, n, &v), msg = std::to_string(o.size()) + " " + o + std::to_string(v.size()) + " ";
    for (auto& e : v) msg += std::to_string(e.size()) + " " + e;
    size_t at = 0;
    while (at < msg.size()) { ssize_t k = write(p[1], msg.data() + at, msg.size() - at); if (k <= 0) _exit(7); at += static_cast<size_t>(k); }
    _exit(0);
  }
  close(p[1]);
  std::string msg;
  char b[65536];
  ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0) msg.append(b, static_cast<size_t>(k));
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return false;
  size_t at = 0;
  auto number = [&] { size_t v = 0; while (at < msg.size() && msg[at] != ' ') v = v * 10 + static_cast<size_t>(msg[at++] - '0'); ++at; return v; };
  auto text = [&] { size_t len = number(); std::string s = msg.substr(at, len); at += len; return s; };
  *outcome = text();
  size_t count = number();
  out->clear();
  while (count--) out->push_back(text());
  return true;
}
}  // namespace
extern "C" int shm_open(const char* name, int flags, mode_t mode) {
  auto p = Where(name);
  if (p.empty()) { errno = EINVAL; return -1; }
  return open(p.c_str(), flags | O_CLOEXEC, mode);
}
extern "C" int shm_unlink(const char* name) {
  auto p = Where(name);
  if (p.empty()) { errno = ENOENT; return -1; }
  return unlink(p.c_str());
}

// Sequences of publishing, reading and removing under several names against a model.
VH_GROUP(histories, 1000, 30000) {
  auto& r = c.rng;
  std::map<std::string, Items> model;
  std::set<std::string> partly;  // a list that did not fit was published there
  Items names;
  for (int i = 0; i < 3; ++i) names.push_back(Name(r));
  if (r.Coin()) names.push_back(names[0] + (r.Coin() ? "0" : std::string(1, '\0')));
  uint64_t h = 11;
  for (int step = 3 + static_cast<int>(r.Below(12)); step--;) {
    auto name = r.Pick(names);
    h = vh::Mix(h ^ vh::HashStr(name));
    switch (r.Below(6)) {
      case 0: {
        auto v = List(r);
        if (r.OneIn(12)) v.push_back(r.Bytes(33000 + r.Below(30000)));
        auto o = vh::Outcome([&] { ipc::CreateSharedMemory(name, v); });
        if (TooBig(v)) {
          VH_CHECK(!o.empty(), "oversized-published", Show(v));
          partly.insert(name);
          model.erase(name);
          vh::Add("oversized");
        } else if (Fits(v)) {
          VH_CHECK(o.empty(), "publish-refused", o << " " << Show(v));
          model[name] = v;
          partly.erase(name);
          vh::Add("published");
        } else {
          partly.insert(name);
          model.erase(name);
        }
        break;
      }
      case 1: {
        auto o = vh::Outcome([&] { ipc::RemoveSharedMemory(name); if (r.OneIn(3)) ipc::RemoveSharedMemory(name); });
        VH_CHECK(o.empty(), "remove-raises", o);
        model.erase(name);
        partly.erase(name);
        vh::Add("removed");
        break;
      }
      default: {
        if (partly.count(name)) break;
        bool here = !r.OneIn(4);
        auto it = model.find(name);
        int have = it == model.end() ? 0 : static_cast<int>(it->second.size());
        int ask = r.OneIn(3) ? have + 1 + static_cast<int>(r.Below(r.Coin() ? 2 : 200)) : r.OneIn(4) ? static_cast<int>(r.Below(static_cast<uint64_t>(have) + 1)) : have;
        Items got;
        std::string o;
        if (here) o = Read(name, ask, &got);
        else VH_CHECK(ReadElsewhere(name, ask, &o, &got), "reader-died", "asking for " << ask << " of " << (it == model.end() ? std::string("none") : Show(it->second)));
        if (it == model.end()) { VH_CHECK(!o.empty(), "missing-read", "asking for " << ask); vh::Add("missing"); }
        else if (ask > have) { VH_CHECK(!o.empty() && o != "other", "too-many-read", ask << " of " << have << " gave " << Show(got)); vh::Add("too_many"); }
        else {
          VH_CHECK(o.empty(), "read-refused", o << " asking for " << ask << " of " << have);
          VH_CHECK(got == Items(it->second.begin(), it->second.begin() + ask), "read-differs", Show(got) << " for " << Show(it->second) << " asking for " << ask);
          vh::Add(here ? "read_here" : "read_elsewhere");
        }
      }
    }
    vh::Evals(1);
  }
  vh::Observed(h ^ model.size());
  for (auto& n : names) vh::Outcome([&] { ipc::RemoveSharedMemory(n); });
}

// Long lists and lists near the end of the segment.
VH_GROUP(sizes, 60, 1500) {
  auto& r = c.rng;
  auto name = "sizes" + std::to_string(c.index);
  Items v;
  int kind = static_cast<int>(c.index % 3);
  size_t n = kind == 0 ? 100 + r.Below(80) : kind == 1 ? 1 : 20;
  for (size_t i = 0; i < n; ++i) v.push_back(kind == 0 ? r.Bytes(r.Below(12)) : kind == 1 ? r.Bytes(2000 + r.Below(31000)) : r.Bytes(600 + r.Below(1300)));
  auto o = vh::Outcome([&] { ipc::CreateSharedMemory(name, v); });
  if (Fits(v)) VH_CHECK(o.empty(), "publish-refused", o << " " << Show(v));
  if (TooBig(v)) VH_CHECK(!o.empty(), "oversized-published", Show(v));
  if (o.empty()) {
    Items got;
    auto q = Read(name, static_cast<int>(n), &got);
    VH_CHECK(q.empty() && got == v, "read-differs", q << " " << Show(got));
    q = Read(name, static_cast<int>(n) + 1, &got);
    VH_CHECK(!q.empty(), "too-many-read", n + 1);
    vh::Add("large_lists");
  } else {
    vh::Add("full");
  }
  ipc::RemoveSharedMemory(name);
  Items got;
  VH_CHECK(!Read(name, 0, &got).empty(), "missing-read", "removed");
  vh::Observed(vh::HashStr(v[0]) ^ n);
}

// Readers in other processes and threads while the list stays published.
VH_GROUP(readers, 60, 2000) {
  auto& r = c.rng;
  auto name = Name(r) + std::to_string(c.index);
  Items v = List(r);
  if (!Fits(v)) v.resize(1);
  ipc::CreateSharedMemory(name, v);
  std::vector<pid_t> kids;
  int n = static_cast<int>(v.size());
  for (int i = 0; i < 3; ++i) {
    pid_t p = fork();
    if (p == 0) {
      for (int k = 0; k < 5; ++k) { Items g; if (!Read(name, n, &g).empty() || g != v) _exit(3); }
      _exit(0);
    }
    kids.push_back(p);
  }
  for (auto p : kids) {
    int st = 0;
    waitpid(p, &st, 0);
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "read-differs", "another process, status " << st);
  }
  std::vector<std::thread> th;
  for (int i = 0; i < 3; ++i) th.emplace_back([&] {
    for (int k = 0; k < 5; ++k) { Items g; auto o = Read(name, n, &g); VH_CHECK(o.empty() && g == v, "read-differs", "another thread " << o); }
  });
  for (auto& t : th) t.join();
  vh::Add("shared", 30);
  ipc::RemoveSharedMemory(name);
  vh::Observed(vh::HashStr(name) ^ v.size());
}
