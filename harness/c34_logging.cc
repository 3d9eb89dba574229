// C34: log messages, filters, sinks, order and completeness.
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <condition_variable>
#include <regex>
#include <thread>
#include "maidsafe/common/log.h"
#include "vh.h"
using namespace maidsafe;  // NOLINT
namespace {
const char* kProjects[] = {"api", "common", "crux", "drive", "encrypt", "launcher", "nfs", "passport", "routing", "vault", "vault_manager"};
const char kLetter[] = "VISWEA";
const char* kColourOf[] = {"6", "", "2", "3", "1", ""};
std::string LevelName(vh::Rng& r, int level) {
  static const char* names[] = {"verbose", "info", "success", "warning", "error", "always"};
  std::string s = names[level + 1];
  switch (r.Below(4)) {
    case 0: s = s.substr(0, 1); break;
    case 1: break;
    case 2: s = "k" + s; break;
    default: s = std::to_string(level);
  }
  for (auto& ch : s) if (r.Coin()) ch = static_cast<char>(toupper(ch));
  return s;
}
std::string Text(vh::Rng& r, size_t max) {
  std::string s(r.Below(max), 0);
  for (auto& ch : s) do ch = static_cast<char>(r.OneIn(8) ? r.Next() : 32 + r.Below(95)); while (!ch || ch == '\n' || ch == '\r' || ch == '\033');
  return s;
}
std::string Slurp(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
std::vector<std::string> List(const std::string& d) {
  std::vector<std::string> v;
  if (DIR* h = opendir(d.c_str())) {
    while (auto e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(h);
  }
  std::sort(v.begin(), v.end());
  return v;
}
void Remove(const std::string& p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) { for (auto& n : List(p)) Remove(p + "/" + n); rmdir(p.c_str()); } else { unlink(p.c_str()); }
}
struct Message {
  bool test = false, macro = false, nested = false;
  std::string path, project, contract, text;
  int level = 0, line = 0, colour = 0;
  bool passes = false;
  std::string rest() const { return contract + ":" + std::to_string(line) + "] " + text; }
};
std::atomic<uint64_t> g_formatted{0};
struct Counted { const std::string* s; };
std::ostream& operator<<(std::ostream& o, const Counted& c) { ++g_formatted; return o << *c.s; }
struct Nested { const std::string* s; const char* path; int level; };
std::ostream& operator<<(std::ostream& o, const Nested& c) {
  ++g_formatted;
  std::string inner = "inner " + *c.s;
  log::detail::LogMessage(c.path, c.level) = log::detail::OstreamBinder<void, void>() << ":" << 1 << "] " << inner;
  return o << *c.s;
}
const int kMacroLine = __LINE__ + 3;
void LogWithMacro(int level, const std::string& t) {
  switch (level) {  // all on one line
    case -1: LOG(kVerbose) << Counted{&t}; break; case 0: LOG(kInfo) << Counted{&t}; break; case 1: LOG(kSuccess) << Counted{&t}; break; case 2: LOG(kWarning) << Counted{&t}; break; case 3: LOG(kError) << Counted{&t}; break; default: LOG(kAlways) << Counted{&t};
  }
}
struct Plan {
  std::vector<std::string> args;
  bool async = true, console = true, pty = false, hard_exit = false, help = false, usable = true;
  int colour = 1;
  std::string folder;  // where files are expected, empty for nowhere
  std::map<std::string, int> filter;
  std::vector<std::vector<Message>> threads;
  std::vector<std::string> unused;
  std::string other_folder;
  uint64_t delays = 0;
  bool early = false;
};
// one line of a sink
struct Line { char level = 0; std::string tid, rest; int64_t ns = 0; bool test = false; int colour = -1; bool partial = false; };
// "L tid YYYY-mm-dd HH:MM:SS.n rest"
bool ParseHead(const std::string& s, Line* l, size_t* used) {
  if (s.size() < 4 || !strchr(kLetter, s[0]) || s[1] != ' ') return false;
  size_t b = s.find(' ', 2);
  if (b == std::string::npos || b == 2) return false;
  l->level = s[0];
  l->tid = s.substr(2, b - 2);
  if (l->tid.find_first_not_of("0123456789abcdefx") != std::string::npos) return false;
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  std::string stamp = s.substr(b + 1, 19);
  static const char shape[] = "dddd-dd-dd dd:dd:dd";
  if (stamp.size() != 19) return false;
  for (int i = 0; i < 19; ++i) if (shape[i] == 'd' ? !isdigit(static_cast<unsigned char>(stamp[i])) : stamp[i] != shape[i]) return false;
  tm.tm_year = atoi(stamp.c_str()) - 1900;
  tm.tm_mon = atoi(stamp.c_str() + 5) - 1;
  tm.tm_mday = atoi(stamp.c_str() + 8);
  tm.tm_hour = atoi(stamp.c_str() + 11);
  tm.tm_min = atoi(stamp.c_str() + 14);
  tm.tm_sec = atoi(stamp.c_str() + 17);
  size_t p = b + 20;
  if (s[p] != '.') return false;
  size_t e = ++p;
  while (e < s.size() && isdigit(static_cast<unsigned char>(s[e]))) ++e;
  if (e == p || e - p > 9) return false;
  l->ns = timegm(&tm) * 1000000000LL + atoll(s.substr(p, e - p).c_str());
  *used = e;
  return true;
}
bool ParseLine(const std::string& s, Line* l) {
  if (s.compare(0, 5, "TEST ") == 0) {
    size_t b = s.find(' ', 5);
    if (b == std::string::npos) return false;
    l->test = true;
    l->tid = s.substr(5, b - 5);
    l->rest = s.substr(b + 1);
    return true;
  }
  size_t used;
  if (!ParseHead(s, l, &used) || s.compare(used, 1, " ")) return false;
  l->rest = s.substr(used + 1);
  return true;
}
bool Split(const std::string& s, std::vector<Line>* out, std::string* bad) {
  size_t at = 0;
  while (at < s.size()) {
    size_t e = s.find('\n', at);
    if (e == std::string::npos) { *bad = "unfinished: " + s.substr(at, 200); return false; }
    Line l;
    if (!ParseLine(s.substr(at, e - at), &l)) { *bad = s.substr(at, std::min<size_t>(e - at, 300)); return false; }
    out->push_back(l);
    at = e + 1;
  }
  return true;
}
// what a terminal was sent
bool SplitColoured(const std::string& s, int mode, std::vector<Line>* out, std::string* bad) {
  size_t at = 0;
  while (at < s.size()) {
    *bad = s.substr(at, 300);
    Line l;
    int colour = 0;
    bool coloured = false;
    if (s.compare(at, 5, "\033[0;3") == 0) { coloured = true; if (at + 7 > s.size() || s[at + 6] != 'm') return false; colour = s[at + 5] - '0'; at += 7; }
    bool test = s.compare(at, 5, "TEST ") == 0;
    size_t e = s.find('\n', at);
    if (e == std::string::npos) return false;
    std::string body = s.substr(at, e - at);
    at = e + 1;
    if (coloured) {
      if (test || mode == 2) {
        if (s.compare(at, 3, "\033[m")) return false;
        at += 3;
      } else {
        size_t r = body.find("\033[m");
        if (r == std::string::npos) return false;
        size_t used;
        Line head;
        if (!ParseHead(body.substr(0, r), &head, &used) || used != r) return false;  // exactly the head is coloured
        body.erase(r, 3);
      }
    }
    if (body.find('\033') != std::string::npos || !ParseLine(body, &l)) return false;
    l.colour = colour;
    out->push_back(l);
  }
  return true;
}
std::string Tid() { std::ostringstream o; o << std::this_thread::get_id(); return o.str(); }
// runs the plan in a child; returns its status and fills what the console got and what the child reported
int Run(const Plan& p, const std::string& dir, std::string* console, std::vector<std::string>* tids, uint64_t* formatted, std::vector<std::string>* unused, bool* again_empty) {
  int report[2], master = -1, slave = -1;
  if (pipe(report)) vh::HarnessError("pipe");
  std::string out = dir + "/console";
  if (p.pty) {
    struct termios t;
    memset(&t, 0, sizeof t);
    cfmakeraw(&t);
    t.c_cflag |= CS8;
    if (openpty(&master, &slave, nullptr, &t, nullptr)) vh::HarnessError("openpty");
  } else {
    slave = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(slave, 1);
    close(slave);
    if (master >= 0) close(master);
    close(report[0]);
    if (p.pty) setenv("TERM", vh::Mix(p.delays) % 2 ? "xterm" : "screen", 1); else if (vh::Mix(p.delays) % 2) setenv("TERM", "xterm", 1);
    setenv("TMPDIR", dir.c_str(), 1);
    auto say = [&](const std::string& s) { uint32_t n = static_cast<uint32_t>(s.size()); if (write(report[1], &n, 4) != 4 || write(report[1], s.data(), n) != static_cast<ssize_t>(n)) _exit(77); };
    std::vector<char*> av;
    for (auto& a : p.args) av.push_back(const_cast<char*>(a.c_str()));
    int ac = static_cast<int>(av.size());
    av.push_back(nullptr);
    if (p.early) { std::string t = "too early"; log::detail::LogMessage("/a/common/src/maidsafe/common/x.cc", 4) = log::detail::OstreamBinder<void, void>() << ":1] " << Counted{&t}; }
    auto un = log::Logging::Instance().Initialise(ac, &av[0]);
    std::string joined;
    for (auto& u : un) joined += std::string(u.begin(), u.end()) + '\1';
    say(joined);
    std::string v1 = "x", v2 = "--log_*", v3 = "V", v4 = "--log_folder", v5 = p.other_folder;
    char* av2[] = {&v1[0], &v2[0], &v3[0], &v4[0], &v5[0], nullptr};
    say(log::Logging::Instance().Initialise(5, av2).empty() ? "empty" : "not");
    vh::SetDelays(p.delays, 1 + p.delays % 20, p.delays / 64 % 60);
    std::mutex m;
    std::condition_variable cv;
    size_t ready = 0, done = 0;
    std::vector<std::string> ids(p.threads.size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.threads.size(); ++i)
      th.emplace_back([&, i] {
        ids[i] = Tid();
        { std::unique_lock<std::mutex> l(m); if (++ready == p.threads.size()) cv.notify_all(); cv.wait(l, [&] { return ready == p.threads.size(); }); }
        std::string tag = "TEST " + ids[i] + " ";
        for (auto& e : p.threads[i]) {
          if (e.test) {
            std::string whole = tag + e.text;
            switch (e.colour) {
              case 0: TLOG(kDefaultColour) << whole << '\n'; break;
              case 1: TLOG(kRed) << whole << '\n'; break;
              case 2: TLOG(kGreen) << tag << e.text << '\n'; break;
              case 3: TLOG(kYellow) << whole << '\n'; break;
              default: TLOG(kCyan) << whole << '\n';
            }
          } else if (e.macro) {
            LogWithMacro(e.level, e.text);
          } else if (e.nested) {
            log::detail::LogMessage(e.path.c_str(), e.level) = log::detail::OstreamBinder<void, void>() << ":" << e.line << "] " << Nested{&e.text, e.path.c_str(), e.level};
          } else {
            log::detail::LogMessage(e.path.c_str(), e.level) = log::detail::OstreamBinder<void, void>() << ":" << e.line << "] " << Counted{&e.text};
          }
          if (vh::HashStr(e.text) % 97 == 3) log::Logging::Instance().Flush();
        }
        { std::unique_lock<std::mutex> l(m); if (++done == p.threads.size()) cv.notify_all(); cv.wait(l, [&] { return done == p.threads.size(); }); }
      });
    for (auto& t : th) t.join();
    vh::SetDelays(p.delays, 0, 0);
    joined.clear();
    for (auto& t : ids) joined += t + "\n";
    say(joined);
    say(std::to_string(g_formatted.load()));
    if (p.hard_exit) { std::cout.flush(); if (p.help || p.folder.empty()) fflush(stdout); log::Logging::Instance().Flush(); _exit(0); }
    exit(0);
  }
  close(slave);
  close(report[1]);
  std::string rep;
  bool open_report = true, open_pty = p.pty;
  while (open_report || open_pty) {
    struct pollfd f[2] = {{open_report ? report[0] : -1, POLLIN, 0}, {open_pty ? master : -1, POLLIN, 0}};
    poll(f, 2, 2000);
    vh::Beat();
    char b[65536];
    if (f[0].revents) { ssize_t n = read(report[0], b, sizeof b); if (n > 0) rep.append(b, static_cast<size_t>(n)); else open_report = false; }
    if (f[1].revents) { ssize_t n = read(master, b, sizeof b); if (n > 0) console->append(b, static_cast<size_t>(n)); else open_pty = false; }
  }
  close(report[0]);
  if (master >= 0) close(master);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!p.pty) *console = Slurp(out);
  std::vector<std::string> parts;
  for (size_t at = 0; at + 4 <= rep.size();) { uint32_t n; memcpy(&n, &rep[at], 4); parts.push_back(rep.substr(at + 4, n)); at += 4 + n; }
  auto cut = [](const std::string& s, char d) { std::vector<std::string> v; for (size_t at = 0; at < s.size();) { size_t e = s.find(d, at); v.push_back(s.substr(at, e - at)); at = e + 1; } return v; };
  if (parts.size() == 4) {
    *unused = cut(parts[0], '\1');
    *again_empty = parts[1] == "empty";
    *tids = cut(parts[2], '\n');
    *formatted = std::stoull(parts[3]);
  }
  return st;
}
// the lines a sink must hold, for each thread in order
typedef std::map<std::string, std::vector<std::string>> Wanted;
std::string Key(const Message& m, bool colours, int mode) {
  std::string k;
  if (m.test) k = "T " + m.text; else k = std::string(1, kLetter[m.level + 1]) + " " + m.rest();
  if (colours) {
    if (m.test) k += " #" + std::to_string(m.colour == 4 ? 6 : m.colour);
    else k += " #" + (mode == 0 || !*kColourOf[m.level + 1] ? std::string("0") : std::string(kColourOf[m.level + 1]));
  }
  return k;
}
void Judge(const char* sink, const std::vector<Line>& got, const Wanted& want, bool colours, int64_t t0, int64_t t1) {
  Wanted have;
  std::map<std::string, int64_t> last;
  for (auto& l : got) {
    std::string k = (l.test ? "T " : std::string(1, l.level) + " ") + l.rest;
    if (colours) k += " #" + std::to_string(l.colour);
    have[l.tid].push_back(k);
    if (!l.test) VH_CHECK(l.ns >= t0 && l.ns <= t1, "time-of-message", sink << ": " << l.ns << " not in " << t0 << ".." << t1);
  }
  for (auto& w : want) {
    auto& h = have[w.first];
    if (h == w.second) continue;
    auto a = h, b = w.second;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    std::string d = std::string(sink) + ": " + std::to_string(h.size()) + " of " + std::to_string(w.second.size()) + " messages";
    for (size_t i = 0; i < std::max(h.size(), w.second.size()); ++i)
      if (i >= h.size() || i >= w.second.size() || h[i] != w.second[i]) { d += ", at " + std::to_string(i) + " got <" + (i < h.size() ? h[i].substr(0, 150) : "nothing") + "> want <" + (i < w.second.size() ? w.second[i].substr(0, 150) : "nothing") + ">"; break; }
    std::string s = strncmp(sink, "project", 7) ? sink : "project";
    VH_CHECK(false, (a == b ? "order-of-messages:" : h.size() < w.second.size() ? "messages-lost:" : h.size() > w.second.size() ? "messages-too-many:" : "messages-altered:") + s, d);
  }
  for (auto& h : have) VH_CHECK(want.count(h.first) || h.second.empty(), "unknown-thread", sink << ": " << h.first);
  vh::Evals(got.size());
}
}  // namespace

VH_GROUP(programs, 620, 16000) {
  auto& r = c.rng;
  std::string dir = vh::Scratch() + "/case";
  Remove(dir);
  mkdir(dir.c_str(), 0700);
  Plan p;
  p.delays = r.Next() >> 8;
  p.other_folder = dir + "/other";
  p.args.push_back(r.Coin() ? "program" : "/usr/bin/program");
  p.help = r.OneIn(25);
  p.early = r.Coin();
  p.pty = r.OneIn(3);
  std::string ini;
  auto option = [&](const std::string& name, const std::string& value) {  // one of the three ways
    if (r.OneIn(3)) { ini += name + (r.Coin() ? " = " : "=") + value + "\n"; return; }
    if (r.Coin()) { p.args.push_back("--" + name + "=" + value); } else { p.args.push_back("--" + name); p.args.push_back(value); }
  };
  auto stray = [&] {
    if (!r.OneIn(3)) return;
    switch (r.Below(3)) {
      case 0: p.args.push_back("stray" + std::to_string(r.Below(1000))); break;
      case 1: p.args.push_back("--other=" + std::to_string(r.Below(1000))); break;
      default: p.args.push_back("-x");
    }
    p.unused.push_back(p.args.back());
  };
  // the folder
  std::string folder;
  switch (r.Below(6)) {
    case 0: folder = ""; break;
    case 1: folder = dir + "/plain"; mkdir(folder.c_str(), 0700); break;
    case 2: folder = dir + "/a/b/c"; break;
    case 3: folder = dir + "/file"; fclose(fopen(folder.c_str(), "w")); break;
    case 4: folder = dir + "/maidsafe_logs"; break;  // the default
    default: folder = dir + "/logs";
  }
  p.folder = folder == dir + "/file" ? "" : folder;
  stray();
  if (folder.empty()) { p.args.push_back("--log_folder="); p.args.push_back("--log_colour_mode=1"); p.args.pop_back(); p.args.pop_back(); ini += "log_folder=\n"; }
  else if (folder != dir + "/maidsafe_logs") option("log_folder", folder);
  p.async = r.OneIn(3) ? false : true;
  if (!p.async) { if (r.OneIn(4)) ini += "log_no_async=true\n"; else p.args.push_back("--log_no_async"); }
  stray();
  p.console = !r.OneIn(4);
  if (!p.console) { if (r.OneIn(4)) ini += "log_no_console=true\n"; else p.args.push_back("--log_no_console"); }
  int mode = static_cast<int>(r.Below(4));
  p.colour = mode == 3 ? 1 : mode;
  if (mode != 3) option("log_colour_mode", std::to_string(mode));
  // the filter
  if (r.OneIn(4)) {
    int level = static_cast<int>(r.Range(-1, 4));
    option("log_*", LevelName(r, level));
    for (auto q : kProjects) p.filter[q] = level;
  } else {
    for (uint64_t n = r.OneIn(8) ? 0 : r.OneIn(3) ? 1 : 1 + r.Below(11); n--;) {
      std::string q = r.Pick(kProjects);
      if (p.filter.count(q)) continue;
      int level = static_cast<int>(r.Range(-1, 4));
      p.filter[q] = level;
      if (r.OneIn(10)) { p.args.push_back("--log_" + q + "=" + LevelName(r, level)); ini += "log_" + q + "=" + LevelName(r, static_cast<int>(r.Range(-1, 4))) + "\n"; }  // the command line wins
      else option("log_" + q, LevelName(r, level));
    }
  }
  stray();
  if (!ini.empty()) {
    std::string f = dir + (r.Coin() ? "/maidsafe_log.ini" : "/own.ini");  // the former is the default
    FILE* h = fopen(f.c_str(), "w");
    fputs(ini.c_str(), h);
    fclose(h);
    if (f == dir + "/own.ini") p.args.push_back("--log_config=" + f);
  }
  if (p.help) { p.args.push_back(r.Coin() ? "--help" : "-h"); p.unused.push_back("--help"); p.filter.clear(); p.folder = ""; p.async = false; }
  p.hard_exit = !p.async && r.Coin();
  // the messages
  size_t threads = 1 + r.Below(6), each = r.Below(r.OneIn(10) ? 200 : 40);
  uint64_t sig = p.filter.size() * 64 + p.async * 32 + p.console * 16 + p.pty * 8 + static_cast<unsigned>(p.colour);
  p.threads.resize(threads);
  uint64_t want_formatted = 0;
  static const char* unknown[] = {"commons", "Common", "vault_", "", "x"};
  for (auto& t : p.threads)
    for (size_t i = 0; i < each; ++i) {
      Message m;
      m.text = Text(r, r.OneIn(30) ? 6000 : 60);
      if (r.OneIn(6)) {
        m.test = true;
        m.colour = static_cast<int>(r.Below(5));
        t.push_back(m);
        continue;
      }
      m.level = static_cast<int>(r.Range(-1, 4));
      m.line = static_cast<int>(r.Below(5000));
      std::string file = r.Coin() ? "z.cc" : "sub/dir/other.h";
      bool back = r.OneIn(8);
      if (r.OneIn(12)) {
        m.macro = true;
        m.path = __FILE__;
        m.line = kMacroLine;
        m.project = "common";
        m.contract = m.path;
      } else if (r.OneIn(10)) {  // nothing to tell the project from
        m.path = r.Coin() ? "/some/where/" + file : file;
        m.contract = m.path;
        m.project = "common";
      } else {
        m.project = !p.filter.empty() && r.Coin() ? std::next(p.filter.begin(), static_cast<int>(r.Below(p.filter.size())))->first : r.OneIn(8) ? std::string(r.Pick(unknown)) : std::string(r.Pick(kProjects));
        std::string root = r.OneIn(3) ? "/home/maidsafe/MaidSafe/" : r.Coin() ? "/a/vault/src/maidsafe/nfs/" : "C:/x/";
        std::string inner = r.Coin() ? m.project : r.Pick(kProjects);
        m.path = root + (m.project.empty() ? "" : m.project) + "/" + (r.Coin() ? "src" : "include") + "/maidsafe/" + inner + "/" + file;
        m.contract = inner + "/" + file;
        if (m.project.empty()) m.project = "common";
      }
      if (back && !m.macro) for (auto& ch : m.path) if (ch == '/') ch = '\\';
      auto f = p.filter.find(m.project);
      m.passes = f != p.filter.end() && f->second <= m.level;
      if (m.passes) ++want_formatted;
      if (!m.macro && r.OneIn(25)) m.nested = true;
      t.push_back(m);
      sig = vh::HashStr(m.path + m.text, sig ^ static_cast<uint64_t>(m.level + 2));
    }
  vh::Observed(sig);
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  int64_t t0 = ts.tv_sec * 1000000000LL + ts.tv_nsec;
  std::string console;
  std::vector<std::string> tids, unused;
  uint64_t formatted = 0;
  bool again = false;
  int st = Run(p, dir, &console, &tids, &formatted, &unused, &again);
  clock_gettime(CLOCK_REALTIME, &ts);
  int64_t t1 = ts.tv_sec * 1000000000LL + ts.tv_nsec;
  std::string what;
  for (auto& a : p.args) what += a + " ";
  what += "| " + ini;
  bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0 && tids.size() == threads;
  VH_CHECK(fine, "logging-program-died", "status " << st << " " << what << console.substr(0, 300));
  if (!fine) return;
  VH_CHECK(again, "initialised-twice", what);
  VH_CHECK(List(p.other_folder).empty(), "second-initialisation-had-effect", what);
  VH_CHECK(formatted == want_formatted, formatted > want_formatted ? "disabled-message-evaluated" : "enabled-message-not-evaluated", formatted << " of " << want_formatted << " " << what);
  bool shape = !unused.empty() && unused.size() == p.unused.size() + 1;
  for (size_t i = 0; shape && i < unused.size(); ++i) {
    shape = !unused[i].empty() && unused[i].back() == '\0';
    if (i) shape = shape && unused[i].substr(0, unused[i].size() - 1) == p.unused[i - 1]; else shape = shape && unused[i][0] == '/';
  }
  std::string shown;
  for (auto& u : unused) shown += "[" + u + "]";
  VH_CHECK(shape, "unused-options", shown << " from " << what);
  vh::Add("unused_options", unused.size());
  // what every sink must hold
  std::map<std::string, Wanted> project;
  Wanted combined, plain, coloured;
  uint64_t passed = 0, dropped = 0;
  for (size_t i = 0; i < threads; ++i)
    for (auto& m : p.threads[i]) {
      auto put = [&](Wanted& w, const Message& e) { w[tids[i]].push_back(Key(e, &w == &coloured, p.colour)); };
      if (m.test) {
        put(plain, m);
        put(coloured, m);
        if (p.filter.size() == 1) put(project[p.filter.begin()->first], m); else put(combined, m);
        vh::Add("test_messages");
        continue;
      }
      if (!m.passes) { ++dropped; continue; }
      ++passed;
      std::vector<Message> all;
      if (m.nested) { all.push_back(m); all[0].line = 1; all[0].text = "inner " + m.text; vh::Add("nested"); }
      all.push_back(m);
      for (auto& e : all) {
        if (p.console) { put(plain, e); put(coloured, e); }
        put(combined, e);
        put(project[e.project], e);
      }
    }
  // the console
  std::vector<Line> lines;
  std::string bad;
  if (p.help) {
    VH_CHECK(console.find("Verbose(V)") != std::string::npos && console.find("log_folder") != std::string::npos, "help-not-shown", console.substr(0, 200));
    size_t at = console.find("Always(A)");
    at = at == std::string::npos ? 0 : console.find_first_not_of("\n", at + 9);
    console = at == std::string::npos ? "" : console.substr(at);
    vh::Add("help");
  }
  if (folder == dir + "/file" && !p.help) {
    size_t e = console.find('\n');
    VH_CHECK(console.find("is not a directory") < e, "bad-folder-not-reported", console.substr(0, 200));
    console = e == std::string::npos ? "" : console.substr(e + 1);
    vh::Add("bad_folders");
  }
  bool whole = p.pty ? SplitColoured(console, p.colour, &lines, &bad) : Split(console, &lines, &bad);
  VH_CHECK(whole, p.pty ? "mixed-on-terminal" : "mixed-on-console", "at: " << bad << " with " << what);
  if (whole) Judge(p.pty ? "terminal" : "console", lines, p.pty ? coloured : plain, p.pty, t0, t1);
  vh::Add(p.pty ? "terminals" : "consoles");
  // the files
  auto names = p.folder.empty() ? std::vector<std::string>() : List(p.folder);
  std::map<std::string, std::string> files;
  for (auto& n : names) {
    struct tm tm;
    memset(&tm, 0, sizeof tm);
    int y, mo, d, h, mi, s, used = 0;
    bool ok = sscanf(n.c_str(), "%4d-%2d-%2d_%2d-%2d-%2d_%n", &y, &mo, &d, &h, &mi, &s, &used) == 6 && used == 20 && n.size() > 24 && n.substr(n.size() - 4) == ".log";
    tm.tm_year = y - 1900; tm.tm_mon = mo - 1; tm.tm_mday = d; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = s;
    int64_t t = ok ? timegm(&tm) : 0;
    VH_CHECK(ok && t >= t0 / 1000000000 && t <= t1 / 1000000000, "file-name", n);
    if (ok) files[n.substr(20, n.size() - 24)] = p.folder + "/" + n;
  }
  std::set<std::string> want_files, have_files;
  if (!p.folder.empty()) { for (auto& f : p.filter) want_files.insert(f.first); if (p.filter.size() != 1) want_files.insert("combined"); }
  for (auto& f : files) have_files.insert(f.first);
  std::string fl;
  for (auto& f : have_files) fl += f + " ";
  VH_CHECK(want_files == have_files, "log-files", fl << "with " << what);
  for (auto& f : files) {
    if (!want_files.count(f.first)) continue;
    lines.clear();
    bool w = Split(Slurp(f.second), &lines, &bad);
    VH_CHECK(w, "mixed-in-file", f.first << " at: " << bad << " with " << what);
    Wanted none;
    if (w) Judge(f.first == "combined" ? "combined" : ("project " + f.first).c_str(), lines, f.first == "combined" ? combined : project.count(f.first) ? project[f.first] : none, false, t0, t1);
    vh::Add("files");
  }
  vh::Add("passed", passed);
  vh::Add("dropped", dropped);
  vh::Add(p.async ? "asynchronous" : p.hard_exit ? "killed_after" : "synchronous");
  vh::Sample(what + "threads " + std::to_string(threads) + " passed " + std::to_string(passed));
  Remove(dir);
}
