// C41: visualiser messages reach the server and the file, each once, whole and in order.
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
#include "maidsafe/common/encode.h"
#include "maidsafe/common/log.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace verif_c41 {
DEFINE_OSTREAMABLE_ENUM_VALUES(Persona, int32_t, (MaidNode)(DataGetter)(CacheHandler))
DEFINE_OSTREAMABLE_ENUM_VALUES(Action, uint64_t, (Put)(Get)(AccountTransfer)(IncrementReferenceCount)(Delete))
DEFINE_OSTREAMABLE_ENUM_VALUES(Small, uint8_t, (One)(Two))
const char* kPersonas[] = {"MaidNode", "DataGetter", "CacheHandler"};
}  // namespace verif_c41
namespace {
using verif_c41::Action;
using verif_c41::Persona;
using verif_c41::Small;
typedef std::map<std::string, std::string> Fields;
std::string HexOf(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char ch : s) { r += d[ch >> 4]; r += d[ch & 15]; } return r; }
std::string Short(const std::string& s) { if (s.size() != 64) return s; auto h = HexOf(s); return h.substr(0, 6) + ".." + h.substr(h.size() - 6); }
std::string Long(const std::string& s) { return s.size() == 64 ? HexOf(s) : s; }
std::string Slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
std::vector<std::string> List(const std::string& d) { std::vector<std::string> v; if (DIR* h = opendir(d.c_str())) { while (auto e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); } return v; }
void Remove(const std::string& p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) { for (auto& n : List(p)) Remove(p + "/" + n); rmdir(p.c_str()); } else { unlink(p.c_str()); }
}
// a flat JSON object of strings
bool Json(const std::string& s, Fields* out) {
  size_t i = 0;
  auto blank = [&] { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) ++i; };
  auto str = [&](std::string* o) {
    if (i >= s.size() || s[i] != '"') return false;
    for (++i; i < s.size(); ++i) {
      unsigned char ch = static_cast<unsigned char>(s[i]);
      if (ch == '"') { ++i; return true; }
      if (ch < 32) return false;
      if (ch != '\\') { *o += static_cast<char>(ch); continue; }
      if (++i >= s.size()) return false;
      switch (s[i]) {
        case '"': case '\\': case '/': *o += s[i]; break;
        case 'b': *o += '\b'; break;
        case 'f': *o += '\f'; break;
        case 'n': *o += '\n'; break;
        case 'r': *o += '\r'; break;
        case 't': *o += '\t'; break;
        case 'u': { if (i + 4 >= s.size()) return false; unsigned v = static_cast<unsigned>(strtoul(s.substr(i + 1, 4).c_str(), nullptr, 16)); i += 4; if (v > 127) return false; *o += static_cast<char>(v); break; }
        default: return false;
      }
    }
    return false;
  };
  blank();
  if (i >= s.size() || s[i++] != '{') return false;
  for (;;) {
    std::string k, v;
    blank();
    if (!str(&k)) return false;
    blank();
    if (i >= s.size() || s[i++] != ':') return false;
    blank();
    if (!str(&v) || !out->emplace(k, v).second) return false;
    blank();
    if (i >= s.size()) return false;
    if (s[i] == ',') { ++i; continue; }
    if (s[i++] != '}') return false;
    blank();
    return i == s.size();
  }
}
struct Event { int form = 0, persona = -1; uint64_t action = 0; std::string v1, v2; int64_t num = 0; bool small = false, stopped = false, bad = false; std::string vault, session; };
bool Stamp(const std::string& s, int64_t t0, int64_t t1) {
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  int y, mo, used = 0;
  if (s.size() < 21 || sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%n", &y, &mo, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &used) != 6 || used != 20) return false;
  if (s.find_first_not_of("0123456789", 20) != std::string::npos || s.size() > 29) return false;
  tm.tm_year = y - 1900;
  tm.tm_mon = mo - 1;
  int64_t t = timegm(&tm) * 1000000000LL + atoll(s.c_str() + 20);
  return t >= t0 && t <= t1;
}
std::string Text(vh::Rng& r, size_t max) {
  static const char* odd[] = {"\"", "\\", "\t", "\x01", "\xc3\xa9", ",", "{", "}", "'", "\xe2\x82\xac", "/", "%", "\x1f", "\x7f", ":", "null"};
  std::string s;
  for (size_t n = r.Below(max); n--;) if (r.OneIn(4)) s += r.Pick(odd); else s += static_cast<char>(32 + r.Below(95));
  return s;
}
void Make(const Event& e, std::string* failed) {
  using log::VisualiserLogMessage;
  Persona p = static_cast<Persona>(e.persona);
  Action a = static_cast<Action>(e.action);
  auto id = [](const std::string& s) { return s.empty() ? Identity() : Identity(s); };
  *failed = vh::OutcomeCode([&] {
    if (e.stopped) { VisualiserLogMessage::SendVaultStoppedMessage(e.vault, e.session, static_cast<int>(e.num)); return; }
    switch (e.form) {
      case 0: VisualiserLogMessage(p, a, id(e.v1)); break;
      case 1: VisualiserLogMessage(p, a, id(e.v1), id(e.v2)); break;
      case 2: VisualiserLogMessage(p, a, e.num); break;
      case 3: if (e.small) VisualiserLogMessage(static_cast<Small>(e.action), id(e.v1)); else VisualiserLogMessage(a, id(e.v1)); break;
      case 4: VisualiserLogMessage(a, id(e.v1), id(e.v2)); break;
      case 5: VisualiserLogMessage(a, id(e.v1), e.v2); break;
      case 6: if (e.small) VisualiserLogMessage(static_cast<Small>(e.action), e.num); else VisualiserLogMessage(a, static_cast<uint32_t>(e.num)); break;
      case 7: VisualiserLogMessage(a, e.v1); break;
      case 8: VisualiserLogMessage(a, e.v1.c_str()); break;
      default: VisualiserLogMessage(a, id(e.v1), e.v2.c_str());
    }
  });
}
const char* ActionName(const Event& e) {
  static const char* n[] = {"Put", "Get", "AccountTransfer", "IncrementReferenceCount", "Delete"};
  static const char* s[] = {"One", "Two"};
  return e.small ? s[e.action] : n[e.action];
}
std::string Value1(const Event& e) { return e.form == 2 || e.form == 6 ? (e.form == 6 && !e.small ? std::to_string(static_cast<uint32_t>(e.num)) : std::to_string(e.num)) : e.v1; }
Event RandomEvent(vh::Rng& r) {
  Event e;
  if (r.OneIn(12)) { e.stopped = true; e.vault = "v" + std::to_string(r.Next()); e.session = "s" + std::to_string(r.Below(100)); e.num = static_cast<int32_t>(r.Next()); return e; }
  e.form = static_cast<int>(r.Below(10));
  e.action = r.Below(5);
  if (e.form < 3) e.persona = static_cast<int>(r.Below(3));
  if ((e.form == 3 || e.form == 6) && r.Coin()) { e.small = true; e.action = r.Below(2); }
  e.num = r.OneIn(10) ? std::numeric_limits<int64_t>::min() : r.OneIn(10) ? static_cast<int64_t>(r.Below(3)) : static_cast<int64_t>(r.Next());
  e.v1 = r.Bytes(64);
  if (e.form == 1 || e.form == 4) e.v2 = r.OneIn(3) ? "" : r.Bytes(64);
  if (e.form == 5 || e.form == 9) { e.v2 = r.OneIn(4) ? "" : Text(r, 100); if (r.OneIn(6)) { e.v2 = std::string(63 + r.Below(3), 'x'); e.v2[r.Below(60)] = 'y'; } }
  if (e.form == 7 || e.form == 8) { e.v1 = Text(r, r.OneIn(20) ? 3000 : 100); if (r.OneIn(6)) { e.v1 = std::string(63 + r.Below(3), 'x'); e.v1[r.Below(60)] = 'z'; } }
  if (r.OneIn(25)) {
    e.bad = true;
    if (r.Coin() && e.form < 7 && e.form != 2 && e.form != 6) { e.v1.clear(); }
    else if (e.persona >= 0 && r.Coin()) e.persona = r.Coin() ? -1 - static_cast<int>(r.Below(5)) : 3 + static_cast<int>(r.Below(9));
    else { e.action = e.small ? 2 + r.Below(250) : 5 + r.Below(r.Coin() ? 3 : ~0ull - 10); }
  }
  return e;
}
std::string Join(const Fields& f) { std::string s; for (auto& k : f) if (k.first != "ts") s += k.first + "=" + k.second + "\1"; return s; }
void Order(const char* what, const std::vector<std::string>& got, const std::vector<std::vector<std::string>>& want, bool may_lose) {
  std::map<std::string, int64_t> count;
  std::map<std::string, std::pair<size_t, size_t>> place;
  std::set<std::string> repeated;
  size_t total = 0;
  for (size_t t = 0; t < want.size(); ++t)
    for (size_t i = 0; i < want[t].size(); ++i) {
      ++total;
      if (++count[want[t][i]] > 1) repeated.insert(want[t][i]);
      place[want[t][i]] = {t, i};
    }
  std::vector<int64_t> last(want.size(), -1);
  for (auto& g : got) {
    auto c = count.find(g);
    std::string shown = g.substr(0, 400);
    for (auto& ch : shown) if (ch == '\1') ch = ' ';
    if (c == count.end()) { VH_CHECK(false, std::string("altered-or-unknown:") + what, shown); continue; }
    if (--c->second < 0) { VH_CHECK(false, std::string("more-than-once:") + what, shown); continue; }
    if (repeated.count(g)) continue;
    auto p = place[g];
    VH_CHECK(static_cast<int64_t>(p.second) > last[p.first], std::string("out-of-order:") + what, shown);
    last[p.first] = static_cast<int64_t>(p.second);
  }
  if (!may_lose) VH_CHECK(got.size() == total, std::string("lost:") + what, got.size() << " of " << total);
  vh::Evals(got.size());
}
}  // namespace

VH_GROUP(sessions, 380, 10000) {
  auto& r = c.rng;
  std::string dir = vh::Scratch() + "/case";
  Remove(dir);
  mkdir(dir.c_str(), 0700);
  mkdir((dir + "/cwd").c_str(), 0700);
  enum { kGood, kErrors, kPieces, kCloses, kAbsent, kGarbage };
  int server = r.OneIn(2) ? kGood : static_cast<int>(r.Below(6));
  bool async = !r.OneIn(3), silent = r.OneIn(8), racing = r.OneIn(3), no_folder = r.OneIn(8);
  std::string prefix = Text(r, 30), session = silent ? "" : "S" + Text(r, 40), path = "/p" + std::to_string(r.Below(1000));
  size_t threads = 1 + r.Below(5), each = r.Below(30);
  std::vector<std::vector<Event>> plan(threads);
  uint64_t sig = 1;
  for (auto& t : plan) for (size_t i = 0; i < each; ++i) { t.push_back(RandomEvent(r)); sig = vh::HashStr(t.back().v1 + t.back().v2, sig); }
  vh::Observed(sig);
  uint64_t delays = r.Next() >> 8;
  int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t al = sizeof a;
  if (ls < 0 || bind(ls, reinterpret_cast<sockaddr*>(&a), sizeof a) || (server != kAbsent && listen(ls, 64)) || getsockname(ls, reinterpret_cast<sockaddr*>(&a), &al)) vh::HarnessError("listen");
  uint16_t port = ntohs(a.sin_port);
  int report[2];
  if (pipe(report)) vh::HarnessError("pipe");
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  int64_t t0 = ts.tv_sec * 1000000000LL + ts.tv_nsec;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(ls);
    close(report[0]);
    dup2(2, 1);
    if (chdir((dir + "/cwd").c_str())) _exit(70);
    std::atomic<int> failures{0};
    auto fail = [&](const std::string& s) { std::string l = s + "\n"; if (write(report[1], l.data(), l.size()) < 0) _exit(71); ++failures; };
    std::string folder = "--log_folder=" + (no_folder ? std::string() : dir + "/logs"), no = "--log_no_async", quiet = "--log_no_console", prog = "program", cfg = "--log_config=" + dir + "/none";
    std::vector<char*> av{&prog[0], &quiet[0], &cfg[0]};
    std::string ini = dir + "/cwd.ini", cfg2 = "--log_config=" + ini;
    if (no_folder) { FILE* f = fopen(ini.c_str(), "w"); fputs("log_folder=\n", f); fclose(f); av[2] = &cfg2[0]; } else { av.push_back(&folder[0]); }
    if (!async) av.push_back(&no[0]);
    int ac = static_cast<int>(av.size());
    av.push_back(nullptr);
    std::string f;
    Event probe;
    probe.form = 7;
    probe.v1 = "before";
    if (r.Coin()) { Make(probe, &f); if (f != vh::Code(CommonErrors::unable_to_handle_request)) fail("K before-initialisation " + f); }
    log::Logging::Instance().Initialise(ac, &av[0]);
    Make(probe, &f);
    if (f != vh::Code(CommonErrors::unable_to_handle_request)) fail("K before-initialisation " + f);
    vh::SetDelays(delays, 1 + delays % 20, delays / 64 % 60);
    auto init = [&] { return vh::OutcomeCode([&] { log::Logging::Instance().InitialiseVlog(prefix, session, "127.0.0.1", port, path); }); };
    if (!racing) { f = init(); if (!f.empty()) fail("K initialisation " + f); }
    std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        for (auto& e : plan[t]) {
          std::string q;
          std::string allowed = e.v1.empty() && e.form < 7 && e.form != 2 && e.form != 6 ? vh::Code(CommonErrors::uninitialised) : vh::Code(CommonErrors::invalid_argument);
          for (int tries = 0; tries < 20000; ++tries) {
            // a vault's end is reported once the session has been initialised
            if (racing && e.stopped && !vh::Outcome([] { log::Logging::Instance().VlogPrefix(); }).empty()) { std::this_thread::sleep_for(std::chrono::microseconds(300)); continue; }
            Make(e, &q);
            if (!(racing && q == vh::Code(CommonErrors::unable_to_handle_request))) break;
            std::this_thread::sleep_for(std::chrono::microseconds(300));
          }
          if (e.bad ? q != allowed : !q.empty()) fail(std::string(e.bad ? "K invalid-accepted " : "K message-refused ") + q + " form " + std::to_string(e.form));
        }
      });
    std::atomic<int> ok{0};
    if (racing)
      for (int i = 0; i < 2; ++i) th.emplace_back([&] { auto q = init(); if (q.empty()) ++ok; else if (q != vh::Code(CommonErrors::already_initialised)) fail("K initialisation " + q); });
    for (auto& t : th) t.join();
    if (racing && !ok) fail("K initialisation nobody");
    if (!async && !no_folder) {  // what was logged is in the file already
      size_t size = 0;
      for (auto& n : List(dir + "/logs")) if (n.size() > 15 && n.substr(n.size() - 15) == "_visualiser.log") size += Slurp(dir + "/logs/" + n).size();
      std::string l = "W " + std::to_string(size) + "\n";
      if (write(report[1], l.data(), l.size()) < 0) _exit(71);
    }
    vh::SetDelays(delays, 0, 0);
    f = init();
    if (f != vh::Code(CommonErrors::already_initialised)) fail("K second-initialisation " + f);
    if (vh::Outcome([&] { if (log::Logging::Instance().VlogPrefix() != prefix || log::Logging::Instance().VlogSessionId() != session) fail("K names"); }) != "") fail("K names-refused");
    if (write(report[1], "END\n", 4) != 4) _exit(72);
    exit(0);
  }
  close(report[1]);
  // the server
  struct Con { int fd; std::string in; uint64_t served = 0; bool cut = false; };
  std::vector<Con> cons;
  std::vector<std::string> bodies;
  std::string rep, garbled;
  bool open_report = true, hung = false;
  auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(100);
  vh::Rng sr(delays);
  int st = 0;
  bool ended = false;
  uint64_t requests = 0;
  for (;;) {
    std::vector<pollfd> f{{ls, POLLIN, 0}, {open_report ? report[0] : -1, POLLIN, 0}};
    if (server == kAbsent) f[0].fd = -1;
    for (auto& k : cons) f.push_back({k.fd, POLLIN, 0});
    int n = poll(f.data(), f.size(), 20);
    vh::Beat();
    if (f[1].revents) { char b[4096]; ssize_t k = read(report[0], b, sizeof b); if (k > 0) rep.append(b, static_cast<size_t>(k)); else open_report = false; }
    for (size_t i = 0; i < cons.size(); ++i) {
      if (!f[i + 2].revents) continue;
      char b[65536];
      ssize_t k = read(cons[i].fd, b, sizeof b);
      int now = 1;
      setsockopt(cons[i].fd, IPPROTO_TCP, TCP_QUICKACK, &now, sizeof now);  // or every request takes 40 ms
      if (k <= 0) { if (k == 0 && !cons[i].cut && cons[i].in.find_first_not_of("\r\n") != std::string::npos) garbled = "cut off (" + std::to_string(cons[i].served) + " served): " + cons[i].in; close(cons[i].fd); cons[i].fd = -1; continue; }
      cons[i].in.append(b, static_cast<size_t>(k));
      for (;;) {
        auto& in = cons[i].in;
        size_t skip = in.find_first_not_of("\r\n");
        in.erase(0, skip == std::string::npos ? in.size() : skip);
        size_t e = in.find("\r\n\r\n");
        if (e == std::string::npos) break;
        std::string head = in.substr(0, e);
        size_t cl = head.find("Content-Length: ");
        size_t len = cl == std::string::npos ? 0 : strtoul(head.c_str() + cl + 16, nullptr, 10);
        if (in.size() < e + 4 + len) break;
        std::string want_head = "POST " + path + " HTTP/1.1\r\nHost: 127.0.0.1:" + std::to_string(port) + "\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(len);
        if (head != want_head) garbled = head;
        bodies.push_back(in.substr(e + 4, len));
        in.erase(0, e + 4 + len);
        ++requests;
        std::string reply = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
        if (server == kErrors) reply = sr.Coin() ? "HTTP/1.1 500 Internal Server Error\r\nContent-Length: 0\r\n\r\n" : "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n";
        if (server == kGarbage) reply = "what is this supposed to be\r\n\r\n";
        size_t at = 0;
        while (at < reply.size()) {
          size_t m = server == kPieces ? 1 + sr.Below(12) : reply.size();
          m = std::min(m, reply.size() - at);
          if (send(cons[i].fd, reply.data() + at, m, MSG_NOSIGNAL) <= 0) break;
          at += m;
          if (server == kPieces) std::this_thread::sleep_for(std::chrono::microseconds(sr.Below(300)));
        }
        ++cons[i].served;
        if (server == kCloses && sr.OneIn(4)) { shutdown(cons[i].fd, SHUT_RDWR); cons[i].cut = true; break; }  // the next request may arrive in part
      }
    }
    cons.erase(std::remove_if(cons.begin(), cons.end(), [](const Con& k) { return k.fd < 0; }), cons.end());
    if (f[0].revents) { int k = accept(ls, nullptr, nullptr); if (k >= 0) { int fl = 1; setsockopt(k, SOL_SOCKET, SO_KEEPALIVE, &fl, sizeof fl); cons.push_back({k, "", 0}); } }
    if (!ended && waitpid(pid, &st, WNOHANG) == pid) ended = true;
    if (ended && n <= 0) break;
    if (std::chrono::steady_clock::now() > deadline) { hung = true; if (!ended) { kill(pid, SIGKILL); waitpid(pid, &st, 0); } break; }
  }
  for (auto& k : cons) close(k.fd);
  close(ls);
  close(report[0]);
  clock_gettime(CLOCK_REALTIME, &ts);
  int64_t t1 = ts.tv_sec * 1000000000LL + ts.tv_nsec;
  VH_CHECK(!hung, "never-ended", "server " << server);
  if (hung) return;
  std::istringstream lines(rep);
  std::string l;
  bool end = false;
  size_t already = std::string::npos;
  while (std::getline(lines, l)) {
    if (l == "END") { end = true; continue; }
    if (l.substr(0, 2) == "W ") { already = strtoull(l.c_str() + 2, nullptr, 10); continue; }
    std::string k = l.substr(2, l.find(' ', 2) - 2);
    VH_CHECK(false, k, l);
  }
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && end, "program-died", "status " << st << " server " << server);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && end)) return;
  // what must have arrived
  std::vector<std::vector<std::string>> posts(threads), entries(threads);
  for (size_t t = 0; t < threads; ++t)
    for (auto& e : plan[t]) {
      if (e.stopped) { posts[t].push_back("vaultId=" + e.vault + "&sessionId=" + e.session + "&actionId=18&valueOne=" + std::to_string(e.num)); continue; }
      if (e.bad) { vh::Add("invalid"); continue; }
      if (silent) { vh::Add("silent"); continue; }
      Fields f{{"vaultId", prefix}, {"sessionId", session}, {"valueOne", Long(Value1(e))}, {"actionId", std::to_string(e.action)}};
      if (!e.v2.empty()) f["valueTwo"] = Long(e.v2);
      if (e.persona >= 0) f["personaId"] = std::to_string(e.persona);
      posts[t].push_back(Join(f));
      entries[t].push_back("," + prefix + "," + session + "," + (e.persona >= 0 ? verif_c41::kPersonas[e.persona] + std::string(",") : "") + ActionName(e) + "," + Short(Value1(e)) + (e.v2.empty() ? "" : "," + Short(e.v2)));
    }
  std::vector<std::string> got;
  for (auto& b : bodies) {
    if (b.compare(0, 3, "ts=") == 0) {
      size_t e = b.find('&');
      std::string stamp = b.substr(3, e == std::string::npos ? std::string::npos : e - 3), plain;
      for (size_t i = 0; i < stamp.size(); ++i) {
        if (stamp[i] == '+') { plain += ' '; }
        else if (stamp[i] == '%' && i + 2 < stamp.size()) { plain += static_cast<char>(strtoul(stamp.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        else { plain += stamp[i]; }
      }
      VH_CHECK(stamp.find_first_of(" :") == std::string::npos && Stamp(plain, t0, t1), "time:stopped", b);
      got.push_back(e == std::string::npos ? b : b.substr(e + 1));
      vh::Add("stopped");
      continue;
    }
    Fields f;
    bool ok = Json(b, &f);
    VH_CHECK(ok, "not-json", b.substr(0, 300));
    if (!ok) continue;
    VH_CHECK(Stamp(f["ts"], t0, t1), "time:post", f["ts"]);
    got.push_back(Join(f));
  }
  VH_CHECK(garbled.empty(), "request-shape", "server " << server << " " << garbled.substr(0, 300));
  bool may_lose = server == kCloses;
  if (server != kAbsent) Order("server", got, posts, may_lose);
  vh::Add(server == kCloses ? "posted_unreliably" : "posted", got.size());
  // the file
  auto names = List(dir + "/logs");
  std::string file;
  for (auto& n : names) if (n.size() > 15 && n.substr(n.size() - 15) == "_visualiser.log") file = dir + "/logs/" + n;
  VH_CHECK(List(dir + "/cwd").empty(), "file-elsewhere", List(dir + "/cwd").front() << (no_folder ? " though no files were asked for" : ""));
  if (no_folder) { VH_CHECK(names.empty(), "unexpected-file", names.front()); vh::Add("no_folder"); }
  else {
    VH_CHECK(!file.empty(), "no-file", names.size());
    std::string text = Slurp(file);
    if (already != std::string::npos) { VH_CHECK(already == text.size(), "written-late", already << " of " << text.size()); vh::Add("written_at_once"); }
    got.clear();
    for (size_t at = 0; at < text.size();) {
      size_t e = text.find('\n', at);
      VH_CHECK(e != std::string::npos, "unfinished-line", text.substr(at, 200));
      if (e == std::string::npos) break;
      std::string x = text.substr(at, e - at);
      at = e + 1;
      size_t k = x.find(',');
      VH_CHECK(k != std::string::npos && Stamp(x.substr(0, k), t0, t1), "time:file", x.substr(0, 200));
      if (k != std::string::npos) got.push_back(x.substr(k));
    }
    Order("file", got, entries, false);
    vh::Add("entries", got.size());
  }
  vh::Add(racing ? "racing" : "prepared");
  static const char* kinds[] = {"good_server", "error_server", "slow_server", "closing_server", "no_server", "garbage_server"};
  vh::Add(kinds[server]);
  Remove(dir);
}
