#include "maidsafe/common/profiler.h"
#include <iostream>
#include "vh.h"
using namespace maidsafe::profile;
namespace {
typedef std::chrono::high_resolution_clock::duration Dur;
struct Want { uint64_t n = 0; int64_t total = 0; };
struct Rep { uint64_t n; int64_t avg, total; std::string name; };
std::string Slurp(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
// "       1.000000002 s" -> nanoseconds
bool ParseDur(std::string s, int64_t* out) {
  size_t a = s.find_first_not_of(' ');
  if (a == std::string::npos || s.size() < 3 || s.substr(s.size() - 2) != " s") return false;
  s = s.substr(a, s.size() - 2 - a);
  size_t dot = s.find('.');
  if (dot == std::string::npos || s.size() - dot - 1 != 9 || s.find_first_not_of("0123456789.") != std::string::npos) return false;
  __int128 v = 0; for (char ch : s) if (ch != '.') v = v * 10 + (ch - '0');
  *out = (int64_t)v; return v <= std::numeric_limits<int64_t>::max();
}
const char* kTitles[4] = {"Sorted by name", "Sorted by call count", "Sorted by average duration", "Sorted by total duration"};
bool ParseReport(const std::string& text, std::vector<std::vector<Rep>>* out, std::string* err) {
  std::istringstream in(text); std::string line; int sec = -1;
  std::vector<std::string> lines; while (std::getline(in, line)) lines.push_back(line);
  out->assign(4, {});
  for (size_t i = 0; i < lines.size(); ++i) {
    bool title = false;
    for (int k = 0; k < 4; ++k) if (lines[i] == kTitles[k]) { if (k != sec + 1) { *err = "section order"; return false; } sec = k; title = true; if (i + 1 >= lines.size() || lines[i + 1] != std::string(lines[i].size(), '=')) { *err = "underline"; return false; } ++i; break; }
    if (title || lines[i].empty() || sec < 0) continue;
    Rep r; r.name = lines[i];
    std::string a = "  Called:                   ", b = "  Average duration:  ", d = "  Total duration:    ";
    if (i + 3 >= lines.size() || lines[i + 1].compare(0, a.size(), a) || lines[i + 2].compare(0, b.size(), b) || lines[i + 3].compare(0, d.size(), d)) { *err = "entry shape at: " + lines[i]; return false; }
    std::string called = lines[i + 1].substr(a.size()); size_t sp = called.find(" times"); if (sp == std::string::npos || sp + 6 != called.size()) { *err = "count: " + lines[i + 1]; return false; }
    r.n = std::stoull(called);
    if (!ParseDur(lines[i + 2].substr(b.size()), &r.avg) || !ParseDur(lines[i + 3].substr(d.size()), &r.total)) { *err = "duration: " + lines[i + 2] + lines[i + 3]; return false; }
    (*out)[sec].push_back(r); i += 3;
  }
  if (sec != 3) { *err = "only " + std::to_string(sec + 1) + " sections"; return false; }
  return true;
}
std::string Expected(std::string file, int line, const std::string& fn) {
  for (auto& ch : file) if (ch == '\\') ch = '/';
  size_t p = file.rfind("maidsafe"); if (p != std::string::npos && p) file = file.substr(p + 9);
  return file + ":" + std::to_string(line) + "] " + fn;
}
// Runs work() in a child, which then leaves through exit() so that the report is printed.
template <typename F> int InChild(const std::string& out, F work) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd);
    work();
    exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
void Judge(const std::string& text, const std::map<std::string, Want>& want, const char* k, bool exact) {
  std::vector<std::vector<Rep>> secs; std::string err;
  bool ok = ParseReport(text, &secs, &err);
  VH_CHECK(ok, std::string("report-shape:") + k, err << "\n" << text.substr(0, 800));
  if (!ok) return;
  for (int s = 0; s < 4; ++s) {
    std::map<std::string, int> seen;
    for (auto& r : secs[s]) {
      ++seen[r.name];
      auto it = want.find(r.name);
      if (it == want.end()) { VH_CHECK(false, std::string("unknown-location:") + k, r.name); continue; }
      VH_CHECK(r.n == it->second.n, std::string("call-count:") + k, kTitles[s] << ": " << r.name << " reported " << r.n << " want " << it->second.n);
      if (exact) VH_CHECK(r.total == it->second.total, std::string("total-duration:") + k, kTitles[s] << ": " << r.name << " reported " << r.total << " want " << it->second.total);
      else VH_CHECK(r.total >= it->second.total, std::string("total-duration:") + k, r.name << " reported " << r.total << " at least " << it->second.total);
      VH_CHECK(r.n == 0 || r.avg == r.total / (int64_t)r.n, std::string("average:") + k, r.name << " " << r.avg << " of " << r.total << "/" << r.n);
    }
    bool once = seen.size() == want.size(); for (auto& kv : seen) once = once && kv.second == 1;
    VH_CHECK(once, std::string("locations-not-once:") + k, kTitles[s] << ": " << seen.size() << " of " << want.size());
    bool sorted = true;
    for (size_t i = 1; i < secs[s].size(); ++i) {
      auto &a = secs[s][i - 1], &b = secs[s][i];
      if (s == 0) sorted = sorted && a.name < b.name;
      if (s == 1) sorted = sorted && a.n >= b.n;
      if (s == 2) sorted = sorted && a.avg >= b.avg;
      if (s == 3) sorted = sorted && a.total >= b.total;
    }
    VH_CHECK(sorted, std::string("not-sorted:") + k, kTitles[s]);
  }
  vh::Add("reports"); vh::Add("locations", want.size());
}
int64_t RandDur(vh::Rng& r, bool huge) {
  switch (r.Below(huge ? 6 : 5)) {
    case 0: return r.Below(3);
    case 1: return r.Below(1000000000);
    case 2: return 1000000000LL * r.Below(100) + (r.Coin() ? 999999999 : r.Below(1000));
    case 3: return r.Below(1000) * 1000000;
    case 4: return r.Below(100000000000000LL);
    default: return 1000000000LL * (99999990 + r.Below(900000000));
  }
}
}  // namespace
// exact accounting through the entry point the scopes use
VH_GROUP(entries, 260, 8000) {
  auto& r = c.rng;
  int locs = r.OneIn(12) ? 0 : 1 + r.Below(r.OneIn(4) ? 60 : 8), threads = 1 + r.Below(5), each = r.Below(60);
  bool huge = r.OneIn(5);
  struct L { std::string file; int line; std::string fn; };
  std::vector<L> loc;
  std::set<std::string> names;
  const char* files[] = {"/home/x/maidsafe/common/a.cc", "C:\\src\\maidsafe\\common\\b.cc", "plain.cc", "/a/maidsafe_x/maidsafe/z.cc", "maidsafe/first.cc", "/other/dir/y.cc"};
  const char* fns[] = {"void f()", "int maidsafe::g(int, char)", "operator()", "T<a,b>::h() const"};
  while ((int)loc.size() < locs) {
    L l{r.Pick(files), (int)r.Below(2000), r.Pick(fns)};
    if (r.OneIn(4)) l.line = r.OneIn(3) ? (int)r.Below(2147483648u) : (int)((1u << r.Below(31)) + r.Below(3));
    if (!loc.empty() && r.OneIn(2)) {  // differs from another one in a single respect
      l = loc[r.Below(loc.size())]; int64_t steps[] = {1, 10, 100, 128, 256, 1000, 4096, 10000, 32768, 65536, 100000, 1000000, 1 << 24, 1000000000};
      switch (r.Below(6)) {
        case 0: l.fn += r.Coin() ? " " : "x"; break;
        case 1: l.fn = r.OneIn(4) ? std::string(50 + r.Below(300), 'n') + l.fn : l.fn.substr(0, l.fn.size() - 1); break;
        case 2: l.file = (r.Coin() ? "/q" : "/long/" + std::string(r.Below(300), 'd') + "/") + l.file; break;
        case 3: l.file += r.Coin() ? "c" : "/w.h"; break;
        default: { int64_t v = l.line + (r.Coin() ? 1 : -1) * r.Pick(steps); if (v >= 0 && v <= 2147483647) l.line = (int)v; }
      }
    } if (names.insert(Expected(l.file, l.line, l.fn)).second) loc.push_back(l); }
  std::map<std::string, Want> want;
  std::vector<std::vector<std::pair<int, int64_t>>> plan(threads);
  uint64_t sig = locs;
  if (locs) for (auto& p : plan) for (int i = 0; i < each; ++i) {
    int l = r.OneIn(2) ? 0 : r.Below(locs); int64_t d = RandDur(r, huge);
    auto& w = want[Expected(loc[l].file, loc[l].line, loc[l].fn)];
    if (w.total > std::numeric_limits<int64_t>::max() - d) continue;
    p.push_back({l, d}); ++w.n; w.total += d; sig = vh::Mix(sig ^ (d + l));
  }
  std::string out = vh::Scratch() + "/report";
  uint64_t dseed = r.Next();
  int st = InChild(out, [&] {
    vh::SetDelays(dseed, 1 + dseed % 20, dseed / 64 % 60);
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t] { for (auto& e : plan[t]) { auto& l = loc[e.first]; Profiler::Instance().AddEntry(ProfileEntry::Location(l.file, l.line, l.fn), std::chrono::duration_cast<Dur>(std::chrono::nanoseconds(e.second))); } });
    for (auto& t : th) t.join();
    if (want.empty()) Profiler::Instance();
  });
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "profiled-program-died", "status " << st << " huge " << huge << " " << Slurp(out).substr(0, 300));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) Judge(Slurp(out), want, "entries", true);
  if (want.size() > 1) vh::Observed(sig);
  vh::Sample(std::to_string(threads) + " threads, " + std::to_string(want.size()) + " locations");
}
// real scopes, left normally, by return and by exception, nested and recursive
namespace {
std::atomic<int> g_calls[4];
__attribute__((noinline)) void Rec(int n) { SCOPED_PROFILE ++g_calls[0]; if (n > 0) Rec(n - 1); }
__attribute__((noinline)) int Ret(int n) { SCOPED_PROFILE ++g_calls[1]; if (n % 2) return 1;
  { SCOPED_PROFILE ++g_calls[3]; } return 2; }
__attribute__((noinline)) void Thr() { SCOPED_PROFILE ++g_calls[2]; usleep(50); throw 1; }
}  // namespace
VH_GROUP(scopes, 60, 2000) {
  auto& r = c.rng;
  int threads = 1 + r.Below(4), n = 1 + r.Below(20);
  std::string out = vh::Scratch() + "/report", counts = vh::Scratch() + "/counts";
  int st = InChild(out, [&] {
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&] { for (int i = 0; i < n; ++i) { Rec(i % 5); Ret(i); try { Thr(); } catch (int) {} } });
    for (auto& t : th) t.join();
    FILE* f = fopen(counts.c_str(), "w"); for (auto& x : g_calls) fprintf(f, "%d ", x.load()); fclose(f);
  });
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "profiled-program-died", "status " << st);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return;
  int k[4] = {0, 0, 0, 0}; sscanf(Slurp(counts).c_str(), "%d %d %d %d", k, k + 1, k + 2, k + 3);
  std::vector<std::vector<Rep>> secs; std::string err, text = Slurp(out);
  bool ok = ParseReport(text, &secs, &err); VH_CHECK(ok, "report-shape:scopes", err); if (!ok) return;
  for (int s = 0; s < 4; ++s) {
    std::multiset<uint64_t> got, want; for (auto& e : secs[s]) got.insert(e.n); for (int x : k) if (x) want.insert(x);
    VH_CHECK(got == want, "call-count:scopes", kTitles[s]);
    for (auto& e : secs[s]) if (e.name.find("Thr") != std::string::npos) VH_CHECK(e.total >= 50000 * (int64_t)e.n && e.total < 3600000000000LL, "total-duration:scopes", e.total);
  }
  vh::Add("scope_reports"); vh::Observed(vh::Mix(threads * 100 + n));
}
