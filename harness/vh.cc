#include "vh.h"
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

namespace vh {
namespace {
struct Shared {  // lives in a file the driver maps
  volatile uint64_t magic, group, index, beat, done, violations;
};
Shared g_dummy;
Shared* g_state = &g_dummy;
std::mutex& M() { static std::mutex* m = new std::mutex; return *m; }
struct Store {
  std::unordered_set<uint64_t> seen;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, unsigned> violations;
};
Store& D() { static Store* s = new Store; return *s; }
std::atomic<uint64_t> g_evals(0), g_cases(0);
FILE* g_events = nullptr;
std::string g_scratch;
bool g_replay = false;
std::string g_group;
std::atomic<uint64_t> g_index(0);
std::map<std::string, unsigned> g_samples_per_group;
uint64_t g_violations = 0;

std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '\\') r += "\\\\";
    else if (ch == '"') r += "\\\"";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += static_cast<char>(ch);
  }
  return r;
}
void Event(const std::string& line) {
  if (g_events) { fputs(line.c_str(), g_events); fputc('\n', g_events); fflush(g_events); }
}
}  // namespace

std::vector<Group>& Groups() { static std::vector<Group>* g = new std::vector<Group>; return *g; }

void Violation(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> l(M());
  ++g_violations;
  g_state->violations = g_violations;
  unsigned& n = D().violations[key];
  if (++n > 3) return;
  std::string d = detail.size() > 4000 ? detail.substr(0, 4000) : detail;
  Event("{\"t\":\"violation\",\"key\":\"" + Esc(key) + "\",\"group\":\"" + g_group + "\",\"case\":" +
        std::to_string(g_index.load()) + ",\"detail\":\"" + Esc(d) + "\"}");
  if (g_replay) fprintf(stderr, "VH-VIOLATION key=%s %s\n", key.c_str(), d.c_str());
}
void Observed(uint64_t h) {
  std::lock_guard<std::mutex> l(M());
  if (D().seen.size() < 400000) D().seen.insert(h);
}
void Evals(uint64_t n) { g_evals.fetch_add(n, std::memory_order_relaxed); }
void Add(const char* counter, uint64_t n) {
  std::lock_guard<std::mutex> l(M());
  D().counters[counter] += n;
}
void Sample(const std::string& text) {
  std::lock_guard<std::mutex> l(M());
  if (g_samples_per_group[g_group]++ >= 2) return;
  D().samples.push_back(g_group + "#" + std::to_string(g_index.load()) + ": " + text.substr(0, 400));
}
void HarnessError(const std::string& text) {
  Event("{\"t\":\"harness_error\",\"detail\":\"" + Esc(text) + "\"}");
  fprintf(stderr, "VH-HARNESS-ERROR %s\n", text.c_str());
  _exit(77);
}
const std::string& Scratch() { return g_scratch; }
bool Replaying() { return g_replay; }
void Beat() { g_state->beat = g_state->beat + 1; }

namespace {
void Summary() {
  std::lock_guard<std::mutex> l(M());
  std::string s = "{\"t\":\"summary\",\"cases\":" + std::to_string(g_cases.load()) + ",\"evals\":" +
                  std::to_string(g_evals.load()) + ",\"counters\":{";
  bool first = true;
  for (auto& kv : D().counters) {
    s += std::string(first ? "" : ",") + "\"" + Esc(kv.first) + "\":" + std::to_string(kv.second);
    first = false;
  }
  s += "},\"samples\":[";
  first = true;
  for (auto& x : D().samples) { s += std::string(first ? "" : ",") + "\"" + Esc(x) + "\""; first = false; }
  s += "]}";
  Event(s);
}
void RunCase(const Group& g, size_t gi, uint64_t index, uint64_t total, uint64_t seed, bool thorough) {
  { std::lock_guard<std::mutex> l(M()); g_group = g.name; }
  g_index = index;
  g_state->group = gi;
  g_state->index = index;
  g_state->beat = g_state->beat + 1;
  Case c{g.name, index, total, thorough, seed, Rng(Mix(seed * 1000003 + index) ^ HashStr(g.name))};
  ++g_cases;
  std::string thrown;
  try {
    g.fn(c);
    return;
  } catch (const std::exception& e) {
    int st = 0;
    char* dm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    thrown = std::string(dm ? dm : typeid(e).name()) + ": " + e.what();
    free(dm);
  } catch (...) {
    thrown = "unknown exception";
  }
  Violation(std::string("unexpected-exception:") + g.name, thrown);
}
}  // namespace
}  // namespace vh

// A harness may define this to turn re-executed copies of itself into something else.
extern "C" __attribute__((weak)) void __gcov_dump(void);  // present in coverage builds only
__attribute__((weak)) bool VhProbe() { return false; }

int main(int argc, char** argv) {
  if (VhProbe()) _exit(0);
  uint64_t seed = 1, shard = 0, shards = 1, only = ~0ULL, skip_g = 0, skip_i = 0;
  std::string only_group, events, state, hashes;
  bool thorough = false, list = false, resume = false;
  uint64_t scale = 100;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--shard") shard = std::stoull(val());
    else if (a == "--shards") shards = std::stoull(val());
    else if (a == "--case") only = std::stoull(val());
    else if (a == "--group") only_group = val();
    else if (a == "--events") events = val();
    else if (a == "--state") state = val();
    else if (a == "--hashes") hashes = val();
    else if (a == "--scratch") vh::g_scratch = val();
    else if (a == "--scale") scale = std::stoull(val());
    else if (a == "--thorough") thorough = true;
    else if (a == "--list") list = true;
    else if (a == "--resume") { resume = true; skip_g = std::stoull(val()); skip_i = std::stoull(val()); }
  }
  auto& groups = vh::Groups();
  std::sort(groups.begin(), groups.end(),
            [](const vh::Group& a, const vh::Group& b) { return strcmp(a.name, b.name) < 0; });
  if (list) {
    for (auto& g : groups) printf("%s %llu %llu\n", g.name, (unsigned long long)g.quick, (unsigned long long)g.thorough);
    return 0;
  }
  signal(SIGPIPE, SIG_IGN);
  if (!events.empty()) vh::g_events = fopen(events.c_str(), "a");
  if (vh::g_scratch.empty()) vh::g_scratch = "/tmp";
  if (!state.empty()) {
    int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) vh::g_state = static_cast<vh::Shared*>(p);
    }
    if (fd >= 0) close(fd);
  }
  vh::g_state->magic = 0x5648;
  if (only != ~0ULL) {
    vh::g_replay = events.empty();
    bool found = false;
    for (size_t gi = 0; gi < groups.size(); ++gi)
      if (groups[gi].name == only_group) {
        found = true;
        uint64_t total = (thorough ? groups[gi].thorough : groups[gi].quick);
        vh::RunCase(groups[gi], gi, only, total, seed, thorough);
      }
    if (!found) return 78;
    vh::g_state->done = 1;
    vh::Summary();
    fflush(stdout);
    _exit(vh::g_violations ? 1 : 0);
  }
  for (size_t gi = 0; gi < groups.size(); ++gi) {
    if (!only_group.empty() && only_group != groups[gi].name) continue;
    uint64_t full = thorough ? groups[gi].thorough : groups[gi].quick;
    uint64_t total = std::max<uint64_t>(full * scale / 100, full ? 1 : 0);
    for (uint64_t i = 0; i < total; ++i) {
      if ((i + gi) % shards != shard) continue;
      if (resume && (gi < skip_g || (gi == skip_g && i <= skip_i))) continue;
      vh::RunCase(groups[gi], gi, i, total, seed, thorough);
    }
  }
  vh::Summary();
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "ab");
    if (f) {
      for (uint64_t h : vh::D().seen) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  vh::g_state->done = 1;
  fflush(stdout);
  // Leak checking, where wanted, runs at exit; _exit would skip it.
#if defined(VH_EXIT_NORMALLY)
  return 0;
#else
  if (__gcov_dump) __gcov_dump();
  _exit(0);
#endif
}

namespace vh {
// replaced by delay.cc where that is linked in
__attribute__((weak)) void SetDelays(uint64_t, unsigned, unsigned) {}
__attribute__((weak)) uint64_t DelayPoints() { return 0; }
}  // namespace vh
#ifdef VERIF_COV
#include <sys/syscall.h>
extern "C" void _exit(int rc) {
  if (__gcov_dump) __gcov_dump();
  for (;;) syscall(SYS_exit_group, rc);
}
#endif
