#include "maidsafe/common/cli.h"
#include "maidsafe/common/menu.h"
#include <iostream>
#include <pty.h>
#include <sys/wait.h>
#include <termios.h>
#include "maidsafe/common/crypto.h"
#include "vh_ms.h"
using namespace maidsafe;
namespace {
bool Space(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
std::string FirstWord(const std::string& s) { size_t a = 0; while (a < s.size() && Space(s[a])) ++a; size_t b = a; while (b < s.size() && !Space(s[b])) ++b; return s.substr(a, b - a); }
// leading integer of a line: returns false where there is none or it does not fit
bool LeadInt(const std::string& s, int64_t lo, int64_t hi, int64_t* out) {
  size_t a = 0; while (a < s.size() && Space(s[a])) ++a;
  bool neg = false; if (a < s.size() && (s[a] == '-' || s[a] == '+')) neg = s[a++] == '-';
  size_t d = a; __int128 v = 0;
  while (a < s.size() && s[a] >= '0' && s[a] <= '9') { v = v * 10 + (s[a++] - '0'); if (v > ((__int128)1 << 80)) v = (__int128)1 << 80; }
  if (a == d) return false;
  if (neg) v = -v;
  if (v < lo || v > hi) return false;
  *out = (int64_t)v; return true;
}
// stdout goes to a file we can read back; the code under test prints through stdio
int g_out = -1;
void Capture() {
  fflush(stdout); std::cout.flush();
  if (g_out < 0) { std::string p = vh::Scratch() + "/out"; g_out = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); if (g_out < 0) vh::HarnessError("out"); dup2(g_out, 1); }
  if (ftruncate(g_out, 0) != 0) vh::HarnessError("truncate");
}
std::string Captured() { fflush(stdout); std::cout.flush(); struct stat st; fstat(g_out, &st); std::string s(st.st_size, 0); ssize_t n = pread(g_out, &s[0], s.size(), 0); s.resize(n < 0 ? 0 : n); return s; }
struct Cin { std::streambuf* old; std::istringstream in; explicit Cin(const std::string& s) : old(std::cin.rdbuf()), in(s) { std::cin.clear(); std::cin.rdbuf(in.rdbuf()); } ~Cin() { std::cin.rdbuf(old); std::cin.clear(); } };
std::string Strip(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 27) { while (i < s.size() && !isalpha((unsigned char)s[i])) ++i; continue; } r += s[i]; } return r; }

struct Node { std::string name; int op = 0; int parent = -1; std::vector<int> kids; };   // op: 0 none, 1 counts, 2 throws library error, 3 throws std error
struct Tree { std::vector<Node> n; };
int Grow(Tree& t, vh::Rng& r, int parent, int depth, int budget) {
  int id = t.n.size(); Node x; x.name = "item" + std::to_string(id) + (r.Coin() ? " with text" : ""); x.op = r.Below(12) ? 1 : r.Below(4); x.parent = parent; t.n.push_back(x);
  if (parent < 0) t.n[id].op = 0;
  int kids = depth >= 4 ? 0 : parent < 0 ? (int)r.Below(6) : r.Coin() ? 0 : (int)r.Below(4);
  if (budget == 100 && depth < 2) kids = 97 + r.Below(8);
  for (int i = 0; i < kids && t.n.size() < 300; ++i) { int k = Grow(t, r, id, depth + 1, budget == 100 && (depth > 0 || i) ? 1 : budget); t.n[id].kids.push_back(k); }
  return id;
}
}  // namespace

VH_GROUP(menus, 2500, 80000) {
  auto& r = c.rng;
  Capture();
  Tree t; Grow(t, r, -1, 0, r.OneIn(40) ? 100 : 0);
  std::vector<int> ran;
  const std::string prompt = r.OneIn(3) ? r.Coin() ? "@@% " : "your choice: " : ">> ";
  std::unique_ptr<Menu> made(prompt == ">> " ? new Menu(t.n[0].name) : new Menu(t.n[0].name, prompt));
  Menu& menu = *made;
  std::vector<MenuItem*> item(t.n.size(), nullptr);
  for (size_t i = 1; i < t.n.size(); ++i) {
    int id = i, op = t.n[i].op;
    MenuItem::Functor f;
    if (op == 1) f = [&ran, id] { ran.push_back(id); };
    if (op == 2) f = [&ran, id] { ran.push_back(id); BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element)); };
    if (op == 3) f = [&ran, id] { ran.push_back(id); throw std::runtime_error("operation"); };
    item[i] = t.n[i].parent == 0 ? menu.AddItem(t.n[i].name, f) : item[t.n[i].parent]->AddChildItem(t.n[i].name, f);
  }
  int current = 0;  // persists between runs
  int runs = 1 + r.Below(3);
  std::string all_input;
  for (int run = 0; run < runs; ++run) {
    // ---- input
    std::vector<std::string> lines; int n = r.Below(30);
    for (int i = 0; i < n; ++i) {
      switch (r.Below(12)) {
        case 0: lines.push_back("99"); break;
        case 1: { const char* bad[] = {"", " ", "x", "-1", "1000", "99999999999999999999", "-2147483648", "-2147483647", "2147483647", "2147483648", "-", "+", "1.5", "0x1", "--help", "\t", "quit", "100", "98", "-99"}; lines.push_back(r.Pick(bad)); break; }
        case 2: lines.push_back(" " + std::to_string(1 + r.Below(5)) + " tail"); break;
        case 3: lines.push_back("+" + std::to_string(1 + r.Below(3)) + "abc"); break;
        case 4: lines.push_back(std::to_string(r.Below(120))); break;
        default: lines.push_back(std::to_string(1 + r.Below(5)));
      }
    }
    bool quit = !r.OneIn(4); if (quit) lines.push_back(r.Coin() ? "0" : " 0 bye");
    std::string input; for (auto& l : lines) input += l + "\n";
    if (!input.empty() && r.OneIn(6)) input.pop_back();
    all_input += input + "|";
    // ---- model
    std::vector<int> want; std::vector<int> shown; std::string code; size_t used = 0; bool clear = true; int invalid = 0;
    std::vector<std::string> ls; { std::istringstream is(input); std::string l; while (std::getline(is, l)) ls.push_back(l); }
    for (;;) {
      if (clear) { clear = false; if (t.n[current].kids.empty() && t.n[current].parent >= 0) current = t.n[current].parent; shown.push_back(current); }
      if (used == ls.size()) { code = "end"; break; }
      int64_t v; bool ok = LeadInt(ls[used++], -2147483648LL, 2147483647LL, &v);
      if (ok && v == 0) { code = "quit"; break; }
      if (ok && v == 99 && t.n[current].parent >= 0) current = t.n[current].parent;
      else if (ok && v >= 1 && v <= (int64_t)t.n[current].kids.size()) current = t.n[current].kids[v - 1];
      else { ++invalid; continue; }
      int op = t.n[current].op;
      if (op) want.push_back(current);
      if (op == 2) { code = "lib"; break; }
      if (op == 3) { code = "std"; break; }
      clear = true;
    }
    // ---- real
    ran.clear(); Capture();
    int rc; { Cin in(input); rc = menu.Run(); }
    std::string out = Strip(Captured());
    std::string d = input + " ran"; for (int x : ran) d += " " + std::to_string(x); d += " want"; for (int x : want) d += " " + std::to_string(x);
    VH_CHECK(ran == want, "operations-run", d);
    int wrc = code == "quit" ? 0 : code == "lib" ? ErrorToInt(MakeError(CommonErrors::no_such_element)) : ErrorToInt(MakeError(CommonErrors::unknown));
    VH_CHECK(rc == wrc, "return-value:" + code, rc << " want " << wrc << " for " << input);
    // ---- menus shown: each is a title line, a rule, its numbered children and the way back, a rule
    std::vector<std::string> ol; { std::istringstream is(out); std::string l; while (std::getline(is, l)) { while (l.compare(0, prompt.size(), prompt) == 0) l = l.substr(prompt.size()); ol.push_back(l); } }
    std::vector<std::vector<std::string>> blocks;
    for (size_t i = 0; i + 1 < ol.size(); ++i) if (!ol[i + 1].empty() && ol[i + 1].find_first_not_of('~') == std::string::npos && (i == 0 || true)) {
      std::vector<std::string> b; size_t j = i + 2; std::string rule = ol[i + 1];
      while (j < ol.size() && ol[j] != rule) b.push_back(ol[j++]);
      if (j >= ol.size()) break;
      b.insert(b.begin(), ol[i]); blocks.push_back(b); i = j;
    }
    size_t prompts = 0, reads = used + (code == "end");
    for (size_t p = 0; (p = out.find(prompt, p)) != std::string::npos; ++p) ++prompts;
    VH_CHECK(prompts >= reads && (prompt == ">> " || out.find(">> ") == std::string::npos), "prompts-shown", prompts << " for " << reads << " lines\n" << out.substr(0, 600));
    std::vector<std::vector<std::string>> wb;
    for (int s : shown) { std::vector<std::string> b{t.n[s].name}; int k = 1; for (int ch : t.n[s].kids) { b.push_back(std::to_string(k) + (k < 10 ? " " : "") + "  " + t.n[ch].name); ++k; } if (t.n[s].parent >= 0) b.push_back("99  Back to: " + t.n[t.n[s].parent].name); wb.push_back(b); }
    VH_CHECK(blocks == wb, "menus-shown", blocks.size() << " want " << wb.size() << "\n" << out.substr(0, 1500));
    int said = 0; for (size_t p = 0; (p = out.find("Invalid choice", p)) != std::string::npos; ++p) ++said;
    VH_CHECK(said == invalid, "invalid-choices-reported", said << " want " << invalid << " for " << input);
    vh::Add("lines", ls.size()); vh::Add("operations", want.size()); vh::Add(("end_" + code).c_str()); vh::Add("invalid_choices", invalid);
  }
  vh::Observed(vh::HashStr(all_input) ^ t.n.size());
  vh::Sample(std::to_string(t.n.size()) + " items, input " + vh::Hex(all_input));
}
VH_GROUP(items, 200, 4000) {
  auto& r = c.rng;
  Menu m("top");
  std::vector<std::string> names; std::string err = vh::Code(CommonErrors::invalid_argument);
  MenuItem top("root", nullptr);
  VH_CHECK(top.HasNoChildren() && top.kParent_ == nullptr && top.kName_ == "root", "fresh-item", "");
  for (int i = 0; i < 12; ++i) {
    std::string n = r.OneIn(6) ? "" : "n" + std::to_string(r.Below(10));
    bool bad = n.empty() || std::count(names.begin(), names.end(), n);
    MenuItem* it = nullptr; std::string o = vh::OutcomeCode([&] { it = top.AddChildItem(n, nullptr); });
    VH_CHECK(o == (bad ? err : ""), "duplicate-or-empty-name", n << " gave " << o);
    if (!bad) names.push_back(n);
    if (it) VH_CHECK(it->kParent_ == &top && it->kName_ == n && it->HasNoChildren() && top.Child(names.size() - 1) == it, "added-item", n);
    VH_CHECK(top.HasNoChildren() == names.empty(), "has-no-children", "");
    for (size_t k = 0; k < names.size(); ++k) VH_CHECK(top.Child(k)->kName_ == names[k], "child-order", k);
    for (int k : {-1, (int)names.size(), 1000, -2147483647 - 1}) { bool threw = false; try { top.Child(k); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "child-out-of-range", k); }
  }
  VH_CHECK(vh::OutcomeCode([] { MenuItem x("", nullptr); }) == err && vh::OutcomeCode([] { Menu x(""); }) == err, "empty-name", "");
  int k = 0; MenuItem op("op", [&] { ++k; }); op.DoOperation(); op.DoOperation(); VH_CHECK(k == 2, "do-operation", k); top.DoOperation();
  vh::Observed(r.Next());
}
VH_GROUP(reader, 2500, 80000) {
  auto& r = c.rng;
  Capture();
  std::string prompt = r.Coin() ? "$ " : "> > "; CLI cli(prompt);
  std::string alphabet = "0123456789+-. \txyz"; std::vector<std::string> lines; int n = 1 + r.Below(4);
  for (int i = 0; i < n; ++i) { std::string s; int len = r.Below(14); for (int k = 0; k < len; ++k) s += r.OneIn(20) ? (char)(128 + r.Below(127)) : r.Pick(alphabet); if (r.OneIn(4)) s = std::to_string((int64_t)r.Next() >> r.Below(60)); lines.push_back(s); }
  std::string input; for (auto& l : lines) input += l + "\n";
  Cin in(input);
  std::string inv = vh::Code(CommonErrors::invalid_argument), unk = vh::Code(CommonErrors::unknown);
  for (auto& l : lines) {
    int64_t v; std::string o; Capture();
    switch (r.Below(4)) {
      case 0: { int g = 0; bool ok = LeadInt(l, -2147483648LL, 2147483647LL, &v); o = vh::OutcomeCode([&] { g = cli.Get<int>("ask"); }); VH_CHECK(ok ? o.empty() && g == v : o == inv, "get-int", "'" << l << "' gave " << g << " " << o); break; }
      case 1: { int64_t g = 0; bool ok = LeadInt(l, INT64_MIN, INT64_MAX, &v); o = vh::OutcomeCode([&] { g = cli.Get<int64_t>("ask"); }); VH_CHECK(ok ? o.empty() && g == v : o == inv, "get-int64", "'" << l << "' gave " << g << " " << o); break; }
      case 2: { int16_t g = 0; bool ok = LeadInt(l, -32768, 32767, &v); o = vh::OutcomeCode([&] { g = cli.Get<int16_t>("ask"); }); VH_CHECK(ok ? o.empty() && g == v : o == inv, "get-int16", "'" << l << "' gave " << g << " " << o); break; }
      default: { std::string g, w = FirstWord(l); o = vh::OutcomeCode([&] { g = cli.Get<std::string>("ask"); }); VH_CHECK(w.empty() ? o == inv : o.empty() && g == w, "get-string", "'" << l << "' gave '" << g << "' " << o); }
    }
    std::string out = Captured();
    VH_CHECK(out == "ask\n" + prompt + prompt, "prompt-text", out);
    vh::Add(o.empty() ? "values" : "refused_values");
  }
  VH_CHECK(vh::OutcomeCode([&] { cli.Get<int>("ask"); }) == unk && vh::OutcomeCode([&] { cli.Get<std::string>("ask"); }) == unk, "end-of-input", "");
  vh::Observed(vh::HashStr(input));
}
VH_GROUP(passwords, 800, 30000) {
  auto& r = c.rng;
  Capture(); CLI cli;
  std::vector<std::string> e; int n = r.Below(9); const char* pool[] = {"secret", "Secret", "secret ", " secret", "s", "other", "secret2", "\xc3\xa9t\xc3\xa9"};
  for (int i = 0; i < n; ++i) e.push_back(r.Pick(pool));
  std::string input; for (auto& l : e) input += l + "\n";
  bool repeat = !r.OneIn(3);
  std::string got, want = "none"; std::string o; int used = 0;
  if (!repeat) { if (n) { want = FirstWord(e[0]); used = 1; } }
  else for (int i = 0; i + 1 < n; i += 2) { used = i + 2; if (FirstWord(e[i]) == FirstWord(e[i + 1])) { want = FirstWord(e[i]); break; } }
  std::string rest; { Cin in(input); o = vh::OutcomeCode([&] { got = cli.GetPassword(repeat); }); std::string l; while (std::getline(std::cin, l)) rest += l + "\n"; }
  if (want == "none") { VH_CHECK(o == vh::Code(CommonErrors::unknown), "password-without-entries", o); vh::Add("no_password"); }
  else {
    VH_CHECK(o.empty() && got == crypto::Hash<crypto::SHA512>(want).string(), "password", "repeat " << repeat << " input " << input << " " << o);
    std::string wr; for (int i = used; i < n; ++i) wr += e[i] + "\n"; VH_CHECK(rest == wr, "password-lines-read", rest << " want " << wr);
    vh::Add("password_accepted");
  }
  vh::Observed(vh::HashStr(input) ^ repeat);
}
// the terminal's echo while a line is being read, and afterwards
namespace {
struct SpyBuf : std::stringbuf {
  int fd; std::vector<int>* echo; bool fail;
  SpyBuf(const std::string& s, int f, std::vector<int>* e) : std::stringbuf(s), fd(f), echo(e), fail(false) {}
  void Look() { termios t; if (tcgetattr(fd, &t) == 0) echo->push_back(t.c_lflag & ECHO ? 1 : 0); }
  int underflow() override { Look(); return std::stringbuf::underflow(); }
  int uflow() override { Look(); return std::stringbuf::uflow(); }
  std::streamsize showmanyc() override { return 0; }
};
// one character at a time, so that every read passes through underflow
struct SlowBuf : std::streambuf {
  std::string s; size_t p = 0; char ch = 0; std::vector<int>* echo;
  SlowBuf(const std::string& in, std::vector<int>* e) : s(in), echo(e) {}
  int underflow() override { termios t; if (tcgetattr(0, &t) == 0) echo->push_back(t.c_lflag & ECHO ? 1 : 0); if (p >= s.size()) return EOF; ch = s[p++]; setg(&ch, &ch, &ch + 1); return (unsigned char)ch; }
};
}  // namespace
VH_GROUP(echo, 120, 1500) {
  auto& r = c.rng;
  Capture();
  int master, slave; if (openpty(&master, &slave, nullptr, nullptr, nullptr) != 0) { vh::Add("no_pty"); return; }
  int keep = dup(0); dup2(slave, 0);
  auto is_on = [] { termios t; return tcgetattr(0, &t) == 0 && (t.c_lflag & ECHO); };
  CLI cli; std::string o; int mode = c.index % 5; std::vector<int> echo;
  std::string input = mode == 2 ? "" : mode == 3 ? "not-a-number\n" : mode == 4 ? "pw\npx\npw\npw\n" : "12\n";
  SlowBuf buf(input, &echo); auto* old = std::cin.rdbuf(&buf); std::cin.clear();
  bool want = r.Coin();
  VH_CHECK(is_on(), "echo-off-at-start", "");
  if (mode == 4) { want = false; o = vh::Outcome([&] { cli.GetPassword(true); }); }
  else if (mode == 3 || mode == 0) o = vh::Outcome([&] { cli.Get<int>("q", want); });
  else o = vh::Outcome([&] { cli.Get<std::string>("q", want); });
  bool all = !echo.empty(); for (int e : echo) all = all && (e == (want ? 1 : 0));
  VH_CHECK(all, want ? "echo-off-while-reading" : "echo-on-while-reading-secret", "mode " << mode);
  VH_CHECK(is_on(), "echo-not-restored", "mode " << mode << " outcome " << o);
  VH_CHECK(o == (mode == 2 || mode == 3 ? "lib" : ""), "echo-outcome", o);
  cli.Echo(false); VH_CHECK(!is_on(), "echo-call", ""); cli.Echo(true); VH_CHECK(is_on(), "echo-call", "");
  std::cin.rdbuf(old); std::cin.clear(); dup2(keep, 0); close(keep); close(slave); close(master);
  vh::Add("echo_observed", echo.size()); vh::Observed(vh::Mix(mode * 2 + want));
}
VH_GROUP(leaving, 6, 40) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) { std::atexit([] { _exit(7); }); CLI().Exit(); _exit(8); }  // an orderly end: what was registered for it is run
  int st = 0;
  waitpid(pid, &st, 0);
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "exit", st);
  pid = fork();
  if (pid == 0) { CLI("x").Exit(); _exit(8); }
  waitpid(pid, &st, 0);
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", st);
  vh::Add("exits");
  vh::Observed(c.index);
}
VH_GROUP(tokens, 1500, 50000) {
  auto& r = c.rng; CLI cli; std::string s; int n = r.Below(30); std::string al = "ab- \t\n\"'=,;"; for (int i = 0; i < n; ++i) s += r.OneIn(3) ? ' ' : r.OneIn(15) ? (char)r.Next() : r.Pick(al);
  std::vector<std::string> want; std::string cur, full = "--" + s; for (char ch : full) { if (ch == ' ') { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) want.push_back(cur);
  auto got = cli.TokeniseLine(s);
  VH_CHECK(got == want, "tokens", vh::Hex(s)); vh::Observed(vh::HashStr(s)); vh::Add("tokens", got.size());
}
