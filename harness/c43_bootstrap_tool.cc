// C43: the bootstrap file tool.
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include "maidsafe/common/serialisation/serialisation.h"
#include "tool_child.h"
#include "vh_ms.h"
int bootstrap_file_tool_main(int, char**);
bool VhProbe() {
  if (!getenv("C43_TOOL")) return false;
  exit(tool::Main(bootstrap_file_tool_main));
}
namespace {
// The documented contents of a bootstrap file.
struct Contact {
  template <typename A>
  A& serialize(A& a) { return a(ip, port); }
  std::string ip;
  std::int32_t port = 0;
};
struct Contacts {
  template <typename A>
  A& serialize(A& a) { return a(all); }
  std::vector<Contact> all;
};
using List = std::vector<std::pair<std::string, int>>;
std::string Bytes(const List& l) {
  Contacts c;
  for (auto& e : l) { c.all.emplace_back(); c.all.back().ip = e.first; c.all.back().port = e.second; }
  auto v = maidsafe::Serialise(c);
  return std::string(v.begin(), v.end());
}
std::pair<std::string, int> Endpoint(vh::Rng& r) {
  std::string ip;
  do {
    ip.clear();
    for (int i = 0; i < 4; ++i) ip += (i ? "." : "") + std::to_string(r.OneIn(3) ? r.Below(3) : r.OneIn(4) ? 255 : r.Below(256));
  } while (ip == "0.0.0.0");
  return {ip, r.OneIn(4) ? 1025 : r.OneIn(4) ? 65535 : static_cast<int>(1025 + r.Below(64511))};
}
std::string Show(const List& l) { std::string s; for (auto& e : l) s += e.first + ":" + std::to_string(e.second) + "\n"; return s; }
std::string Spaced(const List& l) { std::string s = Show(l); std::replace(s.begin(), s.end(), '\n', ' '); return s.substr(0, 600); }
const char* kMenu = "Enter 7 to exit\n>> ";
bool Has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
}  // namespace

VH_GROUP(sessions, 1000, 20000) {
  auto& r = c.rng;
  std::string dir = std::string(vh::Scratch()) + "/s" + std::to_string(c.index);
  mkdir(dir.c_str(), 0700);
  mkdir((dir + "/sub").c_str(), 0700);
  tool::Child t("C43_TOOL", tool::Self(), {"--log_no_console"}, dir);
  std::string out = t.Until(kMenu), trace;
  List list;
  bool dirty = false, left = false;
  std::map<std::string, List> saved;
  std::map<std::string, std::string> given;  // files it may only read
  uint64_t h = 1;
  int made = 0;
  auto path = [&](const std::string& name) { return r.OneIn(3) ? name : r.OneIn(4) ? "./" + name : dir + "/" + name; };
  int steps = 1 + static_cast<int>(r.Below(25));
  for (int n = 0; n < steps && !t.ended && !t.hung; ++n) {
    std::string say, what;
    List next = list;
    bool next_dirty = dirty;
    std::vector<const char*> need, never;
    int k = static_cast<int>(r.Below(12));
    if (k >= 8) k = 8 + (k & 1);
    int refused = 0;
    // answers which are refused and asked again
    auto nonsense = [&] { static const char* bad[] = {"abc", "0", "8", "", "-1", "99999999999999", "x7"}; if (r.OneIn(5)) say += std::string(r.Pick(bad)) + "\n"; };
    nonsense();
    auto endpoint = [&](const std::pair<std::string, int>& e) {
      static const char* bad[] = {"", "1.2.3.4", "1.2.3.4:", "1.2.3.4:80", "1.2.3.4:1024", "1.2.3.4:65536", "1.2.3.4:x5000", "1.2.3.4:5000x", "1.2.3.4:5000:6000", "0.0.0.0:5000", "256.1.1.1:5000", "1.2.3:5000", ":5000", "a.b.c.d:5000", "::1:5000", "1.2.3.4:-5000", "1.2.3.4.5:5000", "1.2.3.4;5000", "1.2.3.4:99999999999999"};
      while (r.OneIn(4)) { say += std::string(r.Pick(bad)) + "\n"; ++refused; }
      say += e.first + ":" + std::to_string(e.second) + "\n";
    };
    switch (k) {
      case 0: case 1: case 2: case 3: {
        bool front = k < 2;
        auto e = r.OneIn(4) && !list.empty() ? list[r.Below(list.size())] : Endpoint(r);
        if (e.second < 1025) e = Endpoint(r);  // a file may hold such a port, but it can't be entered
        say += front ? "2\n" : "3\n";
        endpoint(e);
        next.insert(front ? next.begin() : next.end(), e);
        next_dirty = true;
        need.push_back(front ? "Prepended" : "Appended");
        what = front ? "prepend" : "append";
        vh::Add("added");
        break;
      }
      case 4: {
        auto e = r.OneIn(3) || list.empty() ? Endpoint(r) : list[r.Below(list.size())];
        if (r.OneIn(6) && !list.empty()) { e = list[r.Below(list.size())]; e.second = e.second == 65535 ? 1025 : e.second + 1; }
        if (e.second < 1025) e = Endpoint(r);
        say += "4\n";
        endpoint(e);
        auto i = std::find(next.begin(), next.end(), e);
        if (i == next.end()) { need.push_back("is not one of the loaded endpoints"); never.push_back("Removed"); }
        else { next.erase(i); next_dirty = true; need.push_back("Removed"); vh::Add("removed"); }
        what = "remove";
        break;
      }
      case 5: {
        say += "5\n";
        if (r.OneIn(5)) { say += dir + "/none/such.dat\n"; ++refused; }
        if (r.OneIn(6)) { say += dir + "/sub\n"; need.push_back("Failed to write"); never.push_back("Saved"); what = "save-fails"; vh::Add("unwritable"); break; }
        std::string name = r.OneIn(3) ? "again.dat" : "f" + std::to_string(made++) + ".dat";
        say += path(name) + "\n";
        saved[name] = list;
        next_dirty = false;
        need.push_back("Saved");
        never.push_back("Failed");
        what = "save";
        vh::Add("saved");
        break;
      }
      case 6: {
        say += "6\n";
        what = "view";
        break;
      }
      case 7: {
        // what's said at the end, and taken back
        if (!dirty) { --n; continue; }
        say += "7\n" + std::string(r.Coin() ? "n\n" : r.Coin() ? "\n" : "yes\n");
        need.push_back("have changed since last saved");
        what = "stay";
        vh::Add("stayed");
        break;
      }
      default: {
        say += "1\n";
        std::string name = "l" + std::to_string(made++) + ".dat", bytes;
        List l;
        for (size_t m = 1 + r.Below(r.OneIn(8) ? 300 : 6); m--;) l.push_back(Endpoint(r));
        for (auto& e : l) if (r.OneIn(5)) e.second = static_cast<int>(r.Below(65536));
        bool good = true;
        if (r.OneIn(4) && !saved.empty()) {
          auto it = saved.begin();
          std::advance(it, static_cast<long>(r.Below(saved.size())));
          name = it->first;
          l = it->second;
          good = !l.empty();
          vh::Add("loaded_saved");
        } else {
          switch (r.Below(8)) {
            case 0: bytes = ""; good = false; break;
            case 1: bytes = Bytes({}); good = false; break;
            case 2: bytes = Bytes(l); bytes.resize(r.Below(bytes.size())); good = false; break;
            case 3: { static const char* bad[] = {"", "localhost", "1.2.3", "::1", "1.2.3.4 ", "256.0.0.1"}; l[r.Below(l.size())].first = r.Pick(bad); bytes = Bytes(l); good = false; break; }
            case 4: { l[r.Below(l.size())].second = r.Coin() ? -1 - static_cast<int>(r.Below(70000)) : 65536 + static_cast<int>(r.Below(100000)); bytes = Bytes(l); good = false; break; }
            default: bytes = Bytes(l);
          }
          tool::Spit(dir + "/" + name, bytes);
          given[name] = bytes;
        }
        if (r.OneIn(5)) { say += dir + "/none.dat\n"; ++refused; }
        if (r.OneIn(6)) { say += dir + "/sub\n"; ++refused; }
        if (r.OneIn(6)) { say += dir + "/none/such.dat\n"; ++refused; }
        say += path(name) + "\n";
        what = good ? "load" : "load-bad";
        if (dirty) {
          bool yes = !r.OneIn(3);
          say += yes ? (r.Coin() ? "y\n" : "Y\n") : "n\n";
          need.push_back("have changed since last saved");
          if (!yes) { never.push_back("Loaded"); what = "load-declined"; vh::Add("declined"); break; }
        }
        if (good) { next = l; next_dirty = false; need.push_back("Loaded"); vh::Add("loaded"); }
        else { never.push_back("Loaded"); vh::Add("load_refused"); }
      }
    }
    trace += what + ";";
    t.Say(say);
    out = t.Until(kMenu);
    if (t.ended || t.hung) break;
    for (auto w : need) VH_CHECK(Has(out, w), "not-said:" + what, w << " in " << out.substr(0, 900));
    for (auto w : never) VH_CHECK(!Has(out, w), "said:" + what, w << " in " << out.substr(0, 900));
    list = next;
    dirty = next_dirty;
    // look at the list
    if (k == 6 || r.Coin() || what == "load-bad") {
      if (k != 6) { t.Say("6\n"); out = t.Until(kMenu); }
      if (t.ended || t.hung) break;
      std::string got;
      size_t p = out.find("Current endpoints:\n");
      if (p != std::string::npos) { got = out.substr(p + 19); got = got.substr(0, got.find("\n\n")); if (!got.empty() && got.back() != '\n') got += '\n'; }
      VH_CHECK(list.empty() ? Has(out, "Currently no endpoints are loaded.") && p == std::string::npos : got == Show(list), "list-shown:" + what, "got " << got.substr(0, 300) << " for " << Spaced(list));
      vh::Add("views");
    }
    if (refused) vh::Add("asked_again", static_cast<uint64_t>(refused));
    h = vh::HashStr(what, h ^ list.size());
    vh::Evals(1);
  }
  bool by_eof = r.OneIn(3);
  if (!t.ended && !t.hung) {
    if (by_eof) {
      // the input ends at any question
      static const char* cut[] = {"", "1\n", "2\n", "3\n1.2.3.4\n", "4\n", "5\n", "5", "x\n", "2\n1.2.3.4:5", "1\nnone"};
      t.Say(r.Pick(cut));
      if (dirty && r.OneIn(3)) t.Say("7\n");
      t.Close();
      vh::Add("input_ended");
    } else {
      t.Say("7\n" + std::string(dirty ? (r.Coin() ? "y\n" : "Y\n") : ""));
      vh::Add("left");
    }
    t.Until("");
    left = true;
  }
  VH_CHECK(!t.hung, by_eof && left ? "never-ends" : "hangs", trace << " " << t.all.size() << " printed, the last " << t.all.substr(t.all.size() > 700 ? t.all.size() - 700 : 0));
  VH_CHECK(left, "ended-early", trace << " status " << t.status << " " << t.Errors());
  if (left && !t.hung) {
    bool sane = WIFEXITED(t.status) && t.Code() != 99;
    VH_CHECK(by_eof ? sane : sane && t.Code() == 0, "exit-status", t.status << " " << t.Errors());
  }
  for (auto& s : saved)
    if (left && !by_eof) VH_CHECK(tool::Slurp(dir + "/" + s.first) == Bytes(s.second), "saved-file", s.first << " for " << Spaced(s.second));
  for (auto& g : given) VH_CHECK(tool::Slurp(dir + "/" + g.first) == g.second, "loaded-file-changed", g.first);
  vh::Observed(h);
  vh::Evals(1);
  if (system(("rm -rf '" + dir + "'").c_str())) vh::HarnessError("rm");
}
