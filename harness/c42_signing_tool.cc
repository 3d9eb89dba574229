// C42: the signing tool.
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <set>
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/rsa.h"
#include "tool_child.h"
#include "vh_ms.h"
int signing_tool_main();
bool VhProbe() {
  if (!getenv("C42_TOOL")) return false;
  exit(tool::Main([](int, char**) { return signing_tool_main(); }));
}
namespace {
using namespace maidsafe;  // NOLINT
using Vec = std::vector<byte>;
const char* kMenu = "0:  Exit the system;\n>> ";
bool Has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
Vec V(const std::string& s) { return Vec(s.begin(), s.end()); }
std::string S(const Vec& v) { return std::string(v.begin(), v.end()); }
struct Known { asymm::Keys keys; std::string priv, pub; };
// Two pairs made by the library once per process.
Known& Pair(int i) {
  static Known k[2];
  if (k[i].priv.empty()) {
    k[i].keys = asymm::GenerateKeyPair();
    k[i].priv = S(asymm::EncodeKey(k[i].keys.private_key).string());
    k[i].pub = S(asymm::EncodeKey(k[i].keys.public_key).string());
  }
  return k[i];
}
// What a file becomes when it's encrypted with a password.
std::string Encrypted(const std::string& password, const std::string& text) {
  Vec h = crypto::Hash<crypto::SHA512>(V(password)).string();
  crypto::AES256KeyAndIV k(Vec(h.begin(), h.begin() + crypto::AES256_KeySize + crypto::AES256_IVSize));
  return S(crypto::SymmEncrypt(crypto::PlainText(V(text)), k)->string());
}
std::string Word(vh::Rng& r) {
  std::string s;
  for (size_t n = 1 + r.Below(20); n--;) s += static_cast<char>(33 + r.Below(94));
  return s;
}
std::string Content(vh::Rng& r) { return r.OneIn(12) ? "" : r.Bytes(1 + r.Below(r.OneIn(5) ? 200000 : 300)); }
struct Session {
  vh::Case& c;
  vh::Rng& r;
  std::string dir, trace, last;
  tool::Child t;
  // keys are numbered: 0 and 1 are known, others were made by the tool; -1: none
  int priv = -1, pub = -1, made = 100;
  bool have_priv = false, have_pub = false, group_in = false;
  std::map<std::string, std::string> files;  // what each file holds, if that can be said
  std::map<std::string, std::pair<std::string, int>> sigs;  // signature file: what was signed with which key
  std::map<std::string, std::string> sig_text;  // and what the signature was
  std::map<int, std::string> priv_text, pub_text;
  int next = 0;
  explicit Session(vh::Case& cc) : c(cc), r(cc.rng), dir(std::string(vh::Scratch()) + "/s" + std::to_string(c.index)), t((Make(dir), "C42_TOOL"), tool::Self(), {}, dir, 120) {
    for (int i = 0; i < 2; ++i) { priv_text[i] = Pair(i).priv; pub_text[i] = Pair(i).pub; }
    Put("priv0", Pair(0).priv); Put("pub0", Pair(0).pub); Put("priv1", Pair(1).priv); Put("pub1", Pair(1).pub);
    Put("junk", r.Bytes(1 + r.Below(2000)));
    std::string cut = Pair(0).priv; cut.resize(1 + r.Below(cut.size() - 1)); Put("cut", cut);
    Put("empty", "");
    t.Until(kMenu);
  }
  ~Session() { if (system(("rm -rf '" + dir + "'").c_str())) vh::HarnessError("rm"); }
  static void Make(const std::string& d) { mkdir(d.c_str(), 0700); }
  void Put(const std::string& n, const std::string& s) { tool::Spit(dir + "/" + n, s); files[n] = s; }
  bool Alive() const { return !t.ended && !t.hung; }
  std::string Do(const std::string& what, const std::string& lines) {
    trace += what + ";";
    t.Say(lines);
    last = t.Until(kMenu);
    VH_CHECK(!t.hung, "hangs:" + what, trace << last.substr(0, 300));
    if (t.ended && !t.hung) { last = t.all.size() > 500 ? t.all.substr(t.all.size() - 500) : t.all; VH_CHECK(false, "ended:" + what, trace << " status " << t.status << " " << t.Errors() << last); }
    vh::Evals(1);
    return last;
  }
  void Expect(bool b, const std::string& key) { if (Alive()) VH_CHECK(b, key, trace << " said: " << last.substr(0, 500)); }
  void Same(const std::string& name) {
    if (!Alive()) return;
    bool want = files.count(name) > 0;
    VH_CHECK(tool::Exists(dir + "/" + name) == want && (!want || tool::Slurp(dir + "/" + name) == files[name]), "file-contents", trace << " " << name);
  }
  std::string Password(const std::string& p) {  // typed twice, perhaps wrongly at first
    std::string s;
    while (r.OneIn(6)) {
      std::string q = p;
      switch (r.Below(4)) {
        case 0: q += "x"; break;
        case 1: q[r.Below(q.size())] ^= 1; break;
        case 2: q.back() ^= 1; break;
        default: q = Word(r);
      }
      if (q == p || q.find_first_of(" \t\x7f") != std::string::npos) continue;
      s += r.Coin() ? p + "\n" + q + "\n" : q + "\n" + p + "\n";
      vh::Add("mistyped");
    }
    return s + p + "\n" + p + "\n";
  }
  void Save(bool secret) {
    if (secret && group_in) { Do("save-after-group", "2\n"); vh::Add("not_saved_after_group"); return; }
    std::string n = "saved" + std::to_string(next++);
    Do(secret ? "save-private" : "save-public", std::string(secret ? "2\n" : "3\n") + n + "\n");
    bool have = secret ? have_priv : have_pub;
    Expect(Has(last, "Stored") == have, have ? "key-not-saved" : "nothing-saved");
    if (!have) { Same(n); vh::Add("nothing_to_save"); return; }
    if (!Alive()) return;
    int id = secret ? priv : pub;
    auto& text = (secret ? priv_text : pub_text)[id];
    std::string got = tool::Slurp(dir + "/" + n);
    if (text.empty()) { text = got; VH_CHECK(!got.empty(), "key-not-saved", trace); }
    VH_CHECK(got == text, "other-key-saved", trace << " key " << id);
    files[n] = got;
    vh::Add("keys_saved");
  }
  void Load(bool secret) {
    static const char* names[] = {"priv0", "priv1", "pub0", "pub1", "junk", "cut", "empty", "missing"};
    int k = static_cast<int>(r.Below(8));
    if (k >= 4 && r.Coin()) k &= 1;
    if (k < 2 && !secret && r.Coin()) k += 2;
    std::string n = names[k];
    Do((secret ? "load-private-" : "load-public-") + n, std::string(secret ? "4\n" : "5\n") + n + "\n");
    bool good = secret ? k < 2 : k == 2 || k == 3;
    Expect(Has(last, "loaded and valid") == good, good ? "key-not-loaded" : "no-key-loaded:" + n);
    int& key = secret ? priv : pub;
    bool& have = secret ? have_priv : have_pub;
    if (good) { key = k & 1; have = true; vh::Add("keys_loaded"); }
    else {
      if (Has(last, "key invalid")) { key = -1; have = false; }
      vh::Add("not_keys");
    }
  }
  void Create() { Do("create", "1\n"); Expect(Has(last, "sucessful"), "not-created"); priv = pub = made++; have_priv = have_pub = true; vh::Add("created"); }
  std::string SomeFile() {
    if (r.OneIn(3) || files.empty()) { std::string n = "file" + std::to_string(next++); Put(n, Content(r)); return n; }
    if (r.OneIn(10)) return "missing";
    std::vector<std::string> v;
    for (auto& f : files) if (f.first.compare(0, 4, "file") == 0) v.push_back(f.first);
    return v.empty() ? "missing" : r.Pick(v);
  }
  void Sign() {
    std::string n = SomeFile(), sig = n + ".sig";
    if (r.Coin() && (priv < 0)) Create();
    bool had = tool::Exists(dir + "/" + sig);
    std::string before = had ? tool::Slurp(dir + "/" + sig) : "";
    Do("sign", "8\n" + n + "\n");
    bool possible = priv >= 0 && files.count(n);
    bool empty = possible && files[n].empty();
    if (!empty) Expect(Has(last, "Stored signature") == possible, possible ? "not-signed" : "signed-nothing");
    if (!Alive()) return;
    Same(n);
    if (Has(last, "Stored signature") && possible) {
      sigs[sig] = {files[n], priv};
      sig_text[sig] = files[sig] = tool::Slurp(dir + "/" + sig);
      vh::Add("signed");
      if (priv < 2 && !empty) VH_CHECK(asymm::CheckSignature(asymm::PlainText(V(files[n])), asymm::Signature(V(files[sig])), Pair(priv).keys.public_key), "signature-wrong", trace);
    } else {
      VH_CHECK(tool::Exists(dir + "/" + sig) == had && (!had || tool::Slurp(dir + "/" + sig) == before), "signature-left", trace);
      vh::Add("not_signed");
    }
  }
  void Validate() {
    std::vector<std::string> v;
    for (auto& s : sigs) v.push_back(s.first.substr(0, s.first.size() - 4));
    std::string n = v.empty() || r.OneIn(8) ? SomeFile() : r.Pick(v), sig = n + ".sig";
    if (sigs.count(sig) && !r.OneIn(4)) {  // the key that signed it
      int k = sigs[sig].second;
      if (k >= 0 && k < 2 && pub != k) { Do("load-public-pub", "5\npub" + std::to_string(k) + "\n"); pub = k; have_pub = true; }
    }
    int change = static_cast<int>(r.Below(8));
    if (sigs.count(sig) && files.count(n) && change == 0 && !files[n].empty()) {
      std::string s = files[n];
      s[r.Below(s.size())] ^= static_cast<char>(1 << r.Below(8));
      Put(n, s);
      vh::Add("files_changed");
    } else if (sigs.count(sig) && change == 1) {
      std::string s = files[sig];
      if (r.Coin()) s[r.Below(s.size())] ^= static_cast<char>(1 << r.Below(8)); else s.resize(r.Below(s.size()));
      Put(sig, s);
      sigs[sig].second = -2;
      vh::Add("signatures_changed");
    } else if (change == 2 && sigs.size() > 1) {
      auto it = sigs.begin();
      std::advance(it, static_cast<long>(r.Below(sigs.size())));
      auto val = it->second;
      std::string text = sig_text[it->first];
      Put(sig, files[it->first]);
      sig_text[sig] = text;
      sigs[sig] = val;
    }
    Do("validate", "9\n" + n + "\n");
    bool good = sigs.count(sig) && files.count(n) && pub >= 0 && sigs[sig].second == pub && sigs[sig].first == files[n] && sig_text[sig] == files[sig];
    Expect(Has(last, "Signature valid") == good, good ? "valid-refused" : "invalid-accepted");
    Same(n);
    vh::Add(good ? "valid" : "invalid");
  }
  void Crypt() {
    std::string n = SomeFile(), p = r.Coin() ? "fixed" : Word(r);
    bool can = files.count(n) && !files[n].empty();
    Do("encrypt", "10\n" + n + "\n" + Password(p));
    Expect(Has(last, "File is now encrypted") == can, can ? "not-encrypted" : "encrypted-nothing");
    std::string plain = can ? files[n] : "";
    if (can) files[n] = Encrypted(p, plain);
    Same(n);
    if (!can) { vh::Add("not_encrypted"); return; }
    vh::Add("encrypted");
    for (int i = static_cast<int>(r.Below(3)); i-- && Alive();) {
      std::string wrong = r.Coin() ? p + "1" : Word(r);
      if (wrong == p) continue;
      Do("decrypt-wrong", "11\n" + n + "\n" + Password(wrong));
      Expect(!Has(last, "File is now decrypted"), "wrong-password-accepted");
      Same(n);
      vh::Add("wrong_passwords");
    }
    if (r.OneIn(5)) {
      std::string s = files[n];
      s[r.Below(s.size())] ^= static_cast<char>(1 << r.Below(8));
      Put(n, s);
      Do("decrypt-damaged", "11\n" + n + "\n" + Password(p));
      Expect(!Has(last, "File is now decrypted"), "damaged-accepted");
      Same(n);
      return;
    }
    if (r.OneIn(4)) return;
    Do("decrypt", "11\n" + n + "\n" + Password(p));
    Expect(Has(last, "File is now decrypted"), "not-decrypted");
    files[n] = plain;
    Same(n);
    vh::Add("decrypted");
  }
  void Group() {
    int max = 3 + static_cast<int>(r.Below(r.OneIn(4) ? 11 : 4)), min = 2 + static_cast<int>(r.Below(static_cast<uint64_t>(max - 1)));
    if (r.OneIn(6)) {
      bool more = r.Coin();
      Do("group-impossible", "6\n" + std::to_string(more ? min : max) + "\n" + std::to_string(more ? max + 1 : r.Below(2)) + "\n");
      Expect(Has(last, more ? "smaller or equal" : "smallest required"), "impossible-group");
      vh::Add("impossible_groups");
      return;
    }
    std::string loc = dir + "/g" + std::to_string(next++) + "_", say = "6\n" + std::to_string(max) + "\n" + std::to_string(min) + "\n" + loc + "\n";
    std::vector<std::pair<std::string, std::string>> people;
    std::set<std::string> names;
    for (int i = 0; i < max; ++i) {
      std::string n = "p" + std::to_string(i), p = Word(r);
      if (i && r.OneIn(8)) { say += "p0\n" + Password(Word(r)); vh::Add("names_twice"); }
      people.emplace_back(n, p);
      say += n + "\n" + Password(p);
    }
    bool creates = !have_priv;
    if (creates) { priv = pub = made++; have_priv = have_pub = true; vh::Add("created"); }
    std::string pn = "saved" + std::to_string(next++);
    say += pn + "\n";
    Do("group", say);
    if (!Alive()) return;
    for (auto& p : people) Expect(tool::Exists(loc + p.first + ".keyfile"), "no-share");
    Expect(Has(last, "Stored public key") == have_pub, "public-key-of-group");
    if (have_pub) { files[pn] = tool::Slurp(dir + "/" + pn); auto& text = pub_text[pub]; if (text.empty()) text = files[pn]; Expect(files[pn] == text, "other-key-saved"); }
    vh::Add("groups");
    int key = priv;
    // no share tells the key
    if (priv_text.count(key) && !priv_text[key].empty())
      for (auto& p : people) Expect(tool::Slurp(loc + p.first + ".keyfile").find(priv_text[key].substr(priv_text[key].size() / 2, 16)) == std::string::npos, "share-in-clear");
    for (int round = 1 + static_cast<int>(r.Below(2)); round-- && Alive();) {
      for (size_t i = people.size(); i > 1; --i) std::swap(people[i - 1], people[r.Below(i)]);
      int come = r.OneIn(3) ? min - 1 : min + static_cast<int>(r.Below(static_cast<uint64_t>(max - min + 1)));
      bool wrong = r.OneIn(5);
      if (r.Coin() && come >= min) {  // away from the key, so that it's seen to come back
        Do("load-private-other", "4\npriv1\n");
        priv = 1; have_priv = true;
      }
      say = "7\n" + std::to_string(come) + "\n" + loc + "\n";
      for (int i = 0; i < come; ++i) {
        if (r.OneIn(8)) { say += "nobody\n" + Password(Word(r)); vh::Add("nobodies"); }
        say += people[static_cast<size_t>(i)].first + "\n" + Password(people[static_cast<size_t>(i)].second + (wrong && i == 0 ? "x" : ""));
        if (wrong) break;
      }
      Do(wrong ? "sign-in-wrong" : come < min ? "sign-in-few" : "sign-in", say);
      bool good = !wrong && come >= min;
      Expect(Has(last, "private key loaded and valid") == good, good ? "group-refused" : wrong ? "wrong-password-accepted" : "too-few-accepted");
      if (!Alive()) return;
      if (good) { priv = key; have_priv = true; group_in = true; vh::Add("signed_in"); }
      else { vh::Add("sign_ins_refused"); if (Has(last, "key invalid")) { Do("load-private-priv", "4\npriv0\n"); priv = 0; have_priv = true; } }
    }
  }
};
}  // namespace

VH_GROUP(sessions, 600, 12000) {
  auto& r = c.rng;
  Session s(c);
  if (r.Coin()) { int k = static_cast<int>(r.Below(2)); s.Do("load-private", "4\npriv" + std::to_string(k) + "\n"); s.Expect(Has(s.last, "loaded and valid"), "key-not-loaded"); s.priv = k; s.have_priv = true; }
  uint64_t h = 1;
  for (int n = 4 + static_cast<int>(r.Below(16)); n-- && s.Alive();) {
    switch (r.Below(12)) {
      case 0: s.Save(true); break;
      case 1: s.Save(false); break;
      case 2: s.Load(true); break;
      case 3: s.Load(false); break;
      case 4: case 5: s.Sign(); break;
      case 6: case 7: s.Validate(); break;
      case 8: case 9: s.Crypt(); break;
      case 10: if (r.Coin()) s.Group(); break;
      default:
        if (r.OneIn(6)) { s.Create(); break; }
        if (r.Coin()) { s.Do("unknown", std::to_string(r.Coin() ? 12 + r.Below(100) : 99) + "\n"); s.Expect(Has(s.last, "unknown option"), "unknown-accepted"); }
        else { s.Do("words", "what?\n99\n"); s.Expect(Has(s.last, "invalid option"), "words-accepted"); }
        vh::Add("unknown");
    }
    h = vh::HashStr(s.trace, h);
  }
  // what the tool made is a pair
  for (int id = 100; id < s.made && s.Alive(); ++id)
    if (!s.priv_text[id].empty() && !s.pub_text[id].empty()) {
      auto o = vh::Outcome([&] {
        auto pr = asymm::DecodeKey(asymm::EncodedPrivateKey(V(s.priv_text[id])));
        auto pu = asymm::DecodeKey(asymm::EncodedPublicKey(V(s.pub_text[id])));
        VH_CHECK(asymm::CheckSignature(asymm::PlainText(V("text")), asymm::Sign(asymm::PlainText(V("text")), pr), pu), "no-pair", s.trace);
      });
      VH_CHECK(o.empty(), "no-pair", s.trace << o);
      vh::Add("pairs");
    }
  if (s.Alive()) {
    bool by_eof = r.OneIn(3);
    if (by_eof) {
      static const char* cut[] = {"", "2\n", "8\n", "10\nfile0\n", "10\nfile0\nsecret\n", "6\n3\n", "what?\n", "9"};
      s.t.Say(r.Pick(cut));
      s.t.Close();
      vh::Add("input_ended");
    } else {
      s.t.Say("0\n");
      vh::Add("left");
    }
    s.t.Until("");
    VH_CHECK(!s.t.hung, by_eof ? "never-ends" : "does-not-leave", s.trace);
    if (!s.t.hung) VH_CHECK(WIFEXITED(s.t.status) && (by_eof ? s.t.Code() != 99 : s.t.Code() == 0), "exit-status", s.trace << " status " << s.t.status << " " << s.t.Errors());
  }
  vh::Observed(h);
}
