// C23: secure input fields against a plain text model.
#include <cstring>
#include "boost/regex.hpp"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/authentication/user_credentials.h"
#include "ref_sha.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace d = maidsafe::authentication::detail;
using S = d::SecureString;
namespace {
std::string Plain(const d::SafeString& s) { return std::string(s.begin(), s.end()); }
// cells: position -> what was put there; a cell is normally one character
using Cells = std::map<size_t, std::string>;
bool Contiguous(const Cells& c) { size_t i = 0; for (auto& x : c) if (x.first != i++) return false; return true; }
std::string Text(const Cells& c) { std::string s; for (auto& x : c) s += x.second; return s; }
Cells Split(const std::string& s) { Cells c; for (size_t i = 0; i < s.size(); ++i) c[i] = std::string(1, s[i]); return c; }
void InsertCell(Cells* c, size_t at, const std::string& s) {
  if (!c->count(at)) { (*c)[at] = s; return; }
  std::vector<std::string> tail;
  for (auto it = c->lower_bound(at); it != c->end(); it = c->erase(it)) tail.push_back(it->second);
  (*c)[at] = s;
  for (auto& t : tail) (*c)[++at] = t;
}
void RemoveCells(Cells* c, size_t at, size_t n) {
  std::vector<std::string> tail;
  for (auto it = c->lower_bound(at); it != c->end(); it = c->erase(it)) if (n) --n; else tail.push_back(it->second);
  for (auto& t : tail) (*c)[at++] = t;
}
char AnyChar(vh::Rng& r, bool digits) {
  if (digits && !r.OneIn(12)) return static_cast<char>('0' + r.Below(10));
  return r.OneIn(10) ? static_cast<char>(r.Next()) : static_cast<char>(32 + r.Below(95));
}
const char* const kRules[] = {"[0-9]", "^[0-9]$", "[[:digit:]]", ".", "[^ ]", "[a-z]"};
template <typename Field, typename Pred, size_t Size> void History(vh::Case& c, const char* kind, bool digits) {
  auto& r = c.rng;
  std::string trace = kind;
  Cells model;
  bool done = false;
  std::unique_ptr<Field> f;
  auto allowed = [&](size_t n) { return Pred()(n, Size); };
  if (r.Coin()) {
    f.reset(new Field);
  } else {
    std::string s;
    for (size_t n = r.Below(Size + 4); n--;) s += AnyChar(r, digits);
    auto o = vh::OutcomeCode([&] { f.reset(new Field(s)); });
    trace += " from " + vh::Hex(s);
    VH_CHECK(o == (allowed(s.size()) ? "" : vh::Code(CommonErrors::outside_of_bounds)), "constructed", trace << " " << o);
    if (!f) { vh::Observed(vh::HashStr(trace)); return; }
    model = Split(s);
    done = true;
  }
  int steps = 4 + static_cast<int>(r.Below(16));
  for (int i = 0; i < steps; ++i) {
    std::string o;
    bool gap = !Contiguous(model);
    switch (r.Below(10)) {
      case 0: case 1: case 2: case 3: {
        size_t at = gap && r.Coin() ? 0 : r.OneIn(12) ? model.size() + 1 + r.Below(3) : r.Below(model.size() + 1);
        if (gap) { while (model.count(at)) ++at; }  // fill, don't push what lies behind a gap
        std::string s(1, AnyChar(r, digits));
        if (r.OneIn(15)) s += AnyChar(r, digits);
        o = vh::OutcomeCode([&] { f->Insert(at, s); });
        if (done) model = Split(Text(model));
        InsertCell(&model, at, s);
        done = false;
        trace += " +" + std::to_string(at) + vh::Hex(s);
        VH_CHECK(o.empty(), "insert-refused", trace << " " << o);
        vh::Add("insertions");
        break;
      }
      case 4: case 5: {
        if (gap) break;
        size_t n = model.size(), at = r.OneIn(5) ? n + r.Below(3) : n ? r.Below(n) : 0, len = r.OneIn(6) ? r.Below(20) : 1;
        bool plain = len == 1 && r.Coin();
        if (done) n = Text(model).size();
        bool ok = at < n && len && len <= n - at;
        o = vh::OutcomeCode([&] { if (plain) f->Remove(at); else f->Remove(at, len); });
        trace += " -" + std::to_string(at) + "," + std::to_string(len);
        VH_CHECK(o == (ok ? "" : vh::Code(CommonErrors::invalid_argument)), "remove", trace << " " << o);
        if (ok) {
          if (done) model = Split(Text(model));
          RemoveCells(&model, at, len);
          done = false;
        } else {
          vh::Add("removals_refused");
        }
        vh::Add("removals");
        break;
      }
      case 6: if (r.OneIn(3)) { f->Clear(); model.clear(); done = false; trace += " clear"; } break;
      case 7: case 8: {
        o = vh::OutcomeCode([&] { f->Finalise(); });
        trace += " fin";
        if (!done) {
          bool ok = allowed(model.size()) && !gap;
          if (ok) VH_CHECK(o.empty(), "finalise", trace << " " << o);
          else VH_CHECK(o.substr(0, 4) == "lib:", "finalise", trace << " " << o);
          if (!ok) vh::Add("finalise_refused");
          done = ok;
        } else {
          VH_CHECK(o.empty(), "finalise", "again " << trace << " " << o);
        }
        break;
      }
      default: ;
    }
    // the view
    VH_CHECK(f->IsFinalised() == done && f->IsInitialised() == done, "finalised-flag", trace);
    std::string text = Text(model), rule = kRules[r.Below(6)];
    boost::regex re(rule);
    bool valid = done ? allowed(text.size()) : allowed(model.size()) && Contiguous(model);
    if (done) { for (char ch : text) valid = valid && boost::regex_search(std::string(1, ch), re); }
    else { for (auto& x : model) valid = valid && boost::regex_search(x.second, re); }
    VH_CHECK(f->IsValid(re) == valid, "validity", trace << " rule " << rule << " want " << valid);
    vh::Add(valid ? "valid" : "invalid");
    if (done) {
      VH_CHECK(Plain(f->string()) == text, "text", trace << " gives " << vh::Hex(Plain(f->string())));
      auto h = f->template Hash<crypto::SHA512>();
      auto ref = crypto::Hash<crypto::SHA512>(std::vector<byte>(text.begin(), text.end()));
      VH_CHECK(h.string().size() == 64 && !memcmp(h.string().data(), ref.string().data(), 64), "hash", trace);
      if (!text.empty() && text.size() < 19 && text.find_first_not_of("0123456789") == std::string::npos) {
        VH_CHECK(f->Value() == std::stoull(text), "value", trace << " " << f->Value());
        vh::Add("values");
      }
      vh::Add("finalised");
    } else {
      VH_CHECK(vh::Outcome([&] { f->string(); }) == "lib" && vh::Outcome([&] { f->Value(); }) == "lib" && vh::Outcome([&] { f->template Hash<crypto::SHA512>(); }) == "lib", "unfinished-readable", trace);
    }
  }
  vh::Observed(vh::HashStr(trace));
  vh::Sample(trace);
}
using Ge1 = d::SecureInputString<std::greater_equal<S::size_type>, 1, d::KeywordTag>;
using Pin4 = d::SecureInputString<std::equal_to<S::size_type>, 4, d::PinTag>;
using Le6 = d::SecureInputString<std::less_equal<S::size_type>, 6, d::PasswordTag>;
using Ge0 = d::SecureInputString<std::greater_equal<S::size_type>, 0, d::PasswordTag>;
}  // namespace

VH_GROUP(editing, 900, 20000) {
  switch (c.index % 4) {
    case 0: History<Ge1, std::greater_equal<S::size_type>, 1>(c, "at least 1", c.rng.Coin()); break;
    case 1: History<Pin4, std::equal_to<S::size_type>, 4>(c, "exactly 4", true); break;
    case 2: History<Le6, std::less_equal<S::size_type>, 6>(c, "at most 6", c.rng.Coin()); break;
    default: History<Ge0, std::greater_equal<S::size_type>, 0>(c, "any", c.rng.Coin());
  }
}

// SecureString on its own: the text given in pieces is the text read, as often as it is read and reused
VH_GROUP(secure_string, 400, 15000) {
  auto& r = c.rng;
  std::string text, trace;
  auto piece = [&] { auto b = r.ByteVec(r.OneIn(5) ? r.Below(300) : r.Below(12)); return std::string(b.begin(), b.end()); };
  std::unique_ptr<S> s;
  if (r.Coin()) { text = piece(); s.reset(new S(text)); } else { s.reset(new S); text.clear(); for (int n = static_cast<int>(r.Below(6)); n--;) { if (r.Coin()) { char ch = static_cast<char>(r.Next()); s->Append(ch); text += ch; } else { auto p = piece(); s->Append(p); text += p; } } s->Finalise(); }
  for (int i = 0; i < 3; ++i) VH_CHECK(Plain(s->string()) == text, "secure-string", vh::Hex(text));
  for (int k = 0; k < 2; ++k) {
    s->Clear();
    text = piece();
    s->Append(d::SafeString(text.begin(), text.end()));
    s->Finalise();
    VH_CHECK(Plain(s->string()) == text, "secure-string", "after clear " << vh::Hex(text));
  }
  std::string a = piece(), b = piece();
  VH_CHECK(Plain(d::SafeString(a.begin(), a.end()) + d::SafeString(b.begin(), b.end())) == a + b, "joined", vh::Hex(a) << " " << vh::Hex(b));
  {
    const d::SafeString x(a.begin(), a.end()), y(b.begin(), b.end());
    VH_CHECK(Plain(x + y) == a + b && Plain(x) == a && Plain(y) == b && Plain(x + x) == a + a, "joined", vh::Hex(a) << " " << vh::Hex(b));
  }
  if (!a.empty()) {
    auto h = crypto::Hash<crypto::SHA512>(d::SafeString(a.begin(), a.end()));
    std::string hs(h.string().begin(), h.string().end());
    VH_CHECK(Plain(h + d::SafeString(b.begin(), b.end())) == hs + b && Plain(d::SafeString(b.begin(), b.end()) + h) == b + hs, "joined", "with a hash");
  }
  vh::Add("secure_strings");
  vh::Observed(vh::HashStr(text + a + b));
}
