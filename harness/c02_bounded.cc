#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/types.h"
#include "vh_ms.h"
using namespace maidsafe;
using vh::Outcome;
using vh::OutcomeCode;
namespace {
template <typename Str> Str Mk(const std::string& s) { return Str(s.begin(), s.end()); }
template <typename Str> std::string Raw(const Str& s) { return std::string(s.begin(), s.end()); }

// model of one bounded string
struct Model { bool init = false, unspecified = false; std::string v; };

template <typename B, typename Str, size_t Min, size_t Max>
struct Machine {
  static const int kSlots = 4;
  const char* name;
  vh::Case& c;
  std::vector<B> b;
  std::vector<Model> m;
  std::string trace;
  Machine(const char* n, vh::Case& cc) : name(n), c(cc), b(kSlots), m(kSlots) {
    for (auto& x : m) { x.init = Min == 0; }
  }
  bool Fits(size_t n) const { return n >= Min && n <= Max; }
  std::string Key(const char* k) { return std::string(k) + ":" + name; }
  size_t RandSize() {
    auto& r = c.rng;
    size_t hi = Max > 400 ? 400 : Max;
    if (hi < Max && r.OneIn(250)) return std::min<size_t>(Max, 4000 + r.Below(90000));
    switch (r.Below(6)) {
      case 0: return Min;
      case 1: return hi;
      case 2: return Min ? Min - 1 : 0;
      case 3: return Max > 400 ? 401 : Max + 1;
      case 4: return r.Below(hi + 20);
      default: return r.Range(Min, hi);
    }
  }
  void CheckSlot(int i) {
    if (m[i].unspecified) return;
    const B& x = b[i];
    VH_CHECK(x.IsInitialised() == m[i].init, Key("initialised-flag"), trace);
    if (!m[i].init) {
      std::string want = vh::Code(CommonErrors::uninitialised);
      VH_CHECK(OutcomeCode([&] { x.string(); }) == want && OutcomeCode([&] { x.size(); }) == want &&
               OutcomeCode([&] { x.data(); }) == want && OutcomeCode([&] { (void)x[0]; }) == want &&
               OutcomeCode([&] { b[i][0] = 1; }) == want, Key("uninitialised-access"), trace);
      VH_CHECK(Outcome([&] { hex::Encode(x); }) == "lib" && Outcome([&] { base64::Encode(x); }) == "lib" &&
               Outcome([&] { Serialise(x); }) == "lib", Key("uninitialised-encode"), trace);
      return;
    }
    VH_CHECK(Fits(x.string().size()), Key("size-out-of-bounds"), x.string().size() << " " << trace);
    VH_CHECK(Raw(x.string()) == m[i].v && x.size() == m[i].v.size(), Key("wrong-content"), vh::Hex(Raw(x.string())) << " want " << vh::Hex(m[i].v) << " " << trace);
    VH_CHECK(std::string(x.data(), x.data() + x.size()) == m[i].v, Key("wrong-data-pointer"), trace);
    if (!m[i].v.empty()) {
      size_t p = c.rng.Below(m[i].v.size());
      VH_CHECK((unsigned char)x[p] == (unsigned char)m[i].v[p], Key("wrong-element"), p << " " << trace);
    }
#ifdef NDEBUG
    std::ostringstream os; os << x;
    VH_CHECK(os.str() == hex::Substr(m[i].v), Key("wrong-print"), os.str());
#endif
  }
  // order used by the documentation: uninitialised first, then lexicographic on bytes
  int Cmp(const Model& a, const Model& z) {
    if (!a.init || !z.init) return a.init == z.init ? 0 : a.init ? 1 : -1;
    Str x = Mk<Str>(a.v), y = Mk<Str>(z.v);
    return x < y ? -1 : y < x ? 1 : 0;
  }
  void CheckPair(int i, int j) {
    if (m[i].unspecified || m[j].unspecified) return;
    int w = Cmp(m[i], m[j]);
    const B &x = b[i], &y = b[j];
    VH_CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) &&
             (x <= y) == (w <= 0) && (x >= y) == (w >= 0), Key("comparison"), vh::Hex(m[i].v) << " vs " << vh::Hex(m[j].v) << " " << trace);
  }
  void Step() {
    auto& r = c.rng;
    int i = r.Below(kSlots), j = r.Below(kSlots);
    std::string v = r.OneIn(3) && !m[j].unspecified && m[j].init ? m[j].v : r.Bytes(RandSize());
    if (r.OneIn(4) && !v.empty()) v[r.Below(v.size())] ^= 1 << r.Below(8);
    if (r.OneIn(8) && !v.empty()) v.pop_back();
    bool fits = Fits(v.size());
    int op = r.Below(16);
    trace += " " + std::to_string(op) + ":" + std::to_string(i) + "," + std::to_string(j) + "/" + std::to_string(v.size());
    if (trace.size() > 300) trace.erase(0, 100);
    std::string o;
    Model nm; nm.init = true; nm.v = v;
    bool value_op = false;
    switch (op) {
      case 0: o = OutcomeCode([&] { b[i] = B(Mk<Str>(v)); }); value_op = true; break;
      case 1: o = OutcomeCode([&] { b[i] = B(std::string(v)); }); value_op = true; break;
      case 2: o = OutcomeCode([&] { b[i] = B(Mk<Str>(hex::DecodeToString(hex::Encode(v)))); }); value_op = true; break;
      case 3: o = OutcomeCode([&] { b[i] = B(Mk<Str>(base64::DecodeToString(base64::Encode(v)))); }); value_op = true; break;
      case 4: {  // from serialised bytes
        auto bytes = Serialise(Mk<Str>(v));
        o = OutcomeCode([&] { b[i] = Parse<B>(bytes); });
        if (fits) { VH_CHECK(o.empty(), Key("parse-refused"), o); m[i] = nm; }
        else VH_CHECK(o == vh::Code(CommonErrors::parsing_error), Key("parse-out-of-bounds"), o << " size " << v.size());
        break;
      }
      case 5: {  // parsing in place must not disturb the target on failure
        auto bytes = Serialise(Mk<Str>(v));
        bool cut = r.OneIn(3) && bytes.size() > 1;
        if (cut) bytes.resize(r.Below(bytes.size()));
        Model keep = m[i];
        o = Outcome([&] { Parse(bytes, b[i]); });
        if (!cut && fits) { VH_CHECK(o.empty(), Key("parse-refused"), o); m[i] = nm; }
        else { VH_CHECK(o == "lib", Key("parse-bad-accepted"), o); m[i] = keep; }
        break;
      }
      case 6: b[i] = b[j]; m[i] = m[j]; break;
      case 7: { B t(b[j]); m[i] = m[j]; b[i] = std::move(t); break; }
      case 8: if (i != j) { b[i] = std::move(b[j]); m[i] = m[j]; m[j].unspecified = true; } break;
      case 9: if (i != j) { B t(std::move(b[j])); b[i] = std::move(t); m[i] = m[j]; m[j].unspecified = true; } break;
      case 10: { using std::swap; if (i != j) { swap(b[i], b[j]); std::swap(m[i], m[j]); } break; }
      case 11:
        if (r.Coin()) { b[i] = B(); m[i] = Model(); m[i].init = Min == 0; }
        else {  // taken over from one with tighter bounds, which may itself be uninitialised
          typedef detail::BoundedString<(Min < Max ? Min + 1 : Min), Max, Str> Narrow;
          Narrow n; Model keep; keep.init = Narrow().IsInitialised();
          if (fits && v.size() > Min && r.Coin()) { n = Narrow(Mk<Str>(v)); keep = nm; }
          if (r.Coin()) b[i] = n; else b[i] = B(n);
          m[i] = keep;
        }
        break;
      case 12: if (!m[i].unspecified && m[i].init && !m[i].v.empty()) {
        size_t p = r.Below(m[i].v.size()); char ch = (char)r.Next(); b[i][p] = ch; m[i].v[p] = ch;
      } break;
      case 13: if (!m[i].unspecified && m[i].init) {  // round trip of the current value
        B t; Parse(Serialise(b[i]), t);
        VH_CHECK(t == b[i] && Raw(t.string()) == m[i].v, Key("round-trip"), trace);
        VH_CHECK(hex::Encode(b[i]) == hex::Encode(m[i].v) && base64::Encode(b[i]) == base64::Encode(m[i].v), Key("encode"), trace);
      } break;
      case 14: b[i] = b[i]; break;
      default: Convert(i, v, fits); return;
    }
    if (value_op) {
      if (fits) { VH_CHECK(o.empty(), Key("value-refused"), o << " size " << v.size()); m[i] = nm; vh::Add("accepted"); }
      else { VH_CHECK(o == vh::Code(CommonErrors::outside_of_bounds), Key("out-of-bounds-accepted"), "size " << v.size() << " outcome '" << o << "'"); vh::Add("refused"); }
    }
    CheckSlot(i); CheckSlot(j); CheckPair(i, j); CheckPair(j, i); CheckPair(i, i);
  }
  // to and from bounded strings with other bounds / other storage
  void Convert(int i, const std::string& v, bool) {
    if (m[i].unspecified) return;
    typedef detail::BoundedString<0, size_t(-1), std::string> Wide;
    typedef detail::BoundedString<0, size_t(-1), std::vector<unsigned char>> WideV;
    Wide w(b[i]); WideV wv(b[i]);
    VH_CHECK(w.IsInitialised() == m[i].init && wv.IsInitialised() == m[i].init, Key("convert-flag"), trace);
    if (m[i].init) VH_CHECK(w.string() == m[i].v && Raw(wv.string()) == m[i].v, Key("convert-content"), trace);
    // converting assignment compiles between equal storage types only
    typedef detail::BoundedString<0, size_t(-1) - 1, Str> Other;
    typedef typename std::conditional<(Max < size_t(-1)), Other, B>::type Target;
    Target w2; if (c.rng.Coin()) w2 = Target(Mk<Str>(m[i].init ? c.rng.Bytes(m[i].v.size()) : c.rng.Bytes(Min ? Min : 3)));
    w2 = b[i];
    VH_CHECK(w2.IsInitialised() == m[i].init, Key("convert-assign-flag"), trace);
    if (m[i].init) VH_CHECK(Raw(w2.string()) == m[i].v, Key("convert-assign-content"), trace);
    CheckSlot(i);
  }
};
template <typename B, typename Str, size_t Min, size_t Max>
void Run(const char* name, vh::Case& c) {
  Machine<B, Str, Min, Max> mc(name, c);
  for (int k = 0; k < 60; ++k) { mc.Step(); vh::Observed(vh::HashStr(mc.trace) ^ vh::HashStr(name)); }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) mc.CheckPair(i, j);
  if (c.index < 2) vh::Sample(std::string(name) + mc.trace);
}
typedef std::vector<unsigned char> V;
}  // namespace
#define GRP(id, MIN, MAX, STR) \
  VH_GROUP(id, 250, 6000) { Run<detail::BoundedString<MIN, MAX, STR>, STR, MIN, (size_t)(MAX)>(#id, c); }
#ifndef C02_PART
#define C02_PART 0
#endif
#if C02_PART == 0
GRP(nonempty_bytes, 1, size_t(-1), V)
GRP(fixed_text_20, 20, 20, std::string)
GRP(zero_to_8, 0, 8, V)
#endif
#if C02_PART == 1
GRP(nonempty_text, 1, size_t(-1), std::string)
GRP(range_4_10, 4, 10, std::string)
GRP(one, 1, 1, std::string)
#endif
#if C02_PART == 2
GRP(identity_64, 64, 64, V)
GRP(range_4_10_bytes, 4, 10, V)
GRP(any, 0, size_t(-1), std::string)
#endif
#if C02_PART == 1
VH_GROUP(fixed_xor, 400, 10000) {
  typedef detail::BoundedString<20, 20, std::string> T;
  typedef Identity U;
  auto a = c.rng.Bytes(20), b = c.rng.Bytes(20);
  auto a2 = c.rng.ByteVec(64), b2 = c.rng.ByteVec(64);
  T r = T(a) ^ T(b); U r2 = U(a2) ^ U(b2);
  bool ok = true;
  for (int i = 0; i < 20; ++i) ok = ok && r.string()[i] == (char)(a[i] ^ b[i]);
  for (int i = 0; i < 64; ++i) ok = ok && r2.string()[i] == (unsigned char)(a2[i] ^ b2[i]);
  VH_CHECK(ok, "xor", vh::Hex(a) << "^" << vh::Hex(b));
  VH_CHECK(OutcomeCode([&] { T(a) ^ T(); }) == vh::Code(CommonErrors::uninitialised) &&
           OutcomeCode([&] { U() ^ U(a2); }) == vh::Code(CommonErrors::uninitialised), "xor-uninitialised", "");
  vh::Observed(vh::HashStr(a));
}
// total order axioms on triples of close values
VH_GROUP(order, 800, 20000) {
  std::vector<NonEmptyString> v(1);
  std::string base = c.rng.Bytes(1 + c.rng.Below(6));
  for (int i = 0; i < 7; ++i) {
    std::string s = base;
    if (c.rng.Coin()) s[c.rng.Below(s.size())] = (char)c.rng.Next();
    if (c.rng.OneIn(3)) s += (char)c.rng.Next();
    if (c.rng.OneIn(3) && s.size() > 1) s.pop_back();
    v.push_back(NonEmptyString(s));
  }
  for (auto& x : v) for (auto& y : v) {
    VH_CHECK((x < y) + (y < x) + (x == y) == 1, "trichotomy", "");
    for (auto& z : v) VH_CHECK(!(x < y && y < z) || x < z, "transitivity", "");
  }
  vh::Observed(vh::HashStr(base));
}
#endif
