#include "maidsafe/common/error.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include <climits>
#include <exception>
#include <memory>
#include "boost/throw_exception.hpp"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace {
struct Entry {
  std::string name;
  int family;
  std::error_code code;
  std::error_condition own;
  const std::error_category* category;
  bool generic;        // has a generic meaning
  std::errc meaning;
  std::function<void()> throw_plain, throw_boost;  // as their concrete type
  std::function<bool(const std::exception_ptr&)> caught_as_family;
};
template <typename Exc>
bool CaughtAs(const std::exception_ptr& p, std::error_code want) {
  try { std::rethrow_exception(p); } catch (const Exc& e) { return e.code() == want; } catch (...) { return false; }
}
std::vector<Entry> Table() {
  std::vector<Entry> t;
  const std::errc none = static_cast<std::errc>(0);
  auto add = [&](const char* n, int fam, auto e, const std::error_category& cat, std::errc m) {
    Entry x;
    x.name = n; x.family = fam; x.code = make_error_code(e); x.own = make_error_condition(e); x.category = &cat;
    x.generic = m != none; x.meaning = m;
    using Exc = decltype(MakeError(e));
    static_assert(std::is_base_of<maidsafe_error, Exc>::value, "family type");
    static_assert(std::is_error_code_enum<decltype(e)>::value, "convertible");
    x.throw_plain = [e] { throw MakeError(e); };
    x.throw_boost = [e] { BOOST_THROW_EXCEPTION(MakeError(e)); };
    auto code = x.code;
    x.caught_as_family = [code](const std::exception_ptr& p) { return CaughtAs<Exc>(p, code); };
    std::error_code implicit = e;
    VH_CHECK(implicit == x.code && x.code == e, "implicit-conversion", n);
    VH_CHECK(MakeError(e).code() == x.code, "make-error-code", n);
    VH_CHECK(Exc(x.code, "what a story").code() == x.code && std::string(Exc(x.code, "what a story").what()).find("what a story") != std::string::npos, "constructor", n);
    VH_CHECK(Exc(x.code, std::string("what a story")).code() == x.code && std::string(Exc(x.code, std::string("what a story")).what()).find("what a story") != std::string::npos, "constructor", n);
    VH_CHECK(Exc(x.code).code() == x.code, "constructor", n);
    VH_CHECK(Exc(static_cast<int>(e), cat).code() == x.code, "constructor", n);
    VH_CHECK(Exc(static_cast<int>(e), cat, "abc").code() == x.code && std::string(Exc(static_cast<int>(e), cat, "abc").what()).find("abc") != std::string::npos, "constructor", n);
    VH_CHECK(Exc(static_cast<int>(e), cat, std::string("abc")).code() == x.code, "constructor", n);
    VH_CHECK(!Exc().code(), "default-constructor", n);
    t.push_back(std::move(x));
  };
#define E(fam, type, cat, name, m) add(#type "::" #name, fam, type::name, cat(), m)
#define C(n, m) E(1, CommonErrors, GetCommonCategory, n, m)
  using std::errc;
  C(success, none); C(pending_result, none); C(unknown, none);
  C(null_pointer, errc::invalid_argument); C(invalid_identity, errc::invalid_argument);
  C(invalid_key_size, errc::invalid_argument); C(outside_of_bounds, errc::invalid_argument);
  C(invalid_argument, errc::invalid_argument); C(invalid_conversion, none);
  C(file_too_large, errc::file_too_large); C(uninitialised, none); C(already_initialised, none);
  C(hashing_error, none); C(symmetric_encryption_error, none); C(symmetric_decryption_error, none);
  C(compression_error, none); C(uncompression_error, none);
  C(cannot_invoke_from_this_thread, errc::operation_not_permitted); C(cannot_exceed_limit, none);
  C(unable_to_handle_request, errc::not_supported); C(filesystem_io_error, errc::io_error);
  C(no_such_element, none); C(serialisation_error, none); C(parsing_error, none);
  C(not_a_directory, errc::not_a_directory); C(db_busy, none); C(db_not_present, none); C(db_error, none);
  C(defaulted, none);
#define A(n, m) E(2, AsymmErrors, GetAsymmCategory, n, m)
  A(keys_generation_error, none); A(keys_serialisation_error, none); A(keys_parse_error, none);
  A(invalid_private_key, none); A(invalid_public_key, none); A(data_empty, errc::invalid_argument);
  A(invalid_file, errc::invalid_argument); A(invalid_signature, errc::invalid_argument);
  A(signature_empty, errc::invalid_argument); A(encryption_error, none); A(decryption_error, none);
  A(signing_error, errc::invalid_argument);
  E(3, PassportErrors, GetPassportCategory, id_already_exists, none);
#define N(n) E(4, EncryptErrors, GetEncryptCategory, n, none)
  N(bad_sequence); N(no_data); N(invalid_encryption_version); N(failed_to_write); N(failed_to_prepare_for_write);
  N(failed_to_get_chunk); N(failed_to_flush); N(failed_to_decrypt); N(failed_to_read); N(encryptor_closed);
#define R(n, m) E(5, RoutingErrors, GetRoutingCategory, n, m)
  R(timed_out, errc::timed_out); R(timer_cancelled, none); R(not_in_range, none); R(not_connected, none);
  E(6, NfsErrors, GetNfsCategory, failed_to_get_data, none);
  E(6, NfsErrors, GetNfsCategory, timed_out, errc::timed_out);
#define D(n, m) E(7, DriveErrors, GetDriveCategory, n, m)
  D(no_drive_letter_available, none); D(failed_to_mount, none); D(permission_denied, errc::permission_denied);
  D(no_such_file, none); D(file_exists, errc::file_exists); D(driver_not_installed, none);
#define V(n, m) E(8, VaultErrors, GetVaultCategory, n, m)
  V(failed_to_join_network, none); V(failed_to_handle_request, none);
  V(operation_not_supported, errc::operation_not_supported); V(permission_denied, errc::permission_denied);
  V(no_such_account, none); V(low_space, none); V(not_enough_space, none); V(unique_data_clash, none);
  V(data_available_not_given, none); V(account_already_exists, none); V(data_already_exists, none);
  V(too_few_entries_to_resolve, none);
#define M(n, m) E(9, VaultManagerErrors, GetVaultManagerCategory, n, m)
  M(connection_not_found, errc::not_connected); M(failed_to_connect, errc::connection_refused);
  M(failed_to_listen, none); M(connection_aborted, errc::connection_aborted);
  M(ipc_message_too_large, errc::message_size); M(timed_out, errc::timed_out); M(unvalidated_client, none);
  M(vault_exited_with_error, none); M(vault_terminated, none);
  E(10, ApiErrors, GetApiCategory, kPasswordFailure, none);
  return t;
}
const std::vector<Entry>& T() { static const std::vector<Entry> t = Table(); return t; }
const std::error_category& Cat(int fam) {
  for (auto& e : T()) if (e.family == fam) return *e.category;
  vh::HarnessError("family");
}
std::vector<std::error_condition> GenericConditions() {
  std::vector<std::error_condition> r;
  for (int i = 0; i < 140; ++i) r.push_back(std::error_condition(i, std::generic_category()));
  return r;
}
const std::error_category& OtherCategory() {
  struct Cat : std::error_category {
    const char* name() const noexcept override { return "other"; }
    std::string message(int) const override { return "x"; }
  };
  static Cat cat;
  return cat;
}
}  // namespace

// every error: integer, message, category, exception, serialised form
VH_GROUP(every, 120, 1200) {
  auto& t = T();
  auto& e = t[c.index % t.size()];
  auto& r = c.rng;
  int i = ErrorToInt(maidsafe_error(e.code));
  VH_CHECK(ErrorToInt(maidsafe_error(e.code, "text")) == i, "integer-not-a-function", e.name);
  maidsafe_error back = IntToError(i);
  VH_CHECK(back.code() == e.code && &back.code().category() == e.category, "integer-round-trip", e.name << " " << i << " " << back.code().value());
  for (auto& o : t) {
    if (&o == &e) continue;
    VH_CHECK(ErrorToInt(maidsafe_error(o.code)) != i, "two-errors-one-integer", e.name << " " << o.name << " " << i);
    VH_CHECK(o.code != e.code, "two-errors-equal", e.name << " " << o.name);
    if (o.family == e.family) {
      VH_CHECK(o.category == e.category, "family-category", e.name << " " << o.name);
      VH_CHECK(o.code.message() != e.code.message(), "message-shared", e.name << " " << o.name << " " << e.code.message());
    } else {
      VH_CHECK(*o.category != *e.category, "categories-equal", e.name << " " << o.name);
      VH_CHECK(std::string(o.category->name()) != e.category->name(), "category-name-shared", e.name << " " << o.name);
    }
  }
  VH_CHECK(&e.code.category() == e.category && &e.own.category() == e.category, "category", e.name);
  VH_CHECK(e.own.value() == e.code.value(), "own-condition", e.name);
  VH_CHECK(!e.code.message().empty(), "no-message", e.name);
  VH_CHECK(e.own.message() == e.code.message(), "condition-message", e.name);
  VH_CHECK(!std::string(e.category->name()).empty(), "no-category-name", e.name);
  if (e.name != "CommonErrors::unknown")
    VH_CHECK(e.code.message() != e.category->message(99999) && e.code.message() != e.category->message(-7), "message-is-unknown", e.name << " " << e.code.message());
  // thrown and caught
  for (int k = 0; k < 2; ++k) {
    std::exception_ptr p;
    try { k ? e.throw_boost() : e.throw_plain(); } catch (...) { p = std::current_exception(); }
    VH_CHECK(p != nullptr, "not-thrown", e.name);
    if (!p) continue;
    bool inner = false;
    std::thread th([&] { inner = e.caught_as_family(p) && CaughtAs<maidsafe_error>(p, e.code) && CaughtAs<std::system_error>(p, e.code); });
    th.join();
    VH_CHECK(inner, "caught", e.name << " " << k);
    bool wrong = false;
    if (e.family != 1) wrong = CaughtAs<common_error>(p, e.code);
    if (e.family != 2) wrong |= CaughtAs<asymm_error>(p, e.code);
    if (e.family != 8) wrong |= CaughtAs<vault_error>(p, e.code);
    VH_CHECK(!wrong, "caught-as-other-family", e.name);
    try { std::rethrow_exception(p); } catch (const std::exception& x) {
      VH_CHECK(std::string(x.what()).find(e.code.message()) != std::string::npos, "what", e.name << " " << x.what());
    }
  }
  // serialised alone and in company
  {
    auto bytes = Serialise(maidsafe_error(e.code));
    VH_CHECK(bytes == Serialise(maidsafe_error(e.code, r.Bytes(r.Below(20)))), "serialised-depends-on-text", e.name);
    maidsafe_error got(make_error_code(VaultErrors::low_space));
    auto o = vh::Outcome([&] { got = Parse<maidsafe_error>(bytes); });
    VH_CHECK(o.empty() && got.code() == e.code, "serialised-round-trip", e.name << " " << o);
    std::vector<maidsafe_error> many, many2;
    int n = 1 + r.Below(6);
    for (int k = 0; k < n; ++k) many.push_back(maidsafe_error(t[r.Below(t.size())].code));
    std::string text = r.Bytes(r.Below(10)), text2;
    maidsafe_error one(e.code), one2;
    auto b2 = Serialise(one, many, text);
    o = vh::Outcome([&] { Parse(b2, one2, many2, text2); });
    bool same = o.empty() && one2.code() == e.code && many2.size() == many.size() && text2 == text;
    for (size_t k = 0; same && k < many.size(); ++k) same = many2[k].code() == many[k].code();
    VH_CHECK(same, "serialised-in-company", e.name << " " << o);
    auto s = ConvertToString(one, text);
    maidsafe_error three; std::string text3;
    o = vh::Outcome([&] { ConvertFromString(s, three, text3); });
    VH_CHECK(o.empty() && three.code() == e.code && text3 == text, "serialised-stream", e.name << " " << o);
    if (!bytes.empty()) {
      SerialisedData shorter(bytes.begin(), bytes.begin() + r.Below(bytes.size()));
      o = vh::Outcome([&] { Parse<maidsafe_error>(shorter); });
      VH_CHECK(!o.empty() && o != "other", "truncated-accepted", e.name);
    }
  }
  vh::Add("errors");
  vh::Observed(vh::HashStr(e.name));
}

// every pair of codes and conditions
VH_GROUP(conditions, 84, 84) {
  auto& t = T();
  auto& e = t[c.index % t.size()];
  uint64_t equal = 0;
  auto check = [&](const std::error_condition& cond, bool want, const std::string& what) {
    bool got = e.code == cond;
    VH_CHECK(got == want, "condition", e.name << " with " << what << " " << cond.value() << " (" << cond.category().name() << ") gave " << got);
    VH_CHECK((cond == e.code) == got && (e.code != cond) == !got, "condition-symmetry", e.name << " with " << what);
    equal += got;
  };
  for (auto& g : GenericConditions()) check(g, e.generic && g.value() == static_cast<int>(e.meaning), "generic");
  for (auto& o : t) check(o.own, &o == &e, o.name);
  for (int v : {-1, 0, e.code.value(), 99, INT_MAX, INT_MIN}) {
    check(std::error_condition(v, std::system_category()), false, "system");
    check(std::error_condition(v, OtherCategory()), false, "other");
  }
  auto d = e.code.default_error_condition();
  VH_CHECK(d == (e.generic ? make_error_condition(e.meaning) : e.own), "default-condition", e.name << " " << d.value() << " " << d.category().name());
  vh::Add("equal_conditions", equal);
  vh::Observed(vh::HashStr(e.name + "c"));
}

// values which are no error of the family
VH_GROUP(unlisted, 60, 3000) {
  auto& r = c.rng;
  int fam = 1 + c.index % 10;
  std::set<int> listed;
  for (auto& e : T()) if (e.family == fam) listed.insert(e.code.value());
  auto& cat = Cat(fam);
  std::string unknown = cat.message(4711);
  VH_CHECK(!unknown.empty(), "no-message", fam);
  auto value = [&](int v) {
    if (listed.count(v)) return;
    VH_CHECK(cat.message(v) == unknown, "unlisted-message", fam << " " << v << " " << cat.message(v));
    VH_CHECK(cat.default_error_condition(v) == std::error_condition(v, cat), "unlisted-condition", fam << " " << v);
    std::error_code code(v, cat);
    VH_CHECK(code != std::errc::invalid_argument && code != std::errc::timed_out && code == std::error_condition(v, cat), "unlisted-condition", fam << " " << v);
    vh::Add("unlisted");
  };
  for (int v = -40; v < 140; ++v) value(v);
  for (int i = 0; i < 500; ++i) value(static_cast<int>(r.Next()));
  value(INT_MAX); value(INT_MIN);
  vh::Observed(c.rng.Next());
}

// integers: each either names an error of a family or is refused
namespace {
void Integer(int i) {
  int64_t v = -static_cast<int64_t>(i);
  int64_t fam = v >= 0 ? v / 100000 : 0;
  maidsafe_error e;
  auto o = vh::OutcomeCode([&] { e = IntToError(i); });
  if (v >= 0 && fam >= 1 && fam <= 10) {
    bool ok = o.empty() && &e.code().category() == &Cat(static_cast<int>(fam)) && e.code().value() == v % 100000;
    VH_CHECK(ok, "integer-in-range", i << " gave " << o << " " << e.code().value() << " " << e.code().category().name());
    if (ok) VH_CHECK(ErrorToInt(e) == i, "integer-back", i);
  } else {
    VH_CHECK(o == vh::Code(CommonErrors::parsing_error), "integer-out-of-range", i << " gave " << o);
  }
}
}  // namespace
// (the layout of a family in blocks of 100000 is learnt from ErrorToInt of the families' own errors)
VH_GROUP(layout, 1, 1) {
  for (auto& e : T()) {
    int i = ErrorToInt(maidsafe_error(e.code));
    VH_CHECK(-static_cast<int64_t>(i) == e.family * 100000LL + e.code.value(), "layout", e.name << " " << i);
  }
  auto o = vh::OutcomeCode([&] { ErrorToInt(maidsafe_error()); });
  VH_CHECK(o == vh::Code(CommonErrors::serialisation_error), "foreign-category", o);
  o = vh::OutcomeCode([&] { ErrorToInt(maidsafe_error(make_error_code(std::errc::timed_out))); });
  VH_CHECK(o == vh::Code(CommonErrors::serialisation_error), "foreign-category", o);
  for (int i : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0, 1, -1, 99999, 100000, 100001, -99999, -100000, -1099999, -1100000, -1100001}) Integer(i);
}
VH_GROUP(all_families, 11, 11) {
  int base = -100000 * static_cast<int>(c.index);
  int lo = c.index == 0 ? 2000 : 100000;
  for (int k = -3; k < lo; ++k) Integer(base - k);
  vh::Observed(c.index);
  vh::Add("integers", lo);
}
VH_GROUP(integers, 100, 20000) {
  for (int k = 0; k < 1000; ++k) {
    int i = static_cast<int>(c.rng.Next());
    if (c.rng.OneIn(3)) i = static_cast<int>((uint32_t(1) << c.rng.Below(32)) + static_cast<uint32_t>(c.rng.Range(-3, 3)));
    Integer(i);
    vh::Observed(static_cast<uint32_t>(i));
  }
  vh::Add("integers", 1000);
}

// categories asked for by many threads at once are one and the same
VH_GROUP(concurrent, 20, 400) {
  std::vector<std::thread> th;
  std::atomic<int> bad{0};
  uint64_t seed = c.rng.Next();
  for (int k = 0; k < 4; ++k) th.emplace_back([&, k] {
    vh::Rng r(seed + k);
    for (int i = 0; i < 200; ++i) {
      auto& e = T()[r.Below(T().size())];
      if (IntToError(ErrorToInt(maidsafe_error(e.code))).code() != e.code || &Cat(e.family) != e.category || e.code.message().empty()) ++bad;
    }
  });
  for (auto& t : th) t.join();
  VH_CHECK(bad == 0, "concurrent", bad.load());
}
