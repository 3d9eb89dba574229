// Helpers that know MaidSafe-Common's error types.
#ifndef VERIF_HARNESS_VH_MS_H_
#define VERIF_HARNESS_VH_MS_H_
#include <string>
#include "maidsafe/common/error.h"
#include "vh.h"
namespace vh {
// "" when f returned, "lib" when it threw the library's error, otherwise what else it threw.
template <typename F>
std::string Outcome(F f) {
  try {
    f();
    return "";
  } catch (const maidsafe::maidsafe_error&) {
    return "lib";
  } catch (const std::exception& e) {
    return std::string("std:") + e.what();
  } catch (...) {
    return "other";
  }
}
// As Outcome, but distinguishes the error code: "lib:<category>:<value>".
template <typename F>
std::string OutcomeCode(F f) {
  try {
    f();
    return "";
  } catch (const maidsafe::maidsafe_error& e) {
    return std::string("lib:") + e.code().category().name() + ":" + std::to_string(e.code().value());
  } catch (const std::exception& e) {
    return std::string("std:") + e.what();
  } catch (...) {
    return "other";
  }
}
inline std::string Code(maidsafe::CommonErrors e) {
  auto c = maidsafe::make_error_code(e);
  return std::string("lib:") + c.category().name() + ":" + std::to_string(c.value());
}
template <typename E>
std::string CodeOf(E e) {
  auto c = maidsafe::make_error_code(e);
  return std::string("lib:") + c.category().name() + ":" + std::to_string(c.value());
}
}  // namespace vh
#endif
