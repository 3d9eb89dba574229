// Stand-in for the proposed Boost.Expected (ptal/expected), which the MaidSafe super-project
// bundled and which no released Boost contains.  Only the interface MaidSafe-Common uses.
// Accessing the wrong alternative is a precondition violation there; here it throws
// bad_expected_access, as the original's value() did.
#ifndef VERIF_SHIM_BOOST_EXPECTED_HPP_
#define VERIF_SHIM_BOOST_EXPECTED_HPP_
#include <exception>
#include <new>
#include <stdexcept>
#include <utility>
#include "boost/optional.hpp"

namespace boost {

template <typename E>
struct bad_expected_access : std::logic_error {
  explicit bad_expected_access(E e) : std::logic_error("bad_expected_access"), error_value(std::move(e)) {}
  E error_value;
};

template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(E e) : error_(std::move(e)) {}
  const E& value() const { return error_; }

 private:
  E error_;
};

template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}

template <typename T, typename E>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;
  expected() : value_(T()) {}
  expected(const T& v) : value_(v) {}
  expected(T&& v) : value_(std::move(v)) {}
  template <typename E2>
  expected(const unexpected_type<E2>& u) : error_(E(u.value())) {}
  bool valid() const { return !!value_; }
  explicit operator bool() const { return !!value_; }
  bool operator!() const { return !value_; }
  const T& value() const { check(); return *value_; }
  T& value() { check(); return *value_; }
  const T& operator*() const { check(); return *value_; }
  T& operator*() { check(); return *value_; }
  const T* operator->() const { check(); return &*value_; }
  T* operator->() { check(); return &*value_; }
  const E& error() const {
    if (value_) throw std::logic_error("expected holds a value, not an error");
    return *error_;
  }

 private:
  void check() const { if (!value_) throw bad_expected_access<E>(*error_); }
  boost::optional<T> value_;
  boost::optional<E> error_;
};

}  // namespace boost
#endif
