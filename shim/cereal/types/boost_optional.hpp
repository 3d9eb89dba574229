// Stand-in for the MaidSafe fork of cereal's boost::optional support.
#ifndef VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#define VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#include "boost/optional.hpp"
#include "cereal/cereal.hpp"

namespace cereal {
template <class Archive, typename T>
void CEREAL_SAVE_FUNCTION_NAME(Archive& archive, const boost::optional<T>& opt) {
  bool initialised(!!opt);
  archive(CEREAL_NVP_("is_initialised", initialised));
  if (initialised) archive(CEREAL_NVP_("value", *opt));
}
template <class Archive, typename T>
void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::optional<T>& opt) {
  bool initialised(false);
  archive(CEREAL_NVP_("is_initialised", initialised));
  if (initialised) {
    T value;
    archive(CEREAL_NVP_("value", value));
    opt = std::move(value);
  } else {
    opt = boost::none;
  }
}
}  // namespace cereal
#endif
