#pragma once
#include "absl/strings/str_format.h"
namespace absl {
namespace shim {
template <class T> std::string Cat1(const T& v) {
  if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(v));
  else if constexpr (std::is_floating_point_v<T>) return One("%g", v);
  else return One("%d", v);
}
}
template <class... A> std::string StrCat(const A&... a) { std::string o; ((o += shim::Cat1(a)), ...); return o; }
template <class... A> void StrAppend(std::string* o, const A&... a) { ((*o += shim::Cat1(a)), ...); }
}
