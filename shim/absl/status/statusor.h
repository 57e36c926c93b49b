#pragma once
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/check.h"
#include "absl/status/status.h"
namespace absl {
template <class T> class [[nodiscard]] StatusOr {
 public:
  StatusOr() : s_(UnknownError("")) {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) sym_fatal("StatusOr constructed from OK status"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) sym_fatal("StatusOr constructed from OK status"); }
  template <class U = T, class = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status>>>
  StatusOr(U&& v) : v_(std::in_place, std::forward<U>(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return std::move(s_); }
  T& value() & { Need(); return *v_; }
  const T& value() const& { Need(); return *v_; }
  T&& value() && { Need(); return std::move(*v_); }
  T& operator*() & { Need(); return *v_; }
  const T& operator*() const& { Need(); return *v_; }
  T&& operator*() && { Need(); return std::move(*v_); }
  T* operator->() { Need(); return &*v_; }
  const T* operator->() const { Need(); return &*v_; }
  template <class U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <class U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
 private:
  void Need() const { if (!s_.ok()) sym_fatal("StatusOr value accessed on error"); }
  Status s_; std::optional<T> v_;
};
}
