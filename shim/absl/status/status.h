#pragma once
#include "absl/strings/str_format.h"
#include <string>
#include <string_view>
#include <ostream>
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class [[nodiscard]] Status {
 public:
  Status() : c_(StatusCode::kOk) {}
  Status(StatusCode c, std::string_view m) : c_(c), m_(c == StatusCode::kOk ? std::string() : std::string(m)) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  int raw_code() const { return (int)c_; }
  std::string_view message() const { return m_; }
  std::string ToString() const { return ok() ? "OK" : "ERROR: " + m_; }
  void Update(const Status& o) { if (ok()) *this = o; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.c_ == b.c_ && a.m_ == b.m_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
 private:
  StatusCode c_; std::string m_;
};
inline Status OkStatus() { return Status(); }
#define SYMX_E(N) inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SYMX_E(Cancelled) SYMX_E(Unknown) SYMX_E(InvalidArgument) SYMX_E(DeadlineExceeded) SYMX_E(NotFound) SYMX_E(AlreadyExists) SYMX_E(PermissionDenied) SYMX_E(ResourceExhausted) SYMX_E(FailedPrecondition) SYMX_E(Aborted) SYMX_E(OutOfRange) SYMX_E(Unimplemented) SYMX_E(Internal) SYMX_E(Unavailable) SYMX_E(DataLoss)
#undef SYMX_E
}
