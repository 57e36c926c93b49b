#pragma once
#include "absl/strings/match.h"
#include <string>
#include <string_view>
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
struct ByAnyChar { std::string d; explicit ByAnyChar(std::string_view s) : d(s) {} };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
namespace shim {
struct SplitResult {
  std::vector<std::string_view> v;
  operator std::vector<std::string>() const { return std::vector<std::string>(v.begin(), v.end()); }
  operator std::vector<std::string_view>() const { return v; }
  auto begin() const { return v.begin(); } auto end() const { return v.end(); }
};
template <class P> SplitResult Split(std::string_view s, std::string_view d, P p) { SplitResult r; size_t b = 0; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || d.find(s[i]) != std::string_view::npos) { std::string_view t = s.substr(b, i - b); if (p(t)) r.v.push_back(t); b = i + 1; } return r; }
}
template <class P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, const ByAnyChar& d, P p = P()) { return shim::Split(s, d.d, p); }
template <class P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, char c, P p = P()) { return shim::Split(s, std::string_view(&c, 1), p); }
template <class P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, const char* c, P p = P()) { return shim::Split(s, std::string_view(c, 1), p); }
}
