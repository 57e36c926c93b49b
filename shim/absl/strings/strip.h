#pragma once
#include <string_view>
#include "absl/strings/match.h"
namespace absl {
inline std::string_view StripSuffix(std::string_view s, std::string_view x) { return EndsWith(s, x) ? s.substr(0, s.size() - x.size()) : s; }
inline std::string_view StripPrefix(std::string_view s, std::string_view x) { return StartsWith(s, x) ? s.substr(x.size()) : s; }
}
