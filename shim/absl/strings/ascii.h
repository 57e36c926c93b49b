#pragma once
#include <string>
#include <string_view>
namespace absl {
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'a' && c <= 'z') c -= 32; return r; }
}
