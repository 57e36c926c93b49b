#pragma once
#include <string_view>
#include <cctype>
namespace absl {
inline bool StartsWith(std::string_view a, std::string_view p) { return a.size() >= p.size() && a.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view a, std::string_view p) { return a.size() >= p.size() && a.substr(a.size() - p.size()) == p; }
inline bool StrContains(std::string_view a, std::string_view p) { return a.find(p) != std::string_view::npos; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false; return true; }
inline bool EndsWithIgnoreCase(std::string_view a, std::string_view p) { return a.size() >= p.size() && EqualsIgnoreCase(a.substr(a.size() - p.size()), p); }
inline bool StartsWithIgnoreCase(std::string_view a, std::string_view p) { return a.size() >= p.size() && EqualsIgnoreCase(a.substr(0, p.size()), p); }
}
