#pragma once
#include <array>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "sym.h"
namespace absl {
namespace shim {
// formatted symbolic values show up in the text as <dK> or <iK>, K indexing these tables
inline std::vector<double>& DTok() { static auto* v = new std::vector<double>; return *v; }
inline std::vector<long>& ITok() { static auto* v = new std::vector<long>; return *v; }
template <class T> inline std::string One(const std::string& spec, const T& v) {
  if constexpr (std::is_enum_v<T>) { return One(spec, (long)v); }
  else if constexpr (std::is_same_v<T, bool>) { return v ? "1" : "0"; }
  else if constexpr (std::is_floating_point_v<T>) {
    if (sym_is_symbolic_d((double)v)) { DTok().push_back((double)v); return "<d" + std::to_string(DTok().size() - 1) + ">"; }
    char b[400]; snprintf(b, sizeof b, spec.c_str(), (double)v); return b;
  } else if constexpr (std::is_integral_v<T>) {
    if (sym_is_symbolic_i((long)v)) { ITok().push_back((long)v); return "<i" + std::to_string(ITok().size() - 1) + ">"; }
    char c = spec.back();
    if (c == 'c') return std::string(1, (char)v);
    if (c == 's' || c == 'v') return std::to_string(v);
    std::string s = spec.substr(0, spec.size() - 1);
    while (!s.empty() && (s.back() == 'l' || s.back() == 'z' || s.back() == 'h')) s.pop_back();
    s += "l"; s += c;
    char b[400]; snprintf(b, sizeof b, s.c_str(), (long)v); return b;
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    std::string_view sv = v; std::string t(sv); char b[2000];
    if (spec == "%s" || spec == "%v" || t.size() > 1500) return t;
    snprintf(b, sizeof b, spec.c_str(), t.c_str()); return b;
  } else return "<obj>";
}
inline void Fmt(std::string& o, const char* f) { while (*f) { if (f[0] == '%' && f[1] == '%') f++; o += *f++; } }
template <class T, class... R> void Fmt(std::string& o, const char* f, const T& v, const R&... r) {
  while (*f) {
    if (*f == '%') {
      if (f[1] == '%') { o += '%'; f += 2; continue; }
      std::string spec = "%"; f++;
      while (*f && !((*f >= 'a' && *f <= 'z' && *f != 'l' && *f != 'h' && *f != 'z') || (*f >= 'A' && *f <= 'Z'))) spec += *f++;
      if (*f) spec += *f++;
      o += One(spec, v);
      Fmt(o, f, r...);
      return;
    }
    o += *f++;
  }
}
}
template <class... A> std::string StrFormat(const char* f, const A&... a) { std::string o; shim::Fmt(o, f, a...); return o; }
template <class... A> int PrintF(const char*, const A&...) { return 0; }
template <class... A> int FPrintF(FILE*, const char*, const A&...) { return 0; }
}
