#pragma once
#include <string>
#ifdef THOROUGH
#define TH 1
#else
#define TH 0
#endif
static inline std::string nm(const char* b, int i, int j = -1, int k = -1) {
  std::string s = std::string(b) + std::to_string(i);
  if (j >= 0) s += "_" + std::to_string(j);
  if (k >= 0) s += "_" + std::to_string(k);
  return s;
}
