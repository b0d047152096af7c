#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <iostream>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>
namespace vf {
// deterministic RNG, independent of the standard library's distributions
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  bool chance(int pct) { return below(100) < pct; }
};
inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
// what is being called right now, for the report if it crashes or hangs
inline void inProgress(const std::string& s) {
  static int fd = open(getenv("VF_OP") ? getenv("VF_OP") : "current.op", O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) return;
  ssize_t n = pwrite(fd, s.data(), s.size(), 0); (void)n;
  int r = ftruncate(fd, s.size()); (void)r;
}
inline std::string num(long long v) { std::ostringstream o; o << v; return o.str(); }
template <class It> std::string jints(It b, It e) {
  std::string r = "[";
  for (It i = b; i != e; ++i) { if (i != b) r += ","; r += num(*i); }
  return r + "]";
}
inline std::string jints(const std::vector<int>& v) { return jints(v.begin(), v.end()); }
inline std::string jstrs(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += jstr(v[i]); }
  return r + "]";
}
}
#endif
