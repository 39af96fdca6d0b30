// A small random source with the interface the helper headers ten.h and gs.h use, for stand-alone demonstrations.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace pbt {
struct Discard {};
inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline void fail(const std::string &m) { fprintf(stderr, "FAILED: %s\n", m.c_str()); fflush(stderr); std::_Exit(1); }
#define PBT_REQUIRE(cond, msg) do { if (!(cond)) { std::ostringstream os_; os_ << msg; ::pbt::fail(os_.str()); } } while (0)
class Src {
 public:
  explicit Src(uint64_t seed) : st_(seed) {}
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : splitmix(st_) % n; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
  bool flip() { return below(2) == 1; }
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t t = 0; for (auto x : w) t += x;
    uint64_t v = below(t); size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }
  double coef(bool = false) { double v = (double) range(1, 2000) / 1000; return flip() ? -v : v; }
  std::ostringstream note;
  void label(const std::string &) {}
  void nontrivial(bool = true) {}
 private:
  uint64_t st_;
};
}  // namespace pbt
