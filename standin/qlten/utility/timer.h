// Stand-in for TensorToolkit's timer (see ../qlten.h).
#ifndef QLTEN_UTILITY_TIMER_H
#define QLTEN_UTILITY_TIMER_H
#include <chrono>
#include <iostream>
#include <string>
namespace qlten {
class Timer {
 public:
  explicit Timer(const std::string &notes = "") : notes_(notes), t0_(Now()) {}
  void Restart() { t0_ = Now(); }
  void ClearAndRestart() { t0_ = Now(); }
  void Suspend() {}
  void Continue() {}
  double Elapsed() const { return Now() - t0_; }
  double PrintElapsed(std::size_t = 5) const { return Elapsed(); }
 private:
  static double Now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  std::string notes_;
  double t0_;
};
}  // namespace qlten
#endif
