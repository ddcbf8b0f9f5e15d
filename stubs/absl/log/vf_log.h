// Analysis/demonstration stand-in for the parts of absl/log that Ceres uses.
// Only declares what the sources mention; failure paths are [[noreturn]]-like
// (vf::CheckFail / vf::FatalMessage abort in their destructor).
#ifndef VF_ABSL_LOG_H_
#define VF_ABSL_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <iostream>
namespace vf {
class CheckFail {
 public:
  CheckFail(const char* what) { s_ << what << " "; }
  [[noreturn]] ~CheckFail() { std::fputs((s_.str() + "\n").c_str(), stderr); std::abort(); }
  std::ostream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
class FatalMessage {
 public:
  FatalMessage() = default;
  [[noreturn]] ~FatalMessage() { std::fputs((s_.str() + "\n").c_str(), stderr); std::abort(); }
  std::ostream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
class LogMessage {
 public:
  explicit LogMessage(int severity) : severity_(severity) {}
  std::ostream& stream() { return s_; }
 private:
  int severity_;
  std::ostringstream s_;
};
struct Voidify {
  void operator&&(std::ostream&) const {}
};
bool VlogIsOn(int level);
inline bool VlogIsOn(int) { return false; }
}  // namespace vf
#endif
