#pragma once
#include "absl/time/time.h"
namespace absl {
double vf_clock();  // only ever analysed
inline Time Now() { return {vf_clock()}; }
}
