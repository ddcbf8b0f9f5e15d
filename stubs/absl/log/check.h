#ifndef VF_ABSL_CHECK_H_
#define VF_ABSL_CHECK_H_
#include "absl/log/vf_log.h"
#define CHECK(c) (c) ? (void)0 : ::vf::Voidify() && ::vf::CheckFail("CHECK failed: " #c).stream()
#define VF_CHECK_OP(a, op, b) ((a)op(b)) ? (void)0 : ::vf::Voidify() && ::vf::CheckFail("CHECK failed: " #a " " #op " " #b).stream()
#define CHECK_EQ(a, b) VF_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) VF_CHECK_OP(a, !=, b)
#define CHECK_LE(a, b) VF_CHECK_OP(a, <=, b)
#define CHECK_LT(a, b) VF_CHECK_OP(a, <, b)
#define CHECK_GE(a, b) VF_CHECK_OP(a, >=, b)
#define CHECK_GT(a, b) VF_CHECK_OP(a, >, b)
// As in a release (NDEBUG) build of Abseil: parsed, never evaluated.
#define VF_DEAD_CHECK(c) (true || (c)) ? (void)0 : ::vf::Voidify() && ::vf::LogMessage(0).stream()
#define DCHECK(c) VF_DEAD_CHECK(c)
#define DCHECK_EQ(a, b) VF_DEAD_CHECK((a) == (b))
#define DCHECK_NE(a, b) VF_DEAD_CHECK((a) != (b))
#define DCHECK_LE(a, b) VF_DEAD_CHECK((a) <= (b))
#define DCHECK_LT(a, b) VF_DEAD_CHECK((a) < (b))
#define DCHECK_GE(a, b) VF_DEAD_CHECK((a) >= (b))
#define DCHECK_GT(a, b) VF_DEAD_CHECK((a) > (b))
#endif
