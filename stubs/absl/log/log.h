#ifndef VF_ABSL_LOGLOG_H_
#define VF_ABSL_LOGLOG_H_
#include "absl/log/vf_log.h"
#define VF_LOG_INFO ::vf::LogMessage(0).stream()
#define VF_LOG_WARNING ::vf::LogMessage(1).stream()
#define VF_LOG_ERROR ::vf::LogMessage(2).stream()
#define VF_LOG_FATAL ::vf::FatalMessage().stream()
#define VF_LOG_DFATAL ::vf::LogMessage(2).stream()
#define LOG(sev) VF_LOG_##sev
#define LOG_IF(sev, c) !(c) ? (void)0 : ::vf::Voidify() && LOG(sev)
#define VLOG_IS_ON(n) (::vf::VlogIsOn(n))
#define VLOG(n) !VLOG_IS_ON(n) ? (void)0 : ::vf::Voidify() && VF_LOG_INFO
#endif
