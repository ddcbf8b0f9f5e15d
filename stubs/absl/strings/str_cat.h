#ifndef VF_ABSL_STRCAT_H_
#define VF_ABSL_STRCAT_H_
#include <sstream>
#include <string>
namespace absl {
template <typename... A>
std::string StrCat(const A&... a) { std::ostringstream s; ((s << a), ...); return s.str(); }
template <typename... A>
void StrAppend(std::string* d, const A&... a) { d->append(StrCat(a...)); }
}
#endif
