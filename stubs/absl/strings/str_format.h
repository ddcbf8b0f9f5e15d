#ifndef VF_ABSL_STRFORMAT_H_
#define VF_ABSL_STRFORMAT_H_
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
namespace absl {
namespace vf_internal {
// Formatting in the stand-in: one conversion per argument, re-typed to match.
template <typename T>
std::string One(std::string spec, const T& v) {
  char buf[512];
  const char conv = spec.back();
  if constexpr (std::is_convertible_v<T, std::string_view>) {
    spec.back() = 's';
    std::string s{std::string_view(v)};
    std::snprintf(buf, sizeof buf, spec.c_str(), s.c_str());
  } else if constexpr (std::is_floating_point_v<T>) {
    std::snprintf(buf, sizeof buf, spec.c_str(), double(v));
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    spec.insert(spec.size() - 1, "ll");
    std::snprintf(buf, sizeof buf, spec.c_str(), (long long)v);
  } else {
    std::snprintf(buf, sizeof buf, "%p", (const void*)v);
  }
  (void)conv;
  return buf;
}
inline void Step(std::string* out, std::string_view* f) {
  while (!f->empty()) {
    if ((*f)[0] != '%') { out->push_back((*f)[0]); f->remove_prefix(1); continue; }
    if (f->size() > 1 && (*f)[1] == '%') { out->push_back('%'); f->remove_prefix(2); continue; }
    return;
  }
}
inline std::string Spec(std::string_view* f) {
  size_t n = 1;
  while (n < f->size() && !((*f)[n] >= 'a' && (*f)[n] <= 'z' && (*f)[n] != 'l' && (*f)[n] != 'h' && (*f)[n] != 'z') &&
         !((*f)[n] >= 'A' && (*f)[n] <= 'Z')) ++n;
  std::string s;
  for (size_t i = 0; i <= n && i < f->size(); ++i)
    if ((*f)[i] != 'l' && (*f)[i] != 'h' && (*f)[i] != 'z') s.push_back((*f)[i]);
  f->remove_prefix(n + 1 > f->size() ? f->size() : n + 1);
  return s;
}
template <typename... A>
std::string Fmt(std::string_view f, const A&... a) {
  std::string out;
  auto one = [&](const auto& v) { Step(&out, &f); if (!f.empty()) out += One(Spec(&f), v); };
  (one(a), ...);
  Step(&out, &f);
  return out;
}
}  // namespace vf_internal
template <typename... A>
std::string StrFormat(std::string_view f, const A&... a) { return vf_internal::Fmt(f, a...); }
template <typename... A>
void StrAppendFormat(std::string* s, std::string_view f, const A&... a) { s->append(vf_internal::Fmt(f, a...)); }
template <typename... A>
int FPrintF(std::FILE* file, std::string_view f, const A&... a) {
  return std::fputs(vf_internal::Fmt(f, a...).c_str(), file);
}
template <typename... A>
int PrintF(std::string_view f, const A&... a) { return FPrintF(stdout, f, a...); }
}  // namespace absl
#endif
