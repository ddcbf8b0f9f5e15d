// Instantiation witness for include/ceres/jet.h.  Never executed: it only makes
// the front end instantiate every operation, so that its body can be analysed.
#include "ceres/jet.h"
namespace w {
using namespace ceres;
template <class J, class S>
struct Ops {
  // unary
  static J pos(const J& f) { return +f; }
  static J neg(const J& f) { return -f; }
#define U(n) static J n(const J& f) { using ceres::n; return ceres::n(f); }
  U(abs) U(log) U(log10) U(log1p) U(exp) U(expm1) U(sqrt) U(cos) U(acos) U(sin) U(asin) U(tan) U(atan)
  U(sinh) U(cosh) U(tanh) U(floor) U(ceil) U(cbrt) U(exp2) U(log2) U(erf) U(erfc) U(norm)
#undef U
  static J add(const J& f, const J& g) { return f + g; }
  static J adds(const J& f, S s) { return f + s; }
  static J sadd(S s, const J& f) { return s + f; }
  static J sub(const J& f, const J& g) { return f - g; }
  static J subs(const J& f, S s) { return f - s; }
  static J ssub(S s, const J& f) { return s - f; }
  static J mul(const J& f, const J& g) { return f * g; }
  static J muls(const J& f, S s) { return f * s; }
  static J smul(S s, const J& f) { return s * f; }
  static J div(const J& f, const J& g) { return f / g; }
  static J divs(const J& f, S s) { return f / s; }
  static J sdiv(S s, const J& f) { return s / f; }
  static J cadd(J f, const J& g) { f += g; return f; }
  static J csub(J f, const J& g) { f -= g; return f; }
  static J cmul(J f, const J& g) { f *= g; return f; }
  static J cdiv(J f, const J& g) { f /= g; return f; }
  static J cadds(J f, S s) { f += s; return f; }
  static J csubs(J f, S s) { f -= s; return f; }
  static J cmuls(J f, S s) { f *= s; return f; }
  static J cdivs(J f, S s) { f /= s; return f; }
  static J selfmul(J f) { f *= f; return f; }
  static J selfdiv(J f) { f /= f; return f; }
  static J hypot2(const J& f, const J& g) { return ceres::hypot(f, g); }
  static J hypot3(const J& f, const J& g, const J& h) { return ceres::hypot(f, g, h); }
  static J fma3(const J& f, const J& g, const J& h) { return ceres::fma(f, g, h); }
  static J copysign2(const J& f, const J& g) { return ceres::copysign(f, g); }
  static J fmax2(const J& f, const J& g) { return ceres::fmax(f, g); }
  static J fmin2(const J& f, const J& g) { return ceres::fmin(f, g); }
  static J fdim2(const J& f, const J& g) { return ceres::fdim(f, g); }
  static J atan2_(const J& f, const J& g) { return ceres::atan2(f, g); }
#ifdef CERES_HAS_CPP20
  static J lerp3(const J& f, const J& g, const J& h) { return ceres::lerp(f, g, h); }
  static J midpoint2(const J& f, const J& g) { return ceres::midpoint(f, g); }
#endif
  static J ctor0() { return J(); }
  static J ctor1(S s) { return J(s); }
  static J ctork0(S s) { return J(s, 0); }
  static J ctork1(S s) { return J(s, 1); }
  // classification / comparison
  static bool lt(const J& f, const J& g) { return f < g; }
  static bool le(const J& f, const J& g) { return f <= g; }
  static bool gt(const J& f, const J& g) { return f > g; }
  static bool ge(const J& f, const J& g) { return f >= g; }
  static bool eq(const J& f, const J& g) { return f == g; }
  static bool ne(const J& f, const J& g) { return f != g; }
  static bool p_isfinite(const J& f) { return ceres::isfinite(f); }
  static bool p_isinf(const J& f) { return ceres::isinf(f); }
  static bool p_isnan(const J& f) { return ceres::isnan(f); }
  static bool p_isnormal(const J& f) { return ceres::isnormal(f); }
  static bool p_signbit(const J& f) { return ceres::signbit(f); }
  static int p_fpclassify(const J& f) { return ceres::fpclassify(f); }
  static bool p_isless(const J& f, const J& g) { return ceres::isless(f, g); }
  static bool p_isgreater(const J& f, const J& g) { return ceres::isgreater(f, g); }
  static bool p_islessequal(const J& f, const J& g) { return ceres::islessequal(f, g); }
  static bool p_isgreaterequal(const J& f, const J& g) { return ceres::isgreaterequal(f, g); }
  static bool p_islessgreater(const J& f, const J& g) { return ceres::islessgreater(f, g); }
  static bool p_isunordered(const J& f, const J& g) { return ceres::isunordered(f, g); }
};
template <class J, class S>
struct Ops1 {  // first-order jets only
  static J powjs(const J& f, double s) { return ceres::pow(f, s); }
  static J powsj(S s, const J& f) { return ceres::pow(s, f); }
  static J powjj(const J& f, const J& g) { return ceres::pow(f, g); }
  static bool lts(const J& f, S s) { return f < s; }
  static bool les(const J& f, S s) { return f <= s; }
  static bool gts(const J& f, S s) { return f > s; }
  static bool ges(const J& f, S s) { return f >= s; }
  static bool eqs(const J& f, S s) { return f == s; }
  static bool nes(const J& f, S s) { return f != s; }
  static bool slt(S s, const J& f) { return s < f; }
  static bool sle(S s, const J& f) { return s <= f; }
  static bool sgt(S s, const J& f) { return s > f; }
  static bool sge(S s, const J& f) { return s >= f; }
  static bool seq(S s, const J& f) { return s == f; }
  static bool sne(S s, const J& f) { return s != f; }
  static J besselJ0(const J& f) { return ceres::BesselJ0(f); }
  static J besselJ1(const J& f) { return ceres::BesselJ1(f); }
  static J besselJn0(const J& f) { return ceres::BesselJn(0, f); }
  static J besselJn1(const J& f) { return ceres::BesselJn(1, f); }
  static J besselJn2(const J& f) { return ceres::BesselJn(2, f); }
  static J besselJn3(const J& f) { return ceres::BesselJn(3, f); }
#if defined(__cpp_lib_math_special_functions)
  static J cylbessel(double v, const J& f) { return ceres::cyl_bessel_j(v, f); }
#endif
  static bool IsFinite_(const J& f) { return ceres::IsFinite(f); }
  static bool IsInfinite_(const J& f) { return ceres::IsInfinite(f); }
  static bool IsNaN_(const J& f) { return ceres::IsNaN(f); }
  static bool IsNormal_(const J& f) { return ceres::IsNormal(f); }
};
template struct Ops<Jet<double, 2>, double>;
template struct Ops1<Jet<double, 2>, double>;
template struct Ops<Jet<Jet<double, 1>, 2>, Jet<double, 1>>;

template <class J, class T>
struct Limits {
  using L = std::numeric_limits<J>;
  using N = Eigen::NumTraits<J>;
  static J lmin() { return (L::min)(); }
  static J lmax() { return (L::max)(); }
  static J lowest() { return L::lowest(); }
  static J epsilon() { return L::epsilon(); }
  static J round_error() { return L::round_error(); }
  static J infinity() { return L::infinity(); }
  static J quiet_NaN() { return L::quiet_NaN(); }
  static J signaling_NaN() { return L::signaling_NaN(); }
  static J denorm_min() { return L::denorm_min(); }
#define M(x) static auto m_##x() { return L::x; } static auto t_##x() { return std::numeric_limits<T>::x; }
  M(is_specialized) M(is_signed) M(is_integer) M(is_exact) M(has_infinity) M(has_quiet_NaN) M(has_signaling_NaN)
  M(is_iec559) M(is_bounded) M(is_modulo) M(has_denorm) M(round_style) M(digits) M(digits10) M(max_digits10)
  M(radix) M(min_exponent) M(min_exponent10) M(max_exponent) M(max_exponent10) M(traps) M(tinyness_before)
#undef M
};
template struct Limits<Jet<double, 2>, double>;
template struct Limits<Jet<float, 2>, float>;
}  // namespace w
namespace w {
template <class J, class T>
struct Traits {
  using N = Eigen::NumTraits<J>;
  static J epsilon() { return N::epsilon(); }
  static J quiet_NaN() { return N::quiet_NaN(); }
  static J infinity() { return N::infinity(); }
  static J highest() { return N::highest(); }
  static J lowest() { return N::lowest(); }
  static int n_digits10() { return N::digits10(); }
  static int t_digits10() { return Eigen::NumTraits<T>::digits10(); }
  static int IsComplex() { return N::IsComplex; }
  static int IsInteger() { return N::IsInteger; }
  static int IsSigned() { return N::IsSigned; }
  static int RequireInitialization() { return N::RequireInitialization; }
};
template struct Traits<Jet<double, 2>, double>;
}  // namespace w
