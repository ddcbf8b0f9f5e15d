// Instantiation witness for cubic interpolation (never executed).
#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
namespace w {
struct G1 {  // an unspecified infinite grid; GetValue is opaque to the analysis
  enum { DATA_DIMENSION = 2 };
  void GetValue(int n, double* f) const;
};
struct G2 {
  enum { DATA_DIMENSION = 2 };
  void GetValue(int r, int c, double* f) const;
};
using J = ceres::Jet<double, 3>;
inline void cubic(const G1& g, const double x, double* f, double* dfdx) { ceres::CubicInterpolator<G1>(g).Evaluate(x, f, dfdx); }
inline void cubic2(const G1& g, const double x, double* f) { ceres::CubicInterpolator<G1>(g).Evaluate(x, f); }
inline void cubicj(const G1& g, const J& x, J* f) { ceres::CubicInterpolator<G1>(g).Evaluate(x, f); }
inline void bicubic(const G2& g, const double r, const double c, double* f, double* dfdr, double* dfdc) { ceres::BiCubicInterpolator<G2>(g).Evaluate(r, c, f, dfdr, dfdc); }
inline void bicubic2(const G2& g, const double r, const double c, double* f) { ceres::BiCubicInterpolator<G2>(g).Evaluate(r, c, f); }
inline void bicubicj(const G2& g, const J& r, const J& c, J* f) { ceres::BiCubicInterpolator<G2>(g).Evaluate(r, c, f); }
template <int D, bool I>
inline void get1(const double* data, int b, int e, int n, double* f) { ceres::Grid1D<double, D, I>(data, b, e).GetValue(n, f); }
template <int D, bool R, bool I>
inline void get2(const double* data, int rb, int re, int cb, int ce, int r, int c, double* f) { ceres::Grid2D<double, D, R, I>(data, rb, re, cb, ce).GetValue(r, c, f); }
template void get1<1, true>(const double*, int, int, int, double*);
template void get1<1, false>(const double*, int, int, int, double*);
template void get1<3, true>(const double*, int, int, int, double*);
template void get1<3, false>(const double*, int, int, int, double*);
#define G2I(D, R, I) template void get2<D, R, I>(const double*, int, int, int, int, int, int, double*);
G2I(1, true, true) G2I(1, true, false) G2I(1, false, true) G2I(1, false, false)
G2I(2, true, true) G2I(2, true, false) G2I(2, false, true) G2I(2, false, false)
}  // namespace w
