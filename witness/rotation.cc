// Instantiation witness for include/ceres/rotation.h (never executed).
#include "ceres/jet.h"
#include "ceres/rotation.h"
namespace w {
using namespace ceres;
template <class O, class T>
struct Quat {
  static void aa2q(const T* a, T* q) { AngleAxisToQuaternion<O>(a, q); }
  static void q2aa(const T* q, T* a) { QuaternionToAngleAxis<O>(q, a); }
  static void q2r(const T* q, T* R) { QuaternionToRotation<O>(q, R); }
  static void q2r_col(const T* q, T* R) { QuaternionToRotation<O>(q, ColumnMajorAdapter3x3(R)); }
  static void q2r_str(const T* q, T* R) { QuaternionToRotation<O>(q, MatrixAdapter<T, 4, 1>(R)); }
  static void q2sr(const T* q, T* R) { QuaternionToScaledRotation<O>(q, R); }
  static void q2sr_col(const T* q, T* R) { QuaternionToScaledRotation<O>(q, ColumnMajorAdapter3x3(R)); }
  static void q2sr_str(const T* q, T* R) { QuaternionToScaledRotation<O>(q, MatrixAdapter<T, 4, 1>(R)); }
  static void uqrot(const T* q, const T* p, T* r) { UnitQuaternionRotatePoint<O>(q, p, r); }
  static void qrot(const T* q, const T* p, T* r) { QuaternionRotatePoint<O>(q, p, r); }
  static void qprod(const T* z, const T* w, T* zw) { QuaternionProduct<O>(z, w, zw); }
  static void qconj(const T* q, T* z) { QuaternionConjugate<O>(q, z); }
  static std::array<T, 4> make(T w, T x, T y, T z) { return MakeQuaternion<O>(w, x, y, z); }
  static std::array<T, 4> to_ceres(const std::array<T, 4>& q) { return ConvertQuaternion<CeresQuaternionOrder, O>(q); }
  static std::array<T, 4> to_eigen(const std::array<T, 4>& q) { return ConvertQuaternion<EigenQuaternionOrder, O>(q); }
};
template <class O>
struct QuatD {
  static void r2q(const double* R, double* q) { RotationMatrixToQuaternion<O>(R, q); }
  static void r2q_row(const double* R, double* q) { RotationMatrixToQuaternion<O>(RowMajorAdapter3x3(R), q); }
  static void r2q_str(const double* R, double* q) { RotationMatrixToQuaternion<O>(MatrixAdapter<const double, 4, 1>(R), q); }
};
template struct Quat<CeresQuaternionOrder, double>;
template struct Quat<EigenQuaternionOrder, double>;
template struct Quat<CeresQuaternionOrder, Jet<double, 4>>;
template struct Quat<EigenQuaternionOrder, Jet<double, 4>>;
template struct QuatD<CeresQuaternionOrder>;
template struct QuatD<EigenQuaternionOrder>;
template <class T>
struct Aa {
  static void aa2r(const T* a, T* R) { AngleAxisToRotationMatrix(a, R); }
  static void aa2r_row(const T* a, T* R) { AngleAxisToRotationMatrix(a, RowMajorAdapter3x3(R)); }
  static void aa2r_str(const T* a, T* R) { AngleAxisToRotationMatrix(a, MatrixAdapter<T, 4, 1>(R)); }
  static void aarot(const T* a, const T* p, T* r) { AngleAxisRotatePoint(a, p, r); }
  static void cross(const T* x, const T* y, T* z) { CrossProduct(x, y, z); }
  static T dot(const T* x, const T* y) { return DotProduct(x, y); }
};
template struct Aa<double>;
template struct Aa<Jet<double, 3>>;
struct R2 {
  static void r2aa(const double* R, double* a) { RotationMatrixToAngleAxis(R, a); }
  static void r2aa_row(const double* R, double* a) { RotationMatrixToAngleAxis(RowMajorAdapter3x3(R), a); }
  static void r2aa_str(const double* R, double* a) { RotationMatrixToAngleAxis(MatrixAdapter<const double, 4, 1>(R), a); }
  static void deg2r(const double* e, double* R) { EulerAnglesToRotationMatrix(e, 3, R); }
  static void deg2r_col(const double* e, double* R) { EulerAnglesToRotationMatrix(e, ColumnMajorAdapter3x3(R)); }
};
template <class E>
struct Euler {
  static void e2r(const double* e, double* R) { EulerAnglesToRotation<E>(e, R); }
  static void e2r_col(const double* e, double* R) { EulerAnglesToRotation<E>(e, ColumnMajorAdapter3x3(R)); }
  static void r2e(const double* R, double* e) { RotationMatrixToEulerAngles<E>(R, e); }
  static void r2e_col(const double* R, double* e) { RotationMatrixToEulerAngles<E>(ColumnMajorAdapter3x3(R), e); }
};
#define ES(x) struct x : Euler<ceres::x> {}; \
  inline void use_##x(const double* e, double* R) { x::e2r(e, R); x::e2r_col(e, R); x::r2e(R, R); x::r2e_col(R, R); }
#define EB(x) ES(Extrinsic##x) ES(Intrinsic##x)
EB(XYZ) EB(XZY) EB(YXZ) EB(YZX) EB(ZXY) EB(ZYX) EB(XYX) EB(XZX) EB(YXY) EB(YZY) EB(ZXZ) EB(ZYZ)
}  // namespace w
