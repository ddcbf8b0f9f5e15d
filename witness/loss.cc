#include "ceres/loss_function.h"
namespace w { void use(ceres::LossFunctionWrapper& w, ceres::LossFunction* f, double* o) { w.Evaluate(1.0, o); w.Reset(f, ceres::TAKE_OWNERSHIP); } }
