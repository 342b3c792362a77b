L='src/lipm-dcm-estimator.cpp'; U='src/unidim-lipm-dcm-estimator.cpp'; AS='src/algebraic-sensor.cpp'; G='src/gaussian-white-noise.cpp'
AGM='src/accelerometer-gyrometer-magnetometer.cpp'; AG='src/accelerometer-gyrometer.cpp'; T='src/tilt-estimator.cpp'
M='include/state-observation/tools/miscellaneous-algorithms.hpp'; I='src/imu-dynamical-system.cpp'; IM='src/imu-magnetometer-dynamical-system.cpp'
P='src/imu-mltpctive-dynamical-system.cpp'; BI='src/bidim-elastic-inv-pendulum-dyn-sys.cpp'
B=[
("c14a","C14",L,"    if(biasLimit_.y() > 0)\n    {\n      clampedLocalBias.y() = tools::clampScalar(localBias.y(), biasLimit_.y());","    if(biasLimit_.y() > 0)\n    {\n      clampedLocalBias.y() = tools::clampScalar(localBias.y(), biasLimit_.x() > 0 ? biasLimit_.x() : biasLimit_.y());"),
("c14b","C14",L,"  if(biasLimit_.x() > 0 || biasLimit_.y() > 0)","  if(biasLimit_.x() > 0)"),
("c14c","C14",L,"    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));","    setUnbiasedDCM(getUnbiasedDCM() + (localBias - clampedLocalBias));"),
("c14d","C14",L,"  previousOrientation_ = yaw;\n",""),
("c14e","C14",L,"  previousZmp_ = measuredZMP;\n",""),
("c14f","C14",L,"    A_.bottomRightCorner<2, 2>() = orientation * previousOrientation_.transpose(); /// set","    A_.bottomRightCorner<2, 2>() = previousOrientation_.transpose() * orientation; /// set"),
("c14g","C14",L,"      update(); /// update","      filter_.estimateState(); /// update"),
("c14h","C14",L,"  R_ = dblToSqDiag(std);\n  filter_.setMeasurementCovariance(R_);\n}","  filter_.setMeasurementCovariance(dblToSqDiag(std));\n}"),
("c14i","C14",L,"  A_.topLeftCorner<2,2>() = dblToDiag(1 + omega0_ * dt_);","  A_.setIdentity(); A_.topLeftCorner<2,2>() = dblToDiag(1 + omega0_ * dt_);"),
("c14j","C14",L,"    P<< initBiasCov+R_, -initBiasCov,\n       -initBiasCov,     initBiasCov;","    P<< initBiasCov+R_, initBiasCov,\n       initBiasCov,     initBiasCov;"),
("c14k","C14",L,"  /// resetting the non diagonal parts\n  P.topRightCorner<2, 2>().setZero();\n  P.bottomLeftCorner<2, 2>().setZero();\n  P.topLeftCorner<2, 2>()","  P.topLeftCorner<2, 2>()"),
("c14l","C14",U,"  /// resetting the non diagonal parts\n  P(0, 1) = P(1, 0) = 0;\n  P(1, 1)","  P(1, 1)"),
("c14m","C14",U,"  biasDriftStd_ = biasDriftStd;\n  zmpErrorStd_ = zmpMeasureErrorStd;\n  previousZmp_ = measuredZMP;\n  updateMatricesABQ_();","  updateMatricesABQ_();\n  biasDriftStd_ = biasDriftStd;\n  zmpErrorStd_ = zmpMeasureErrorStd;\n  previousZmp_ = measuredZMP;"),
("c14n","C14",U,"        0,                                   square(biasDriftStd_*dt_);","        0,                                   square(biasDriftStd_)*dt_;"),
("c14o","C14",U,"  R_(0, 0) = square(std);\n  filter_.setMeasurementCovariance(R_);","  R_(0, 0) = square(std);"),
("c14p","C14",U,"    x << measuredDcm - initBias, initBias;","    x << measuredDcm - initBias, initBias;\n    if(initBiasuncertainty == 0) x(0) = measuredDcm;"),
("c14q","C14",U,"  previousZmp_ = measuredZMP;\n","  if(measurementIsWithBias) previousZmp_ = measuredZMP;\n"),
("c14r","C14",L,"  filter_.reset();\n  previousZmp_","  previousZmp_"),
("c14s","C14",L,"  dt_ = dt;\n  updateMatricesABQ_();","  dt_ = dt;\n  if(filter_.getMeasurementsNumber() == 0) updateMatricesABQ_();"),
("c14t","C14",L,"    if(biasLimit_.x() > 0)\n    {\n      clampedLocalBias.x()","    if(biasLimit_.x() > 0 && localBias.x() > 0)\n    {\n      clampedLocalBias.x()"),
("c14u","C14",U,"  filter_.pushMeasurement(y);\n  filter_.pushInput(u);","  if(filter_.getMeasurementsNumber() > 0) filter_.estimateState();\n  filter_.pushMeasurement(y);\n  filter_.pushInput(u);"),
("c14v","=C14",U,"  u(0) = previousZmp_;\n  previousZmp_ = zmp;\n\n  filter_.pushMeasurement(y);\n  filter_.pushInput(u);","  u(0) = previousZmp_;\n  previousZmp_ = zmp;\n\n  filter_.pushInput(u);\n  filter_.pushMeasurement(y);"),
# C15
("c15a","C15",AS,"  storedNoisyMeasurement_ = false;\n  storedNoiselessMeasurement_ = false;\n\n  time_ = k;","  storedNoisyMeasurement_ = false;\n  if(time_ != k || true) storedNoiselessMeasurement_ = false;\n  if(time_ == k && k > 3) storedNoiselessMeasurement_ = noiselessMeasurement_.size() > 0;\n\n  time_ = k;"),
("c15b","C15",AS,"  storedNoisyMeasurement_ = false;\n  storedNoiselessMeasurement_ = false;\n","  storedNoiselessMeasurement_ = false;\n"),
("c15c","C15",AS,"  return noise_->getNoisy(noiselessMeasurement_);","  noiselessMeasurement_ = noise_->getNoisy(noiselessMeasurement_);\n  return noiselessMeasurement_;"),
("c15d","C15",AS,"  noiselessMeasurement_.resize(getMeasurementSize());","  noiselessMeasurement_.resize(getMeasurementSize());\n  storedNoiselessMeasurement_ = noiselessMeasurement_.size() == 0;"),
("c15e","C15",G,"  bias_ = Vector::Zero(dim, 1);\n  std_ = Matrix::Identity(dim, dim);\n}","  bias_ = Vector::Zero(dim, 1);\n  if(std_.rows() < dim) std_ = Matrix::Identity(dim, dim);\n  else std_ = std_.topLeftCorner(dim, dim).eval();\n}"),
("c15f","C15",G,"    std_ = ldlt.transpositionsP().transpose() * Matrix(L * d.asDiagonal());","    std_ = L * d.asDiagonal();"),
("c15g","C15",AGM,"    r_ = Eigen::Map<Matrix3>(&state_[0]);","    r_ = Eigen::Map<Matrix3>(&state_[0]).transpose();"),
("c15h","C15",AGM,"    acc_ = state_.segment<3>(9);","    acc_ = state_.segment<3>(6);"),
("c15i","C15",AGM,"  if(!matrixMode_)\n    currentStateSize_ = stateSize_;\n  else\n    currentStateSize_ = stateSizeMatrix_;","  if(matrixMode_) currentStateSize_ = stateSizeMatrix_;"),
("c15j","C15",AG,"    omega_ = state_.tail(3);","    omega_ = state_.segment(6, 3);"),
("c15k","C15",'src/linear-acceleration.cpp',"  return Vector3(orientation.transpose() * (acceleration + cst::gravity));","  return Vector3(orientation.inverse() * (acceleration + cst::gravity));"),
("c15l","C15",'src/magnetic-field.cpp',"transpose()","inverse()"),
("c15m","C15",AS,"  return getMeasurementSize();\n}\n} // namespace","  return concat_;\n}\n} // namespace"),
# C19
("c19a","C19",T,"  x_hat.tail<3>() /= x_hat.tail<3>().norm();","  if(std::abs(x_hat.tail<3>().norm() - 1) > 1e-4) x_hat.tail<3>() /= x_hat.tail<3>().norm();"),
("c19b","C19",T,"(yg - R_S_C_.transpose() * w_S_C_).cross(R_S_C_.transpose() * p_S_C_)","(yg - w_S_C_).cross(R_S_C_.transpose() * p_S_C_)"),
("c19c","C19",T,"(yg - R_S_C_.transpose() * w_S_C_).cross(R_S_C_.transpose() * p_S_C_)","(yg + R_S_C_.transpose() * w_S_C_).cross(R_S_C_.transpose() * p_S_C_)"),
("c19d","C19",T,"x2_hat_.cross(yg - gamma_ * x2_hat_.cross(x2_hat_prime_))","x2_hat_.cross(yg - gamma_ * x2_hat_.cross(x2_hat_prime_.normalized()))"),
("c19e","C19",T,"x2_hat_.cross(yg - gamma_ * x2_hat_.cross(x2_hat_prime_))","x2_hat_.cross(yg) - gamma_ * x2_hat_.cross(x2_hat_prime_).cross(x2_hat_)"),
("c19f","C19",T,"  x_.set(x_hat, k + 1);","  if(k > 0) x2_hat_prime_ = x_hat.segment<3>(3);\n  x_.set(x_hat, k + 1);\n  v_C_.setZero();"),
("c19g","C19",T,"R_S_C_.transpose() * (v_C_ + v_S_C_)","R_S_C_.transpose() * v_C_ + v_S_C_"),
("c19h","C19",T,"alpha_(alpha), beta_(beta), gamma_(gamma)","alpha_(alpha), beta_(beta), gamma_(gamma > 0 ? gamma : beta)"),
("c19i","C19",'include/state-observation/observer/tilt-estimator.hpp',"    beta_ = beta;","    if(beta > 0) beta_ = beta;"),
# C20
("c20a","C20",M,"  if(sax > 0)","  if(sax > 1e-3)"),
("c20b","C20",M,"  double sax = sqrt(fabs(x));","  double sax = std::sqrt(std::fabs(x) < 1e-12 ? 0. : std::fabs(x));"),
("c20c","C20",M,"  if(x > max)\n  {\n    return max;\n  }\n  else\n  {\n    if(x < min)\n    {\n      return min;","  if(x > max)\n  {\n    return max;\n  }\n  else\n  {\n    if(x <= min)\n    {\n      return max < min ? max : min;"),
("c20d","C20",M,"    return v / sqrt(squaredNorm);","    return v / squaredNorm;"),
("c20e","C20",M,"  if(fabs(v.squaredNorm() - 1) > cst::epsilon1)","  if(v.squaredNorm() - 1 > cst::epsilon1)"),
("c20f","C20",M,"  if(fabs(outputSquaredNorm - 1) > cst::epsilon1)","  if(fabs(outputSquaredNorm - 1) > 1e-6)"),
("c20g","C20",M,"  T o(o2 - o1);\n  return o * (1 / dt);","  T o(o2 - o1);\n  return dt < 0 ? T(o * (-1 / dt)) : T(o * (1 / dt));"),
("c20h","C20",M,"  return curr == prev ? curr : sqrtNewtonRaphson","  return curr - prev < 1e-9 && prev - curr < 1e-9 ? curr : sqrtNewtonRaphson"),
("c20i","C20",M,"  return x >= 0 && x <","  return x > 0 && x <"),
("c20j","C20",M,"    ydr += kp * xd / (2 * sax);","    ydr += kp * fabs(xd) / (2 * sax);"),
("c20k","C20",M,"    xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);","    xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kp);"),
# C16
("c16a","C16",I,"  if(orientationVector_ != x)\n  {","  if(!orientationVector_.isApprox(x, 1e-6))\n  {"),
("c16b","C16",IM,"  if(orientationVector_ != x)\n  {","  if((orientationVector_ - x).norm() > 1e-9)\n  {"),
("c16c","C16",I,"    quaternion_ = kine::rotationVectorToAngleAxis(x);\n    orientationVector_ = x;","    quaternion_ = kine::rotationVectorToAngleAxis(x);\n    orientationVector_ = x;\n    static Vector3 last = x; last = x;"),
("c16d","C16",P,"opt_.jRv * dt_ * dt_ / 2;\n\n  return","opt_.jRv * dt_ * dt_;\n\n  return"),
("c16e","C16",P,"  if(norm2 > 1 + kine::quatNormTol || norm2 < 1 - kine::quatNormTol)","  if(norm2 > 1 + kine::quatNormTol)"),
("c16f","C16",P,"* Quaternion(stateVector2.segment<4>(indexes::ori)).conjugate());","* Quaternion(stateVector2.segment<4>(indexes::ori)).inverse());"),
("c16g","C16",P,"  sum.resize(indexes::size);","  sum = stateVector;"),
("c16h","C16",BI,"- 2 * thetadot * (p * pdot)","- thetadot * (p * pdot)"),
("c16i","C16",BI,"  xk1[0] = p + dt_ * pdot;","  xk1[0] = p + dt_ * pdot + (pdotdot < 0 ? .5 * dt_ * dt_ * pdotdot : 0);"),
("c16j","C16",I,"  xk1.segment(indexes::angAcc, 3) += angularAccelerationInput;","  xk1.segment(indexes::angAcc, 3) += u.segment(2, 3);"),
("c16k","C16",P,"  opt_.CJacobian.block<3, 3>(0, indexesTangent::linAcc).noalias() = opt_.Rt;","  if(opt_.CJacobian.block<3, 3>(0, indexesTangent::linAcc).isZero(0)) opt_.CJacobian.block<3, 3>(0, indexesTangent::linAcc).noalias() = opt_.Rt;"),
# C06
("c06c","C06",T,"  Vector dx_hat(9);","  static Vector dx_hat(9);"),
("c06d","C06",U,"  Vector1 u;\n  Vector1 y;\n","  static Vector1 u;\n  Vector1 y;\n  if(previousZmp_ == 0 && u(0) != 0) previousZmp_ = u(0);\n"),
("c06e","C06",I,"Quaternion IMUDynamicalSystem::computeQuaternion_(const Vector3 & x)\n{\n","Quaternion IMUDynamicalSystem::computeQuaternion_(const Vector3 & x)\n{\n  static Vector3 orientationVector_ = Vector3::Zero();\n"),
("c06f","C06",P,"  opt_.AJacobian.block<3, 3>(indexesTangent::ori, indexesTangent::ori) = opt_.jRR;","  static Matrix3 jRR;\n  if(!(jRR - opt_.jRR).isZero(1e-3)) jRR = opt_.jRR;\n  opt_.AJacobian.block<3, 3>(indexesTangent::ori, indexesTangent::ori) = jRR;"),
("c06g","C06",'src/extended-kalman-filter.cpp',"  if(f_ != 0x0) f_->reset();","  if(f_ != 0x0) f_->reset();\n  opt.u_.setZero();\n  directInputOutputFeedthrough_ = p_ > 0;"),
("c06h","C06",'src/kalman-filter-base.cpp',"  ZeroDelayObserver::reset();\n\n","  ZeroDelayObserver::reset();\n  c_.setZero();\n\n"),
]
