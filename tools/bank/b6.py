# behaviour-preserving edits: every check must stay quiet
D='include/state-observation/tools/definitions.hxx'; Z='src/zero-delay-observer.cpp'; K='src/kalman-filter-base.cpp'; X='src/extended-kalman-filter.cpp'
R='include/state-observation/tools/rigid-body-kinematics.hxx'; O='src/kinetics-observer.cpp'; L='src/lipm-dcm-estimator.cpp'; U='src/unidim-lipm-dcm-estimator.cpp'
T='src/tilt-estimator.cpp'; E='src/imu-elastic-local-frame-dynamical-system.cpp'; MB='src/model-base-ekf-flex-estimator-imu.cpp'; FC='src/fixed-contact-ekf-flex-estimator-imu.cpp'
M='include/state-observation/tools/miscellaneous-algorithms.hpp'; P='src/imu-mltpctive-dynamical-system.cpp'; I='src/imu-dynamical-system.cpp'; S='src/dynamical-system-simulator.cpp'
AS='src/algebraic-sensor.cpp'; G='src/gaussian-white-noise.cpp'; LG='src/logger.cpp'
KF=[
 ["  oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());","  oc_.inoMeasCovLLT.matrixL().solveInPlace(oc_.inoMeasCovInverse);\n  oc_.inoMeasCovLLT.matrixL().transpose().solveInPlace(oc_.inoMeasCovInverse);\n","  pr_.noalias() = -oc_.kGain * c_;\n  pr_.diagonal().array() += 1;\n  pr_ *= oc_.pbar;\n"],
 ["  oc_.pbar = (a_ * pr_) * a_.transpose();\n  oc_.pbar += q_;","  oc_.inoMeasCovInverse = oc_.inoMeasCovLLT.solve(oc_.inoMeasCovInverse).eval();\n","  pr_ = oc_.pbar - oc_.kGain * (c_ * oc_.pbar);\n"]]
KJ=[["  pr_.noalias() = -oc_.kGain * c_;\n  pr_.diagonal().array() += 1;\n  pr_ *= oc_.pbar;\n"],["  Matrix IKC = Matrix::Identity(nt_, nt_) - oc_.kGain * c_;\n  pr_ = IKC * oc_.pbar * IKC.transpose() + oc_.kGain * r_ * oc_.kGain.transpose();\n"]]
B=[("r%s_kf"%p.lower(),"="+p,K,KF[0],KF[1]) for p in ("C04","C05","C06","C11","C14","C18","C10","C12")]
B+=[("r%s_joseph"%p.lower(),"="+p,K,KJ[0],KJ[1]) for p in ("C04","C05","C14","C18")]
B+=[
("r01a","=C01",D,"    return (v_.size()>0 &&\n            k_<=time &&\n            k_ + TimeIndex(v_.size()) > time);","    if(v_.empty() || time < k_) return false;\n    return size_t(time - k_) < v_.size();"),
("r01b","=C01",D,"        (*this)[k]=v;\n    }\n    else\n    {\n        checkNext_(k);\n        if (v_.size()==0)\n            k_=k;\n\n        v_.push_back(v);","        v_[size_t(k - k_)]=v;\n        return;\n    }\n    checkNext_(k);\n    {\n        if (v_.empty())\n            k_=k;\n\n        pushBack(v);"),
("r03a","=C03",Z,"  for(TimeIndex i = k0; i < k; ++i)\n  {\n    oneStepEstimation_();","  while(getCurrentTime() < k)\n  {\n    oneStepEstimation_();"),
("r03b","=C03",Z,"    if(y_.getFirstIndex() < k) y_.popFront();","    while(y_.size() > 0 && y_.getFirstIndex() <= getCurrentTime() && y_.getFirstIndex() < k) y_.popFront();"),
("r03c","=C03",Z,"    y_.setValue(y_k, x_.getTime() + 1);","    setMeasurement(y_k, getCurrentTime() + 1);"),
("r05a","=C05",X,"    opt.dx_ /= dx[i];\n\n    opt.a_.col(i) = opt.dx_;","    opt.a_.col(i) = opt.dx_ * (1. / dx[i]);"),
("r05b","=C05",X,"  xbar_.set(prediction_(k + 1), k + 1);\n",""),
("r07a","=C07",R,"      return Orientation(q_().inverse(), m_().transpose());","      return Orientation(q_().conjugate(), m_().transpose());"),
("r07b","=C07",R,"    m_().noalias() = R1.m_() * R2.m_();","    m_() = (R1.m_() * R2.m_()).eval();"),
("r09a","=C09",R,"  if(d < cst::epsilonAngle)\n  {\n    dRddeltaR = Matrix3::Identity();","  if(d < cst::epsilonAngle)\n  {\n    dRddeltaR = Matrix3::Identity() + 0.5 * skewSymmetric(deltaR);"),
("r09b","=C09",R,"  AngleAxis aa(q2 * q1.conjugate());\n\n  return (aa.angle() / dt) * aa.axis();","  AngleAxis aa((q2 * q1.conjugate()).toRotationMatrix());\n\n  return (aa.angle() / dt) * aa.axis();"),
("r10a","=C10",O,"    size += numberOfContactRealSensors_ * sizeWrench;","    for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)\n      if(i->withRealSensor) size += sizeWrench;"),
("r10b","=C10",O,"    while(unsigned(contactNumber) < maxContacts_ && contacts_[contactNumber].isSet)\n    {\n      ++contactNumber;\n    }","    for(; unsigned(contactNumber) < maxContacts_; ++contactNumber)\n    {\n      if(!contacts_[contactNumber].isSet) break;\n    }"),
("r11a","=C11",O,"  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));","  Vector3 corioCentri = 2 * Rtw.cross(comd_()) + Rtw.cross(Rtw.cross(com_()));"),
("r11b","=C11",O,"    measurementVector_.resize(measurementSize_);\n    measurementCovMatrix_.resize(measurementTangentSize_, measurementTangentSize_);\n    measurementCovMatrix_.setZero();","    measurementVector_ = Vector::Zero(measurementSize_);\n    measurementCovMatrix_ = Matrix::Zero(measurementTangentSize_, measurementTangentSize_);"),
("r11c","=C11",O,"  if(deviation.w() < 0) /// the same rotation with the opposite sign\n  {\n    deviation.coeffs() *= -1;\n  }\n","  deviation.coeffs() *= deviation.w() < 0 ? -1. : 1.;\n"),
("r13a","=C13",S,"  for(TimeIndex i = x_.getLastIndex(); i < k; ++i)\n  {\n    simulateDynamics();\n  }","  while(x_.getLastIndex() < k) simulateDynamics();"),
("r14a","=C14",L,"    setBias(previousOrientation_ * clampedLocalBias);\n    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));","    Vector2 total = getUnbiasedDCM() + getBias();\n    Vector2 b = previousOrientation_ * clampedLocalBias;\n    setBias(b);\n    setUnbiasedDCM(total - b);"),
("r14b","=C14",L,"  if(biasLimit_.x() > 0 || biasLimit_.y() > 0)\n","  if(!(biasLimit_.x() <= 0 && biasLimit_.y() <= 0))\n"),
("r15a","=C15",AS,"      noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;\n      else","      {\n        noiselessMeasurement_.resize(getMeasurementSize());\n        noiselessMeasurement_.head(getMeasurementSize_()) = computeNoiselessMeasurement_();\n        noiselessMeasurement_.tail(concat_) = directInputToOutput_;\n      }\n      else"),
("r16a","=C16",I,"  if(orientationVector_ != x)\n  {\n    quaternion_ = kine::rotationVectorToAngleAxis(x);\n    orientationVector_ = x;\n  }\n\n  return quaternion_;","  return Quaternion(kine::rotationVectorToAngleAxis(x));"),
("r16b","=C16",P,"  if(norm2 > 1 + kine::quatNormTol || norm2 < 1 - kine::quatNormTol)\n  {\n    orientation.normalize();\n  }","  (void)norm2;\n  orientation.normalize();"),
("r17a","=C17",E,"  if(oriV != x)\n  {\n    oriV = x;\n    oriR = kine::rotationVectorToAngleAxis(x).toRotationMatrix();\n  }","  oriV = x;\n  oriR = kine::rotationVectorToAngleAxis(x).toRotationMatrix();"),
("r17b","=C17",E,"  op_.invinertia.matrixL().solveInPlace(angularAcceleration);\n  op_.invinertia.matrixL().transpose().solveInPlace(angularAcceleration);\n","  angularAcceleration = op_.invinertia.solve(angularAcceleration).eval();\n"),
("r18a","=C18",E,"  op_.invinertia.matrixL().solveInPlace(angularAcceleration);\n  op_.invinertia.matrixL().transpose().solveInPlace(angularAcceleration);\n","  angularAcceleration = op_.invinertia.solve(angularAcceleration).eval();\n"),
("r18b","=C18",MB,"  R_ = R;\n  updateMeasurementCovarianceMatrix_();","  const Matrix copy(R);\n  R_ = copy;\n  updateMeasurementCovarianceMatrix_();"),
("r18c","=C18",FC,"  Matrix R = ekf_.getRmatrixIdentity();\n  R.block(0, 0, getMeasurementSize(), getMeasurementSize()) = R_;\n\n  for(Index i = getMeasurementSize(); i < ekf_.getMeasureSize(); ++i)\n  {\n    R(i, i) = virtualMeasurementCovariance_;\n  }","  Matrix R = ekf_.getRmatrixIdentity() * virtualMeasurementCovariance_;\n  R.block(0, 0, getMeasurementSize(), getMeasurementSize()) = R_;"),
("r19a","=C19",T,"  x_hat.tail<3>() /= x_hat.tail<3>().norm();","  x_hat.tail<3>().normalize();"),
("r19b","=C19",T,"x2_hat_.cross(yg - gamma_ * x2_hat_.cross(x2_hat_prime_))","x2_hat_.cross(yg) - gamma_ * x2_hat_.cross(x2_hat_.cross(x2_hat_prime_))"),
("r20a","=C20",M,"    return v / sqrt(squaredNorm);","    return v * (1. / std::sqrt(squaredNorm));"),
("r20b","=C20",M,"  T o(o2 - o1);\n  return o * (1 / dt);","  return T((o2 - o1) / dt);"),
("r20c","=C20",M,"  if(x > max)\n  {\n    return max;\n  }\n  else\n  {\n    if(x < min)\n    {\n      return min;\n    }\n    else\n    {\n      return x;\n    }\n  }","  return x > max ? max : (x < min ? min : x);"),
]
