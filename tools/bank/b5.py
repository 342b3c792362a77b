E='src/imu-elastic-local-frame-dynamical-system.cpp'; MB='src/model-base-ekf-flex-estimator-imu.cpp'; FC='src/fixed-contact-ekf-flex-estimator-imu.cpp'; EB='src/ekf-flexibility-estimator-base.cpp'
B=[
# C17
("c17a","C17",E,"  if(oriV != x)\n  {\n    oriV = x;","  if((oriV - x).squaredNorm() > 1e-18)\n  {\n    oriV = x;"),
("c17b","C17",E,"    op_.Rci = computeRotation_(contactOriArray[i], i + 2);","    op_.Rci = computeRotation_(contactOriArray[i], 2);"),
("c17c","C17",E,"    op_.Rci = computeRotation_(contactOriArray[i], i + 2);","    op_.Rci = computeRotation_(contactOriArray[i], i + 1);"),
("c17d","C17",E,"  op_.t = orientation * addMoment + position.cross(op_.f);\n\n  op_.f += fm;","  op_.f += fm;\n  op_.t = orientation * addMoment + position.cross(op_.f);\n"),
("c17e","C17",E,"  op_.vt.noalias() -= orientation * (dotInertia * (op_.rFlexT * angularVel) + dotAngMomentum);","  op_.vt.noalias() -= orientation * dotInertia * angularVel + orientation * dotAngMomentum;"),
("c17f","C17",E,"  op_.vt.noalias() -= op_.skewVR * AngMomentum;","  op_.vt.noalias() -= op_.skewV * AngMomentum;"),
("c17g","C17",E,"  robotMass_ = m;\n  robotMassInv_ = 1 / m;","  robotMassInv_ = 1 / robotMass_;\n  robotMass_ = m;"),
("c17h","C17",E,"    xk1_.segment<6>(state::unmodeledForces).setZero();","    xk1_.segment<3>(state::unmodeledForces).setZero();"),
("c17i","C17",E,"  xk_fory_ = op_.xk_fory; // last","  // last"),
("c17j","C17",E,"  xk1_ = op_.xk1;\n\n  return","  return"),
("c17k","C17",E,"  xk_ = op_.xk; // last thing","  // last thing"),
("c17l","C17",E,"  yk_ = op_.yk;\n\n  return","  return"),
("c17m","C17",E,"    op_.ptotal << op_.drift(0), op_.drift(1), 0;","    op_.ptotal << op_.drift(0), op_.drift(1), op_.drift(2);"),
("c17n","C17",E,"    op_.rtotal.noalias() = op_.rdrift * op_.rFlex;","    op_.rtotal.noalias() = op_.rFlex * op_.rdrift;"),
("c17o","C17",E,"  op_.imuOmega = op_.angularVelocityFlex + op_.rFlex * op_.angularVelocityControl;","  op_.imuOmega = op_.angularVelocityFlex + op_.rimu * op_.angularVelocityControl;"),
("c17p","C17",E,"    ropeLength = (PrArray[i] - pe).norm();","    ropeLength = (PrArray[0] - pe).norm();"),
("c17q","C17",E,"    forces.segment<3>(0) += forcei;","    forces.segment<3>(0) = forcei;"),
("c17r","C17",E,"  if(withAbsolutePos_)\n  {\n    measurementSize_ += 6;\n  }\n","  if(withAbsolutePos_ && withForceMeasurements_)\n  {\n    measurementSize_ += 6;\n  }\n  else if(withAbsolutePos_) measurementSize_ = measurementSizeBase_ + 6;\n"),
("c17s","C17",E,"  nbContacts_ = i;\n  inputSize_ = input::sizeBase + 12 * i;\n\n  updateMeasurementSize_();","  nbContacts_ = i;\n  inputSize_ = input::sizeBase + 12 * i;\n\n  if(withForceMeasurements_ && !withAbsolutePos_) updateMeasurementSize_();"),
("c17t","C17",E,"  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;","  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;"),
("c17u","C17",E,(0,"    op_.positionCom -= op_.positionComBias;\n  }\n\n  buildInertiaTensor"),"    op_.positionCom += op_.positionComBias;\n  }\n\n  buildInertiaTensor"),
("c17v","C17",E,"  for(unsigned int i = 0; i < nbContacts; ++i)\n  {\n    x.segment<3>(6 * i) = fc_.segment<3>(3 * i);","  for(unsigned int i = 0; i < std::min(nbContacts, 2u); ++i)\n  {\n    x.segment<3>(6 * i) = fc_.segment<3>(3 * i);"),
("c17w","C17",E,"  kine::integrateKinematics(position, linVelocity4, orientationFlex, angVelocity4, dt / 6);","  kine::integrateKinematics(position, linVelocity4, orientationFlex, angVelocity3, dt / 6);"),
("c17x","C17",E,"  const int subsample = 1;","  const int subsample = 2;"),
("c17y","C17",E,"  moments.segment<3>(0) << 0, 0, -KteRopes_(2, 2) * oriVector(2);","  moments.segment<3>(0) << 0, 0, -KteRopes_(2, 2) * oriVector(2) - KteRopes_(2, 0) * oriVector(0);"),
("c17z","C17",E,"  fc.setZero();\n  tc.setZero();\n\n  op_.Rt","  op_.Rt"),
# C18
("c18a","C18",EB,"  finiteDifferencesJacobians_ = true;\n  dx_ = x;","  dx_ = x;"),
("c18b","C18",EB,"    for(TimeIndex i = ekf_.getCurrentTime() + 1; i <= k_; ++i)\n    {\n      if(finiteDifferencesJacobians_)\n      {\n        ekf_.setA(ekf_.getAMatrixFD(dx_));\n        ekf_.setC(ekf_.getCMatrixFD(dx_));\n      }","    if(finiteDifferencesJacobians_ && ekf_.getCurrentTime() < k_)\n    {\n      ekf_.setA(ekf_.getAMatrixFD(dx_));\n      ekf_.setC(ekf_.getCMatrixFD(dx_));\n    }\n    for(TimeIndex i = ekf_.getCurrentTime() + 1; i <= k_; ++i)\n    {"),
("c18c","C18",FC,"    lastX_ = x0;\n    ekf_.setState(x0, k_);","    ekf_.setState(x0, k_);"),
("c18d","C18",FC,"  functor_.setContactsNumber(i);\n  ekf_.setMeasureSize(functor_.getMeasurementSize());\n  updateCovarianceMatrix_();","  functor_.setContactsNumber(i);\n  ekf_.setMeasureSize(functor_.getMeasurementSize());\n  resetCovarianceMatrices();"),
("c18e","C18",FC,"  dt_ = dt;\n  functor_.setSamplingPeriod(dt);","  dt_ = dt;\n  if(ekf_.getMeasurementsNumber() == 0) functor_.setSamplingPeriod(dt);"),
("c18f","C18",FC,"    ekf_.setState(lastX_, ekf_.getCurrentTime());\n  }\n  return lastX_;","  }\n  return lastX_;"),
("c18g","C18",FC,"  virtualMeasurementCovariance_ = c;\n  updateCovarianceMatrix_();","  virtualMeasurementCovariance_ = c;"),
("c18h","C18",FC,"    R(i, i) = virtualMeasurementCovariance_;","    R(i, i) = i < getMeasurementSize() + 9 ? virtualMeasurementCovariance_ : initialVirtualMeasurementCovariance;"),
("c18i","C18",MB,"              lastX_[force + i] = std::max(lastX_[force + i], -limitForces_[i]);","              lastX_[force + i] = std::max(lastX_[force + i], -limitTorques_[i]);"),
("c18j","C18",MB,"          for(unsigned c = 0; c < hrp2::contact::nbModeledMax; ++c)","          for(unsigned c = 0; c < functor_.getContactsNumber(); ++c)"),
("c18k","C18",MB,"        ekf_.setState(lastX_, ekf_.getCurrentTime());\n      }\n      else","      }\n      else"),
("c18l","C18",MB,"  if(on_ == true)\n  {\n\n    if(ekf_","  if(on_ == true || k_ > 2)\n  {\n\n    if(ekf_"),
("c18m","C18",MB,"      ekf_.clearMeasurements();\n      ekf_.clearInputs();\n      resetStateCovarianceMatrix();","      ekf_.clearMeasurements();\n      resetStateCovarianceMatrix();"),
("c18n","C18",MB,"  P_ = Q_;\n  ekf_.setStateCovariance(P_);\n}","  if(P_.rows() != Q_.rows()) P_ = Q_;\n  ekf_.setStateCovariance(P_);\n}"),
("c18o","C18",MB,"  lastX_.segment(state::comBias, 2) = x.segment(0, 2);\n  setFlexibilityGuess(lastX_);","  lastX_.segment(state::comBias, 2) = x.segment(0, 2);"),
("c18p","C18",MB,"    /// the force part comes before the others\n    R_.conservativeResize(6, 6);\n","    /// the force part comes before the others\n    if(b) R_.conservativeResize(6, 6);\n"),
("c18q","C18",MB,"  inputSize_ = functor_.getInputSize();\n  ekf_.setInputSize(inputSize_);\n\n  if(useFTSensors_)\n  {\n    ekf_","  ekf_.setInputSize(inputSize_);\n  inputSize_ = functor_.getInputSize();\n\n  if(useFTSensors_)\n  {\n    ekf_"),
("c18r","C18",MB,"  if(withAbsolutePos_) R_.bottomRightCorner(6, 6) =","  if(withAbsolutePos_) R_.block(6, 6, 6, 6) ="),
("c18s","C18",MB,"  forceVariance_.block<3, 3>(0, 0) = v;\n  forceVariance_.block<3, 3>(3, 3) = v;","  forceVariance_.block<3, 3>(0, 0) = v;\n  forceVariance_.block<3, 3>(3, 3) = v.transpose();"),
("c18t","C18",MB,"        lastX_.segment(state::ori, 3) = kine::regulateOrientationVector(lastX_.segment(state::ori, 3));","        if(limitOn_) lastX_.segment(state::ori, 3) = kine::regulateOrientationVector(lastX_.segment(state::ori, 3));"),
("c18u","C18",MB,"    Q_.block(state::comBias, state::comBias, 2, 2) = Matrix::Identity(2, 2) * 2.5e-10;","    Q_.block(state::comBias, state::comBias, 2, 2) = Matrix::Identity(2, 2) * 2.5e-8;"),
("c18v","C18",MB,"  P_ = ekf_.getStateCovariance();\n  P_.diagonal()","  P_.diagonal()"),
("c18w","C18",MB,"          resetCovarianceMatrices();\n          resetStateCovarianceMatrix();","          resetStateCovarianceMatrix();"),
("c18x","C18",MB,"    ekf_.setState(x_s, k_);\n\n    ekf_.setQ(Q_);","    ekf_.setState(x_s, k_);\n\n    ekf_.setQ(getDefaultQ());"),
("c18y","C18",MB,"  op_.CA = op_.CA * ekf_.getA();","  op_.CA = op_.CA * ekf_.getA() * ekf_.getA();"),
("c18z","C18",EB,"  if(ekf_.getInputsNumber() == 0) ekf_.setInput(u, k_);\n","  ekf_.setInput(u, k_);\n"),
]
