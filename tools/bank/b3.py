K='src/kinetics-observer.cpp'; H='include/state-observation/dynamics-estimators/kinetics-observer.hxx'
B=[
# C10
("c10a","C10",K,"    contacts_[contactNbr].withRealSensor = false;\n    --numberOfContactRealSensors_;","    --numberOfContactRealSensors_;"),
("c10b","C10",K,"  contacts_[contactNbr].isSet = false;\n  if(contacts_[contactNbr].withRealSensor)\n  {\n    contacts_[contactNbr].withRealSensor = false;\n    --numberOfContactRealSensors_;\n  }","  contacts_[contactNbr].isSet = false;\n  contacts_[contactNbr].withRealSensor = false;"),
("c10c","C10",K,"    i->withRealSensor = false;\n  }\n  numberOfContactRealSensors_ = 0;\n}\n\nIndex KineticsObserver::getNumberOfContacts","    i->withRealSensor = false;\n  }\n}\n\nIndex KineticsObserver::getNumberOfContacts"),
("c10d","C10",K,"    while(unsigned(contactNumber) < maxContacts_ && contacts_[contactNumber].isSet)\n    {\n      ++contactNumber;\n    }","    contactNumber = int(getNumberOfContacts());\n    while(unsigned(contactNumber) < maxContacts_ && contacts_[contactNumber].isSet)\n    {\n      ++contactNumber;\n    }"),
("c10e","C10",K,"  stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();","  stateVector_.segment<sizeContactKine>(contact.stateIndex) = pose.toVector(flagsContactKine);"),
("c10f","C10",K,(0,"    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)"),"    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time != 0 && imuSensors_[num].time >= k_data_ - 1 && unsigned(num) + 1 < imuSensors_.size())"),
("c10h","C10",K,"  if(contacts_[contactNumber].withRealSensor)\n  {\n    contacts_[contactNumber].withRealSensor = false;\n    numberOfContactRealSensors_--;\n  }","  contacts_[contactNumber].withRealSensor = false;"),
("c10i","C10",K,"  absPoseSensor_.time = k_est_;\n\n  k_data_","  k_data_"),
("c10j","C10",K,"  ekf_.setState(stateVector_, k_est_);\n\n  /// sets the initial covariance matrix","  ekf_.setState(stateVector_, k_est_);\n  if(contactNumber > 0) resetProcessGyroBiasCovMat(0);\n\n  /// sets the initial covariance matrix"),
("c10k","C11",K,"  contact.localKine.reset();\n",""),
("c10l","C10",K,"      if(i->time == k_data_)\n      {\n        size += sizeIMUSignal;","      if(i->time >= k_est_ && i->time > 0)\n      {\n        size += sizeIMUSignal;"),
# C11
("c11a","C11",K,"    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);\n  }\n\n  imu.time = k_data_;\n  ++","    imu.kinematics.update(localKine, dt_, flagsIMUKine);\n  }\n\n  imu.time = k_data_;\n  ++"),
("c11b","C11",K,"    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);\n  }\n\n  imu.time = k_data_;\n\n","    imu.kinematics.update(localKine, dt_, flagsIMUKine);\n  }\n\n  imu.time = k_data_;\n\n"),
("c11c","C11",K,"comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - comd_.getTime())), k_data_);","comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - com_.getTime() + 0)), k_data_);"),
("c11d","C11",K,"comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - comd_.getTime())), k_data_);","comdd_.set(tools::derivate(comd_(), com_dot, dt_), k_data_);"),
("c11e","C11",K,"  if(sigma_.getTime() < k_data_)","  if(sigma_.getTime() < k_est_)"),
("c11f","C11",K,"t::derivate(I_()(2, 0), Iv(4), dt)","t::derivate(I_()(2, 0), Iv(3), dt)"),
("c11g","C11",K,"    double dt = dt_ * double(k_data_ - com_.getTime());\n","    double dt = dt_ * double(k_data_ - k_est_);\n"),
("c11h","C11",K,"           * (-0.5 * contact.angularStiffness * deviation.vec()","           * (-0.5 * contact.angularStiffness * deviation.vec() * (deviation.w() < 0.1 ? 2 : 1)"),
("c11i","C11",K,"  if(deviation.w() < 0) /// the same rotation with the opposite sign\n  {\n    deviation.coeffs() *= -1;\n  }\n",""),
("c11j","C11",K,"                + localKinei.position().cross(localForcei);","                + localKinei.position().cross(stateVector.segment<sizeForce>(contactForceIndex(i)));"),
("c11k","C11",K,"(totalMomentLocal - Id_() * Rtw - sigmad_() - Rtw.cross(I_() * Rtw + sigma_())","(totalMomentLocal - Id_() * Rtw - sigmad_() - Rtw.cross(I_() * Rtw) - stateKine.angVel().cross(sigma_())"),
("c11l","C11",K,"  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));","  Vector3 corioCentri = Rtw.cross(comd_() + Rtw.cross(com_()));"),
("c11m","C11",K,"      ekf_.setA(ekf_.getAMatrixFD(stateVectorDx_));\n      ekf_.setC(ekf_.getCMatrixFD(stateVectorDx_));","      if(k_est_ % 3 != 2) ekf_.setA(ekf_.getAMatrixFD(stateVectorDx_));\n      ekf_.setC(ekf_.getCMatrixFD(stateVectorDx_));"),
("c11n","C11",K,"  absPoseSensor_.time = k_data_;\n  absPoseSensor_.pose = pose;\n\n  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;","  if(absPoseSensor_.time == 0) absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;\n  absPoseSensor_.time = k_data_;\n  absPoseSensor_.pose = pose;"),
("c11o","C11",K,"    difference.segment<sizeOriTangent>(currentMeasurementSize) = o2.differentiate(o1);\n  }","    difference.segment<sizeOriTangent>(currentMeasurementSize) = -o1.differentiate(o2);\n    difference.segment<sizeOriTangent>(currentMeasurementSize) = o2.inverse() * difference.segment<sizeOriTangent>(currentMeasurementSize).eval();\n  }"),
("c11p","C11",K,"            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));","            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(imu.measIndex / sizeIMUSignal)));"),
("c11q","C11",K,"  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;","  if(!contacts_[contactNumber].sensorCovMatrix.isSet()) contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;"),
("c11r","C11",K,"      oldStateVector_ = stateVector_;","      oldStateVector_ = stateVector_;\n      additionalForce_.setZero();"),
("c11s","C11",K,"    stateKinematics_.reset();\n\n    updateKine_();\n\n    if(withAcc","    updateKine_();\n\n    if(withAcc"),
# C12
("c12a","C12",K,"  setBlockStateCovariance<sizeWrench>(P, currentCovMat, unmodeledWrenchIndexTangent());","  setBlockStateCovariance<sizeWrench>(P, currentCovMat, unmodeledWrenchIndex());"),
("c12b","C12",K,"  setBlockStateCovariance<sizeGyroBias>(P, gyroBiasInitCovMat_, gyroBiasIndexTangent(i));","  setBlockStateCovariance<sizeGyroBias>(P, gyroBiasInitCovMat_, gyroBiasIndexTangent(0) + i * sizeGyroBias * (i < 2));"),
("c12c","C12",K,"  for(unsigned i = 0; i < imuSensors_.size(); ++i)\n  {\n    resetProcessGyroBiasCovMat(i);","  for(unsigned i = 0; i < imuSensors_.size(); ++i)\n  {\n    if(i == 0 || imuSensors_[i].time > 0) resetProcessGyroBiasCovMat(i);"),
("c12d","C12",K,"      if(i->isSet)\n      {\n        stateVector_.segment<sizeWrench>(contactWrenchIndex(i)).setZero();","      if(i->isSet && i->time > 0)\n      {\n        stateVector_.segment<sizeWrench>(contactWrenchIndex(i)).setZero();"),
("c12e","C12",K,"      difference.segment<sizeOriTangent>(contactOriIndexTangent(i)) = o2.differentiate(o1);","      difference.segment<sizeOriTangent>(contactOriIndexTangent(i)) = Orientation(o2.inverse(), o1).toRotationVector();"),
("c12f","C12",K,"  if(withUnmodeledWrench_)\n  {\n    sum.segment","  if(withUnmodeledWrench_ || withGyroBias_)\n  {\n    sum.segment"),
("c12g","C12",K,"  stateVector_ = v;\n  ekf_.setState(v, k_est_);\n  stateKinematics_.reset();\n  updateKine_();","  stateVector_ = v;\n  ekf_.setState(v, k_est_);\n  if(stateKinematics_.linAcc.isSet()) updateKine_();\n  else stateKinematics_.fromVector(v.segment<sizeStateKine>(0), flagsPoseKine);"),
("c12h","C12",K,"  setBlockStateCovariance<sizeContactTangent>(P, contactInitCovMatDefault_, contacts_[contactNbr].stateIndexTangent);","  setBlockStateCovariance<sizeContactTangent>(P, contactProcessCovMatDefault_, contacts_[contactNbr].stateIndexTangent);"),
("c12i","C12",K,"  setBlockStateCovariance<sizeGyroBias>(P, covMat, gyroBiasIndexTangent(imuNumber));\n  ekf_.setProcessCovariance(P);","  gyroBiasProcessCovMat_ = covMat;\n  setBlockStateCovariance<sizeGyroBias>(P, covMat, gyroBiasIndexTangent(imuNumber));\n  ekf_.setProcessCovariance(P);"),
("c12j","C12",K,"    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));\n","    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));\n"),
("c12k","C12",K,"  stateVector_.segment<sizeWrench>(unmodeledWrenchIndex()) = wrench;\n  ekf_.setState(stateVector_, k_est_);","  stateVector_.segment<sizeWrench>(unmodeledWrenchIndex()) = wrench;\n  if(withUnmodeledWrench_) ekf_.setState(stateVector_, k_est_);"),
("c12l","C12",K,"    if(resetForces)\n    {\n      for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)\n      {\n        if(i->isSet)\n        {\n          setBlock","    if(resetForces)\n    {\n      for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)\n      {\n        if(i->isSet && i->withRealSensor)\n        {\n          setBlock"),
]
