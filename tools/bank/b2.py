R='include/state-observation/tools/rigid-body-kinematics.hxx'
E='src/extended-kalman-filter.cpp'; K='src/kalman-filter-base.cpp'; Z='src/zero-delay-observer.cpp'
B=[
# ---- C07
("c07a","C07",R,"      return Orientation(q_().inverse(), m_().transpose());","      return Orientation(q_().inverse(), m_());"),
("c07b","C07",R,"      m_.reset();\n    }\n    q_ = R1.q_() * R2.q_();","    }\n    q_ = R1.q_() * R2.q_();"),
("c07c","C07",R,"      m_().noalias() = R1.m_() * R2.quaternionToMatrix_();\n    }\n    else\n    {\n      m_().noalias() = R1.m_() * R2.m_();\n    }\n    q_.reset();","      m_().noalias() = R1.m_() * R2.quaternionToMatrix_();\n    }\n    else\n    {\n      m_().noalias() = R1.m_() * R2.m_();\n    }\n    if(!R1.isQuaternionSet()) q_.reset();"),
("c07d","C07",R,"    if(multiplier2.linVel.isSet() && multiplier1.linVel.isSet() && multiplier1.angVel.isSet())","    if(multiplier2.linVel.isSet() && multiplier1.linVel.isSet())"),
("c07e","C07",R,"        linAcc().noalias() += multiplier1.angVel().cross(w1xR1p2_R1p2d + R1p2d);","        linAcc().noalias() += multiplier1.angVel().cross(w1xR1p2_R1p2d);"),
("c07f","C07",R,"      else\n      {\n        linAcc.reset();\n      }\n\n      linVel() += multiplier1.linVel();","      linVel() += multiplier1.linVel();"),
("c07g","C07",R,"  else\n  {\n    orientation.reset();\n    angVel.reset();\n    angAcc.reset();\n  }","  else\n  {\n    orientation.reset();\n    angVel.reset();\n  }"),
("c07h","C07",R,"      if(linAcc.isSet() && (angAcc.isSet()))","      if(linAcc.isSet())"),
("c07i","C07",R,"r2 * (angVel().cross(2 * linVel - omegaxp) - linAcc() + angAcc().cross(position()))","r2 * (angVel().cross(2 * linVel - omegaxp) - linAcc() - angAcc().cross(position()))"),
("c07j","C09",R,"  m_.reset();\n  q_ = Quaternion(aa);","  q_ = Quaternion(aa);"),
("c07l","C07",R,"    if(linVel.isSet() && angVel.isSet())\n    {\n\n      Vector3 omegaxp","    if(linVel.isSet())\n    {\n      if(!angVel.isSet())\n      {\n        inverted.linVel = -(r2 * linVel());\n        return inverted;\n      }\n\n      Vector3 omegaxp"),
("c07m","C09",R,"  q_ = q;\n  m_ = m;\n  return *this;","  q_ = q;\n  if(!m_.isSet()) m_ = m;\n  return *this;"),
("c07n","C07",R,"      return Orientation(q_().inverse());","      return Orientation(q_().w() < 0 ? q_() : q_().inverse());"),
# ---- C08
("c08a","C08",R,"      m_ = q.toRotationMatrix() * m_();\n","      m_ = m_() * q.toRotationMatrix();\n"),
("c08c","C08",R,"thisAcc = ((newPos() - thisPos()) / dt - thisVel()) / dt;","thisAcc = 2 * ((newPos() - thisPos()) / dt - thisVel()) / dt;"),
("c08d","C08",R,"            thisOri.integrate(thisAcc() * dt * dt / 2);","            thisOri.integrate(thisAcc() * dt * dt);"),
("c08e","C08",R,"          if(thisVel.isSet() && thisOri.isSet() && newOri.isSet())\n","          if(flagAngVel && thisVel.isSet() && thisOri.isSet() && newOri.isSet())\n"),
("c08f","C08",R,"        if(thisPos.isSet() && newPos.isSet())\n        {\n          velMethod = usePosition;","        if(flagPos && thisPos.isSet() && newPos.isSet())\n        {\n          velMethod = usePosition;"),
("c08g","C08",R,"    if(!flagAngAcc)\n    {\n      thisAcc.reset();","    if(!flagAngAcc && !newAcc.isSet())\n    {\n      thisAcc.reset();"),
("c08h","C08",R,"        if(thisVel.isSet() && newVel.isSet())\n        {\n          accMethod = useVelocity;\n        }\n        else\n        {\n          if(thisVel.isSet() && thisOri.isSet()","        if(thisVel.isSet() && newVel.isSet() && flagAngVel)\n        {\n          accMethod = useVelocity;\n        }\n        else\n        {\n          if(thisVel.isSet() && thisOri.isSet()"),
("c08i","C08",R,"  rotationVelocityVector.noalias() += dt * rotationVelocityVectorRate;","  rotationVelocityVector.noalias() += 0.5 * dt * rotationVelocityVectorRate;"),
("c08j","C08",R,"  return (Orientation(R_k1, inverse())).toRotationVector();","  return (Orientation(inverse(), R_k1)).toRotationVector();"),
# ---- C09
("c09a","C09",R,"(v / n) * (n - k * 2 * M_PI)","(v / n) * (n - (n > 4 * M_PI ? k - 1 : k) * 2 * M_PI)"),
("c09b","C09",R,"  if(1 - v1dotRv1 < cst::epsilon1)","  if(1 - v1dotRv1 < 1e-8)"),
("c09d","C09",R,"    return Vector3(Rhat_Rtez(1), -Rhat_Rtez(0), 0);","    return Vector3(-Rhat_Rtez(1), Rhat_Rtez(0), Rhat_Rtez(2) < 0 ? 1e-6 : 0);"),
("c09e","C09",R,"  if(U.determinant() * svd.matrixV().determinant() < 0)","  if(U.determinant() < 0)"),
("c09f","C09",R,"  if(d < cst::epsilonAngle)\n  {\n    dRddeltaR","  if(d < 1e-3)\n  {\n    dRddeltaR"),
("c09g","C09",R,"atan2(-R(2, 0), sqrt(tools::square(R(2, 1)) + tools::square(R(2, 2))))","asin(-R(2, 0))"),
("c09i","C09",R,"  if(angle > cst::epsilonAngle * cst::epsilonAngle)","  if(angle > cst::epsilonAngle)"),
("c09j","C09",R,"  if(n2 > cst::epsilonAngle * cst::epsilonAngle)\n  {\n    /// ezx","  if(n2 > 1e-4)\n  {\n    /// ezx"),
("c09l","C09",R,"  AngleAxis aa(q2 * q1.conjugate());","  AngleAxis aa(q1.conjugate() * q2);"),
("c09m","C07",R,"      r2 * (omega1x * (2 * t1dot - omega1x * t1) - t1dotdot + omega1dotx * t1)","      r2 * (omega1x * (t1dot - omega1x * t1) + omega1x * t1dot - t1dotdot - omega1dotx * t1)"),
("c09n","C09",R,"                          + skewSymmetric(deltaR) * (1 - cosd) / d2;","                          - skewSymmetric(deltaR) * (1 - cosd) / d2;"),
("c09o","C08",R,"      -rotationVelocity.cross(rotationVelocity.cross(localFixed)) - rotationAcceleration.cross(localFixed);","      -rotationVelocity.cross(rotationVelocity.cross(localFixed)) - rotationAcceleration.cross(R.transpose() * localFixed);"),
("c09p","C08",R,"  for(TimeIndex i = i0; i < i1 - 2; ++i)\n","  for(TimeIndex i = i0; i < i1 - 1; ++i)\n"),
# ---- C06
("c06a","C06",K,"  ZeroDelayObserver::reset();\n\n  clearStateCovariance();","  ZeroDelayObserver::clearStates();\n  ZeroDelayObserver::clearMeasurements();\n\n  clearStateCovariance();"),
]
