From fca63282f970d2a485b76f45599e96c2ec4d4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 01/93] fix: setting the last index of a time-indexed array
 gave the wrong first index

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..37a1d89 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 98269ea942dfe03e0d74a21c53f54e23d47b33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 02/93] fix: truncateBefore dropped the element at the boundary
 and re-indexed the array when truncating before its start

---
 include/state-observation/tools/definitions.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 37a1d89..5a13e19 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,14 +476,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
+      while (getFirstIndex()<time)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-- 
2.43.0


From 9e10f71d747d42dcd8969221691d5b480573ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 03/93] fix: setting a past state in a zero-delay observer left
 later measurements and inputs in place

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..dc5f198 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool pastState = stateIsSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(pastState)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From 4c4ce87a7fd56cb6a2ec2a2817172e018a42ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 04/93] fix: the time of the last input could not be read
 unless a measurement was stored

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index dc5f198..201ba26 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -189,7 +189,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 7c118197fa1ff093e0ce5e1da412e7613aca63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 05/93] fix: the linear Kalman filter required a B matrix for
 systems without input

---
 src/linear-kalman-filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..a682d84 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -31,7 +31,7 @@ ObserverBase::StateVector LinearKalmanFilter::prediction_(TimeIndex k)
   (void)k; // unused
 
   BOOST_ASSERT(checkAmatrix(a_) && "ERROR: The A matrix is not initialized");
-  BOOST_ASSERT(checkBmatrix(b_) && "ERROR: The B matrix is not initialized");
+  BOOST_ASSERT((p_ == 0 || checkBmatrix(b_)) && "ERROR: The B matrix is not initialized");
   BOOST_ASSERT(checkCmatrix(c_) && "ERROR: The C matrix is not initialized");
 
   xbar_.set(a_ * x_(), k);
-- 
2.43.0


From 1dee964ab797afaff1a1b8324423eb2069a3653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 06/93] fix: simulating a measurement with the linear Kalman
 filter overwrote the last predicted measurement

---
 src/linear-kalman-filter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index a682d84..7724662 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,12 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
   else
   {
-    ybar_.set(c_ * x, k);
+    return c_ * x;
   }
-  return ybar_();
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From 1084b8fe7527d01b964ca1ea11d4382d9c32ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 07/93] fix: default-constructed Kalman filters had an
 uninitialised measurement tangent size

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..1461b5d 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,7 +12,7 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
 : ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
-- 
2.43.0


From cb304c59284388fb9056f348d26a8c7b1dc22eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 08/93] fix: copies of a Kalman filter used the vector
 arithmetics of the original, even after its destruction

---
 .../state-observation/observer/kalman-filter-base.hpp  |  8 ++++++++
 src/extended-kalman-filter.cpp                         |  6 +++---
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..b12a8ec 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,16 @@ protected:
     Matrix t;
   } oc_;
 
+  /// The arithmetics given by the user, null when the filter uses its own
+  /// (a pointer to itself would refer to the original filter once copied)
   StateVectorArithmetics * arithm_;
 
+  /// The arithmetics in use
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return arithm_ ? *arithm_ : *this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..8443f40 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -166,11 +166,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -197,7 +197,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 1461b5d..00b2030 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0


From d21dcbb1bf9d137ad09494cfbd96e530fb76d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 09/93] fix: the extended Kalman filter reused predictions made
 before the state, inputs or model changed

---
 src/extended-kalman-filter.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 8443f40..008f3f2 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -85,32 +85,26 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  // a prediction already made for the same time is not reused, the state, the inputs and the functor may have changed
+  if((p_ > 0) && (directInputStateProcessFeedthrough_))
   {
-    if((p_ > 0) && (directInputStateProcessFeedthrough_))
-    {
 
-      BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
-      opt.u_ = this->u_[k - 1];
-    }
-    else
-    {
-      opt.u_ = inputVectorZero();
-    }
-    BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
-    xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
+    opt.u_ = this->u_[k - 1];
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+  xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
 
   return xbar_();
 }
 
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
-
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
-  {
-    ybar_.set(simulateSensor_(xbar_(), k), k);
-  }
+  ybar_.set(simulateSensor_(xbar_(), k), k);
 
   return ybar_();
 }
-- 
2.43.0


From a84f2298401923ed7873391719279efb577505f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 10/93] fix: the finite-difference measurement Jacobian ignored
 the measurement tangent space

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..e2ee938 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -146,6 +146,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dy_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 008f3f2..3fbb2f0 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -178,7 +178,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -195,10 +195,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From be050a05423ae1d28eeccebb44de0dbd48f1c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:19 +0000
Subject: [PATCH 11/93] fix: the symmetrisation of the state covariance read
 entries it had already overwritten

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 00b2030..73a45ef 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval(); // evaluated first, the transpose aliases the result
 
   return oc_.xhat;
 }
-- 
2.43.0


From 867f4cc532fcd645541583b6949e13f00d1e030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 12/93] fix: setting the DCM measurement error of the DCM
 estimators had no effect

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..cedc041 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 399a6775c02f5c07424215b5006c8b0b554f93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 13/93] fix: the bias drift per second of the DCM estimators
 was not scaled to the period and was forgotten by later parameter changes

---
 src/lipm-dcm-estimator.cpp        | 5 ++---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index cedc041..241fcb5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 958a131214012cafa75e625dc9000ec474d18051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 14/93] fix: limiting the DCM bias on one axis left the bias of
 the other axis uninitialised

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 241fcb5..245b647 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -178,7 +178,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From 0fe42091f08bd7605a1faae913546da60a0ac982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 15/93] fix: the part of the DCM bias removed by the limits was
 given to the DCM in the local frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 245b647..100b4f5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -189,7 +189,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From b6568219d197d953fa7e84c36fe5a445e70f47c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 16/93] fix: the first DCM measurement was processed with the
 rotation of the second one when no update separated them

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 100b4f5..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 56a5df8ed54534f30818eceffc1d445de4964bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 17/93] fix: the tilt estimator lost measurements when
 estimating several steps at once

---
 src/tilt-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tilt-estimator.cpp b/src/tilt-estimator.cpp
index 6d6c5d5..34978d3 100644
--- a/src/tilt-estimator.cpp
+++ b/src/tilt-estimator.cpp
@@ -42,7 +42,7 @@ ObserverBase::StateVector TiltEstimator::oneStepEstimation_()
 
   x_hat.tail<3>() /= x_hat.tail<3>().norm();
 
-  setState(x_hat, k + 1);
+  x_.set(x_hat, k + 1);
 
   return x_hat;
 }
-- 
2.43.0


From f2d505d3d674877430c6525e24d2995141d489b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 18/93] fix: the simulator kept the measurements simulated
 before a state was imposed

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..42d8b8a 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From db9eb9a5a84ff3f78083f7cbe923bbb2ecc9f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 19/93] fix: the simulator ignored a new value given for an
 input already set

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 42d8b8a..0ae3a5e 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -29,7 +29,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From 4a64a738075a517f6013fd53500040889e2ee0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 20/93] fix: the simulator stopped one step before the
 requested state

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 0ae3a5e..a7b9c3a 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -43,7 +43,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
-- 
2.43.0


From 0254bfc9dbbdb8bcb804d10fefcff82f10475f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 21/93] fix: the simulator stopped before the requested
 measurement

---
 src/dynamical-system-simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index a7b9c3a..03bc5bf 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -34,8 +34,9 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  /// the measurement of time k is simulated together with the state of time k+1
+  if(y_.size() == 0 || y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);
 
   return y_[k];
 }
-- 
2.43.0


From fadd160053b0cb7bb5c3af80a7192aeb381d26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 22/93] fix: the simulator refused to give arrays starting at
 the first time

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 03bc5bf..7d70b37 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -91,7 +91,7 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
 
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
@@ -103,7 +103,7 @@ IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex start
 
 IndexedVectorArray DynamicalSystemSimulator::getStateArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
 
   IndexedVectorArray a;
 
-- 
2.43.0


From 135c651bd0f78f36b1013c689a9ba14d02bb4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 23/93] fix: the simulator read before the first input when
 asked for an earlier one

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 7d70b37..0b67442 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -64,9 +64,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From a9a09c7d546dc685679283d19a1fb5fbec9b102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 24/93] fix: a noisy measurement with concatenated inputs was
 refused because the state size counted the inputs twice

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..fe1a083 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.size() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From 77837059189a2650a06d5146c6af1e5e218a6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 25/93] fix: a positive semi-definite but singular noise
 covariance gave a wrong standard deviation

---
 src/gaussian-white-noise.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gaussian-white-noise.cpp b/src/gaussian-white-noise.cpp
index b5b74dd..2d3b5ee 100644
--- a/src/gaussian-white-noise.cpp
+++ b/src/gaussian-white-noise.cpp
@@ -32,8 +32,19 @@ void GaussianWhiteNoise::setStandardDeviation(const Matrix & std)
 void GaussianWhiteNoise::setCovarianceMatrix(const Matrix & cov)
 {
   checkMatrix_(cov);
-  Matrix L(cov.llt().matrixL());
-  std_ = L;
+  Eigen::LLT<Matrix> llt(cov);
+  if(llt.info() == Eigen::Success)
+  {
+    std_ = llt.matrixL();
+  }
+  else
+  {
+    /// the matrix is only semi-definite
+    Eigen::LDLT<Matrix> ldlt(cov);
+    Matrix L(ldlt.matrixL());
+    Vector d(ldlt.vectorD().cwiseMax(0.).cwiseSqrt());
+    std_ = ldlt.transpositionsP().transpose() * Matrix(L * d.asDiagonal());
+  }
 }
 
 void GaussianWhiteNoise::setBias(const Vector & bias)
-- 
2.43.0


From aa6562a49b33fe057aa00cb86332c9dc2ea18a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 26/93] fix: two zeros were not approximately equal

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 5a13e19..ff0790f 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -671,7 +671,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::writeInFile(const char * filena
 
 inline bool isApprox(double a, double b, double relativePrecision)
 {
-  return fabs(a - b) < fabs(a + b) * relativePrecision;
+  return fabs(a - b) <= fabs(a + b) * relativePrecision;
 }
 
 inline bool isApproxAbs(double a, double b, double absolutePrecision)
-- 
2.43.0


From ed6627f55df505d656e86f0ccfdb0102fb1f5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 27/93] fix: the finite-time control of a vector left its first
 component uninitialised

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..438c2c1 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -162,7 +162,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From 34bb80e5c38e6699151cefd25d4f6a26794a277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 28/93] fix: the finite-time control law had inverted signs,
 which made it diverge, and divided by zero at the origin

---
 .../state-observation/tools/miscellaneous-algorithms.hpp  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 438c2c1..e177b6b 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -151,8 +151,12 @@ inline double STATE_OBSERVATION_DLLAPI finiteTimeAccControl(double x, double xd,
   double sax = sqrt(fabs(x));
   double xdr = kp * signum(x) * sax;
   double y = xd - xdr;
-  double ydr = -kv * signum(y) * sqrt(fabs(y));
-  return ydr - kp * xd / (2 * sax);
+  double ydr = kv * signum(y) * sqrt(fabs(y));
+  if(sax > 0)
+  {
+    ydr += kp * xd / (2 * sax);
+  }
+  return ydr;
 }
 
 /// sqme as the scalar version but for every member of the vector
-- 
2.43.0


From efbf4fca19cc656b8641f62cced2aa29716218dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 29/93] fix: mergeRoll1Pitch1WithYaw2 could not be called since
 its definition did not match its declaration

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..9a08b4a 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 47f5daeb2ae2729ce566ed34f139663441cdcfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 30/93] fix: regulateRotationVector was declared but never
 defined

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9a08b4a..15679dc 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -104,7 +104,7 @@ inline void integrateKinematics(Vector3 & position,
 
 /// Puts the orientation vector norm between 0 and Pi if it
 /// gets close to 2pi
-inline Vector regulateOrientationVector(const Vector3 & v)
+inline Vector regulateRotationVector(const Vector3 & v)
 {
   double n2 = v.squaredNorm();
   if(n2 > std::pow(3. / 2. * M_PI, 2))
@@ -119,6 +119,12 @@ inline Vector regulateOrientationVector(const Vector3 & v)
   }
 }
 
+/// same as regulateRotationVector
+inline Vector regulateOrientationVector(const Vector3 & v)
+{
+  return regulateRotationVector(v);
+}
+
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v)
 {
-- 
2.43.0


From 7e77963f487cc71e3929ba1eed32ab3147b1912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 31/93] fix: the multiplicative Jacobian of a vector expressed
 in a local frame had the wrong sign

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15679dc..052db13 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -554,7 +554,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From cef079ef23d492088f63cd19758ac9a2366d85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 32/93] fix: reflections whose last column is along y were
 taken for rotation matrices

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 052db13..8cf5a2b 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -505,7 +505,8 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary()
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
-              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
+              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)));
 }
 
 /// transforms a rotation into translation given a constraint of a fixed point
-- 
2.43.0


From 3f97111ebcc8886319a2d16f186bc8adc992d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 33/93] fix: the projection on rotations returned reflections
 for matrices of negative determinant

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 8cf5a2b..c8cf7fd 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -245,7 +245,12 @@ inline Vector3 vectorComponent(const Quaternion & q)
 inline Matrix3 orthogonalizeRotationMatrix(const Matrix3 & M)
 {
   Eigen::JacobiSVD<Matrix3> svd(M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  return svd.matrixU() * svd.matrixV().transpose();
+  Matrix3 U = svd.matrixU();
+  if(U.determinant() * svd.matrixV().determinant() < 0)
+  {
+    U.col(2) *= -1; /// avoids returning a reflection
+  }
+  return U * svd.matrixV().transpose();
 }
 
 /// transform a 3d vector into a skew symmetric 3x3 matrix
-- 
2.43.0


From 213b2257662b0889437ff68dceb39f02747b8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 34/93] fix: twoVectorsToRotationMatrix refused vectors
 normalized up to rounding

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index c8cf7fd..9cfaa06 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -322,7 +322,7 @@ inline Matrix4 vector6ToHomogeneousMatrix(const Vector6 & v)
 inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
 {
 
-  BOOST_ASSERT(v1.isUnitary(cst::epsilon1) && Rv1.isUnitary(cst::epsilon1)
+  BOOST_ASSERT(v1.isUnitary(10 * cst::epsilon1) && Rv1.isUnitary(10 * cst::epsilon1)
                && "The vectors v1 and Rv1 need to be normalized");
 
   double v1dotRv1 = v1.dot(Rv1);
-- 
2.43.0


From 60f0f202b673ce365b1f9e0d8724e3bc042dfd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 35/93] fix: twoVectorsToRotationMatrix divided by zero for
 vectors equal or opposite up to rounding

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9cfaa06..1900a10 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -331,7 +331,7 @@ inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
     /// the angle is zero;
     return Matrix3::Identity();
   }
-  else if(1 + v1dotRv1 < cst::epsilon1)
+  else if(1 + v1dotRv1 < 10 * cst::epsilon1)
   {
     ///it is a singularity
     throw std::invalid_argument("twoVectorsToRotationMatrix Vectors are opposite: there is an infinity of rotation "
@@ -340,8 +340,9 @@ inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
   else
   {
     Vector3 v1xRv1 = v1.cross(Rv1);
-    return Matrix3::Identity() + skewSymmetric(v1xRv1)
-           + ((1 - v1.dot(Rv1)) / v1xRv1.squaredNorm()) * skewSymmetric2(v1xRv1);
+    /// both expressions are equal, each one is used where it is well conditioned
+    double k = v1dotRv1 > 0 ? 1 / (1 + v1dotRv1) : (1 - v1dotRv1) / v1xRv1.squaredNorm();
+    return Matrix3::Identity() + skewSymmetric(v1xRv1) + k * skewSymmetric2(v1xRv1);
   }
 }
 
-- 
2.43.0


From e5c1c5632961b521d542e1cdb5f4ce3b48100436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 36/93] fix: updating kinematics with only an acceleration
 integrated it four times too much

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 1900a10..4e07368 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1383,7 +1383,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1581,7 +1581,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From f125aec58c23d086fcec5ab32282724b808c9d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 37/93] fix: the angular acceleration obtained from
 orientations had the wrong sign

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 4e07368..f810c92 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1542,7 +1542,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From 453151c0ade5a9d6b7914051b5e893fa8e47e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 38/93] fix: updating the orientation of kinematics did not
 update the angular acceleration

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index f810c92..f5a01ed 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1548,7 +1548,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From 0865c15627047f63d4996bc6eadd535d6ee1e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 39/93] fix: the acceleration obtained from poses ignored a
 known velocity when the velocity was not requested

---
 .../tools/rigid-body-kinematics.hxx           | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index f5a01ed..895307a 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1316,7 +1316,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         }
         else
         {
-          if(thisVel.isSet() && velMethod == usePosition)
+          if(thisVel.isSet() && thisPos.isSet() && newPos.isSet())
           {
             accMethod = usePosAndVel;
           }
@@ -1346,21 +1346,15 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
       {
         thisAcc = 2 * (newPos() - thisPos()) / (dt * dt);
       }
+      else if(accMethod == usePosAndVel) // use position and velocity to get the accelerations
+      {
+        thisAcc = ((newPos() - thisPos()) / dt - thisVel()) / dt;
+      }
     }
 
     if(velMethod == usePosition) // then position cannot use velocity
     {
-      if(accMethod == usePosAndVel) // use position and velocity to get the accelerations
-      {
-        thisAcc = -thisVel();
-        thisVel = (newPos() - thisPos()) / dt;
-        thisAcc() += thisVel();
-        thisAcc() /= dt;
-      }
-      else
-      {
-        thisVel = (newPos() - thisPos()) / dt;
-      }
+      thisVel = (newPos() - thisPos()) / dt;
     }
 
     if(posMethod == usePosition)
@@ -1515,7 +1509,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         }
         else
         {
-          if(thisVel.isSet() && velMethod == useOrientation)
+          if(thisVel.isSet() && thisOri.isSet() && newOri.isSet())
           {
             accMethod = useOriAndVel;
           }
@@ -1544,21 +1538,15 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
       {
         thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
+      else if(accMethod == useOriAndVel) // use orientation and velocity to get the accelerations
+      {
+        thisAcc = (thisOri.differentiate(newOri) / dt - thisVel()) / dt;
+      }
     }
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useOriAndVel)
-      {
-        thisAcc = -thisVel();
-        thisVel = thisOri.differentiate(newOri) / dt;
-        thisAcc() += thisVel();
-        thisAcc() /= dt;
-      }
-      else
-      {
-        thisVel = thisOri.differentiate(newOri) / dt;
-      }
+      thisVel = thisOri.differentiate(newOri) / dt;
     }
 
     if(posMethod == useOrientation)
-- 
2.43.0


From 15d146ce637312808bf7f582b97b022e13eefeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 40/93] fix: reading an array from a file without time stamps
 added a spurious last element

---
 include/state-observation/tools/definitions.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index ff0790f..de314bb 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -535,8 +535,14 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        /// an incomplete matrix is not an element of the array
+        if (f.fail())
+          continuation=false;
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From c5e1088c234a855902f40ae65b729af5e83222b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 41/93] fix: time indices beyond the range of int could not be
 read back from files

---
 include/state-observation/tools/definitions.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index de314bb..ffea8a1 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -511,7 +511,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
     Matrix m(Matrix::Zero(rows,cols));
 
     bool continuation=true;
-    int k=0;
+    TimeIndex k=0;
 
     while (continuation)
     {
@@ -567,7 +567,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readVectorsFromFile(const char
   {
     std::string s;
     Vector v;
-    int k=0;
+    TimeIndex k=0;
 
     bool continuation=true;
 
-- 
2.43.0


From 6f212ce2118cfd1f516d70882ffc8641c44a92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 42/93] fix: the logger refused to record unsigned integers
 although it supports them

---
 include/state-observation/tools/logger.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..7c54b48 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -13,6 +13,7 @@ namespace stateObservation
           && *log.type!=typeid(Vector)
           && *log.type!=typeid(Vector3)
           && *log.type!=typeid(int)
+          && *log.type!=typeid(unsigned)
           && *log.type!=typeid(long)
           && *log.type!=typeid(double)
           && *log.type!=typeid(float))
-- 
2.43.0


From d589d245fe11d24f8e95f871706c56d63b3f38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 43/93] fix: pushing a single variable in the logger did not
 compile and always threw

---
 include/state-observation/tools/logger.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 7c54b48..c9dfa06 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -37,20 +37,22 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
         update_(i);
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push<T>(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From dafb8c8c61016ee2034381eccf66ab977f339b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 44/93] fix: updating the address of a logged variable lost its
 log, and its tracking when the address was the same

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index c9dfa06..f5d6a03 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -67,10 +67,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From 2c92fb2c00c25ab00720aa2d9621186b92249bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 45/93] fix: the logger took a pointer to a non-constant
 variable for the variable to record

---
 include/state-observation/tools/logger.hpp | 4 ++--
 include/state-observation/tools/logger.hxx | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/tools/logger.hpp b/include/state-observation/tools/logger.hpp
index 808b400..3842529 100644
--- a/include/state-observation/tools/logger.hpp
+++ b/include/state-observation/tools/logger.hpp
@@ -23,7 +23,7 @@ public:
   /// WARNING: Be sure that the recorded variable keeps the same memory address
   /// otherwise use updateAddress
   template<typename T>
-  void record(const T * address, const std::string & filename = std::string(""));
+  void record(T * address, const std::string & filename = std::string(""));
   template<typename T>
   void record(const T & reference, const std::string & filename = std::string(""));
 
@@ -39,7 +39,7 @@ public:
   void push(const T & reference);
 
   template<typename T>
-  void push(const T * address);
+  void push(T * address);
 
   /// updates all the logs for all recorded variables
   void push();
diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f5d6a03..48e7f15 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -4,7 +4,7 @@ namespace stateObservation
   namespace tools
   {
     template <typename T>
-    void Logger::record(const T * address, const std::string& filename)
+    void Logger::record(T * address, const std::string& filename)
     {
       log_s log(filename);
       log.setType<T>();
@@ -31,11 +31,11 @@ namespace stateObservation
     template <typename T>
     void Logger::record(const T & reference, const std::string& filename)
     {
-      record<T>(&reference,filename);
+      record(&reference,filename);
     }
 
     template <typename T>
-    void Logger::push(const T * address)
+    void Logger::push(T * address)
     {
       Tmap::iterator i= logs_.find( address );
 
@@ -52,7 +52,7 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push<T>(&reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From c8a10cab07a2a10f3ae109d4fe3b948505985c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 46/93] fix: the IMU models with and without magnetometer could
 not be used together because they shared an include guard

---
 .../dynamical-system/imu-magnetometer-dynamical-system.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
index f7d82a5..42504bf 100644
--- a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
+++ b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
@@ -11,8 +11,8 @@
  *
  */
 
-#ifndef IMU_DYNAMICAL_SYSTEM_HPP
-#define IMU_DYNAMICAL_SYSTEM_HPP
+#ifndef IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
+#define IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
 
 #include <state-observation/api.h>
 #include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
-- 
2.43.0


From 5a4f82f3041498a7d37a5e69df4d4718939c0df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 47/93] fix: the Coriolis term of the elastic inverted pendulum
 used the height instead of the horizontal position

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..caef4a8 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From b0e6ffa24acef1629375ba788e934986588d0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 48/93] fix: the elastic flexibility model can be measured
 before any transition

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..e7738be 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -939,7 +939,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From 6ea1c1e0ab79d113ff1a7cfd180909485c64c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 49/93] fix: the momenta derivative from kinematics uses the
 angular velocity of the flexibility

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index e7738be..41ecd7a 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,8 +234,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
-                       op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex,
+                       op_.angularVelocityFlex, op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce,
+                       op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = hrp2::m
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
-- 
2.43.0


From 47aa7f29162b244ee959a034d45ea0a811b8b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 50/93] fix: the momenta derivatives of the elastic flexibility
 model use the configured robot mass

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 41ecd7a..a97a5b8 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -238,7 +238,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.angularVelocityFlex, op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce,
                        op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -249,7 +249,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From da57d7e09829cb3eb759ba48202d09d938bddeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 51/93] fix: process noise of the elastic flexibility model is
 applied to the new state

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index a97a5b8..8fb8d5b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -908,7 +908,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 90c332ff0b3002be4f29ba764418d8aa4a54022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 52/93] fix: contact forces and torques are not exchanged in
 the third Runge-Kutta stage

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 8fb8d5b..214c4a7 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -775,7 +775,7 @@ void IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4(const Vector3 & pos
   angVelocity3 = angularVel + (dt / 2) * angAcc2;
 
   computeAccelerations(positionCom, velocityCom, accelerationCom, AngMomentum, dotAngMomentum, inertia, dotInertia,
-                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, tc, fc,
+                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, fc, tc,
                        fm, tm, addForces, addMoments);
 
   ////////////4th/////////////
-- 
2.43.0


From c1fbab1effc67d3ff6b21d2dbaa8e8a66b7e4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 53/93] fix: the Jacobians of the elastic flexibility model at
 a given state are declared but were not defined

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 214c4a7..40da2e3 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -1144,6 +1144,22 @@ stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJac
   return op_.Jy;
 }
 
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian(const Vector & x,
+                                                                                      const Vector & u,
+                                                                                      TimeIndex k)
+{
+  measureDynamics(x, u, k);
+  return measureDynamicsJacobian();
+}
+
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian(const Vector & x,
+                                                                                    const Vector & u,
+                                                                                    TimeIndex k)
+{
+  stateDynamics(x, u, k);
+  return stateDynamicsJacobian();
+}
+
 stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian()
 {
   op_.Jx.resize(getStateSize(), getStateSize());
-- 
2.43.0


From 6014a34b6e121cd8beea43abba1878eb3bb6f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 54/93] fix: the default IMU noise covariance left its
 off-diagonal blocks uninitialised

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..2e37a11 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From c33b52aadf7ac72dbfc3b798d0974cabc1445f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 55/93] fix: the measurement noise of the model based
 flexibility estimator follows the layout of the measurements

---
 src/model-base-ekf-flex-estimator-imu.cpp | 34 +++++++++++------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2e37a11..23f8657 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -130,6 +130,13 @@ void ModelBaseEKFFlexEstimatorIMU::resetStateCovarianceMatrix()
 
 void ModelBaseEKFFlexEstimatorIMU::setContactsNumber(unsigned i)
 {
+  if(useFTSensors_)
+  {
+    /// keep the part of the noise covariance which keeps its place
+    Index kept = std::min(R_.rows(), Index(6 + 6 * std::min(i, functor_.getContactsNumber())));
+    if(i != functor_.getContactsNumber()) R_.conservativeResize(kept, kept);
+  }
+
   functor_.setContactsNumber(i);
 
   inputSize_ = functor_.getInputSize();
@@ -267,35 +274,24 @@ void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
   {
 
     Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+    R_.conservativeResizeLike(Matrix::Zero(getMeasurementSize(), getMeasurementSize()));
 
     Index currIndex = 6;
     if(useFTSensors_)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
+      for(Index i = 0; i < functor_.getContactsNumber(); ++i)
       {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
+        /// if the force part of the matrix is not filled
+        if(realIndex < currIndex + 6) R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
+        currIndex += 6;
       }
     }
 
     if(withAbsolutePos_)
     {
-      if(realIndex < currIndex + 6)
-      {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
+      if(realIndex < currIndex + 6) R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
 
-        currIndex += 6;
-      }
+      currIndex += 6;
     }
   }
   ekf_.setR(R_);
@@ -525,6 +521,8 @@ void ModelBaseEKFFlexEstimatorIMU::setWithForcesMeasurements(bool b)
     functor_.setWithForceMeasurements(b);
     ekf_.setMeasureSize(functor_.getMeasurementSize());
 
+    /// the force part comes before the others
+    R_.conservativeResize(6, 6);
     updateMeasurementCovarianceMatrix_();
   }
 }
-- 
2.43.0


From f5ac32d5b6bfc6c27b4726c8f77707002f10f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 56/93] fix: resetting the covariances restores the force and
 absolute position variances

---
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 23f8657..270d70b 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -93,8 +93,7 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
+  R_ = getDefaultRIMU();
 
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
-- 
2.43.0


From f87473ea3890e59cce03749c08edc406cf247b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 57/93] fix: a 3x3 force variance applies to the forces and the
 torques

---
 src/model-base-ekf-flex-estimator-imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 270d70b..c40434c 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -593,7 +593,9 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
+  forceVariance_ = Matrix::Zero(6, 6);
+  forceVariance_.block<3, 3>(0, 0) = v;
+  forceVariance_.block<3, 3>(3, 3) = v;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 82a63ea190a86550abe09eee7c9a98148cfb8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 58/93] fix: changing the force or absolute position variance
 has effect on measurements already enabled

---
 .../model-base-ekf-flex-estimator-imu.hpp            |  3 +++
 src/model-base-ekf-flex-estimator-imu.cpp            | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..802c0b2 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -240,6 +240,9 @@ public:
 protected:
   virtual void updateMeasurementCovarianceMatrix_();
 
+  /// applies the force variance to the measurement noise covariance
+  void updateForceVariance_();
+
   IMUElasticLocalFrameDynamicalSystem functor_;
 
   Vector x_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index c40434c..f6812fb 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -588,7 +588,7 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
-  updateMeasurementCovarianceMatrix_();
+  updateForceVariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
@@ -596,12 +596,22 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
   forceVariance_ = Matrix::Zero(6, 6);
   forceVariance_.block<3, 3>(0, 0) = v;
   forceVariance_.block<3, 3>(3, 3) = v;
+  updateForceVariance_();
+}
+
+void ModelBaseEKFFlexEstimatorIMU::updateForceVariance_()
+{
+  if(useFTSensors_)
+  {
+    for(Index i = 0; i < functor_.getContactsNumber(); ++i) R_.block(6 + 6 * i, 6 + 6 * i, 6, 6) = forceVariance_;
+  }
   updateMeasurementCovarianceMatrix_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
+  if(withAbsolutePos_) R_.bottomRightCorner(6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 49b858be0672ba929ca15f12b18ff5dd6d48c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 59/93] fix: the limits apply to the forces and torques of
 every contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index f6812fb..5b9493d 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -379,13 +379,17 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
         lastX_.segment(state::ori, 3) = kine::regulateOrientationVector(lastX_.segment(state::ori, 3));
         if(limitOn_)
         {
-          for(int i = 0; i < 3; i++)
+          for(unsigned c = 0; c < hrp2::contact::nbModeledMax; ++c)
           {
-            // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            const Index force = state::fc + 6 * c, torque = force + 3;
+            for(int i = 0; i < 3; i++)
+            {
+              // Saturation for bounded forces and torques
+              lastX_[torque + i] = std::min(lastX_[torque + i], limitTorques_[i]);
+              lastX_[force + i] = std::min(lastX_[force + i], limitForces_[i]);
+              lastX_[torque + i] = std::max(lastX_[torque + i], -limitTorques_[i]);
+              lastX_[force + i] = std::max(lastX_[force + i], -limitForces_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From e0be737b47d5e805787adebbd9d86c749892a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 60/93] fix: a guess of the flexibility is not lost by a guess
 of the CoM bias nor by a failed estimation

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 ++
 src/model-base-ekf-flex-estimator-imu.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..9efd7db 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -119,6 +119,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
+    lastX_ = x0;
     ekf_.setState(x0, k_);
   }
   else
@@ -131,6 +132,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
+    lastX_ = x_s;
     ekf_.setState(x_s, k_);
 
     ekf_.setQ(Q_);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 5b9493d..feb7a4a 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -175,6 +175,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
+    lastX_ = x0;
     ekf_.setState(x0, k_);
   }
   else
@@ -187,6 +188,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
+    lastX_ = x_s;
     ekf_.setState(x_s, k_);
 
     ekf_.setQ(Q_);
-- 
2.43.0


From a77f6f4718a2ea155399085a4014ae6888eecd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 61/93] fix: the sampling period of the fixed contact estimator
 reaches its model

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 9efd7db..3d3deb4 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -221,6 +221,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 9e2ab7572c6fa13ca3f0fb44f7114cfc1690f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 62/93] fix: accelerations and momenta rates of the flexibility
 use the input of the time of the estimate

---
 .../model-base-ekf-flex-estimator-imu.hpp                   | 3 ++-
 src/model-base-ekf-flex-estimator-imu.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index 802c0b2..f4fb63a 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -67,7 +67,8 @@ public:
 
   virtual stateObservation::Vector computeAccelerations()
   {
-    return functor_.computeAccelerations(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // updates the time of the input
+    return functor_.computeAccelerations(x, getInput());
   }
 
   void setContactModel(unsigned nb);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index feb7a4a..8b694f7 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -233,7 +233,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromForces()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromForces(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // updates the time of the input
+    return functor_.getMomentaDotFromForces(x, getInput());
   }
   else
   {
@@ -247,7 +248,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromKinematics()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromKinematics(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // updates the time of the input
+    return functor_.getMomentaDotFromKinematics(x, getInput());
   }
   else
   {
-- 
2.43.0


From f9cd9b7a773fed02362da900b8f3d779fdce348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:17 +0000
Subject: [PATCH 63/93] fix: the flexibility guess can be a homogeneous matrix

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 5 +++--
 src/model-base-ekf-flex-estimator-imu.cpp    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 3d3deb4..1b7169d 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = x.cols() == 1 && ekf_.checkStateVector(x);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,7 +115,8 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
+  if(!bhomogeneous) x0 = x;
 
   if(bstate)
   {
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 8b694f7..8500739 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -162,7 +162,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = x.cols() == 1 && ekf_.checkStateVector(x);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -171,7 +171,8 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
+  if(!bhomogeneous) x0 = x;
 
   if(bstate)
   {
-- 
2.43.0


From 8511c43cb8b153e0659ae7003ef8b1ea4aadce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 64/93] fix: removing an existing contact does not fail an
 assertion

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..b59c629 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -964,7 +964,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From 60488710a4bc3664442f67fd77d7355370bc0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 65/93] fix: clearing the contacts keeps the room for new ones

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b59c629..24a6d8a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -975,7 +975,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From 206cac99ef45633ac45cf85e76c249fb9d71d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 66/93] fix: the number of contacts is the number of current
 contacts

---
 src/kinetics-observer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 24a6d8a..cc4426d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -985,7 +985,15 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  Index n = 0;
+  for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    if(i->isSet)
+    {
+      ++n;
+    }
+  }
+  return n;
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From 292a28eb093ccf1a0c1e54a0ed0bd0036498c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 67/93] fix: the number of wrench sensors stays in step with
 the contacts over iterations

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index cc4426d..7d2c118 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1301,6 +1301,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From af8b064979f068e217c13439abb3eb222632d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 68/93] fix: the automatic IMU number is the first one without
 a measurement in the iteration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7d2c118..e58e64d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -508,7 +508,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -566,7 +566,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 283eb18730d3e7ceea64c534ed03861a73853931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 69/93] fix: the pose of an added contact reaches the filter

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index e58e64d..f79a838 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -936,6 +936,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From 274ccf5d6e54f7c740dec16245a6b25db2e9296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 70/93] fix: the linear stiffness of a contact does not depend
 on its damping

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f79a838..79c66ee 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -898,7 +898,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From 33c5c62cdfe9e7c857f070a13c31f9dee99c57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 71/93] fix: the first update of a contact needs no velocities
 and no earlier kinematics

---
 src/kinetics-observer.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 79c66ee..dd6c17f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -631,13 +631,22 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
+  if(contacts_[contactNumber].time == k_data_ - 1
+     && contacts_[contactNumber].localKine.position.isSet()) /// the contact is not newly set
   {
     contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
   }
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    if(!contacts_[contactNumber].localKine.linVel.isSet())
+    {
+      contacts_[contactNumber].localKine.linVel.set().setZero();
+    }
+    if(!contacts_[contactNumber].localKine.angVel.isSet())
+    {
+      contacts_[contactNumber].localKine.angVel.set().setZero();
+    }
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -667,13 +676,22 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
+  if(contacts_[contactNumber].time == k_data_ - 1
+     && contacts_[contactNumber].localKine.position.isSet()) /// the contact is not newly set
   {
     contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
   }
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    if(!contacts_[contactNumber].localKine.linVel.isSet())
+    {
+      contacts_[contactNumber].localKine.linVel.set().setZero();
+    }
+    if(!contacts_[contactNumber].localKine.angVel.isSet())
+    {
+      contacts_[contactNumber].localKine.angVel.set().setZero();
+    }
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -701,13 +719,22 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
+  if(contacts_[contactNumber].time == k_data_ - 1
+     && contacts_[contactNumber].localKine.position.isSet()) /// the contact is not newly set
   {
     contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
   }
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    if(!contacts_[contactNumber].localKine.linVel.isSet())
+    {
+      contacts_[contactNumber].localKine.linVel.set().setZero();
+    }
+    if(!contacts_[contactNumber].localKine.angVel.isSet())
+    {
+      contacts_[contactNumber].localKine.angVel.set().setZero();
+    }
   }
 
   contacts_[contactNumber].time = k_data_;
@@ -897,6 +924,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.localKine.reset();
 
   if(linearStiffness != Matrix3::Zero())
   {
-- 
2.43.0


From 5562a916dc3e2cbb19bc883e0268a979c95a6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 72/93] fix: resetting the inputs of the kinetics observer
 leaves no half-started iteration

---
 src/kinetics-observer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index dd6c17f..a1334e5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1297,15 +1297,23 @@ void KineticsObserver::resetInputs()
 {
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
   }
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
   }
 
   absPoseSensor_.time = k_est_;
+
+  k_data_ = k_est_; /// there is no new measurement anymore
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From aab84923fb49f789c36f73ef33b35d6af25e33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 73/93] fix: an observer can have no IMU

---
 .../dynamics-estimators/kinetics-observer.hxx                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hxx b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
index 1b723a0..f934736 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hxx
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
@@ -26,7 +26,7 @@ inline unsigned KineticsObserver::gyroBiasIndex( unsigned numberOfIMU) const
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndex() const
 {
-  return gyroBiasIndex(0)+ sizeGyroBias*maxImuNumber_;
+  return angVelIndex()+sizeAngVel+ sizeGyroBias*maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndex() const
 {
@@ -134,7 +134,7 @@ inline unsigned KineticsObserver::gyroBiasIndexTangent( unsigned numberOfIMU) co
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndexTangent() const
 {
-  return gyroBiasIndexTangent(0)+sizeGyroBias*maxImuNumber_;
+  return angVelIndexTangent()+sizeAngVel+sizeGyroBias*maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndexTangent() const
 {
-- 
2.43.0


From c1b06e59ec74454f571ea5be2476d199bf33a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 74/93] fix: setWithGyroBias sets the gyro bias option

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a1334e5..9ed7a47 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From 9d0498ab36cfe3ff387453b2621926830aae1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 75/93] fix: the kinematics of an IMU are differentiated over
 the time since its last measurement

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 9ed7a47..196dc4a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -544,7 +544,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -603,7 +603,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From 0b578520900a6f0688d4aaf7da516a7a32203c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 76/93] fix: measurements given without covariance use the
 default covariance

---
 src/kinetics-observer.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 196dc4a..eefcc44 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -522,10 +522,11 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
 
   imu.acceleroGyro.head<3>() = accelero;
   imu.acceleroGyro.tail<3>() = gyrometer;
+  imu.covMatrixAccelero = acceleroCovMatDefault_;
+  imu.covMatrixGyro = gyroCovMatDefault_;
+
   if(imuSensors_[num].time == 0) /// this is the first value for the IMU
   {
-    imu.covMatrixAccelero = acceleroCovMatDefault_;
-    imu.covMatrixGyro = gyroCovMatDefault_;
     imu.kinematics = localKine;
     BOOST_ASSERT(imu.kinematics.position.isSet() && imu.kinematics.orientation.isSet()
                  && "The kinematics of the IMU is incorrectly initialized");
@@ -651,10 +652,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
-  if(!contacts_[contactNumber].sensorCovMatrix.isSet())
-  {
-    contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
-  }
+  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
 
   if(!(contacts_[contactNumber].withRealSensor))
   {
@@ -754,10 +752,7 @@ void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose)
   absPoseSensor_.time = k_data_;
   absPoseSensor_.pose = pose;
 
-  if(!(absPoseSensor_.covMatrix.isSet()))
-  {
-    absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
-  }
+  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
 }
 
 void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose, const Matrix6 & CovarianceMatrix)
-- 
2.43.0


From f0de820b2a621bc5c356a2b8bc39c7d30e4f2268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 77/93] fix: the center of mass of the kinetics observer was
 left uninitialised

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index eefcc44..d1cf918 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -163,6 +163,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From 5d002574d3e763e2d18f8012ca96d42cea7e1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 78/93] fix: the initial orientation of the kinetics observer
 is a rotation

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d1cf918..2014f85 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -131,6 +131,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   ekf_.setStateArithmetics(this);
 
   stateVector_.setZero();
+  stateVector_.segment<sizeOri>(oriIndex()) = Orientation::zeroRotation().toVector4();
   oldStateVector_ = stateVector_;
 
   ekf_.setState(stateVector_, k_est_);
-- 
2.43.0


From 6eb8f5b47f587b5b15bddb9d5ffc25ae1e724bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 79/93] fix: the centrifugal acceleration of the center of mass
 is not doubled

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2014f85..d7b9bce 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1415,7 +1415,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From 377dad8c3a12557f22c39ceacce00184fdcf96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 80/93] fix: the gyrometer measurement includes the estimated
 bias

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d7b9bce..4b43747 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1656,6 +1656,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From 6df8f065bdd617ee472817adea2d848fd98ceb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 81/93] fix: the contact wrench comes from the deviation of the
 contact from its rest pose

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..73ece68 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4b43747..6904979 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1430,7 +1430,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1585,30 +1585,14 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact in the global frame
+      Kinematics contactPose(x.segment<sizeContactKine>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force, torque;
+      computeContactForces_(i, stateKine, contactPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From 5d2c8afa2554e6d07e78b5b2a42459199a965f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 82/93] fix: the contact torque does not depend on the sign of
 the quaternions

---
 src/kinetics-observer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6904979..2a9fbb4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1443,10 +1443,14 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
   force = globKineOriInverse
           * (contact.linearStiffness * (contactPose.position() - globalKine.position())
              - contact.linearDamping * globalKine.linVel());
+
+  Quaternion deviation = globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse();
+  if(deviation.w() < 0) /// the same rotation with the opposite sign
+  {
+    deviation.coeffs() *= -1;
+  }
   torque = globKineOriInverse
-           * (-0.5 * contact.angularStiffness
-                  * (globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse()).vec()
-              - contact.angularDamping * globalKine.angVel());
+           * (-0.5 * contact.angularStiffness * deviation.vec() - contact.angularDamping * globalKine.angVel());
 }
 
 void KineticsObserver::stateSum(const Vector & stateVector, const Vector & tangentVector, Vector & sum)
-- 
2.43.0


From c64342ab8731a6deedb1168c7c3501977b77b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 83/93] fix: the accelerations were written over the checked
 item instead of its value

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2a9fbb4..2d9d88a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1623,8 +1623,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc();
+  Vector3 & angacc = stateKine.angAcc();
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From 140558b1897d91ece5e1e0619e39639113136d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 84/93] fix: the difference of states is zero on the components
 that are not estimated

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2d9d88a..bbf62b7 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1494,7 +1494,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From bf1fa7e6704e1a1abbfeb08f0a6302cdab06c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 85/93] fix: setting a part of the state resets the covariance
 of that part and not of another

---
 src/kinetics-observer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bbf62b7..8868309 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -432,7 +432,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_, contactIndexTangent(i));
         }
       }
     }
@@ -448,7 +448,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -462,7 +462,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 6484dfc1b8c594de8f9d615312eb83f8054d10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 86/93] fix: the default IMU number of setGyroBias exists for
 one IMU

---
 .../state-observation/dynamics-estimators/kinetics-observer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index 73ece68..ceec8be 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -463,7 +463,7 @@ public:
   ///
   /// @param numberOfIMU number id of the IMU
   /// @param resetCovariance set if the covariance of the IMU bias should be reset
-  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 1, bool resetCovariance = true);
+  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = true);
 
   /// @brief Set the State Unmodeled Wrench
   /// @details this modifies the current guess for external unmodeled Wrench. This is different from
-- 
2.43.0


From ceac0d897ee65fddd59b7a2558554dac21b3b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 87/93] fix: resetting the state covariance includes every gyro
 bias

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 8868309..b383315 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1171,10 +1171,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From ecd167f3980847f7fea067af1a82729f0740247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 88/93] fix: accelerations of the previous state do not survive
 setStateVector

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b383315..1552597 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -472,6 +472,7 @@ void KineticsObserver::setStateVector(const Vector & v, bool resetCovariance)
 {
   stateVector_ = v;
   ekf_.setState(v, k_est_);
+  stateKinematics_.reset();
   updateKine_();
 
   if(resetCovariance)
-- 
2.43.0


From 8a9c54907b8f8bd8a84443cc0a0689d10b191c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 89/93] fix: setKinematicsProcessCovariance was declared but
 not defined

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 1552597..d51800a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1054,6 +1054,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & Q_kine)
+{
+  Matrix Q = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(Q, Q_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(Q);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From 966f3e1e66eb1f3009a57ea1a262fa1b2f9b2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 90/93] fix: the default process noise of the contact wrenches
 is not their initial variance

---
 src/kinetics-observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d51800a..ab2ff6e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -161,6 +161,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From 39d6e6ad5e9fe6d7615fe510630d74d3ad40d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 91/93] fix: ZeroDelayObserver::getEstimatedState pops from an
 empty input history when no input is stored

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 201ba26..2d817a9 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -158,7 +158,7 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
     if(y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From 5202b6744a2b01cf49e4ec9c10c2903f5d38cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 92/93] fix: simulated measurements of an extended Kalman
 filter without inputs use a leftover input of the wrong size

---
 src/extended-kalman-filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 3fbb2f0..8fa4f08 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -132,6 +132,10 @@ must set directInputOutputFeedthrough to 'false' in the constructor");
       opt.u_ = inputVectorZero();
     }
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
 
   return f_->measureDynamics(x, opt.u_, k);
 }
-- 
2.43.0


From 230a0f6765bd44402520dd2e2a906f0e526f85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 93/93] fix: noise models set on a kinetics observer have no
 effect (their result is discarded)

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index ab2ff6e..e9569ca 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1609,7 +1609,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1674,7 +1674,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0

