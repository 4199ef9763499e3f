From 1830f562067f0fc8f376028bae0a9a55517bdef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 01/82] fix: setLastIndex labels the last element with the
 given index

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..926c0b4 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=TimeIndex(index)-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 98fc645a64aaf00977694d4e128b685e1777847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 02/82] fix: truncateBefore keeps every element whose index is
 not smaller than the given time

---
 include/state-observation/tools/definitions.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 926c0b4..9adeb11 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,14 +476,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
+      while (getFirstIndex()<time)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-- 
2.43.0


From 9a79e980a056fcff6b81445e568617481a83cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 03/82] fix: readFromFile does not append an incomplete element
 at the end of the file

---
 include/state-observation/tools/definitions.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 9adeb11..a727cc5 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -535,8 +535,13 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail())
+          continuation=false;
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From 94d46f9fed5f7d5db8d09a29fcb165fa32a0807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 04/82] fix: pushing a single variable in the logger compiles
 and does not always throw

---
 include/state-observation/tools/logger.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..6782e4a 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,24 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
+      {
         update_(i);
+      }
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From 74573b60adb4ed5fd495ef88249219129f578ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 05/82] fix: updating the address of a recorded variable keeps
 its record and its tracking

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 6782e4a..5e3d960 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -68,10 +68,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From d98fc5e9fc49c351d3d70ffab9c9fbe8b5b4c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 06/82] fix: the logger accepts the unsigned variables it is
 able to log

---
 include/state-observation/tools/logger.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 5e3d960..bbe4c6d 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -13,6 +13,7 @@ namespace stateObservation
           && *log.type!=typeid(Vector)
           && *log.type!=typeid(Vector3)
           && *log.type!=typeid(int)
+          && *log.type!=typeid(unsigned)
           && *log.type!=typeid(long)
           && *log.type!=typeid(double)
           && *log.type!=typeid(float))
-- 
2.43.0


From 738bea09db07c5d29a1c8b6cc42407800d0412f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 07/82] fix: setting a state in the past clears the
 measurements and the inputs

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..5fcad6c 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool past = x_.isSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(past)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From e21e67a8f794e65fab0b60446cfcf153f43659a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 08/82] fix: getInputTime requires inputs, not measurements

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 5fcad6c..d4dfba1 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -189,7 +189,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 4c768f9165f71371e3102cbf6b31638390dea3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 09/82] fix: estimating without inputs does not pop the empty
 list of inputs

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index d4dfba1..0f09b2e 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -158,7 +158,7 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
     if(y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From 99aea631608ad8706eb87a3481239d9494cea585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 10/82] fix: the extended Kalman filter does not reuse
 predictions of another state, input or functor

---
 .../observer/extended-kalman-filter.hpp       | 12 ++++++
 src/extended-kalman-filter.cpp                | 42 +++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..4968dbb 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -147,8 +147,20 @@ protected:
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
 
+    /// what the last state prediction was computed with
+    DynamicalSystemFunctorBase * predictionFunctor_ = 0x0;
+    ObserverBase::StateVector predictionState_;
+    ObserverBase::InputVector predictionInput_;
+
+    /// what the last measurement prediction was computed with
+    bool measurementUpToDate_ = false;
+    ObserverBase::InputVector um_;
+    ObserverBase::InputVector measurementInput_;
+
   } opt;
 
+  static bool isSameVector_(const Vector & a, const Vector & b);
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..ecce76a 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -83,22 +83,34 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
   }
 }
 
+bool ExtendedKalmanFilter::isSameVector_(const Vector & a, const Vector & b)
+{
+  return a.size() == b.size() && a == b;
+}
+
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if((p_ > 0) && (directInputStateProcessFeedthrough_))
   {
-    if((p_ > 0) && (directInputStateProcessFeedthrough_))
-    {
 
-      BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
-      opt.u_ = this->u_[k - 1];
-    }
-    else
-    {
-      opt.u_ = inputVectorZero();
-    }
-    BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+    BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
+    opt.u_ = this->u_[k - 1];
+  }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+
+  /// the prediction is recomputed unless the time, the functor, the state and the input are those it was computed with
+  if(!xbar_.isSet() || xbar_.getTime() != k || opt.predictionFunctor_ != f_
+     || !isSameVector_(opt.predictionState_, this->x_()) || !isSameVector_(opt.predictionInput_, opt.u_))
+  {
     xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    opt.predictionFunctor_ = f_;
+    opt.predictionState_ = this->x_();
+    opt.predictionInput_ = opt.u_;
+    opt.measurementUpToDate_ = false;
   }
 
   return xbar_();
@@ -106,10 +118,14 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
+  opt.um_ = (p_ > 0 && u_.checkIndex(k)) ? InputVector(u_[k]) : inputVectorZero();
 
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
+  if(!opt.measurementUpToDate_ || !this->ybar_.isSet() || this->ybar_.getTime() != k || ybar_().size() != m_
+     || !isSameVector_(opt.measurementInput_, opt.um_))
   {
     ybar_.set(simulateSensor_(xbar_(), k), k);
+    opt.measurementInput_ = opt.um_;
+    opt.measurementUpToDate_ = true;
   }
 
   return ybar_();
@@ -213,6 +229,8 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 void ExtendedKalmanFilter::reset()
 {
   KalmanFilterBase::reset();
+  xbar_.reset();
+  ybar_.reset();
   if(f_ != 0x0) f_->reset();
 }
 
-- 
2.43.0


From 1a8a15c42d8fb38f4e57a8c836dafadef5f1dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 11/82] fix: initialise the measurement tangent size of default
 constructed filters

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..1461b5d 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,7 +12,7 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
 : ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
-- 
2.43.0


From bdcebf6066dd399f230f45235eca5f66cfd86770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 12/82] fix: the finite difference measurement Jacobian uses
 the measurement difference operator and tangent size

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 4968dbb..da9dd2d 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -146,6 +146,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    Vector dy_;
 
     /// what the last state prediction was computed with
     DynamicalSystemFunctorBase * predictionFunctor_ = 0x0;
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index ecce76a..388834d 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -200,7 +200,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -217,10 +217,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From c32bcb39da0d46a9454a805f98e09bae7707f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 13/82] fix: simulating a measurement does not overwrite the
 last predicted measurement

---
 src/linear-kalman-filter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..fd3f6aa 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,10 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
-  else
-  {
-    ybar_.set(c_ * x, k);
-  }
-  return ybar_();
+
+  return c_ * x;
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From 046b946bd335739524570abd0b54199e957f30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:26 +0000
Subject: [PATCH 14/82] fix: a copied Kalman filter does not use the
 arithmetics of the original filter

---
 .../state-observation/observer/kalman-filter-base.hpp  |  6 ++++++
 src/extended-kalman-filter.cpp                         |  8 ++++----
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..b885705 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,14 @@ protected:
     Matrix t;
   } oc_;
 
+  /// The arithmetics set by the user, null if the filter uses its own (a copy of the filter then uses its own too)
   StateVectorArithmetics * arithm_;
 
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return arithm_ != 0x0 ? *arithm_ : *this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 388834d..42d4998 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -182,11 +182,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -213,11 +213,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dy_);
     opt.dy_ /= dx[i];
 
     opt.c_.col(i) = opt.dy_;
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 1461b5d..00b2030 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0


From 1393f7ed983276e5d0afe3e7c719a428aa7aebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:46 +0000
Subject: [PATCH 15/82] fix: the state covariance is symmetrised without
 aliasing

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 00b2030..3001432 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval();
 
   return oc_.xhat;
 }
-- 
2.43.0


From 74fc82e6556758f5c693f41b2aea2e45ff205170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 16/82] fix: mergeRoll1Pitch1WithYaw2 is defined with its
 declared signature

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..9a08b4a 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 3658bbd255fb2cc25c753b5f6e8160fb4f17a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 17/82] fix: the declared regulateRotationVector is defined

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9a08b4a..342db7f 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -104,7 +104,7 @@ inline void integrateKinematics(Vector3 & position,
 
 /// Puts the orientation vector norm between 0 and Pi if it
 /// gets close to 2pi
-inline Vector regulateOrientationVector(const Vector3 & v)
+inline Vector regulateRotationVector(const Vector3 & v)
 {
   double n2 = v.squaredNorm();
   if(n2 > std::pow(3. / 2. * M_PI, 2))
@@ -119,6 +119,12 @@ inline Vector regulateOrientationVector(const Vector3 & v)
   }
 }
 
+/// Former name of regulateRotationVector
+inline Vector regulateOrientationVector(const Vector3 & v)
+{
+  return regulateRotationVector(v);
+}
+
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v)
 {
-- 
2.43.0


From a281c52969d9e587b3feb1adec6844f116f05220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 18/82] fix: the orthogonalization of a rotation matrix never
 gives a reflection

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 342db7f..56e570a 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -245,7 +245,13 @@ inline Vector3 vectorComponent(const Quaternion & q)
 inline Matrix3 orthogonalizeRotationMatrix(const Matrix3 & M)
 {
   Eigen::JacobiSVD<Matrix3> svd(M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  return svd.matrixU() * svd.matrixV().transpose();
+  Matrix3 U = svd.matrixU();
+  if((U * svd.matrixV().transpose()).determinant() < 0)
+  {
+    /// the closest orthogonal matrix is not a rotation
+    U.col(2) = -U.col(2);
+  }
+  return U * svd.matrixV().transpose();
 }
 
 /// transform a 3d vector into a skew symmetric 3x3 matrix
-- 
2.43.0


From 1da824a536c7f11144396525583e652e782a7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 19/82] fix: sign of the multiplicative Jacobian of a vector in
 a local frame

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 56e570a..b56f700 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -560,7 +560,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From 7b9a10dc2b2d8639748110a38cfb8a428015b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 20/82] fix: twoVectorsToRotationMatrix accepts vectors
 normalized to the machine precision

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index b56f700..9d17d04 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -323,7 +323,7 @@ inline Matrix4 vector6ToHomogeneousMatrix(const Vector6 & v)
 inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
 {
 
-  BOOST_ASSERT(v1.isUnitary(cst::epsilon1) && Rv1.isUnitary(cst::epsilon1)
+  BOOST_ASSERT(v1.isUnitary(1e-10) && Rv1.isUnitary(1e-10)
                && "The vectors v1 and Rv1 need to be normalized");
 
   double v1dotRv1 = v1.dot(Rv1);
-- 
2.43.0


From ba798f77c88891167b6a70849dcceda6515471dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:56 +0000
Subject: [PATCH 21/82] fix: finiteTimeAccControl computes the first component
 of the vector

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..438c2c1 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -162,7 +162,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From caa1425e1b30615563a764adbd1cbd0217e26f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 22/82] fix: twoVectorsToRotationMatrix gives no NaN for nearly
 equal vectors

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9d17d04..719d586 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -341,8 +341,9 @@ inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
   else
   {
     Vector3 v1xRv1 = v1.cross(Rv1);
-    return Matrix3::Identity() + skewSymmetric(v1xRv1)
-           + ((1 - v1.dot(Rv1)) / v1xRv1.squaredNorm()) * skewSymmetric2(v1xRv1);
+    /// (1-cos)/sin^2 = 1/(1+cos), each expression is accurate where the other one is not
+    double factor = (v1dotRv1 > 0) ? 1 / (1 + v1dotRv1) : (1 - v1dotRv1) / v1xRv1.squaredNorm();
+    return Matrix3::Identity() + skewSymmetric(v1xRv1) + factor * skewSymmetric2(v1xRv1);
   }
 }
 
-- 
2.43.0


From 43b63350733aceb9c5ea66c23af331325b0791b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 23/82] fix: updating the pose with the acceleration alone uses
 half of the square of the step

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 719d586..1c4b9c5 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1383,7 +1383,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1581,7 +1581,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From e06ff876074ff8c371c11ab6253d1831e791c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 24/82] fix: sign of the angular acceleration updated from
 orientations

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 1c4b9c5..b44fe51 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1542,7 +1542,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From 1c6db7d2b4b42471f8f627283410423cbe4467b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 25/82] fix: the angular acceleration is updated from the
 orientation and the angular velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index b44fe51..e0a6bcd 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1548,7 +1548,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From d9a2eb2b75b1333559435075b6092c782e9cc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:50 +0000
Subject: [PATCH 26/82] fix: the tilt estimator keeps the measurements given in
 advance

---
 src/tilt-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tilt-estimator.cpp b/src/tilt-estimator.cpp
index 6d6c5d5..34978d3 100644
--- a/src/tilt-estimator.cpp
+++ b/src/tilt-estimator.cpp
@@ -42,7 +42,7 @@ ObserverBase::StateVector TiltEstimator::oneStepEstimation_()
 
   x_hat.tail<3>() /= x_hat.tail<3>().norm();
 
-  setState(x_hat, k + 1);
+  x_.set(x_hat, k + 1);
 
   return x_hat;
 }
-- 
2.43.0


From 0cdf94b2843dbe81effe7ba3d4af9cea57be068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 27/82] fix: the DCM measurement error takes effect on the
 planar estimator

---
 src/lipm-dcm-estimator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..cedc041 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
-- 
2.43.0


From 0805741e4e6343025230f2aa97e59da33fee595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 28/82] fix: the DCM measurement error takes effect on the one
 dimensional estimator

---
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 0d83d256836e0b71da9cc02bbe1f108f44683ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 29/82] fix: the bias drift of the planar estimator is given
 per second

---
 src/lipm-dcm-estimator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index cedc041..241fcb5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
-- 
2.43.0


From d8150e56ff791c3fd505f710272132aec162d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 30/82] fix: the bias drift of the one dimensional estimator is
 given per second

---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From a40596b02c3cf6f2fbac89737c0b8d2c123cdd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 31/82] fix: the bias is kept on the axis that has no limit

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 241fcb5..245b647 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -178,7 +178,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From 29eb4d2ec5104bdcc667b58910ebede9f271e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 32/82] fix: the excess of bias is given to the DCM in the
 world frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 245b647..100b4f5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -189,7 +189,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From 1be0d2815a0fb1d0c58ba976be2766cee9f8158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 33/82] fix: giving inputs twice to the planar estimator uses
 each heading

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 100b4f5..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 052078d604eb2c20bba6fef8996c655921d5d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 34/82] fix: a noisy sensor accepts signals concatenated with
 its measurements

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..fe1a083 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.size() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From 03aa589435d36095ae0ee45e203dca5d48576df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 35/82] fix: initialise the elasticity of the pendulum

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..ae77fd9 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -5,7 +5,7 @@ namespace stateObservation
 
 using stateObservation::cst::gravityConstant;
 
-BidimElasticInvPendulum::BidimElasticInvPendulum() : m_(1), h_(1), processNoise_(0x0), dt_(1)
+BidimElasticInvPendulum::BidimElasticInvPendulum() : k_(1), m_(1), h_(1), processNoise_(0x0), dt_(1)
 {
 #ifdef STATEOBSERVATION_VERBOUS_CONSTRUCTORS
   std::cout << std::endl << "IMUFixedContactDynamicalSystem Constructor" << std::endl;
-- 
2.43.0


From f0ee856da1279928a6b08fea4644e54cc1e9d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 36/82] fix: Coriolis effect of the elastic pendulum

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index ae77fd9..a20b134 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From d7dbfd3a0e20dd0b4d4a7f46bc7e8e7a5ec0995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 37/82] fix: give the IMU-magnetometer model header its own
 include guard

---
 .../dynamical-system/imu-magnetometer-dynamical-system.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
index f7d82a5..42504bf 100644
--- a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
+++ b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
@@ -11,8 +11,8 @@
  *
  */
 
-#ifndef IMU_DYNAMICAL_SYSTEM_HPP
-#define IMU_DYNAMICAL_SYSTEM_HPP
+#ifndef IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
+#define IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
 
 #include <state-observation/api.h>
 #include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
-- 
2.43.0


From fc64434c9ffa521c707b732c0a554cfab2c2fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:56 +0000
Subject: [PATCH 38/82] fix: let the simulator overwrite the input of an
 instant

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From 87898d2f9367678fc998d9339abc85967f0b801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:56 +0000
Subject: [PATCH 39/82] fix: drop the simulated measurements of replaced states

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..fbaefcf 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1); // the measurements of the replaced states are obsolete
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From 90a2ee3a9589696f565c8a9391fc9a2351ef26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:02 +0000
Subject: [PATCH 40/82] fix: simulate far enough to provide the requested state
 or measurement

---
 src/dynamical-system-simulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index fbaefcf..b79e5e8 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -34,8 +34,8 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  while(y_.size() == 0 || y_.getLastIndex() < k) simulateDynamics();
 
   return y_[k];
 }
@@ -43,7 +43,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
-- 
2.43.0


From b89d6e0f76cb5e9f84498963bdb2addc222dad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:02 +0000
Subject: [PATCH 41/82] fix: simulate the measurements of the instants followed
 by a given state

---
 src/dynamical-system-simulator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index b79e5e8..aeb3c1e 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -76,6 +76,11 @@ void DynamicalSystemSimulator::simulateDynamics()
 
   TimeIndex k(x_.getLastIndex());
   Vector u = getInput(k);
+  if(y_.size() > 0)
+  {
+    /// the instants whose following state was given by setState have no measurement yet
+    for(TimeIndex i = y_.getNextIndex(); i < k; ++i) y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
+  }
   y_.setValue(f_->measureDynamics(x_[k], u, k), k);
   x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
 }
-- 
2.43.0


From 7b8c264b9e4caf4606d1ab5b37ee01089d64a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:52 +0000
Subject: [PATCH 42/82] fix: check that an input is available before reading it
 in the simulator

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index aeb3c1e..d6378d6 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -63,9 +63,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From 8eeb18c213cc823a6524db63aa9e05d001de61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:08 +0000
Subject: [PATCH 43/82] fix: accept singular covariance matrices in the
 Gaussian white noise

---
 src/gaussian-white-noise.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gaussian-white-noise.cpp b/src/gaussian-white-noise.cpp
index b5b74dd..4d1e51f 100644
--- a/src/gaussian-white-noise.cpp
+++ b/src/gaussian-white-noise.cpp
@@ -32,8 +32,11 @@ void GaussianWhiteNoise::setStandardDeviation(const Matrix & std)
 void GaussianWhiteNoise::setCovarianceMatrix(const Matrix & cov)
 {
   checkMatrix_(cov);
-  Matrix L(cov.llt().matrixL());
-  std_ = L;
+  /// the pivoted decomposition is also valid for the singular matrices
+  Eigen::LDLT<Matrix> ldlt(cov);
+  Matrix L(ldlt.matrixL());
+  L = L * ldlt.vectorD().cwiseMax(0.).cwiseSqrt().asDiagonal();
+  std_ = ldlt.transpositionsP().transpose() * L;
 }
 
 void GaussianWhiteNoise::setBias(const Vector & bias)
-- 
2.43.0


From b1d2b5b7f8d36e0a5e91546e31fe9f7c277611f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 44/82] fix: setWithGyroBias sets the gyro bias option

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..7c9d0ab 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From e532f4dfc6c7ac2f17f3a508e39ae05eb0aba6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 45/82] fix: give automatically the first IMU number not used
 yet in the iteration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7c9d0ab..b514b9d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -508,7 +508,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -566,7 +566,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 5f22d8103c2fd4e09b30d5bbd5aa635361246967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 46/82] fix: derive the IMU kinematics over the time since its
 last value

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b514b9d..bf3dbc5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -544,7 +544,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -603,7 +603,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From f1c7f751b5720093cc9ad673485c76a7438e02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 47/82] fix: use the current default covariances for
 measurements given without covariance

---
 src/kinetics-observer.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bf3dbc5..7155b71 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -522,10 +522,11 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
 
   imu.acceleroGyro.head<3>() = accelero;
   imu.acceleroGyro.tail<3>() = gyrometer;
+  imu.covMatrixAccelero = acceleroCovMatDefault_;
+  imu.covMatrixGyro = gyroCovMatDefault_;
+
   if(imuSensors_[num].time == 0) /// this is the first value for the IMU
   {
-    imu.covMatrixAccelero = acceleroCovMatDefault_;
-    imu.covMatrixGyro = gyroCovMatDefault_;
     imu.kinematics = localKine;
     BOOST_ASSERT(imu.kinematics.position.isSet() && imu.kinematics.orientation.isSet()
                  && "The kinematics of the IMU is incorrectly initialized");
@@ -642,10 +643,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
-  if(!contacts_[contactNumber].sensorCovMatrix.isSet())
-  {
-    contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
-  }
+  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
 
   if(!(contacts_[contactNumber].withRealSensor))
   {
@@ -727,10 +725,7 @@ void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose)
   absPoseSensor_.time = k_data_;
   absPoseSensor_.pose = pose;
 
-  if(!(absPoseSensor_.covMatrix.isSet()))
-  {
-    absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
-  }
+  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
 }
 
 void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose, const Matrix6 & CovarianceMatrix)
-- 
2.43.0


From b97bc8131ce68c225c192bd3d661c41761e5264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 48/82] fix: removeContact accepts the existing contacts

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7155b71..49e076e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -959,7 +959,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From ec07690ce032d5cae7717bebfd6ca76ff05b532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 49/82] fix: clearContacts keeps the slots of the contacts

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 49e076e..be193b2 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -970,7 +970,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From cdcfafd0dc3e5fd89300eb439cb4df2baa24da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 50/82] fix: getNumberOfContacts counts the current contacts

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index be193b2..01ad437 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -980,7 +980,7 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  return getListOfContacts().size();
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From bc4094a4d55f4ab547363fe3bce59941bc2b69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 51/82] fix: use the provided linear stiffness of a contact
 whatever its damping

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 01ad437..f17afc3 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -893,7 +893,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From f7acbea460719e102a1b0701764267615c29f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 52/82] fix: give the pose of a new contact to the filter

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f17afc3..0a0e76c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -931,6 +931,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From fe25b83dc773e9172fc4e8c0365ca528e5c4bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 53/82] fix: reset the covariances at the indexes of the
 tangent state

---
 src/kinetics-observer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 0a0e76c..2f32dc2 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -422,7 +422,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -430,7 +430,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -446,7 +447,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -460,7 +461,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 7f597b3a107d81b2c420a2267d3233fa0518da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 54/82] fix: set by default the gyro bias of the first IMU

---
 .../state-observation/dynamics-estimators/kinetics-observer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..f7fd952 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -463,7 +463,7 @@ public:
   ///
   /// @param numberOfIMU number id of the IMU
   /// @param resetCovariance set if the covariance of the IMU bias should be reset
-  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 1, bool resetCovariance = true);
+  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = true);
 
   /// @brief Set the State Unmodeled Wrench
   /// @details this modifies the current guess for external unmodeled Wrench. This is different from
-- 
2.43.0


From c9dcb9e425aaad8b8b9f9670838ab12e2a123f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 55/82] fix: count again the wrench sensors at each iteration

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2f32dc2..972273b 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1290,6 +1290,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From d3105e4afdee20babf17d565ca0a5704a95dcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 56/82] fix: initialize the local kinematics of new contacts

---
 src/kinetics-observer.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 972273b..2c39502 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -47,6 +47,19 @@ inline void STATE_OBSERVATION_DLLAPI
   m(2, 1) = m(1, 2) = e3;
 }
 
+/// without other information a newly set kinematics is considered as not moving
+inline void STATE_OBSERVATION_DLLAPI setMissingVelocitiesToZero(kine::Kinematics & k)
+{
+  if(!k.linVel.isSet())
+  {
+    k.linVel.set().setZero();
+  }
+  if(!k.angVel.isSet())
+  {
+    k.angVel.set().setZero();
+  }
+}
+
 const double KineticsObserver::defaultMass = 50;
 
 const double KineticsObserver::statePoseInitVarianceDefault = 1e-4;
@@ -640,6 +653,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -673,6 +687,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -707,6 +722,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
 
   contacts_[contactNumber].time = k_data_;
@@ -893,6 +909,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.time = -1; /// the contact has never been updated
 
   if(linearStiffness != Matrix3::Zero())
   {
-- 
2.43.0


From db70974790b85b14e6af2370e5f08a984acb407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 57/82] fix: initialize the center of mass

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2c39502..92a7e41 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -176,6 +176,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From 4565a97f013ee240d1c73790c0c258ce0eedc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 58/82] fix: resetInputs cancels the current iteration

---
 src/kinetics-observer.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 92a7e41..6df60bf 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1273,17 +1273,33 @@ void KineticsObserver::resetSensorsDefaultCovMat()
 
 void KineticsObserver::resetInputs()
 {
+  if(k_est_ == k_data_) /// no input to reset
+  {
+    return;
+  }
+
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
   }
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
+  }
+
+  if(absPoseSensor_.time == k_data_)
+  {
+    absPoseSensor_.time = k_est_;
   }
 
-  absPoseSensor_.time = k_est_;
+  k_data_ = k_est_;
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From 611b4f05ea37cd6f3491d2a18c6f9a4bed38d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 59/82] fix: null state difference for the components that are
 not estimated

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6df60bf..94e7cbb 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1479,7 +1479,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From 0c5af8330e75a50b2dce182f35af78b1971ece09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 60/82] fix: centrifugal acceleration of the center of mass

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 94e7cbb..57a9535 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1404,7 +1404,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From b96b92e4302021cbba16281825d907278905df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 61/82] fix: include the gyro bias in the predicted gyrometer
 signal

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 57a9535..7c35cb4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1645,6 +1645,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From b63efd917c1a68abe0a8de739dd24a3ab749439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 62/82] fix: reset the covariance of all the gyro biases

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7c35cb4..15f5a94 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1152,10 +1152,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From 4fb3e51d339cff3f52432e958a176ba0644a62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:22 +0000
Subject: [PATCH 63/82] fix: define setKinematicsProcessCovariance

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 15f5a94..c066912 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1034,6 +1034,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & P_kine)
+{
+  Matrix P = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(P, P_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(P);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From 853b12308e1f4bcbca34bf45384897c17ea240a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:35 +0000
Subject: [PATCH 64/82] fix: default process covariance of the contact wrenches

---
 src/kinetics-observer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c066912..a3a2a10 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -137,8 +137,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -173,6 +173,9 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) =
+      Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From e8a5c2538d0aa5cc5d605df9967433b7ad331346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:02 +0000
Subject: [PATCH 65/82] fix: access the accelerations of the state through
 their accessor

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a3a2a10..4580585 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1631,8 +1631,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference (Vector3&)
+  Vector3 & angacc = stateKine.angAcc(); /// reference
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From 9d9641206317301291e1ae72417903082ff6d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 66/82] fix: contact torque independent of the sign of the
 quaternion

---
 src/kinetics-observer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4580585..5537958 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1603,8 +1603,15 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
       x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
 
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      /// the two opposite quaternions represent the same orientation, take the one of the shortest rotation
+      Quaternion errorQuat(errorKine.orientation.toQuaternion());
+      if(errorQuat.w() < 0)
+      {
+        errorQuat.coeffs() = -errorQuat.coeffs();
+      }
+
+      x.segment<sizeTorque>(contactTorqueIndex(i)) =
+          -(Rcit * (Kpr * kine::vectorComponent(errorQuat) * 0.5 + Kdr * errorKine.angVel()));
     }
   }
 
-- 
2.43.0


From 17996e768b6d1c2b6af59111363d732de9237916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 67/82] fix: derive the inertial inputs only from provided
 values

---
 src/kinetics-observer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 5537958..46a8bc4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -776,7 +776,7 @@ void KineticsObserver::setInertiaMatrix(const Matrix3 & I)
 {
   startNewIteration_();
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set(tools::derivate(I_(), I, dt_ * double(k_data_ - I_.getTime())), k_data_);
   }
@@ -801,7 +801,7 @@ void KineticsObserver::setInertiaMatrix(const Vector6 & Iv)
   startNewIteration_();
   namespace t = tools;
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set();
     Id_.setIndex(k_data_);
@@ -829,7 +829,7 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com, const Vector3 & com_
   startNewIteration_();
   com_.set(com, k_data_);
 
-  if(comd_.getTime() < k_data_)
+  if(comd_.getTime() > 0 && comd_.getTime() < k_data_)
   {
     comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - comd_.getTime())), k_data_);
   }
@@ -840,12 +840,15 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com)
 {
   startNewIteration_();
 
-  if(com_.getTime() < k_data_)
+  if(com_.getTime() > 0 && com_.getTime() < k_data_)
   {
     double dt = dt_ * double(k_data_ - com_.getTime());
     Vector3 com_dot = tools::derivate(com_(), com, dt);
 
-    comdd_.set(tools::derivate(comd_(), com_dot, dt), k_data_);
+    if(comd_.getTime() > 0)
+    {
+      comdd_.set(tools::derivate(comd_(), com_dot, dt), k_data_);
+    }
 
     comd_.set(com_dot, k_data_);
   }
@@ -863,7 +866,7 @@ void KineticsObserver::setAngularMomentum(const Vector3 & sigma, const Vector3 &
 void KineticsObserver::setAngularMomentum(const Vector3 & sigma)
 {
   startNewIteration_();
-  if(sigma_.getTime() < k_data_)
+  if(sigma_.getTime() > 0 && sigma_.getTime() < k_data_)
   {
     sigmad_.set(tools::derivate(sigma_(), sigma, dt_ * double(k_data_ - sigma_.getTime())), k_data_);
   }
-- 
2.43.0


From 2d898f4c2378c30159576b72992a44db58b3adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 68/82] fix: momenta derivatives use the configured mass

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..12aa22b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -237,7 +237,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From bc2205d8e37facfb4f5e3c302503102ef67ca9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 69/82] fix: momenta derivatives from kinematics use the
 angular velocity

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 12aa22b..bceb00e 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,7 +234,8 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex,
+                       op_.angularVelocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = robotMass_
-- 
2.43.0


From 4f171bd2168c4f70bbe2d06b894ad0a4f6c55087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 70/82] fix: forces and torques of the third stage of RK4

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index bceb00e..17c2045 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -775,7 +775,7 @@ void IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4(const Vector3 & pos
   angVelocity3 = angularVel + (dt / 2) * angAcc2;
 
   computeAccelerations(positionCom, velocityCom, accelerationCom, AngMomentum, dotAngMomentum, inertia, dotInertia,
-                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, tc, fc,
+                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, fc, tc,
                        fm, tm, addForces, addMoments);
 
   ////////////4th/////////////
-- 
2.43.0


From 0c137bff5734a586a257790b0ff56377c23612ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 71/82] fix: process noise added to the predicted state

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 17c2045..fc24d9a 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -908,7 +908,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 20b738be58419f5a942b87760a416ad7fb5bb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 72/82] fix: measureDynamics callable before stateDynamics

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index fc24d9a..fd752ee 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -940,7 +940,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From ad6e4239162880bcdb3badf15292fca58c6c6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 73/82] fix: zero cross terms in the default IMU covariance

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..c61c87d 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R(Matrix6::Zero());
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From f32916f8937984f8dddc054b1d867e5f0ded8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 74/82] fix: limit the forces and torques of every contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index c61c87d..d6955eb 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -384,13 +384,18 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
         lastX_.segment(state::ori, 3) = kine::regulateOrientationVector(lastX_.segment(state::ori, 3));
         if(limitOn_)
         {
-          for(int i = 0; i < 3; i++)
+          for(unsigned c = 0; c < hrp2::contact::nbModeledMax; ++c)
           {
-            // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            const Index force = Index(state::fc + 6 * c);
+            const Index torque = force + 3;
+            for(int i = 0; i < 3; i++)
+            {
+              // Saturation for bounded forces and torques
+              lastX_[torque + i] = std::min(lastX_[torque + i], limitTorques_[i]);
+              lastX_[force + i] = std::min(lastX_[force + i], limitForces_[i]);
+              lastX_[torque + i] = std::max(lastX_[torque + i], -limitTorques_[i]);
+              lastX_[force + i] = std::max(lastX_[force + i], -limitForces_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From 8add2e7e0c16733aa59a7ae6bc531ca3184d4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 75/82] fix: force variance given as a 3x3 matrix

---
 src/model-base-ekf-flex-estimator-imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index d6955eb..be3c2a4 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -601,7 +601,9 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
+  forceVariance_.setZero(6, 6);
+  forceVariance_.block<3, 3>(0, 0) = v;
+  forceVariance_.block<3, 3>(3, 3) = v;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 0742964e48f40ade37600f626435fb5a4398f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 76/82] fix: covariance of the optional measurements

---
 src/model-base-ekf-flex-estimator-imu.cpp | 29 +++++++----------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index be3c2a4..4614af2 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -265,37 +265,24 @@ void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 
   if(R_.rows() != getMeasurementSize())
   {
-
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+    /// only the IMU keeps its place in the measurement, the other parts are rebuilt
+    const Matrix6 RIMU = R_.topLeftCorner(6, 6);
+    R_.setZero(getMeasurementSize(), getMeasurementSize());
+    R_.topLeftCorner(6, 6) = RIMU;
 
     Index currIndex = 6;
     if(useFTSensors_)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
+      for(Index i = 0; i < functor_.getContactsNumber(); ++i)
       {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
+        R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
+        currIndex += 6;
       }
     }
 
     if(withAbsolutePos_)
     {
-      if(realIndex < currIndex + 6)
-      {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
-      }
+      R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
     }
   }
   ekf_.setR(R_);
-- 
2.43.0


From 7cd2864edcbc812416ac80f7deb34bc5821d72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 77/82] fix: reset the covariances of the optional measurements
 to the configured variances

---
 src/model-base-ekf-flex-estimator-imu.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 4614af2..dfb95e6 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -93,9 +93,7 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
-
+  R_ = getDefaultRIMU();
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
   m.resize(6, 6);
-- 
2.43.0


From 5688f335981636d17ac28d18933b5e23ec00a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 78/82] fix: variances of the optional measurements taken into
 account online

---
 .../model-base-ekf-flex-estimator-imu.hpp      |  3 +++
 src/model-base-ekf-flex-estimator-imu.cpp      | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..88850e2 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -240,6 +240,9 @@ public:
 protected:
   virtual void updateMeasurementCovarianceMatrix_();
 
+  /// updates the covariance of the measured forces
+  void updateForceCovariance_();
+
   IMUElasticLocalFrameDynamicalSystem functor_;
 
   Vector x_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index dfb95e6..fce3736 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -581,7 +581,7 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
-  updateMeasurementCovarianceMatrix_();
+  updateForceCovariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
@@ -589,12 +589,28 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
   forceVariance_.setZero(6, 6);
   forceVariance_.block<3, 3>(0, 0) = v;
   forceVariance_.block<3, 3>(3, 3) = v;
+  updateForceCovariance_();
+}
+
+void ModelBaseEKFFlexEstimatorIMU::updateForceCovariance_()
+{
+  if(useFTSensors_)
+  {
+    for(Index i = 0; i < functor_.getContactsNumber(); ++i)
+    {
+      R_.block(6 + 6 * i, 6 + 6 * i, 6, 6) = forceVariance_;
+    }
+  }
   updateMeasurementCovarianceMatrix_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
+  if(withAbsolutePos_)
+  {
+    R_.bottomRightCorner(6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
+  }
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From c3e1df472f6c1d24eec299ed749292c59bf04c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:29 +0000
Subject: [PATCH 79/82] fix: the flexibility guess is the current estimate

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 5 +++--
 src/model-base-ekf-flex-estimator-imu.cpp    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..1314bbf 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -119,7 +119,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -131,10 +131,11 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
-    ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
+  ekf_.setState(lastX_, k_);
 }
 
 void FixedContactEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix & R)
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index fce3736..a09baa7 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -167,7 +167,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -179,10 +179,11 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
-    ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
+  ekf_.setState(lastX_, k_);
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setComBiasGuess(const stateObservation::Vector & x)
-- 
2.43.0


From 84267f597cff40103ca693b353cca70cb9aa2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:29 +0000
Subject: [PATCH 80/82] fix: sampling period of the fixed contact estimator

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 1314bbf..13df893 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -220,6 +220,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 5aaa4812fb1212c38717d4effb85080eeb47a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:18 +0000
Subject: [PATCH 81/82] fix: flexibility guess given as a homogeneous matrix

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 14 ++++++++++----
 src/model-base-ekf-flex-estimator-imu.cpp    | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 13df893..3fb3b0c 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,7 +115,15 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
+  if(bhomogeneous)
+  {
+    x0 = kine::homogeneousMatrixToVector6(x);
+  }
+  else
+  {
+    x0 = x;
+  }
 
   if(bstate)
   {
@@ -123,8 +131,6 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(indexes::pos, 3) = x0.head(3);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index a09baa7..5114e50 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -154,7 +154,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -163,7 +163,15 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
+  if(bhomogeneous)
+  {
+    x0 = kine::homogeneousMatrixToVector6(x);
+  }
+  else
+  {
+    x0 = x;
+  }
 
   if(bstate)
   {
@@ -171,8 +179,6 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(state::pos, 3) = x0.head<3>();
-- 
2.43.0


From 9a3cb932cfcad97ececc243570827c031bac0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 82/82] fix: the measurement difference of the kinetics
 observer has the size of the current measurement outside of the update

---
 src/kinetics-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 46a8bc4..b8ee9af 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1535,10 +1535,12 @@ void KineticsObserver::measurementDifference(const Vector & measureVector1,
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(measurementTangentSize_);
 
   int currentMeasurementSize = sizeIMUSignal * currentIMUSensorNumber_ + sizeWrench * numberOfContactRealSensors_;
 
+  /// measurementTangentSize_ is only up to date during the update
+  difference.resize(currentMeasurementSize + (absPoseSensor_.time == k_data_ ? sizePoseTangent : 0));
+
   difference.segment(0, currentMeasurementSize).noalias() =
       measureVector1.segment(0, currentMeasurementSize) - measureVector2.segment(0, currentMeasurementSize);
 
-- 
2.43.0

