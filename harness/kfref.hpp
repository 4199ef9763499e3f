// Reference Kalman filter recursion and the models shared by the filter monitors (C03, C04, C05).
#pragma once
#include "common.hpp"
#include <functional>
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>

namespace kfref
{
using namespace vmon;
namespace so = stateObservation;
#if defined(NDEBUG)
const bool debugBuild = false;
#else
const bool debugBuild = true;
#endif

/// true when the library refused the call (its run-time assertions or an exception); only asked in the debug build
template<typename F>
bool refused(F f)
{
  try
  {
    f();
  }
  catch(const AssertionFired &)
  {
    return true;
  }
  catch(const Fail &)
  {
    throw;
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

struct RefStep
{
  Vec xbar, ybar, innoMeas, inno, x;
  Mat pbar, S, K, P;
};

/// the covariance side and gain, computed with explicit inverses (independent of the library's triangular solves)
inline void refGain(const Mat & A, const Mat & C, const Mat & Q, const Mat & R, const Mat & P, RefStep & s)
{
  s.pbar = A * P * A.transpose() + Q;
  s.S = C * s.pbar * C.transpose() + R;
  Mat Si = s.S.size() ? Mat(s.S.fullPivLu().inverse()) : s.S;
  s.K = s.pbar * C.transpose() * Si;
  Mat I = Mat::Identity(s.pbar.rows(), s.pbar.cols());
  // Joseph form
  Mat IKC = I - s.K * C;
  s.P = IKC * s.pbar * IKC.transpose() + s.K * R * s.K.transpose();
}

/// x+ = A x + B u + a sin(W x) + t * k ; y = C x + D u + b cos(V x) + s * k
struct Model : public so::DynamicalSystemFunctorBase
{
  Eigen::Index n, m, p;
  Mat A, B, C, D, W, V;
  double a, b;
  Vec t, s;
  long resets, stateCalls, measCalls;
  Model() : n(0), m(0), p(0), a(0), b(0), resets(0), stateCalls(0), measCalls(0) {}
  void init(Rng & r, Eigen::Index n_, Eigen::Index m_, Eigen::Index p_, bool uState, bool uMeas, bool nonlinear)
  {
    n = n_;
    m = m_;
    p = p_;
    A = r.mat(n, n, 1. / double(n));
    if(r.b(0.5)) A += 0.5 * Mat::Identity(n, n);
    B = uState ? r.mat(n, p) : Mat(Mat::Zero(n, p));
    C = r.mat(m, n);
    D = uMeas ? r.mat(m, p) : Mat(Mat::Zero(m, p));
    W = r.mat(n, n);
    V = r.mat(m, n);
    a = nonlinear ? r.d(-0.5, 0.5) : 0;
    b = nonlinear ? r.d(-0.5, 0.5) : 0;
    t = nonlinear ? Vec(r.vec(n, 0.01)) : Vec(Vec::Zero(n));
    s = nonlinear ? Vec(r.vec(m, 0.01)) : Vec(Vec::Zero(m));
  }
  Vec f(const Vec & x, const Vec & u, long k) const
  {
    Vec r = A * x + a * (W * x).array().sin().matrix() + t * double(k);
    if(p > 0) r += B * u;
    return r;
  }
  Vec h(const Vec & x, const Vec & u, long k) const
  {
    Vec r = C * x + b * (V * x).array().cos().matrix() + s * double(k);
    if(p > 0) r += D * u;
    return r;
  }
  Mat fx(const Vec & x) const
  {
    return A + a * Mat((W * x).array().cos().matrix().asDiagonal()) * W;
  }
  Mat hx(const Vec & x) const
  {
    return C - b * Mat((V * x).array().sin().matrix().asDiagonal()) * V;
  }
  virtual so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k)
  {
    ++stateCalls;
    return f(x, u, long(k));
  }
  virtual so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k)
  {
    ++measCalls;
    return h(x, u, long(k));
  }
  virtual void reset()
  {
    ++resets;
  }
  virtual so::Index getStateSize() const
  {
    return n;
  }
  virtual so::Index getInputSize() const
  {
    return p;
  }
  virtual so::Index getMeasurementSize() const
  {
    return m;
  }
};
} // namespace kfref
