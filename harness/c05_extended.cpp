// C05: the extended Kalman filter. Nonlinear additive models with analytic Jacobians, and manifold models (unit
// quaternions in the state and in the measurement) with user supplied arithmetics; every step is compared with the
// standard recursion, the finite differences with analytic / central-difference Jacobians, in random call histories.
#include "kfref.hpp"
#include <memory>
using namespace kfref;

namespace
{
/// quaternion helpers of the reference (coefficients x y z w)
M3 q2m(const Vec & q)
{
  return ref::qmat(q(3), q(0), q(1), q(2));
}
Vec m2q(const M3 & R)
{
  V3 w = ref::log3(R);
  double a = w.norm();
  Vec q(4);
  if(a < 1e-12)
    q << 0.5 * w, 1;
  else
    q << std::sin(a / 2) / a * w, std::cos(a / 2);
  return q;
}

double wrapped(double a)
{
  return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI));
}
/// state: orientation (quaternion, or rotation vector), vector (k) whose first component may be an angle known up to full
/// turns. tangent: world-frame rotation vector (3), vector (k).
/// measurement: vector (l) whose first component may be such an angle, then optionally a quaternion (4, tangent 3)
struct ManifoldModel : public so::DynamicalSystemFunctorBase, public so::StateVectorArithmetics
{
  Eigen::Index k, l, p, os;
  bool mq, wrapS, wrapM;
  Mat A, B, C, D, G, U;
  V3 a1, a2;
  double dt, offS = 0, offM = M_PI;
  Eigen::Index n() const
  {
    return os + k;
  }
  Eigen::Index nt() const
  {
    return 3 + k;
  }
  Eigen::Index m() const
  {
    return l + (mq ? 4 : 0);
  }
  Eigen::Index mt() const
  {
    return l + (mq ? 3 : 0);
  }
  void init(Rng & r, bool uS, bool uM)
  {
    k = r.i(1, 4);
    l = r.i(1, 4);
    p = r.i(0, 3);
    mq = r.b(0.6);
    os = r.b(0.7) ? 4 : 3;
    wrapS = r.b(0.4);
    wrapM = r.b(0.4);
    A = r.mat(k, k, 1. / double(k));
    // full turns of the angle change nothing else
    if(wrapS)
    {
      A.col(0).setZero();
      A(0, 0) = 1;
    }
    B = uS ? r.mat(k, p) : Mat(Mat::Zero(k, p));
    C = r.mat(l, k);
    if(wrapS) C.col(0) *= 0;
    if(wrapS && wrapM) C(0, 0) = 1;
    D = uM ? r.mat(l, p) : Mat(Mat::Zero(l, p));
    G = r.mat(3, k);
    if(wrapS) G.col(0).setZero();
    U = r.mat(l, 3);
    a1 = r.v3();
    a2 = r.v3();
    dt = r.d(0.01, 0.3);
  }
  M3 rot(const Vec & x) const
  {
    return os == 4 ? q2m(x.head(4)) : ref::exp3(V3(x.head(3)));
  }
  void setRot(Vec & x, const M3 & R) const
  {
    if(os == 4)
      x.head(4) = m2q(R);
    else
      x.head(3) = ref::log3(R);
  }
  Vec random(Rng & r) const
  {
    Vec x(n());
    setRot(x, ref::exp3(r.rotvec()));
    x.tail(k) = r.vec(k, 1);
    if(wrapS) x(os) = r.b() ? r.sgn() * (M_PI - r.lg(1e-6, 0.3)) : r.d(-3, 3);
    return x;
  }
  Vec sum(const Vec & x, const Vec & d) const
  {
    Vec o(n());
    setRot(o, ref::exp3(d.head<3>()) * rot(x));
    o.tail(k) = x.tail(k) + d.tail(k);
    if(wrapS) o(os) = wrapped(o(os));
    return o;
  }
  Vec diff(const Vec & x1, const Vec & x2) const
  {
    Vec o(nt());
    o.head(3) = ref::log3(rot(x1) * rot(x2).transpose());
    o.tail(k) = x1.tail(k) - x2.tail(k);
    if(wrapS) o(3) = wrapped(o(3));
    return o;
  }
  Vec mdiff(const Vec & y1, const Vec & y2) const
  {
    Vec o(mt());
    o.head(l) = y1.head(l) - y2.head(l);
    if(wrapM) o(0) = wrapped(o(0));
    if(mq) o.tail(3) = ref::log3(q2m(y1.tail(4)) * q2m(y2.tail(4)).transpose());
    return o;
  }
  Vec f(const Vec & x, const Vec & u, long t) const
  {
    Vec o(n());
    M3 R = rot(x);
    setRot(o, R * ref::exp3(dt * (G * x.tail(k)) + 0.02 * R.transpose() * a1));
    o.tail(k) = A * x.tail(k) + 0.1 * Vec::Constant(k, std::sin(0.1 * double(t)) + R(0, 1));
    if(p > 0) o.tail(k) += B * u;
    if(wrapS) o(os) = wrapped(o(os) + offS);
    return o;
  }
  Vec h(const Vec & x, const Vec & u, long t) const
  {
    Vec o(m());
    M3 R = rot(x);
    o.head(l) = C * x.tail(k) + U * (R.transpose() * a2) + Vec::Constant(l, 0.1 * std::cos(0.1 * double(t)));
    if(p > 0) o.head(l) += D * u;
    if(wrapM) o(0) = wrapped(o(0) + offM);
    if(mq) o.tail(4) = m2q(R * ref::exp3(0.1 * a1));
    return o;
  }
  virtual void stateSum(const so::Vector & x, const so::Vector & d, so::Vector & s)
  {
    s = sum(x, d);
  }
  virtual void stateDifference(const so::Vector & x1, const so::Vector & x2, so::Vector & d)
  {
    d = diff(x1, x2);
  }
  virtual void measurementDifference(const so::Vector & y1, const so::Vector & y2, so::Vector & d)
  {
    d = mdiff(y1, y2);
  }
  virtual so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex t)
  {
    return f(x, u, long(t));
  }
  virtual so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex t)
  {
    return h(x, u, long(t));
  }
  virtual so::Index getStateSize() const
  {
    return n();
  }
  virtual so::Index getInputSize() const
  {
    return p;
  }
  virtual so::Index getMeasurementSize() const
  {
    return m();
  }
  Mat fJ(const Vec & x, const Vec & u, long t) const
  {
    Mat J(nt(), nt());
    const double e = 1e-5;
    for(Eigen::Index i = 0; i < nt(); ++i)
    {
      Vec d = e * Vec::Unit(nt(), i);
      Vec x0 = f(x, u, t);
      J.col(i) = (diff(f(sum(x, d), u, t), x0) - diff(f(sum(x, -d), u, t), x0)) / (2 * e);
    }
    return J;
  }
  Mat hJ(const Vec & x, const Vec & u, long t) const
  {
    Mat J(mt(), nt());
    const double e = 1e-5;
    for(Eigen::Index i = 0; i < nt(); ++i)
    {
      Vec d = e * Vec::Unit(nt(), i);
      Vec y0 = h(x, u, t);
      J.col(i) = (mdiff(h(sum(x, d), u, t), y0) - mdiff(h(sum(x, -d), u, t), y0)) / (2 * e);
    }
    return J;
  }
};
} // namespace

SUITE(additive_models, 2500, 60000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 6), m = r.i(1, 5), p = r.b(0.6) ? r.i(1, 4) : 0;
  bool uS = p > 0 && r.b(0.7), uM = p > 0 && r.b(0.5);
  Model md, md2;
  // without the state feedthrough the dynamics get a zero input, whatever they do with it
  md.init(r, n, m, p, p > 0, uM, true);
  md2.init(r, n, m, p, p > 0, uM, true);
  Model * cm = &md;
  std::unique_ptr<so::ExtendedKalmanFilter> fp;
  switch(r.i(0, 3))
  {
    case 0:
      fp.reset(new so::ExtendedKalmanFilter(n, m, p, uM, uS));
      break;
    case 1:
      fp.reset(new so::ExtendedKalmanFilter(n, n, m, m, p, uM, uS));
      break;
    case 2: // sizes given afterwards
    {
      Eigen::Index n0 = r.b() ? n : r.i(1, 6), m0 = r.b() ? m : r.i(1, 5), p0 = p > 0 ? r.i(1, 4) : 0;
      fp.reset(new so::ExtendedKalmanFilter(n0, r.b() ? n : n0, m0, r.b() ? m : m0, p0, uM, uS));
      if(r.b())
      {
        // used in these sizes
        fp->setQ(r.spd(fp->getQmatrixIdentity().rows()));
        fp->setState(r.vec(n0), 0);
        fp->setMeasurement(r.vec(m0), 1);
        if(p0 > 0) fp->setInput(r.vec(p0), 0);
      }
      fp->setStateSize(n);
      fp->setMeasureSize(m);
      fp->setInputSize(p);
      fp->reset();
      count("resized filters");
      break;
    }
    default: // flags given afterwards
      fp.reset(new so::ExtendedKalmanFilter(n, m, p));
      fp->setDirectInputOutputFeedthrough(uM);
      fp->setDirectInputStateFeedthrough(uS);
      break;
  }
  so::ExtendedKalmanFilter & f = *fp;
  f.setFunctor(cm);
  ok(f.getFunctor() == cm && f.functor() == cm, "functor");
  Mat Q = r.spd(n, 0.1, r.lg(0.01, 1)), R = r.spd(m, 0.3, r.lg(0.05, 2)), P = r.spd(n, 0.1);
  f.setQ(Q);
  f.setR(R);
  long t = r.i(-3, 100);
  Vec x = r.vec(n, 2);
  f.setState(x, t);
  f.setStateCovariance(P);
  std::map<long, Vec> u;
  c.note(x);
  c.note(md.A);
  c.say("additive n=" + str(n) + " m=" + str(m) + " p=" + str(p) + " uS=" + str(uS) + " uM=" + str(uM));
  long steps = r.i(1, 10);
  for(long j = 0; j < steps; ++j)
  {
    if(p > 0)
      for(long k = t; k <= t + 1; ++k)
        if(!u.count(k))
        {
          u[k] = r.vec(p, 2);
          f.setInput(u[k], k);
        }
    auto U = [&](long k) -> Vec { return p > 0 ? u[k] : Vec(0); };
    // look around and change one's mind before the step
    long looks = r.i(0, 4);
    for(long q = 0; q < looks; ++q)
    {
      Vec xbar = cm->f(x, uS ? U(t) : Vec(Vec::Zero(p)), t);
      switch(r.i(0, 7))
      {
        case 0:
          closeM(f.updateStatePrediction(), xbar, 1e-7, "prediction");
          closeM(f.getLastPrediction(), xbar, 1e-7, "last-prediction");
          break;
        case 1:
          closeM(f.updateStateAndMeasurementPrediction(), cm->h(xbar, U(t + 1), t + 1), 1e-7, "measurement-prediction");
          break;
        case 2:
          if(p > 0)
          {
            long k = t + r.i(0, 1);
            u[k] = r.vec(p, 2);
            f.setInput(u[k], k);
          }
          break;
        case 3:
          x = r.vec(n, 2);
          if(r.b())
            f.setCurrentState(x);
          else
            f.setState(x, t);
          break;
        case 4:
          cm = cm == &md ? &md2 : &md;
          f.setFunctor(cm);
          break;
        case 5:
          closeM(f.getSimulatedMeasurement(t), cm->h(x, U(t), t), 1e-7, "simulated-measurement");
          break;
        case 7:
          // the same state at another time
          f.updateStateAndMeasurementPrediction();
          t += r.i(1, 2);
          if(r.b(0.7))
            f.setState(x, t);
          else
            f.setState(x = r.vec(n, 2), t);
          if(p > 0)
            for(long k = t; k <= t + 1; ++k)
              if(!u.count(k))
              {
                u[k] = r.vec(p, 2);
                f.setInput(u[k], k);
              }
          count("states moved to a later time");
          break;
        case 6:
        {
          Vec dx = Vec::Constant(n, 1e-7).array() * (1 + r.vec(n, 0.5).array());
          closeM(f.getAMatrixFD(dx), cm->fx(x), 1e-5, "A-finite-differences");
          closeM(f.getCurrentEstimatedState(), x, 1e-7, "state-after-finite-differences");
          break;
        }
      }
    }
    Vec xbar = cm->f(x, uS ? U(t) : Vec(Vec::Zero(p)), t);
    Mat A = cm->fx(x), C = cm->hx(xbar);
    Vec dx(n);
    for(Eigen::Index i = 0; i < n; ++i) dx(i) = r.lg(3e-8, 1e-6) * r.sgn();
    if(r.b())
    {
      Mat Af = f.getAMatrixFD(dx);
      closeM(Af, A, 1e-5, "A-finite-differences");
      if(r.b()) A = Af;
      count("state Jacobians");
    }
    if(r.b())
    {
      Mat Cf = f.getCMatrixFD(dx);
      closeM(Cf, C, 1e-5, "C-finite-differences");
      if(r.b()) C = Cf;
      closeM(f.getLastPrediction(), xbar, 1e-7, "prediction-after-finite-differences");
      closeM(f.getLastPredictedMeasurement(), cm->h(xbar, U(t + 1), t + 1), 1e-7,
             "measurement-prediction-after-finite-differences");
      count("measurement Jacobians");
    }
    f.setA(A);
    f.setC(C);
    Vec y = cm->h(xbar, U(t + 1), t + 1) + r.vec(m, 1);
    f.setMeasurement(y, t + 1);
    RefStep s;
    refGain(A, C, Q, R, P, s);
    s.ybar = cm->h(xbar, U(t + 1), t + 1);
    s.inno = s.K * (y - s.ybar);
    s.x = xbar + s.inno;
    closeM(f.getEstimatedState(t + 1), s.x, 1e-6, "estimate", "step " + str(j));
    closeM(f.getStateCovariance(), s.P, 1e-6, "covariance", "step " + str(j));
    closeM(f.getInnovation(), s.inno, 1e-6, "innovation");
    closeM(f.getLastPrediction(), xbar, 1e-6, "last-prediction");
    closeM(f.getLastPredictedMeasurement(), s.ybar, 1e-6, "last-predicted-measurement");
    closeM(f.getLastGain(), s.K, 1e-6, "gain");
    if(r.b(0.4))
      closeM(f.getSimulatedMeasurement(t + 1), cm->h(s.x, U(t + 1), t + 1), 1e-6, "simulated-measurement-after-step");
    x = s.x;
    P = s.P;
    ++t;
    count("additive filter steps");
    c.nontrivial = true;
  }
}

SUITE(manifold_models, 1500, 40000)
{
  Rng & r = c.r;
  bool uS = r.b(0.7), uM = r.b(0.5);
  ManifoldModel md;
  md.init(r, uS, uM);
  Eigen::Index p = md.p;
  uS = uS && p > 0;
  uM = uM && p > 0;
  bool resized = r.b(0.3);
  so::ExtendedKalmanFilter f(resized && r.b() ? md.n() + r.i(1, 2) : md.n(), md.nt(),
                             resized && r.b() ? md.m() + r.i(1, 2) : md.m(), md.mt(), p, uM, uS);
  f.setFunctor(&md);
  f.setStateArithmetics(&md);
  if(resized)
  {
    // only one of the two sizes changes
    f.setStateSize(md.n(), md.nt());
    f.setMeasureSize(md.m(), md.mt());
  }
  Mat Q = r.spd(md.nt(), 0.1, r.lg(0.001, 0.1)), R = r.spd(md.mt(), 0.3, r.lg(0.05, 2)), P = r.spd(md.nt(), 0.1, 0.1);
  f.setQ(Q);
  f.setR(R);
  long t = r.i(0, 50);
  Vec x = md.random(r);
  f.setState(x, t);
  f.setStateCovariance(P);
  c.note(x);
  c.note(md.A);
  c.say("manifold n=" + str(md.n()) + "/" + str(md.nt()) + " m=" + str(md.m()) + "/" + str(md.mt()) + " p=" + str(p));
  std::map<long, Vec> u;
  long steps = r.i(1, 6);
  for(long j = 0; j < steps; ++j)
  {
    if(p > 0)
      for(long k = t; k <= t + 1; ++k)
        if(!u.count(k))
        {
          u[k] = r.vec(p, 1);
          f.setInput(u[k], k);
        }
    auto U = [&](long k) -> Vec { return p > 0 ? u[k] : Vec(0); };
    if(r.b(0.3))
    {
      // predicted angles at the edge of a turn, where the finite differences cross it
      Vec u0 = uS ? U(t) : Vec(Vec::Zero(p));
      double edge = r.sgn() * M_PI + r.sgn() * r.lg(1e-10, 1e-6);
      if(md.wrapS && r.b()) md.offS += wrapped(edge - md.f(x, u0, t)(md.os));
      if(md.wrapM) md.offM += wrapped(edge - md.h(md.f(x, u0, t), U(t + 1), t + 1)(0));
      count("angles at the edge of a turn");
    }
    else if(r.b(0.3))
    {
      // a change of mind after a look
      f.updateStateAndMeasurementPrediction();
      if(r.b())
      {
        x = md.random(r);
        f.setCurrentState(x);
      }
      else if(p > 0)
      {
        long k = t + r.i(0, 1);
        u[k] = r.vec(p, 1);
        f.setInput(u[k], k);
      }
    }
    Vec us = uS ? U(t) : Vec(Vec::Zero(p));
    Vec xbar = md.f(x, us, t), ybar = md.h(xbar, U(t + 1), t + 1);
    Mat A = md.fJ(x, us, t), C = md.hJ(xbar, U(t + 1), t + 1);
    Vec dx(md.nt());
    for(Eigen::Index i = 0; i < md.nt(); ++i) dx(i) = r.lg(1e-7, 1e-6) * r.sgn();
    Mat Af = f.getAMatrixFD(dx);
    closeM(Af, A, 1e-4, "manifold-A-finite-differences");
    Mat Cf = f.getCMatrixFD(dx);
    closeM(Cf, C, 1e-4, "manifold-C-finite-differences");
    if(r.b())
    {
      A = Af;
      C = Cf;
    }
    f.setA(A);
    f.setC(C);
    Vec y = ybar;
    y.head(md.l) += r.vec(md.l, 0.5);
    if(md.wrapM) y(0) = wrapped(y(0)) + (r.b(0.3) ? 2 * M_PI * r.sgn() : 0.);
    if(md.mq) y.tail(4) = (r.b() ? 1 : -1) * m2q(ref::exp3(r.v3(0.8)) * q2m(ybar.tail(4)));
    f.setMeasurement(y, t + 1);
    RefStep s;
    refGain(A, C, Q, R, P, s);
    s.inno = s.K * md.mdiff(y, ybar);
    s.x = md.sum(xbar, s.inno);
    Vec e = f.getEstimatedState(t + 1);
    if(md.os == 4 && !md.wrapS) closeM(e, s.x, 1e-5, "manifold-estimate", "step " + str(j));
    closeM(md.diff(e, s.x), Vec(Vec::Zero(md.nt())), 1e-5, "manifold-estimate", "by difference, step " + str(j));
    if(md.m() == md.mt() && md.wrapM) count("measured angles of full turns");
    if(md.n() == md.nt()) count("manifold states of the size of their tangent space");
    closeM(f.getStateCovariance(), s.P, 1e-5, "manifold-covariance", "step " + str(j));
    closeM(f.getInnovation(), s.inno, 1e-5, "manifold-innovation");
    closeM(f.getLastPrediction(), xbar, 1e-6, "manifold-last-prediction");
    closeM(f.getLastPredictedMeasurement(), ybar, 1e-6, "manifold-last-predicted-measurement");
    x = e;
    P = f.getStateCovariance();
    ++t;
    count("manifold filter steps");
    c.nontrivial = true;
  }
}

/// on a linear model, the extended filter with the model's matrices is the linear filter
SUITE(agrees_with_linear, 600, 15000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 5), m = r.i(1, 5), p = r.i(1, 3);
  Model md;
  md.init(r, n, m, p, true, true, false);
  so::ExtendedKalmanFilter e(n, m, p);
  so::LinearKalmanFilter l(n, m, p);
  e.setFunctor(&md);
  Mat Q = r.spd(n), R = r.spd(m), P = r.spd(n);
  Vec x = r.vec(n, 2);
  l.setB(md.B);
  l.setD(md.D);
  l.setA(md.A);
  l.setC(md.C);
  l.setQ(Q);
  e.setQ(Q);
  l.setR(R);
  e.setR(R);
  l.setState(x, 0);
  e.setState(x, 0);
  l.setStateCovariance(P);
  e.setStateCovariance(P);
  c.note(x);
  c.note(md.A);
  c.say("linear model n=" + str(n) + " m=" + str(m));
  long N = r.i(2, 12);
  for(long k = 0; k < N; ++k)
  {
    Vec uk = r.vec(p), y = r.vec(m);
    if(k == 0)
    {
      e.setInput(uk, 0);
      l.setInput(uk, 0);
    }
    uk = r.vec(p);
    e.setInput(uk, k + 1);
    l.setInput(uk, k + 1);
    e.setMeasurement(y, k + 1);
    l.setMeasurement(y, k + 1);
    Vec dx = Vec::Constant(n, 1e-4);
    e.setA(e.getAMatrixFD(dx));
    e.setC(e.getCMatrixFD(dx));
    closeM(e.getEstimatedState(k + 1), l.getEstimatedState(k + 1), 1e-6, "extended-vs-linear");
    closeM(e.getStateCovariance(), l.getStateCovariance(), 1e-6, "extended-vs-linear-covariance");
  }
  c.nontrivial = true;
}

/// refusals: missing functor, missing inputs
SUITE(missing_data, 200, 2000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 3), m = r.i(1, 3), p = r.i(1, 3);
  Model md;
  md.init(r, n, m, p, true, true, true);
  so::ExtendedKalmanFilter f(n, m, p);
  f.setState(Vec(r.vec(n)), 0);
  c.note(uint64_t(r.u64()));
  f.setInput(Vec(r.vec(p)), 0);
  c.say("missing functor / inputs");
  if(debugBuild)
  {
    ok(refused([&] { f.updateStatePrediction(); }), "no-functor");
    f.setFunctor(&md);
    ok(refused([&] { f.updateStateAndMeasurementPrediction(); }), "no-feedthrough-input");
    f.clearFunctor();
    ok(f.getFunctor() == 0, "functor-cleared");
    ok(refused([&] { f.updateStatePrediction(); }), "no-functor");
    f.setFunctor(&md);
    f.clearInputs();
    ok(refused([&] { f.updateStatePrediction(); }), "no-input");
  }
  else
    ++c.events;
  f.setFunctor(&md);
  f.reset();
  eq(md.resets, 1L, "functor-reset");
  c.nontrivial = true;
}

/// states and measurements whose variations have another size: everything follows the two sizes, through resizing too
SUITE(two_sizes, 600, 6000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(2, 6), nt = r.i(1, n), m = r.i(2, 6), mt = r.i(1, m), p = r.i(1, 3);
  so::ExtendedKalmanFilter f(n, nt, m, mt, p, true, false);
  std::string hist = "n=" + str(n) + "/" + str(nt) + " m=" + str(m) + "/" + str(mt);
  bool a = false, C = false, q = false, R = false, P = false;
  c.note(uint64_t(n * 10000 + nt * 1000 + m * 100 + mt * 10 + p));
  long ops = r.i(3, 15);
  for(long j = 0; j < ops; ++j)
  {
    switch(r.i(0, 5))
    {
      case 0:
      {
        Eigen::Index n2 = r.b() ? n : r.i(2, 6), t2 = r.b(0.3) ? nt : r.i(1, n2);
        f.setStateSize(n2, t2);
        hist += " state " + str(n2) + "/" + str(t2);
        if(n2 != n || t2 != nt) a = C = q = P = false;
        n = n2;
        nt = t2;
        break;
      }
      case 1:
      {
        Eigen::Index m2 = r.b() ? m : r.i(2, 6), t2 = r.b(0.3) ? mt : r.i(1, m2);
        f.setMeasureSize(m2, t2);
        hist += " measure " + str(m2) + "/" + str(t2);
        if(m2 != m || t2 != mt) C = R = false;
        m = m2;
        mt = t2;
        break;
      }
      case 2:
      {
        Eigen::Index s = r.i(2, 6);
        if(r.b())
        {
          // one size given: the variations have the size of the vector
          f.setStateSize(s);
          hist += " state " + str(s);
          if(s != n || nt != s) a = C = q = P = false;
          n = nt = s;
        }
        else
        {
          f.setMeasureSize(s);
          hist += " measure " + str(s);
          if(s != m || mt != s) C = R = false;
          m = mt = s;
        }
        break;
      }
      case 3:
        f.setA(r.mat(nt, nt));
        f.setC(r.mat(mt, nt));
        a = C = true;
        hist += " AC";
        break;
      case 4:
        f.setQ(r.spd(nt, 0.3));
        f.setR(r.spd(mt, 0.3));
        q = R = true;
        hist += " QR";
        break;
      default:
        f.setStateCovariance(r.spd(nt, 0.3));
        P = true;
        hist += " P";
    }
    eq(long(f.getStateSize()), long(n), "state-size", hist);
    eq(long(f.getMeasureSize()), long(m), "measure-size", hist);
    eq(f.getA().size() > 0, a, "A-kept", hist);
    eq(f.getC().size() > 0, C, "C-kept", hist);
    eq(f.getQ().size() > 0, q, "Q-kept", hist);
    eq(f.getR().size() > 0, R, "R-kept", hist);
    eq(f.getStateCovariance().size() > 0, P, "P-kept", hist);
    closeM(f.stateTangentVectorZero(), Vec::Zero(nt), 0, "dx-zero", hist);
    closeM(f.measureTangentVectorZero(), Vec::Zero(mt), 0, "dy-zero", hist);
    closeM(f.stateVectorZero(), Vec::Zero(n), 0, "x-zero", hist);
    closeM(f.measureVectorZero(), Vec::Zero(m), 0, "y-zero", hist);
    closeM(f.getAmatrixIdentity(), Mat::Identity(nt, nt), 0, "A-identity", hist);
    closeM(f.getCmatrixZero(), Mat::Zero(mt, nt), 0, "C-zero", hist);
    closeM(f.getQmatrixZero(), Mat::Zero(nt, nt), 0, "Q-zero", hist);
    closeM(f.getRmatrixZero(), Mat::Zero(mt, mt), 0, "R-zero", hist);
    closeM(f.getPmatrixIdentity(), Mat::Identity(nt, nt), 0, "P-identity", hist);
    eq(f.checkStateTangentVector(Vec::Zero(n)), n == nt, "check-dx", hist);
    eq(f.checkMeasureTangentVector(Vec::Zero(m)), m == mt, "check-dy", hist);
    ok(f.checkStateVector(Vec::Zero(n)) && f.checkMeasureVector(Vec::Zero(m)), "check-x", hist);
    if(debugBuild)
    {
      eq(refused([&] { f.setState(Vec(Vec::Zero(nt)), 0); }), n != nt, "state-of-the-wrong-size", hist);
      f.clearStates();
      P = false;
    }
  }
  c.say(hist);
  c.nontrivial = true;
}
