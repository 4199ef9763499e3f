// C20: flexibility estimators: configuration taken into account, each estimate is one extended Kalman filter step on the
// configured model, limits, convergence
#include "elref.hpp"
#include "kfref.hpp"
#include <memory>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
using namespace elref;
namespace
{
typedef so::flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU MB;
typedef so::flexibilityEstimation::FixedContactEKFFlexEstimatorIMU FC;
typedef so::flexibilityEstimation::IMUFixedContactDynamicalSystem FCSys;

Mat defaultQ(const Par & q)
{
  Mat Q = Mat::Zero(XN, XN);
  Q.diagonal().segment<12>(0).setConstant(1e-8);
  Q.diagonal().segment<12>(XFC).setConstant(1e-4);
  if(q.unmod) Q.diagonal().segment<6>(XUM).setConstant(1e-2);
  if(q.comBias) Q.diagonal().segment<2>(XCB).setConstant(2.5e-10);
  if(q.absPos) Q.diagonal().segment<3>(XDR).setConstant(1e-8);
  return Q;
}
/// a realistic robot on its feet
Vec standing(Rng & r, const Par & q, double move)
{
  Vec u = Vec::Zero(q.usize());
  u.segment<3>(UC) = V3(0.01, 0, 0.8) + move * r.v3(0.05);
  u.segment<3>(UCV) = move * r.v3(0.2);
  u.segment<3>(UCA) = move * r.v3(1);
  {
    // about the origin of the local frame; valid for the centres of mass of the estimated biases
    V3 c = u.segment<3>(UC);
    M3 I = 100 * (-ref::skew(c) * ref::skew(c) + 0.15 * M3::Identity());
    u.segment<6>(UI) << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
  }
  u.segment<3>(UAM) = move * r.v3(0.5);
  u.segment<3>(UDAM) = move * r.v3(1);
  u.segment<3>(UP) = V3(-0.1, 0, 1.1) + move * r.v3(0.1);
  u.segment<3>(UO) = move * r.v3(0.3);
  u.segment<3>(UV) = move * r.v3(0.2);
  u.segment<3>(UW) = move * r.v3(0.2);
  u.segment<3>(UA) = move * r.v3(1);
  if(r.b(0.2)) u.segment<6>(UADD) = r.vec(6, 5);
  for(int i = 0; i < q.n; ++i) u.segment<3>(UCT + 12 * i) = V3(0, i ? -0.1 : 0.1, 0) + move * r.v3(0.02);
  return u;
}

struct Sub : public MB
{
  explicit Sub(double dt) : MB(dt) {}
  const so::Vector & lastX() const
  {
    return lastX_;
  }
};

struct Run
{
  Rng & r;
  Par q;
  Sub e;
  std::unique_ptr<Sys> s; // same model, configured by the monitor
  Mat Q, P, R;
  Mat forceVar;
  double absVar;
  bool knownR; // expected R fully specified
  V3 limF, limT;
  bool limitOn, on;
  Vec x; // current estimate expected
  Vec u0, u1, y; // inputs of the last and of the next instant, next measurement
  bool hasU, hasU1, hasY;
  long steps;
  explicit Run(Rng & r_, double dt)
  : r(r_), e(dt), s(new Sys(dt)), forceVar(Mat::Identity(6, 6) * 1e-4), absVar(1e-4), knownR(true), limitOn(true),
    on(true), x(Vec::Zero(XN)), hasU(false), hasU1(false), hasY(false), steps(0)
  {
    q.dt = dt;
    Q = P = defaultQ(q);
    R = 1e-6 * Mat::Identity(6, 6);
    limF = V3(100, 100, 1000) * (ref::g * 56.8);
    limT = V3(10, 10, 100) * (ref::g * 56.8);
    q.model = 1;
    e.setContactModel(MB::contactModel::elasticContact);
    s->setContactModel(Sys::contactModel::elasticContact);
    fd();
    check();
  }
  /// forward differences of the independent model with the steps of the estimator: the same Jacobian with other rounding
  Mat jac(const Vec & x, const Vec & u, bool st) const
  {
    Vec f = st ? q.next(x, u) : q.measure(x, u);
    Mat J = Mat::Zero(f.size(), XN);
    for(int i = 0; i < XN; ++i)
    {
      bool off = (i >= XUM && i < XUM + 6 && !q.unmod) || (i >= XCB && i < XCB + 2 && !q.comBias)
                 || (i >= XDR && !q.absPos);
      if(off)
      {
        if(st) J(i, i) = 1;
        continue;
      }
      Vec a = x;
      a(i) += dx(i);
      J.col(i) = ((st ? q.next(a, u) : q.measure(a, u)) - f) / dx(i);
    }
    return J;
  }
  Vec dx;
  void fd()
  {
    dx = Vec::Constant(XN, 1e-8);
    dx.segment<3>(XORI).setConstant(1e-4);
    dx.segment<3>(XAV).setConstant(1e-4);
    s->setFDstep(dx);
  }
  /// the layout of the measurement changed
  void layout(long before)
  {
    if(before == q.ysize()) return;
    hasY = false;
    Mat Rn = Mat::Zero(q.ysize(), q.ysize());
    Rn.topLeftCorner(6, 6) = R.topLeftCorner(6, 6);
    long at = 6;
    if(q.force)
      for(int i = 0; i < q.n; ++i, at += 6) Rn.block(at, at, 6, 6) = forceVar;
    if(q.absPos) Rn.block(at, at, 6, 6) = absVar * Mat::Identity(6, 6);
    R = Rn;
  }
  void setN(int n)
  {
    long b = q.ysize(), bu = q.usize();
    e.setContactsNumber(unsigned(n));
    s->setContactsNumber(unsigned(n));
    q.n = n;
    layout(b);
    if(bu != q.usize()) hasU = hasU1 = false;
  }
  void configure(int k)
  {
    cur->note(uint64_t(2000 + k));
    long b = q.ysize();
    switch(k)
    {
      case 0:
        e.setRobotMass(q.m = r.lg(20, 100));
        s->setRobotMass(q.m);
        break;
      case 1:
        setN(int(r.i(1, 2)));
        break;
      case 2:
        e.setSamplingPeriod(q.dt = r.lg(1e-3, 8e-3));
        s->setSamplingPeriod(q.dt);
        break;
      case 3:
        e.setWithForcesMeasurements(q.force = r.b());
        s->setWithForceMeasurements(q.force);
        layout(b);
        break;
      case 4:
        e.setWithComBias(q.comBias = r.b());
        s->setWithComBias(q.comBias);
        break;
      case 5:
        e.setWithAbsolutePos(q.absPos = r.b());
        s->setWithAbsolutePosition(q.absPos);
        layout(b);
        break;
      case 6:
        e.setWithUnmodeledForces(q.unmod = r.b());
        s->setWithUnmodeledForces(q.unmod);
        break;
      case 7:
        e.setKfe(q.Kfe = gainM(r, 1e4, 6e4));
        s->setKfe(q.Kfe);
        break;
      case 8:
        e.setKfv(q.Kfv = gainM(r, 100, 1e3));
        s->setKfv(q.Kfv);
        break;
      case 9:
        e.setKte(q.Kte = gainM(r, 300, 1e3));
        s->setKte(q.Kte);
        break;
      case 10:
        e.setKtv(q.Ktv = gainM(r, 10, 100));
        s->setKtv(q.Ktv);
        break;
      case 11:
        Q = r.b() ? Mat(r.lg(1e-9, 1e-4) * Mat::Identity(XN, XN)) : Mat(r.spd(XN, 0.1, r.lg(1e-9, 1e-5)));
        e.setProcessNoiseCovariance(Q);
        break;
      case 12:
      {
        R = r.b() ? Mat(r.lg(1e-8, 1e-2) * Mat::Identity(q.ysize(), q.ysize()))
                  : Mat(r.spd(q.ysize(), 0.2, r.lg(1e-8, 1e-2)));
        e.setMeasurementNoiseCovariance(R);
        break;
      }
      case 13:
        P = r.b() ? Mat(r.lg(1e-9, 1e-4) * Mat::Identity(XN, XN)) : Mat(r.spd(XN, 0.1, r.lg(1e-9, 1e-5)));
        e.setFlexibilityCovariance(P);
        break;
      case 14:
        if(r.b())
        {
          double d = r.lg(1e-6, 1);
          forceVar = d * Mat::Identity(6, 6);
          e.setForceVariance(d);
        }
        else
        {
          M3 v = M3(r.spd(3, 0.2, r.lg(1e-6, 1e-2)));
          forceVar.setZero(6, 6);
          forceVar.block<3, 3>(0, 0) = v;
          forceVar.block<3, 3>(3, 3) = v;
          e.setForceVariance(v);
        }
        if(q.force)
          for(int i = 0; i < q.n; ++i) R.block(6 + 6 * i, 6 + 6 * i, 6, 6) = forceVar;
        break;
      case 15:
        e.setAbsolutePosVariance(absVar = r.lg(1e-6, 1e-1));
        if(q.absPos) R.bottomRightCorner(6, 6) = absVar * Mat::Identity(6, 6);
        break;
      case 16:
        e.resetCovarianceMatrices();
        Q = P = defaultQ(q);
        R.setZero(q.ysize(), q.ysize());
        R.topLeftCorner(6, 6) = 1e-6 * Mat::Identity(6, 6);
        {
          long at = 6;
          if(q.force)
            for(int i = 0; i < q.n; ++i, at += 6) R.block(at, at, 6, 6) = forceVar;
          if(q.absPos) R.block(at, at, 6, 6) = absVar * Mat::Identity(6, 6);
        }
        break;
      case 17:
        e.resetStateCovarianceMatrix();
        P = Q;
        break;
      case 18:
      {
        double d = r.b(0.25) ? 0 : r.lg(1e-9, 1e-4);
        if(r.b())
        {
          e.setUnmodeledForceProcessVariance(d);
          Q.diagonal().segment<6>(XUM).setConstant(d);
        }
        else
        {
          // only meaningful without correlation with the rest of the state
          if(P.block(0, XUM, XUM, 6).cwiseAbs().maxCoeff() > 0 || P.block(XUM + 6, XUM, 5, 6).cwiseAbs().maxCoeff() > 0)
            break;
          Mat off = P.block(XUM, XUM, 6, 6);
          off.diagonal().setZero();
          if(off.cwiseAbs().maxCoeff() > 0) break;
          e.setUnmodeledForceVariance(d);
          P.diagonal().segment<6>(XUM).setConstant(d);
        }
        // without variance they are not asked for
        if(d == 0) break;
        s->setWithUnmodeledForces(true);
        q.unmod = true;
        break;
      }
      case 19:
        limF = V3(r.lg(1, 1e4), r.lg(1, 1e4), r.lg(1, 1e4));
        e.setForcesLimit(limF);
        break;
      case 20:
        limT = V3(r.lg(0.1, 1e3), r.lg(0.1, 1e3), r.lg(0.1, 1e3));
        e.setTorquesLimit(limT);
        break;
      case 21:
        limitOn = r.b(0.7);
        e.setLimitOn(limitOn);
        break;
      case 22:
      {
        on = r.b(0.6);
        bool b2 = on;
        e.setOn(b2);
        break;
      }
      case 23:
        guess();
        break;
      case 24:
      {
        Vec b2 = r.vec(2, 0.05);
        x.segment<2>(XCB) = b2;
        e.setComBiasGuess(b2);
        break;
      }
      case 25:
        // elastic contacts or ropes
        if(r.b(0.4))
        {
          q.model = 3 - q.model;
          e.setContactModel(q.model == 1 ? MB::contactModel::elasticContact : MB::contactModel::pendulum);
          s->setContactModel(q.model == 1 ? Sys::contactModel::elasticContact : Sys::contactModel::pendulum);
          count(q.model == 1 ? "model_elastic" : "model_ropes");
        }
        break;
      case 26:
        switch(r.i(0, 3))
        {
          case 0:
            e.setKfeRopes(q.RKfe = gainM(r, 1e4, 6e4));
            s->setKfeRopes(q.RKfe);
            break;
          case 1:
            e.setKfvRopes(q.RKfv = gainM(r, 100, 1e3));
            s->setKfvRopes(q.RKfv);
            break;
          case 2:
            e.setKteRopes(q.RKte = gainM(r, 300, 1e3));
            s->setKteRopes(q.RKte);
            break;
          default:
            e.setKtvRopes(q.RKtv = gainM(r, 10, 100));
            s->setKtvRopes(q.RKtv);
        }
        break;
      case 27:
        q.pe = V3(0, 0, r.d(1.5, 3)) + r.v3(0.3);
        e.setPe(q.pe);
        s->setPe(q.pe);
        break;
    }
    check();
  }
  void guess()
  {
    Vec g = Vec::Zero(XN);
    g.segment<3>(XPOS) = r.v3(0.01);
    g.segment<3>(XORI) = r.v3(0.05);
    switch(r.i(0, 2))
    {
      case 0:
        g.segment<6>(XLV) = r.vec(6, 0.05);
        g.segment<12>(XFC) = r.vec(12, 100);
        g.segment<6>(XUM) = r.vec(6, q.unmod ? 1 : 0);
        g.segment<2>(XCB) = r.vec(2, 0.02);
        g.segment<3>(XDR) = r.vec(3, 0.1);
        e.setFlexibilityGuess(g);
        break;
      case 1:
        e.setFlexibilityGuess(Mat(g.head<6>()));
        break;
      default:
      {
        Mat H = Mat::Identity(4, 4);
        H.block<3, 3>(0, 0) = ref::exp3(g.segment<3>(XORI));
        H.block<3, 1>(0, 3) = g.segment<3>(XPOS);
        e.setFlexibilityGuess(H);
      }
    }
    x = g;
    count("guesses");
  }
  void check()
  {
    eq(e.getMeasurementSize(), q.ysize(), "measurement-size");
    eq(e.getInputSize(), q.usize(), "input-size");
    eq(e.getStateSize(), long(XN), "state-size");
    eq(long(e.getContactsNumber()), long(q.n), "contacts-number");
    eq(e.getWithForcesMeasurements(), q.force, "option-forces");
    eq(e.getWithAbsolutePos(), q.absPos, "option-absolute-pose");
    eq(e.getWithComBias(), q.comBias, "option-com-bias");
    eq(e.getWithUnmodeledForces(), q.unmod, "option-unmodeled-forces");
    eq(e.getRobotMass(), q.m, "mass");
    eq(e.getLimitOn(), limitOn, "limit-on");
    ok(e.getForcesLimit() == limF, "forces-limit");
    ok(e.getTorquesLimit() == limT, "torques-limit");
    ok(e.getKfe() == Mat(q.Kfe) && e.getKfv() == Mat(q.Kfv) && e.getKte() == Mat(q.Kte) && e.getKtv() == Mat(q.Ktv),
       "gains");
    eq(e.getEKF().getMeasureSize(), q.ysize(), "filter-measurement-size");
    eq(e.getEKF().getInputSize(), q.usize(), "filter-input-size");
    closeM(e.getProcessNoiseCovariance(), Q, 1e-15, "process-covariance");
    closeM(e.getMeasurementNoiseCovariance(), R, 1e-15, "measurement-covariance");
    closeM(e.getEKF().getQ(), Q, 1e-15, "filter-process-covariance");
    closeM(e.getEKF().getR(), R, 1e-15, "filter-measurement-covariance");
    Mat Pe = e.getFlexibilityCovariance();
    closeM(Pe, P, 1e-15, "covariance");
    closeM(e.getStateCovariance(), Vec(P.diagonal()), 1e-15, "covariance-diagonal");
  }
  void giveData(const Vec & truth)
  {
    Vec u = standing(r, q, 1);
    y = s->measureDynamics(truth, u, 0);
    y.head<6>() += r.vec(6, 1e-3);
    bool first = r.b();
    if(r.b(0.05)) // provisional values, replaced afterwards
    {
      e.setMeasurement(r.vec(q.ysize()));
      e.setMeasurementInput(standing(r, q, 1));
      if(!hasU)
      {
        u0 = e.getInput();
        hasU = true;
      }
    }
    if(first) e.setMeasurement(y);
    if(r.b(0.1))
    {
      // input of the current instant given explicitly
      u0 = standing(r, q, 1);
      e.setInput(u0);
      hasU = true;
    }
    e.setMeasurementInput(u);
    if(!hasU) u0 = u;
    hasU = true;
    u1 = u;
    if(!first) e.setMeasurement(y);
    closeM(e.getMeasurement(), y, 0, "measurement-kept");
    closeM(e.getMeasurementInput(), u1, 0, "measurement-input-kept");
    closeM(e.getInput(), u0, 0, "input-kept");
    hasY = true;
  }
  void closeJ(const Mat & J, const Mat & E, const char * key)
  {
    eq(J.rows(), E.rows(), key);
    eq(J.cols(), E.cols(), key);
    for(int i = 0; i < J.rows(); ++i)
    {
      double row = 1 + E.row(i).cwiseAbs().maxCoeff();
      for(int j = 0; j < J.cols(); ++j)
        if(!(std::fabs(J(i, j) - E(i, j)) <= 1e-3 * row))
          fail(key, "at " + str(i) + "," + str(j) + ": " + str(J(i, j)) + " expected " + str(E(i, j)));
    }
    cur->observed();
  }
  /// the centre of mass, with the estimated bias, is compatible with the inertia
  bool physical(const Vec & z, const Vec & u) const
  {
    M3 C = ref::skew(q.com(z, u)), I = inertiaOf(u, UI) + q.m * C * C;
    return Eigen::SelfAdjointEigenSolver<M3>(I).eigenvalues().minCoeff() > 0.5;
  }
  Mat asym(const Mat & M) const
  {
    return M - M.transpose();
  }
  /// one step
  bool step(const Vec & truth, bool bad = false)
  {
    giveData(truth);
    if(bad && on && steps > 1 && physical(x, u0))
    {
      // a broken sensor: the estimate is kept and the filter restarted with its default covariances
      y(r.i(0, y.size() - 1)) = std::numeric_limits<double>::quiet_NaN();
      e.setMeasurement(y);
      Vec o = e.getFlexibilityVector();
      if(y.hasNaN() || o.allFinite())
      {
        closeM(o, x, 1e-12, "estimate-kept");
        Q = P = defaultQ(q);
        R.setZero(q.ysize(), q.ysize());
        R.topLeftCorner(6, 6) = 1e-6 * Mat::Identity(6, 6);
        long at = 6;
        if(q.force)
          for(int i = 0; i < q.n; ++i, at += 6) R.block(at, at, 6, 6) = forceVar;
        if(q.absPos) R.block(at, at, 6, 6) = absVar * Mat::Identity(6, 6);
        u0 = u1;
        hasY = false;
        ++steps;
        check();
        count("broken-measurements");
        return true;
      }
      return false;
    }
    if(!on)
    {
      Vec z = e.getFlexibilityVector();
      closeM(z, Vec(Vec::Zero(XN)), 0, "off-estimate");
      P = Q;
      x.setZero();
      hasU = false;
      check();
      closeM(e.getMomentaDotFromForces(), Vec(Vec::Zero(6)), 0, "off-momenta");
      closeM(e.getMomentaDotFromKinematics(), Vec(Vec::Zero(6)), 0, "off-momenta");
      if(r.b(0.3))
      {
        // back on: nothing given meanwhile is left
        on = true;
        bool b2 = on;
        e.setOn(b2);
        closeM(e.getFlexibilityVector(), Vec(Vec::Zero(XN)), 0, "nothing-left-by-off");
        check();
        count("back-on");
      }
      count("off-steps");
      return true;
    }
    if(!physical(x, u0)) return false;
    Vec xb = s->stateDynamics(x, u0, 0);
    if(!physical(xb, u1)) return false;
    Mat A = s->stateDynamicsJacobian();
    Vec yb = s->measureDynamics(xb, u1, 0);
    Mat C = s->measureDynamicsJacobian();
    // the model itself
    Vec xm = q.next(x, u0);
    closeM(xb.head<12>(), xm.head<12>(), 1e-7, "model-prediction");
    int ask = int(r.i(0, 5));
    if(ask == 0) closeM(e.getPrediction(), xb, 1e-9, "prediction");
    if(ask == 1) closeM(e.getPredictedMeasurement(), yb, 1e-8, "predicted-measurement");
    Mat A2 = jac(x, u0, true), C2 = jac(xb, u1, false);
    kfref::RefStep k, k2;
    kfref::refGain(A, C, Q, R, P, k);
    kfref::refGain(A2, C2, Q, R, P, k2);
    Vec d = k.S.diagonal().cwiseSqrt().cwiseInverse();
    Eigen::SelfAdjointEigenSolver<Mat> es(d.asDiagonal() * k.S * d.asDiagonal());
    double cond = es.eigenvalues().maxCoeff() / std::max(1e-300, es.eigenvalues().minCoeff());
    Vec out;
    if(r.b(0.2))
    {
      // any of the functions that ask for the estimate
      switch(r.i(0, 2))
      {
        case 0:
          e.getFlexibility();
          break;
        case 1:
          e.getForcesAndMoments();
          break;
        default:
          e.getSimulatedMeasurement();
      }
    }
    out = e.getFlexibilityVector();
    ++steps;
    Vec inn = k.K * (y - yb), inn2 = k2.K * (y - yb);
    Vec xe = xb + inn;
    Mat Pe = k.P;
    if(!(cond < 1e8) || !xe.allFinite() || xe.norm() > 1e7) return false;
    // the rounding of the finite differences, amplified by the gain
    Vec sb = k.pbar.diagonal().cwiseMax(0).cwiseSqrt();
    double tolP = 1e-7, tol[3];
    for(int i = 0; i < XN; ++i)
      for(int j = 0; j < XN; ++j)
        tolP = std::max(tolP, 100 * std::fabs(k.P(i, j) - k2.P(i, j)) / (1e-14 + sb(i) * sb(j)));
    static const int from[4] = {0, XFC, XUM, XN};
    for(int g = 0; g < 3; ++g)
    {
      long n = from[g + 1] - from[g];
      tol[g] = 1e-8 + 1e-13 * cond
               + 100 * (inn - inn2).segment(from[g], n).cwiseAbs().maxCoeff()
                     / (1 + inn.segment(from[g], n).cwiseAbs().maxCoeff());
      if(tol[g] > 1e-2) tolP = 1;
    }
    if(tolP > 1e-2) return false;
    finite(out, "finite-estimate");
    closeM(e.getLastPrediction(), xb, 1e-9, "last-prediction");
    closeM(e.getLastPredictedMeasurement(), yb, 1e-8, "last-predicted-measurement");
    closeJ(e.getAMatrix(), A2, "state-jacobian");
    closeJ(e.getCMatrix(), C2, "measurement-jacobian");
    Mat O = e.computeLocalObservationMatrix(), Oe(2 * q.ysize(), long(XN));
    Oe << e.getCMatrix(), e.getCMatrix() * e.getAMatrix();
    closeM(O, Oe, 1e-12, "observation-matrix");
    Vec ino = e.getInnovation();
    eq(ino.size(), long(XN), "innovation");
    for(int g = 0; g < 3; ++g)
      closeM(ino.segment(from[g], from[g + 1] - from[g]), inn.segment(from[g], from[g + 1] - from[g]), tol[g],
             "innovation");
    // regularisation and limits
    if(limitOn)
      for(int c = 0; c < 2; ++c)
        for(int i = 0; i < 3; ++i)
        {
          double & f = xe(XFC + 6 * c + i);
          double & t = xe(XFC + 6 * c + 3 + i);
          if(std::fabs(f) > limF(i) || std::fabs(t) > limT(i)) count("saturated");
          f = std::max(-limF(i), std::min(limF(i), f));
          t = std::max(-limT(i), std::min(limT(i), t));
          ok(std::fabs(out(XFC + 6 * c + i)) <= limF(i), "force-limit", "contact " + str(c) + " axis " + str(i));
          ok(std::fabs(out(XFC + 6 * c + 3 + i)) <= limT(i), "torque-limit", "contact " + str(c) + " axis " + str(i));
        }
    closeM(out.head<3>(), xe.head<3>(), tol[0], "estimate-position");
    closeM(out.segment<6>(XLV), xe.segment<6>(XLV), tol[0], "estimate-velocities");
    rotClose(ref::exp3(out.segment<3>(XORI)), ref::exp3(xe.segment<3>(XORI)), 4 * tol[0], "estimate-orientation");
    ok(out.segment<3>(XORI).norm() <= 1.5 * M_PI + 1e-9, "estimate-orientation-regulated");
    closeM(out.segment<12>(XFC), xe.segment<12>(XFC), tol[1], "estimate-forces");
    closeM(out.tail<11>(), xe.tail<11>(), tol[2], "estimate-others");
    Mat Pg = e.getFlexibilityCovariance();
    double worst = 0;
    for(int i = 0; i < XN; ++i)
      for(int j = 0; j < XN; ++j) worst = std::max(worst, std::fabs(Pg(i, j) - Pe(i, j)) / (1e-14 + sb(i) * sb(j)));
    ok(worst < tolP, "estimate-covariance", "relative error " + str(worst) + " cond " + str(cond));
    ok(asym(Pg).cwiseAbs().maxCoeff() <= 1e-12 * Pg.cwiseAbs().maxCoeff(), "covariance-symmetric");
    closeM(e.getFlexibilityVector(), out, 0, "estimate-stable");
    M3 Rf = ref::exp3(out.segment<3>(XORI));
    Mat H = e.getFlexibility();
    rotClose(H.block<3, 3>(0, 0), Rf, 1e-9, "flexibility-matrix");
    closeM(H.block<3, 1>(0, 3), out.segment<3>(XPOS), 1e-12, "flexibility-matrix");
    closeM(e.getForcesAndMoments(), Vec(out.segment(XFC, 6 * q.n)), 0, "forces-and-moments");
    x = out;
    P = Pg;
    u0 = u1;
    hasY = false;
    if(r.b(0.3))
    {
      V6 md = q.momentaDot(x, u0), ac = q.acc(x, u0);
      closeM(e.getMomentaDotFromForces(), md, 1e-8, "momenta-from-forces");
      closeM(e.getMomentaDotFromKinematics(), md, 1e-7, "momenta-from-kinematics");
      closeM(e.computeAccelerations(), ac, 1e-7, "accelerations");
    }
    check();
    count("filter-steps");
    return true;
  }
};
} // namespace

SUITE(flex_histories, 1000, 12000)
{
  Rng & r = c.r;
  Run t(r, r.lg(1e-3, 8e-3));
  t.setN(int(r.i(1, 2)));
  int nc = int(r.i(0, 8));
  for(int i = 0; i < nc; ++i) t.configure(int(r.i(0, 27)));
  Vec truth = Vec::Zero(XN);
  truth.segment<3>(XPOS) = r.v3(0.003);
  truth.segment<3>(XORI) = r.v3(0.02);
  truth.segment<12>(XFC) = r.vec(12, 50);
  int n = int(r.i(3, 15));
  for(int i = 0; i < n; ++i)
  {
    int kc = r.b(0.6) ? 0 : int(r.i(1, 3));
    for(int j = 0; j < kc; ++j) t.configure(int(r.i(0, 27)));
    if(!t.step(truth, r.b(0.05)))
    {
      count("cut");
      break;
    }
  }
  c.nontrivial = true;
}

/// every order of enabling and disabling the optional measurements gives the configured covariance
SUITE(flex_options, 1500, 30000)
{
  Rng & r = c.r;
  Run t(r, 0.005);
  static const int ops[] = {1, 3, 5, 6, 4, 12, 14, 15, 16, 3, 5, 1};
  int n = int(r.i(2, 15));
  for(int i = 0; i < n; ++i) t.configure(ops[r.i(0, 11)]);
  c.nontrivial = true;
}

/// the first estimate and the guess without data
SUITE(flex_guess, 300, 3000)
{
  Rng & r = c.r;
  Run t(r, 0.005);
  closeM(t.e.getFlexibilityVector(), Vec(Vec::Zero(XN)), 0, "initial-estimate");
  if(r.b()) t.setN(2);
  int n = int(r.i(1, 4));
  for(int i = 0; i < n; ++i)
  {
    t.guess();
    if(r.b(0.3)) t.configure(24);
    closeM(t.e.getFlexibilityVector(), t.x, 1e-12, "guess");
    rotClose(t.e.getFlexibility().block<3, 3>(0, 0), ref::exp3(t.x.segment<3>(XORI)), 1e-9, "guess-matrix");
  }
  c.nontrivial = true;
}

namespace
{
/// the fixed contact estimator: constant accelerations, the contacts measured as fixed
enum
{
  FPOS = 0,
  FORI = 3,
  FLV = 6,
  FAV = 9,
  FLA = 12,
  FAA = 15,
  FN = 18
};
struct FixedRun
{
  Rng & r;
  FC e;
  double dt, virt;
  std::vector<V3> contacts;
  Mat Q, P, R;
  Vec x, u0, u1, y, dx;
  bool hasU;
  long steps;
  static Mat diag(double p, double v, double a)
  {
    Mat D = Mat::Zero(FN, FN);
    D.diagonal().segment<6>(0).setConstant(p);
    D.diagonal().segment<6>(FLV).setConstant(v);
    D.diagonal().segment<6>(FLA).setConstant(a);
    return D;
  }
  FixedRun(Rng & r_, double dt_)
  : r(r_), e(dt_), dt(dt_), virt(1e-10), Q(diag(1e-8, 1e-4, 1e-2)), P(Q), R(1e-6 * Mat::Identity(6, 6)),
    x(Vec::Zero(FN)), hasU(false), steps(0)
  {
    dx = Vec::Constant(FN, 1e-8);
    dx.segment<3>(FORI).setConstant(1e-4);
    dx.segment<3>(FAV).setConstant(1e-4);
    check();
  }
  long m() const
  {
    return 6 + 3 * long(contacts.size());
  }
  Mat fullR() const
  {
    Mat F = virt * Mat::Identity(m(), m());
    F.topLeftCorner(6, 6) = R;
    return F;
  }
  Vec next(const Vec & z) const
  {
    Vec n = z;
    V3 v = z.segment<3>(FLV), a = z.segment<3>(FLA), w = z.segment<3>(FAV), al = z.segment<3>(FAA);
    n.segment<3>(FPOS) += dt * v + 0.5 * dt * dt * a;
    n.segment<3>(FLV) += dt * a;
    n.segment<3>(FAV) += dt * al;
    n.segment<3>(FORI) = ref::log3(ref::exp3(dt * w + 0.5 * dt * dt * al) * ref::exp3(z.segment<3>(FORI)));
    return n;
  }
  Vec measure(const Vec & z, const Vec & u) const
  {
    Vec o(m());
    V3 w = z.segment<3>(FAV), al = z.segment<3>(FAA);
    M3 Rf = ref::exp3(z.segment<3>(FORI)), W = ref::skew(w), S = Rf * ref::exp3(u.segment<3>(FORI));
    V3 p = Rf * u.segment<3>(FPOS);
    V3 a = z.segment<3>(FLA) + al.cross(p) + W * (W * p) + 2 * W * (Rf * u.segment<3>(FLV)) + Rf * u.segment<3>(FLA);
    o.segment<3>(0) = S.transpose() * (a + V3::Unit(2) * ref::g);
    o.segment<3>(3) = S.transpose() * (w + Rf * u.segment<3>(FAV));
    for(size_t i = 0; i < contacts.size(); ++i)
      o.segment<3>(6 + 3 * long(i)) = z.segment<3>(FPOS) + Rf * contacts[i] - contacts[i];
    return o;
  }
  Mat jac(const Vec & z, const Vec & u, bool st) const
  {
    Vec f = st ? next(z) : measure(z, u);
    Mat J(f.size(), long(FN));
    for(int i = 0; i < FN; ++i)
    {
      Vec a = z;
      a(i) += dx(i);
      J.col(i) = ((st ? next(a) : measure(a, u)) - f) / dx(i);
    }
    return J;
  }
  Vec input(double move)
  {
    Vec u(15);
    u.segment<3>(FPOS) = V3(-0.1, 0, 1.1) + r.v3(0.1 * move);
    u.segment<3>(FORI) = r.v3(0.3 * move);
    u.segment<3>(FLV) = r.v3(0.2 * move);
    u.segment<3>(FAV) = r.v3(0.2 * move);
    u.segment<3>(FLA) = r.v3(move);
    return u;
  }
  void check()
  {
    eq(e.getStateSize(), long(FN), "fixed-state-size");
    eq(e.getMeasurementSize(), 6l, "fixed-measurement-size");
    eq(e.getInputSize(), 15l, "fixed-input-size");
    eq(e.getEKF().getMeasureSize(), m(), "fixed-filter-measurement-size");
    closeM(e.getProcessNoiseCovariance(), Q, 1e-15, "fixed-process-covariance");
    closeM(e.getEKF().getQ(), Q, 1e-15, "fixed-filter-process-covariance");
    closeM(e.getMeasurementNoiseCovariance(), R, 1e-15, "fixed-measurement-covariance");
    closeM(e.getEKF().getR(), fullR(), 1e-15, "fixed-filter-measurement-covariance");
    eq(e.getVirtualMeasurementsCovariance(), virt, "fixed-virtual-covariance");
    closeM(e.getFlexibilityCovariance(), P, 1e-15, "fixed-covariance");
  }
  void configure(int k)
  {
    cur->note(uint64_t(3000 + k));
    switch(k)
    {
      case 0:
      {
        size_t n = size_t(r.i(0, 4));
        contacts.resize(n, V3::Zero());
        e.setContactsNumber(unsigned(n));
        break;
      }
      case 1:
        if(contacts.size())
        {
          size_t i = size_t(r.i(0, long(contacts.size()) - 1));
          contacts[i] = r.v3(0.3);
          e.setContactPosition(unsigned(i), contacts[i]);
        }
        break;
      case 2:
        virt = r.lg(1e-10, 1e-3);
        e.setVirtualMeasurementsCovariance(virt);
        break;
      case 3:
        Q = r.b() ? Mat(r.lg(1e-9, 1e-2) * Mat::Identity(FN, FN)) : Mat(r.spd(FN, 0.1, r.lg(1e-9, 1e-4)));
        e.setProcessNoiseCovariance(Q);
        break;
      case 4:
        R = r.b() ? Mat(r.lg(1e-8, 1e-2) * Mat::Identity(6, 6)) : Mat(r.spd(6, 0.2, r.lg(1e-8, 1e-2)));
        e.setMeasurementNoiseCovariance(R);
        break;
      case 5:
        P = r.b() ? Mat(r.lg(1e-9, 1e-2) * Mat::Identity(FN, FN)) : Mat(r.spd(FN, 0.1, r.lg(1e-9, 1e-3)));
        e.setFlexibilityCovariance(P);
        break;
      case 6:
        e.resetCovarianceMatrices();
        Q = diag(1e-8, 1e-4, 1e-2);
        P = 1e-2 * Mat::Identity(FN, FN);
        R = 1e-6 * Mat::Identity(6, 6);
        break;
      case 7:
        dt = r.lg(1e-3, 2e-2);
        e.setSamplingPeriod(dt);
        break;
      case 8:
        guess();
        break;
    }
    check();
  }
  void guess()
  {
    Vec g = Vec::Zero(FN);
    g.head<6>() << r.v3(0.02), r.v3(0.1);
    switch(r.i(0, 2))
    {
      case 0:
        g.tail<12>() = r.vec(12, 0.1);
        e.setFlexibilityGuess(g);
        break;
      case 1:
        e.setFlexibilityGuess(Mat(g.head<6>()));
        break;
      default:
      {
        Mat H = Mat::Identity(4, 4);
        H.block<3, 3>(0, 0) = ref::exp3(g.segment<3>(FORI));
        H.block<3, 1>(0, 3) = g.segment<3>(FPOS);
        e.setFlexibilityGuess(H);
      }
    }
    x = g;
    closeM(e.getFlexibilityVector(), x, 1e-12, "fixed-guess");
    rotClose(e.getFlexibility().block<3, 3>(0, 0), ref::exp3(x.segment<3>(FORI)), 1e-9, "fixed-guess-matrix");
    count("guesses");
  }
  void closeJ(const Mat & J, const Mat & E, const char * key)
  {
    eq(J.rows(), E.rows(), key);
    eq(J.cols(), E.cols(), key);
    for(int i = 0; i < J.rows(); ++i)
    {
      double row = 1 + E.row(i).cwiseAbs().maxCoeff();
      for(int j = 0; j < J.cols(); ++j)
        if(!(std::fabs(J(i, j) - E(i, j)) <= 1e-4 * row))
          fail(key, "at " + str(i) + "," + str(j) + ": " + str(J(i, j)) + " expected " + str(E(i, j)));
    }
    cur->observed();
  }
  bool step(const Vec & truth, double move, bool bad)
  {
    Vec u = input(move);
    Vec yt = measure(truth, u);
    y = yt.head<6>() + r.vec(6, 1e-3);
    bool first = r.b();
    if(first) e.setMeasurement(y);
    e.setMeasurementInput(u);
    if(!hasU) u0 = u;
    hasU = true;
    u1 = u;
    if(!first) e.setMeasurement(y);
    Vec yf = Vec::Zero(m());
    yf.head<6>() = y;
    closeM(e.getMeasurement(), yf, 0, "fixed-measurement-kept");
    closeM(e.getMeasurementInput(), u1, 0, "fixed-input-kept");
    closeM(e.getInput(), u0, 0, "fixed-input-kept");
    if(bad && steps > 0)
    {
      // a broken sensor: the estimate is kept and the filter restarted with its default covariances
      y(r.i(0, 5)) = std::numeric_limits<double>::quiet_NaN();
      e.setMeasurement(y);
      Vec o = e.getFlexibilityVector();
      closeM(o, x, 1e-12, "fixed-estimate-kept");
      Q = diag(1e-8, 1e-4, 1e-2);
      P = 1e-2 * Mat::Identity(FN, FN);
      R = 1e-6 * Mat::Identity(6, 6);
      x = o;
      u0 = u1;
      ++steps;
      check();
      count("fixed-broken-measurements");
      return true;
    }
    Vec xb = next(x), yb = measure(xb, u1);
    Mat A2 = jac(x, u0, true), C2 = jac(xb, u1, false);
    if(r.b(0.2)) closeM(e.getPrediction(), xb, 1e-8, "fixed-prediction");
    if(r.b(0.2)) closeM(e.getPredictedMeasurement(), yb, 1e-7, "fixed-predicted-measurement");
    if(r.b(0.2)) (r.b() ? (void)e.getFlexibility() : (void)e.getSimulatedMeasurement());
    kfref::RefStep k, k2;
    Vec out = e.getFlexibilityVector();
    ++steps;
    finite(out, "fixed-finite-estimate");
    // the Jacobians used, checked against the reference, then used for the gain
    Mat A = e.getEKF().getA(), C = e.getEKF().getC();
    closeJ(A, A2, "fixed-state-jacobian");
    closeJ(C, C2, "fixed-measurement-jacobian");
    kfref::refGain(A, C, Q, fullR(), P, k);
    kfref::refGain(A2, C2, Q, fullR(), P, k2);
    Vec d = k.S.diagonal().cwiseSqrt().cwiseInverse();
    Eigen::SelfAdjointEigenSolver<Mat> es(d.asDiagonal() * k.S * d.asDiagonal());
    double cond = es.eigenvalues().maxCoeff() / std::max(1e-300, es.eigenvalues().minCoeff());
    closeM(e.getLastPrediction(), xb, 1e-8, "fixed-last-prediction");
    closeM(e.getLastPredictedMeasurement(), yb, 1e-7, "fixed-last-predicted-measurement");
    if(!(cond < 1e8)) return false;
    Vec inn = k.K * (yf - yb), inn2 = k2.K * (yf - yb), xe = xb + inn;
    Vec sb = k.pbar.diagonal().cwiseMax(0).cwiseSqrt();
    double tol[3], tolP = 1e-7;
    for(int i = 0; i < FN; ++i)
      for(int j = 0; j < FN; ++j)
        tolP = std::max(tolP, 100 * std::fabs(k.P(i, j) - k2.P(i, j)) / (1e-14 + sb(i) * sb(j)));
    for(int g = 0; g < 3; ++g)
    {
      tol[g] = 1e-8 + 1e-13 * cond
               + 100 * (inn - inn2).segment<6>(6 * g).cwiseAbs().maxCoeff()
                     / (1 + inn.segment<6>(6 * g).cwiseAbs().maxCoeff());
      if(!(tol[g] < 1e-2)) return false;
      closeM(e.getInnovation().segment<6>(6 * g), inn.segment<6>(6 * g), tol[g], "fixed-innovation");
    }
    if(!(tolP < 1e-2)) return false;
    closeM(out.segment<3>(FPOS), xe.segment<3>(FPOS), tol[0], "fixed-estimate-position");
    rotClose(ref::exp3(out.segment<3>(FORI)), ref::exp3(xe.segment<3>(FORI)), 4 * tol[0], "fixed-estimate-orientation");
    ok(out.segment<3>(FORI).norm() <= 1.5 * M_PI + 1e-9, "fixed-estimate-orientation-regulated");
    closeM(out.segment<6>(FLV), xe.segment<6>(FLV), tol[1], "fixed-estimate-velocities");
    closeM(out.segment<6>(FLA), xe.segment<6>(FLA), tol[2], "fixed-estimate-accelerations");
    Mat Pg = e.getFlexibilityCovariance();
    double worst = 0;
    for(int i = 0; i < FN; ++i)
      for(int j = 0; j < FN; ++j) worst = std::max(worst, std::fabs(Pg(i, j) - k.P(i, j)) / (1e-14 + sb(i) * sb(j)));
    ok(worst < tolP, "fixed-estimate-covariance", "relative error " + str(worst) + " cond " + str(cond));
    closeM(e.getFlexibilityVector(), out, 0, "fixed-estimate-stable");
    Mat H = e.getFlexibility();
    rotClose(H.block<3, 3>(0, 0), ref::exp3(out.segment<3>(FORI)), 1e-9, "fixed-flexibility-matrix");
    closeM(H.block<3, 1>(0, 3), out.segment<3>(FPOS), 1e-12, "fixed-flexibility-matrix");
    x = out;
    P = Pg;
    u0 = u1;
    check();
    count("fixed-filter-steps");
    return true;
  }
};
} // namespace

SUITE(fixed_histories, 1500, 20000)
{
  Rng & r = c.r;
  FixedRun t(r, r.lg(1e-3, 1e-2));
  int nc = int(r.i(0, 8));
  for(int i = 0; i < nc; ++i) t.configure(int(r.i(0, 8)));
  Vec truth = Vec::Zero(FN);
  truth.segment<3>(FORI) = r.v3(0.1);
  int n = int(r.i(3, 20));
  double move = r.b() ? 1 : 0.1;
  for(int i = 0; i < n; ++i)
  {
    int kc = r.b(0.6) ? 0 : int(r.i(1, 3));
    for(int j = 0; j < kc; ++j) t.configure(int(r.i(0, 8)));
    if(!t.step(truth, move, r.b(0.06)))
    {
      count("fixed-cut");
      break;
    }
  }
  c.nontrivial = true;
}

/// data generated by the model itself: the estimate goes to the truth
SUITE(flex_convergence, 40, 1000)
{
  Rng & r = c.r;
  Par q;
  q.model = 1;
  q.dt = r.lg(2e-3, 6e-3);
  q.n = 2;
  q.force = r.b();
  q.absPos = r.b(0.3);
  MB e(q.dt);
  e.setContactModel(MB::contactModel::elasticContact);
  e.setContactsNumber(unsigned(q.n));
  e.setRobotMass(q.m);
  e.setKfe(q.Kfe);
  e.setKfv(q.Kfv);
  e.setKte(q.Kte);
  e.setKtv(q.Ktv);
  e.setWithForcesMeasurements(q.force);
  e.setWithAbsolutePos(q.absPos);
  Vec u = standing(r, q, 0);
  u.segment<3>(UC) = V3(r.d(-0.03, 0.03), r.d(-0.03, 0.03), r.d(0.7, 0.9));
  Vec x = Vec::Zero(XN);
  // the model settles
  for(int i = 0; i < 3000; ++i) x = q.next(x, u);
  x.segment<12>(XFC) = q.efforts(x, u);
  Vec rest = x;
  x.segment<3>(XORI) += r.v3(0.02);
  x.segment<3>(XLV) += r.v3(0.01);
  x.segment<3>(XAV) += r.v3(0.05);
  x.segment<12>(XFC) = q.efforts(x, u);
  Vec z = rest;
  e.setFlexibilityGuess(z);
  double first = 0, last = 0;
  int n = 400;
  Vec u0 = u;
  V3 am = r.b(0.3) ? V3(V3::Zero()) : V3(r.v3(0.02));
  double om = r.lg(1, 10);
  for(int i = 0; i < n; ++i)
  {
    Vec un = u0;
    double ph = om * q.dt * (i + 1);
    un.segment<3>(UC) += am * std::sin(ph);
    un.segment<3>(UCV) = am * om * std::cos(ph);
    un.segment<3>(UCA) = -am * om * om * std::sin(ph);
    un.segment<3>(UP) += am * std::sin(ph);
    un.segment<3>(UV) = am * om * std::cos(ph);
    un.segment<3>(UA) = -am * om * om * std::sin(ph);
    Vec xn = q.next(x, u);
    Vec y = q.measure(xn, un);
    e.setMeasurement(y);
    e.setMeasurementInput(un);
    Vec o = e.getFlexibilityVector();
    finite(o, "convergence-finite");
    cur->observed();
    double err = (o.segment<3>(XORI) - xn.segment<3>(XORI)).norm();
    if(i < 5) first = std::max(first, err);
    if(i >= n - 20) last = std::max(last, err);
    u = un;
    x = xn;
  }
  // 400 steps divide the error by 50 to 10^7 in this configuration
  if(!(last <= 0.1 * first + 1e-6)) fail("convergence", "error of orientation from " + str(first) + " to " + str(last));
  count("convergence-runs");
  c.nontrivial = true;
}

namespace
{
/// an estimator written by a user on the base class
struct UserModel : public so::DynamicalSystemFunctorBase
{
  Mat A, B, C, D;
  Vec stateDynamics(const Vec & x, const Vec & u, so::TimeIndex)
  {
    return A * x + 0.2 * x.array().sin().matrix() + B * u;
  }
  Vec measureDynamics(const Vec & x, const Vec & u, so::TimeIndex)
  {
    Vec z = C * x;
    return z + 0.2 * z.array().cos().matrix() + D * u;
  }
  Mat fJ(const Vec & x) const
  {
    return A + Mat((0.2 * x.array().cos()).matrix().asDiagonal());
  }
  Mat hJ(const Vec & x) const
  {
    Vec z = C * x;
    return C - Mat((0.2 * z.array().sin()).matrix().asDiagonal()) * C;
  }
  so::Index getStateSize() const
  {
    return A.rows();
  }
  so::Index getInputSize() const
  {
    return B.cols();
  }
  so::Index getMeasurementSize() const
  {
    return C.rows();
  }
};
struct UserEst : public so::flexibilityEstimation::EKFFlexibilityEstimatorBase
{
  UserModel & md;
  int resets;
  UserEst(UserModel & m, const Vec & dx)
  : EKFFlexibilityEstimatorBase(m.getStateSize(), m.getMeasurementSize(), m.getInputSize(), dx), md(m), resets(0)
  {
    ekf_.setFunctor(&md);
    ekf_.setDirectInputOutputFeedthrough(true);
    ekf_.setDirectInputStateFeedthrough(true);
    lastX_ = Vec::Zero(md.getStateSize());
    ekf_.setState(lastX_, 0);
  }
  void setFlexibilityGuess(const Mat & g)
  {
    lastX_ = g;
    ekf_.setState(lastX_, k_);
  }
  so::Matrix4 getFlexibility()
  {
    return so::Matrix4::Identity();
  }
  so::Index getStateSize() const
  {
    return ekf_.getStateSize();
  }
  so::Index getMeasurementSize() const
  {
    return ekf_.getMeasureSize();
  }
  so::Index getInputSize() const
  {
    return ekf_.getInputSize();
  }
  void resetCovarianceMatrices()
  {
    ++resets;
    ekf_.setStateCovariance(ekf_.getPmatrixIdentity());
  }
  using EKFFlexibilityEstimatorBase::setJacobians;
  using EKFFlexibilityEstimatorBase::useFiniteDifferencesJacobians;
};
} // namespace

SUITE(user_estimator, 800, 10000)
{
  Rng & r = c.r;
  UserModel md;
  long n = r.i(1, 5), m = r.i(1, 4), p = r.i(1, 3);
  md.A = r.mat(n, n) * 0.5;
  md.B = r.mat(n, p);
  md.C = r.mat(m, n);
  md.D = r.mat(m, p);
  UserEst e(md, Vec(Vec::Constant(n, 1e-7)));
  Mat Q = r.spd(n, 0.3), R = r.spd(m, 0.3), P = r.spd(n, 0.3);
  e.setProcessNoiseCovariance(Q);
  e.setMeasurementNoiseCovariance(R);
  e.setFlexibilityCovariance(P);
  c.note(md.A);
  c.note(P);
  Vec x = Vec::Zero(n), u0;
  if(r.b())
  {
    x = r.vec(n, 1);
    e.setFlexibilityGuess(x);
  }
  bool fdj = true, has = false;
  long steps = r.i(2, 12);
  for(long k = 0; k < steps; ++k)
  {
    if(r.b(0.2)) e.setProcessNoiseCovariance(Q = r.spd(n, 0.3));
    if(r.b(0.2)) e.setMeasurementNoiseCovariance(R = r.spd(m, 0.3));
    if(r.b(0.2)) e.setFlexibilityCovariance(P = r.spd(n, 0.3));
    if(r.b(0.1)) e.setFlexibilityGuess(x = r.vec(n, 1));
    closeM(e.getProcessNoiseCovariance(), Q, 0, "user-process-covariance");
    closeM(e.getMeasurementNoiseCovariance(), R, 0, "user-measurement-covariance");
    closeM(e.getFlexibilityCovariance(), P, 0, "user-covariance");
    Vec u1 = r.vec(p, 1), y = r.vec(m, 2);
    bool bad = k > 0 && r.b(0.1), first = r.b();
    if(bad) y(r.i(0, m - 1)) = std::numeric_limits<double>::quiet_NaN();
    if(first) e.setMeasurement(y);
    if(!has && r.b())
    {
      u0 = r.vec(p, 1);
      e.setInput(u0);
      has = true;
    }
    e.setMeasurementInput(u1);
    if(!has) u0 = u1;
    has = true;
    if(!first) e.setMeasurement(y);
    if(!bad) closeM(e.getMeasurement(), y, 0, "user-measurement-kept");
    closeM(e.getInput(), u0, 0, "user-input-kept");
    closeM(e.getMeasurementInput(), u1, 0, "user-measurement-input-kept");
    Vec xb = md.stateDynamics(x, u0, 0), yb = md.measureDynamics(xb, u1, 0);
    if(r.b(0.2)) closeM(e.getPrediction(), xb, 1e-12, "user-prediction");
    if(r.b(0.2)) closeM(e.getPredictedMeasurement(), yb, 1e-12, "user-predicted-measurement");
    Mat A = md.fJ(x), C = md.hJ(xb);
    if(r.b(0.4))
    {
      // Jacobians given by the user, any approximation of them
      A += 0.1 * r.mat(n, n);
      C += 0.1 * r.mat(m, n);
      e.setJacobians(A, C);
      fdj = false;
    }
    else if(!fdj)
    {
      e.useFiniteDifferencesJacobians(Vec(Vec::Constant(n, r.lg(1e-8, 1e-6))));
      fdj = true;
    }
    kfref::RefStep s;
    kfref::refGain(A, C, Q, R, P, s);
    Vec out = e.getFlexibilityVector();
    if(bad)
    {
      closeM(out, x, 1e-12, "user-estimate-kept");
      eq(e.resets, 1, "user-reset");
      e.resets = 0;
      P = Mat::Identity(n, n);
      count("user-broken-measurements");
    }
    else
    {
      Vec inno = s.K * (y - yb);
      closeM(out, xb + inno, 1e-5, "user-estimate", fdj ? "finite differences" : "given Jacobians");
      closeM(e.getInnovation(), inno, 1e-5, "user-innovation");
      closeM(e.getLastPrediction(), xb, 1e-12, "user-last-prediction");
      closeM(e.getLastPredictedMeasurement(), yb, 1e-12, "user-last-predicted-measurement");
      closeM(e.getFlexibilityCovariance(), s.P, 1e-5, "user-estimated-covariance");
      closeM(e.getSimulatedMeasurement(), md.measureDynamics(out, u1, 0), 1e-12, "user-simulated-measurement");
      eq(e.resets, 0, "user-reset");
      x = out;
      P = e.getFlexibilityCovariance();
      count("user-steps");
    }
    closeM(e.getFlexibilityVector(), out, 0, "user-estimate-stable");
    u0 = u1;
  }
  c.nontrivial = true;
}
