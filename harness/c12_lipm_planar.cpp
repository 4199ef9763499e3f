// C12: the planar DCM estimator against a textbook Kalman filter written for the LIPM with a bias fixed in the robot.
#include "kfref.hpp"
#include <memory>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
using namespace kfref;

namespace
{
typedef Eigen::Matrix2d M2;
M2 rot(double a)
{
  M2 m;
  m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  return m;
}
M2 sq(const V2 & v)
{
  M2 m = M2::Zero();
  m(0, 0) = v(0) * v(0);
  m(1, 1) = v(1) * v(1);
  return m;
}
struct Ref
{
  double dt, om, drift, dcmStd, zmpStd;
  V2 lim, zmp;
  Vec x; // dcm, bias (world)
  Mat P;
  M2 ori;
  bool pending;
  V2 y, u;
  M2 turn;
  void step()
  {
    if(pending)
    {
      Mat A = Mat::Identity(4, 4), B = Mat::Zero(4, 2), C(2, 4), Q = Mat::Zero(4, 4), R;
      A.topLeftCorner(2, 2) *= 1 + om * dt;
      A.bottomRightCorner(2, 2) = turn;
      B.topRows(2) = -om * dt * M2::Identity();
      C << M2::Identity(), M2::Identity();
      Q.topLeftCorner(2, 2) = sq(V2::Constant(om * dt * zmpStd));
      Q.bottomRightCorner(2, 2) = sq(V2::Constant(drift * dt));
      R = sq(V2::Constant(dcmStd));
      RefStep s;
      refGain(A, C, Q, R, P, s);
      Vec xb = A * x + B * u;
      x = xb + s.K * (y - C * xb);
      P = s.P;
      pending = false;
    }
    clamp();
  }
  void clamp()
  {
    V2 l = ori.transpose() * x.tail<2>(), cl = l;
    for(int i = 0; i < 2; ++i)
      if(lim(i) > 0) cl(i) = std::min(std::max(l(i), -lim(i)), lim(i));
    // the excess of the bias is explained by the DCM
    x.head<2>() += ori * (l - cl);
    x.tail<2>() = ori * cl;
  }
};
void compare(so::LipmDcmEstimator & e, const Ref & f, const char * when)
{
  double s = 1 + f.x.norm();
  closeM(e.getUnbiasedDCM(), f.x.head<2>(), 1e-6 * s, "dcm", when);
  closeM(e.getBias(), f.x.tail<2>(), 1e-6 * s, "bias", when);
  closeM(e.getLocalBias(), f.ori.transpose() * f.x.tail<2>(), 1e-6 * s, "local-bias", when);
  Mat P = e.getFilter().getStateCovariance();
  double ps = std::max(1e-300, f.P.cwiseAbs().maxCoeff());
  ok((P - f.P).cwiseAbs().maxCoeff() <= 1e-5 * ps, "covariance", std::string(when) + " " + mstr(P) + " expected " + mstr(f.P));
  closeM(P, P.transpose(), 1e-12, "covariance-symmetry");
}
} // namespace

SUITE(planar_kalman, 5000, 120000)
{
  Rng & r = c.r;
  Ref f;
  f.dt = r.lg(1e-3, 2e-2);
  f.om = r.d(1, 5);
  f.drift = r.lg(1e-4, 1e-1);
  f.dcmStd = r.lg(1e-3, 1e-1);
  f.zmpStd = r.lg(1e-3, 1e-1);
  f.lim.setZero();
  if(r.b(0.4)) f.lim = V2(r.b(0.7) ? r.lg(1e-3, 0.1) : 0, r.b(0.7) ? r.lg(1e-3, 0.1) : 0);
  f.zmp = r.vec(2, 0.5);
  V2 dcm = r.vec(2, 0.5), bias = r.vec(2, 0.1), du(r.lg(1e-3, 0.2), r.lg(1e-3, 0.2)), bu(r.lg(1e-3, 0.2), r.lg(1e-3, 0.2));
  std::unique_ptr<so::LipmDcmEstimator> e;
  if(r.b(0.1))
  {
    // documented default values
    f.dt = 0.005;
    f.om = std::sqrt(9.8);
    f.drift = 0.002;
    f.dcmStd = 0.01;
    f.zmpStd = 0.005;
    f.lim.setZero();
    f.zmp.setZero();
    dcm.setZero();
    bias.setZero();
    du.setConstant(0.01);
    bu.setConstant(0.01);
    e.reset(new so::LipmDcmEstimator);
  }
  else
    e.reset(new so::LipmDcmEstimator(f.dt, f.om, f.drift, f.dcmStd, f.zmpStd, f.lim, f.zmp, dcm, bias, du, bu));
  f.x.resize(4);
  f.x << dcm, bias;
  f.P = Mat::Zero(4, 4);
  f.P.topLeftCorner(2, 2) = sq(du);
  f.P.bottomRightCorner(2, 2) = sq(bu);
  f.ori.setIdentity();
  f.pending = false;
  compare(*e, f, "initial");
  c.note(f.dt);
  c.note(f.x);
  long steps = r.i(5, 60);
  double yaw = 0;
  V2 tdcm = dcm;
  for(long i = 0; i < steps; ++i)
  {
    int op = int(r.i(0, 19));
    c.note(uint64_t(op));
    if(op > 9) op = r.b(0.55) ? 20 : 21;
    c.say(" op" + str(op));
    count("op-" + str(op));
    switch(op)
    {
      case 0:
        e->setLipmNaturalFrequency(f.om = r.d(1, 5));
        eq(e->getLipmNaturalFrequency(), f.om, "frequency");
        break;
      case 1:
        e->setSamplingTime(f.dt = r.lg(1e-3, 2e-2));
        break;
      case 2:
        f.x.tail<2>() = V2(r.vec(2, 0.1));
        if(r.b())
          e->setBias(V2(f.x.tail<2>()));
        else
        {
          V2 un(r.lg(1e-3, 0.2), r.lg(1e-3, 0.2));
          e->setBias(V2(f.x.tail<2>()), un);
          f.P.topRightCorner(2, 2).setZero();
          f.P.bottomLeftCorner(2, 2).setZero();
          f.P.bottomRightCorner(2, 2) = sq(un);
        }
        break;
      case 3:
        e->setBiasDriftPerSecond(f.drift = r.b(0.1) ? 0 : r.lg(1e-4, 1e-1));
        break;
      case 4:
        f.lim = V2(r.b(0.6) ? r.lg(1e-3, 0.1) : 0, r.b(0.6) ? r.lg(1e-3, 0.1) : 0);
        e->setBiasLimit(f.lim);
        break;
      case 5:
        f.x.head<2>() = V2(r.vec(2, 0.5));
        if(r.b())
          e->setUnbiasedDCM(V2(f.x.head<2>()));
        else
        {
          V2 un(r.lg(1e-3, 0.2), r.lg(1e-3, 0.2));
          e->setUnbiasedDCM(V2(f.x.head<2>()), un);
          f.P.topRightCorner(2, 2).setZero();
          f.P.bottomLeftCorner(2, 2).setZero();
          f.P.topLeftCorner(2, 2) = sq(un);
        }
        break;
      case 6:
        e->setZmpMeasureErrorStd(f.zmpStd = r.b(0.1) ? 0 : r.lg(1e-3, 1e-1));
        break;
      case 7:
        e->setDcmMeasureErrorStd(f.dcmStd = r.lg(1e-3, 1e-1));
        break;
      case 8:
      {
        // restart from measurements
        V2 md = r.vec(2, 0.5), mz = r.vec(2, 0.5), ib = V2::Zero(), iu = V2::Constant(0.01);
        bool withBias = true;
        yaw = r.d(-M_PI, M_PI);
        M3 R3 = ref::rz(yaw) * ref::exp3(r.d(-1, 1) * V3(std::cos(yaw * 3), std::sin(yaw * 3), 0));
        int form = int(r.i(0, 2)), args = int(r.i(0, 2));
        if(args > 0) withBias = r.b();
        if(args > 1)
        {
          ib = r.vec(2, 0.1);
          iu = V2(r.lg(1e-3, 0.2), r.lg(1e-3, 0.2));
        }
        if(form == 0)
        {
          if(args == 0)
            e->resetWithMeasurements(md, mz, so::Matrix2(rot(yaw)));
          else if(args == 1)
            e->resetWithMeasurements(md, mz, so::Matrix2(rot(yaw)), withBias);
          else
            e->resetWithMeasurements(md, mz, so::Matrix2(rot(yaw)), withBias, ib, iu);
        }
        else if(form == 1)
        {
          if(args == 0)
            e->resetWithMeasurements(md, mz, yaw);
          else if(args == 1)
            e->resetWithMeasurements(md, mz, yaw, withBias);
          else
            e->resetWithMeasurements(md, mz, yaw, withBias, ib, iu);
        }
        else
        {
          if(args == 0)
            e->resetWithMeasurements(md, mz, so::Matrix3(R3));
          else if(args == 1)
            e->resetWithMeasurements(md, mz, so::Matrix3(R3), withBias);
          else
            e->resetWithMeasurements(md, mz, so::Matrix3(R3), withBias, ib, iu);
        }
        f.ori = rot(yaw);
        f.zmp = mz;
        f.pending = false;
        f.x << (withBias ? V2(md - ib) : md), ib;
        M2 R = sq(V2::Constant(f.dcmStd)), B = sq(iu);
        f.P.setZero();
        f.P.topLeftCorner(2, 2) = withBias ? M2(R + B) : R;
        f.P.bottomRightCorner(2, 2) = B;
        if(withBias)
        {
          f.P.topRightCorner(2, 2) = -B;
          f.P.bottomLeftCorner(2, 2) = -B;
        }
        break;
      }
      case 9: // update without new inputs
        if(r.b(0.3))
        {
          // the user forgets the state of the filter: the next inputs start it again, as measurements with a bias
          if(r.b())
            e->getFilter().reset();
          else
            e->getFilter().clearStates();
          V2 md = r.vec(2, 0.5), mz = r.vec(2, 0.5), iu = V2::Constant(0.01);
          yaw = r.d(-M_PI, M_PI);
          if(r.b())
            e->setInputs(md, mz, yaw);
          else
            e->setInputs(md, mz, so::Matrix2(rot(yaw)));
          f.ori = rot(yaw);
          f.zmp = mz;
          f.pending = false;
          f.x << md, V2::Zero();
          M2 R = sq(V2::Constant(f.dcmStd)), B = sq(iu);
          f.P << R + B, -B, -B, B;
          count("forgotten-states");
          break;
        }
        e->update();
        f.step();
        break;
      default:
      {
        if(f.x.norm() > 1e3) return;
        if(f.pending)
        {
          f.step(); // giving new inputs uses the previous ones
          count("inputs-twice");
        }
        yaw += r.b(0.2) ? r.d(-M_PI, M_PI) : r.d(-0.05, 0.05);
        V2 z = r.vec(2, 0.5);
        V2 y = f.x.head<2>() + V2(r.vec(2, 0.05));
        M2 R = rot(yaw);
        int form = int(r.i(0, 3));
        if(form == 0)
          e->setInputs(y, z, so::Matrix2(R));
        else if(form == 1)
          e->setInputs(y, z, yaw);
        else if(form == 2)
          e->setInputs(y, z, so::Matrix3(ref::rz(yaw) * ref::exp3(r.d(-1, 1) * V3(std::cos(yaw * 3), std::sin(yaw * 3), 0))));
        else
        {
          yaw = 0;
          R.setIdentity();
          e->setInputs(y, z);
        }
        f.turn = R * f.ori.transpose();
        f.ori = R;
        f.u = f.zmp;
        f.zmp = z;
        f.y = y;
        f.pending = true;
        if(op == 20)
        {
          e->update();
          f.step();
          c.nontrivial = true;
          compare(*e, f, "update");
          V2 l = e->getLocalBias();
          for(int a = 0; a < 2; ++a)
            if(f.lim(a) > 0) ok(std::fabs(l(a)) <= f.lim(a) * (1 + 1e-9), "bias-limit", mstr(l.transpose()));
        }
      }
    }
    if(!f.pending) compare(*e, f, "operation");
  }
}

SUITE_RF(planar_convergence, 80, 2000, 6)
{
  // exact data of a stabilised pendulum in a turning robot with a constant local bias
  Rng & r = c.r;
  double dt = 0.005, om = r.d(2, 4);
  V2 lb = r.vec(2, 0.05);
  so::LipmDcmEstimator e(dt, om, 1e-4, 1e-3, 1e-3, V2::Zero(), V2::Zero(), V2::Zero(), V2::Zero(), V2::Constant(0.1),
                         V2::Constant(0.1));
  double yaw = r.d(-3, 3), rate = r.d(-1, 1);
  V2 d = r.vec(2, 0.1), amp = r.vec(2, 0.1);
  c.note(lb);
  c.nontrivial = true;
  V2 z = d;
  e.resetWithMeasurements(d + rot(yaw) * lb, z, yaw, true, V2::Zero(), V2::Constant(0.1));
  for(int i = 1; i <= 3000; ++i)
  {
    V2 target = amp * std::sin(0.8 * i * dt);
    // stabilising ZMP held over the step, exact discretisation used by the model
    V2 dn = d + om * dt * (d - z);
    d = dn;
    z = d + 2 * (d - target) + V2(r.vec(2, 0.02));
    yaw += rate * dt;
    e.setInputs(d + rot(yaw) * lb, z, yaw);
    e.update();
  }
  closeM(e.getLocalBias(), lb, 2e-3, "bias-converges");
  closeM(e.getUnbiasedDCM(), d, 2e-3, "dcm-converges");
}
