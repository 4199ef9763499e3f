// C13: the one-dimensional DCM estimator against a textbook Kalman filter.
#include "kfref.hpp"
#include <memory>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
using namespace kfref;

namespace
{
struct Ref
{
  double dt, om, drift, dcmStd, zmpStd, zmp;
  Vec x;
  Mat P;
  std::vector<std::pair<double, double>> pending; // measurement, input
  void step()
  {
    for(auto & q : pending)
    {
      Mat A = Mat::Identity(2, 2), C = Mat::Ones(1, 2), Q = Mat::Zero(2, 2), R(1, 1);
      A(0, 0) = 1 + om * dt;
      Q(0, 0) = std::pow(om * dt * zmpStd, 2);
      Q(1, 1) = std::pow(drift * dt, 2);
      R(0, 0) = dcmStd * dcmStd;
      RefStep s;
      refGain(A, C, Q, R, P, s);
      Vec xb = A * x;
      xb(0) -= om * dt * q.second;
      x = xb + s.K * (q.first - xb(0) - xb(1));
      P = s.P;
    }
    pending.clear();
  }
};
void compare(so::UnidimLipmDcmEstimator & e, const Ref & f, const char * when)
{
  double s = 1 + f.x.norm();
  close(e.getUnbiasedDCM(), f.x(0), 1e-6 * s, "dcm", when);
  close(e.getBias(), f.x(1), 1e-6 * s, "bias", when);
  Mat P = e.getFilter().getStateCovariance();
  ok((P - f.P).cwiseAbs().maxCoeff() <= 1e-5 * f.P.cwiseAbs().maxCoeff(), "covariance",
     std::string(when) + " " + mstr(P) + " expected " + mstr(f.P));
}
} // namespace

SUITE(unidim_kalman, 6000, 150000)
{
  Rng & r = c.r;
  Ref f;
  f.dt = r.lg(1e-3, 2e-2);
  f.om = r.d(1, 5);
  f.drift = r.lg(1e-4, 1e-1);
  f.dcmStd = r.lg(1e-3, 1e-1);
  f.zmpStd = r.lg(1e-3, 1e-1);
  f.zmp = r.d(-0.5, 0.5);
  double dcm = r.d(-0.5, 0.5), bias = r.d(-0.1, 0.1), du = r.lg(1e-3, 0.2), bu = r.lg(1e-3, 0.2);
  std::unique_ptr<so::UnidimLipmDcmEstimator> e;
  if(r.b(0.1))
  {
    f.dt = 0.005;
    f.om = std::sqrt(9.8);
    f.drift = 0.002;
    f.dcmStd = 0.01;
    f.zmpStd = 0.005;
    f.zmp = dcm = bias = 0;
    du = bu = 0.01;
    e.reset(new so::UnidimLipmDcmEstimator);
  }
  else
    e.reset(new so::UnidimLipmDcmEstimator(f.dt, f.om, f.drift, dcm, f.zmp, bias, f.dcmStd, f.zmpStd, du, bu));
  f.x.resize(2);
  f.x << dcm, bias;
  f.P = Mat::Zero(2, 2);
  f.P(0, 0) = du * du;
  f.P(1, 1) = bu * bu;
  compare(*e, f, "initial");
  c.note(f.dt);
  c.note(f.x);
  long steps = r.i(5, 60);
  for(long i = 0; i < steps; ++i)
  {
    int op = int(r.i(0, 16));
    c.note(uint64_t(op));
    if(op > 7) op = 20;
    c.say(" op" + str(op));
    count("op-" + str(op));
    switch(op)
    {
      case 0:
        e->setLipmNaturalFrequency(f.om = r.d(1, 5));
        break;
      case 1:
        e->setSamplingTime(f.dt = r.lg(1e-3, 2e-2));
        break;
      case 2:
        f.x(1) = r.d(-0.1, 0.1);
        if(r.b())
          e->setBias(f.x(1));
        else
        {
          double u = r.lg(1e-3, 0.2);
          e->setBias(f.x(1), u);
          f.P(0, 1) = f.P(1, 0) = 0;
          f.P(1, 1) = u * u;
        }
        break;
      case 3:
        e->setBiasDriftPerSecond(f.drift = r.b(0.1) ? 0 : r.lg(1e-4, 1e-1));
        break;
      case 4:
        f.x(0) = r.d(-0.5, 0.5);
        if(r.b())
          e->setUnbiasedDCM(f.x(0));
        else
        {
          double u = r.lg(1e-3, 0.2);
          e->setUnbiasedDCM(f.x(0), u);
          f.P(0, 1) = f.P(1, 0) = 0;
          f.P(0, 0) = u * u;
        }
        break;
      case 5:
        e->setZmpMeasureErrorStd(f.zmpStd = r.b(0.1) ? 0 : r.lg(1e-3, 1e-1));
        break;
      case 6:
        e->setDcmMeasureErrorStd(f.dcmStd = r.lg(1e-3, 1e-1));
        break;
      case 7:
      {
        double md = r.d(-0.5, 0.5), mz = r.d(-0.5, 0.5), ib = 0, iu = 0.01;
        bool wb = true;
        double dr = 0.002, ds = 0.01, zs = 0.005;
        int args = int(r.i(0, 2));
        if(args > 0) wb = r.b();
        if(args > 1)
        {
          dr = r.lg(1e-4, 1e-1);
          ds = r.lg(1e-3, 1e-1);
          zs = r.lg(1e-3, 1e-1);
          ib = r.d(-0.1, 0.1);
          iu = r.lg(1e-3, 0.2);
          e->resetWithInputs(md, mz, wb, dr, ds, zs, ib, iu);
        }
        else if(args == 1)
          e->resetWithInputs(md, mz, wb);
        else
          e->resetWithInputs(md, mz);
        f.drift = dr;
        f.dcmStd = ds;
        f.zmpStd = zs;
        f.zmp = mz;
        f.pending.clear();
        f.x << (wb ? md - ib : md), ib;
        f.P << ds * ds + (wb ? iu * iu : 0), wb ? -iu * iu : 0, wb ? -iu * iu : 0, iu * iu;
        break;
      }
      default:
      {
        if(f.x.norm() > 50) return;
        int n = r.b(0.2) ? int(r.i(2, 4)) : 1;
        for(int j = 0; j < n; ++j)
        {
          double y = f.x(0) + r.d(-0.05, 0.05), z = r.d(-0.5, 0.5);
          e->setInputs(y, z);
          f.pending.push_back(std::make_pair(y, f.zmp));
          f.zmp = z;
        }
        if(r.b(0.2)) break; // left for later
        so::Vector2 got = e->update();
        f.step();
        closeM(got, f.x, 1e-6, "update-return");
        c.nontrivial = true;
        count(n > 1 ? "batch" : "single");
      }
    }
    if(f.pending.empty()) compare(*e, f, "operation");
  }
}

SUITE_RF(unidim_convergence, 100, 2000, 6)
{
  Rng & r = c.r;
  double dt = 0.005, om = r.d(2, 4), b = r.d(-0.05, 0.05), d = r.d(-0.1, 0.1), amp = r.d(-0.1, 0.1), z = d;
  so::UnidimLipmDcmEstimator e(dt, om, 1e-4, d + b, z, 0, 1e-3, 1e-3, 0.1, 0.1);
  if(r.b()) e.resetWithInputs(d + b, z, true, 1e-4, 1e-3, 1e-3, 0, 0.1);
  c.note(b);
  c.nontrivial = true;
  for(int i = 1; i <= 3000; ++i)
  {
    d += om * dt * (d - z);
    z = d + 2 * (d - amp * std::sin(0.8 * i * dt)) + r.d(-0.02, 0.02);
    e.setInputs(d + b, z);
    e.update();
  }
  close(e.getBias(), b, 2e-3, "bias-converges");
  close(e.getUnbiasedDCM(), d, 2e-3, "dcm-converges");
}
