// C11: the tilt estimator against its complementary filter equations, and its convergence on consistent data.
#include "kinref.hpp"
#include <memory>
#include <state-observation/observer/tilt-estimator.hpp>
using namespace kinref;

namespace
{
struct Conf
{
  double al, be, ga, dt;
  V3 p, v, w, vc;
  M3 R;
};
Vec refStep(const Conf & f, const Vec & x, const V3 & ya, const V3 & yg)
{
  V3 x1h = x.segment<3>(0), x2p = x.segment<3>(3), x2 = x.segment<3>(6);
  // velocity of the sensor in its own frame
  V3 wc = f.R * yg - f.w; // angular velocity of the control frame, in the control frame
  V3 x1 = f.R.transpose() * (f.vc + f.v + wc.cross(f.p));
  V3 e = x1 - x1h;
  V3 d1 = -yg.cross(x1h) - ref::g * x2p + ya + f.al * e;
  V3 d2 = -yg.cross(x2p) - f.be * e;
  V3 corr = x2.cross(x2p);
  V3 d3 = -(yg - f.ga * corr).cross(x2);
  Vec o(9);
  V3 t = x2 + f.dt * d3;
  o << x1h + f.dt * d1, x2p + f.dt * d2, t / t.norm();
  return o;
}
} // namespace

SUITE(filter_equations, 6000, 150000)
{
  Rng & r = c.r;
  Conf f;
  f.al = r.lg(0.1, 200);
  f.be = r.lg(0.1, 100);
  f.ga = r.lg(0.1, 100);
  f.dt = 0.005;
  f.p.setZero();
  f.v.setZero();
  f.w.setZero();
  f.vc.setZero();
  f.R.setIdentity();
  so::TiltEstimator est(f.al, f.be, f.ga);
  eq(est.getSamplingTime(), f.dt, "default-sampling-time");
  eq(est.getStateSize(), Eigen::Index(9), "state-size");
  eq(est.getMeasureSize(), Eigen::Index(6), "measure-size");
  Vec x(9);
  x << r.v3(1), r.v3(1), r.unit();
  long t = r.i(-3, 1000);
  est.setState(x, t);
  c.note(x);
  c.nontrivial = true;
  long n = r.i(1, 20);
  while(n > 0)
  {
    for(int j = int(r.i(0, 4)); j > 0; --j)
    {
      switch(r.i(0, 8))
      {
        case 0:
          est.setAlpha(f.al = r.lg(0.1, 200));
          break;
        case 1:
          est.setBeta(f.be = r.lg(0.1, 100));
          break;
        case 2:
          est.setGamma(f.ga = r.lg(0.1, 100));
          break;
        case 3:
          est.setSamplingTime(f.dt = r.lg(1e-4, 2e-2));
          break;
        case 4:
          est.setSensorPositionInC(f.p = r.v3(1));
          break;
        case 5:
          est.setSensorOrientationInC(f.R = ref::exp3(r.rotvec()));
          break;
        case 6:
          est.setSensorLinearVelocityInC(f.v = r.v3(2));
          break;
        case 7:
          est.setSensorAngularVelocityInC(f.w = r.v3(2));
          break;
        case 8:
          est.setControlOriginVelocityInW(f.vc = r.v3(2));
          break;
      }
    }
    eq(est.getAlpha() == f.al && est.getBeta() == f.be && est.getGamma() == f.ga && est.getSamplingTime() == f.dt
           && est.getSensorPositionInC() == f.p && est.getSensorOrientationInC() == f.R
           && est.getSensorLinearVelocityInC() == f.v && est.getSensorAngularVelocityInC() == f.w
           && est.getControlOriginVelocityInW() == f.vc,
       true, "parameters");
    // one or several steps in one go
    long batch = r.b(0.3) ? r.i(2, 5) : 1;
    c.note(uint64_t(batch));
    count("batch-" + str(batch));
    for(long j = 1; j <= batch; ++j)
    {
      V3 ya = r.v3(20), yg = r.v3(3);
      if(r.b())
        est.setMeasurement(ya, yg, t + j);
      else
      {
        so::Vector6 y;
        y << ya, yg;
        static_cast<so::ZeroDelayObserver &>(est).setMeasurement(y, t + j);
      }
      x = refStep(f, x, ya, yg);
    }
    t += batch;
    Vec got = est.getEstimatedState(t);
    closeM(got, x, 1e-10, "one-step");
    close(got.tail<3>().norm(), 1, 1e-12, "unit-tilt");
    eq(long(est.getCurrentTime()), t, "time");
    closeM(est.getCurrentEstimatedState(), x, 1e-10, "current-state");
    closeM(est.getEstimatedState(t), got, 0, "asked-again");
    x = got;
    n -= batch;
    if(r.b(0.05))
    {
      x << r.v3(1), r.v3(1), r.unit();
      t += r.i(0, 3);
      est.setState(x, t);
    }
  }
}

SUITE_RF(convergence, 60, 1500, 8)
{
  // a body in a smooth motion, with a sensor moving with respect to a control frame moving on the body
  Rng & r = c.r;
  Motion ctl(r), sen(r); // control frame in the world, sensor in the control frame
  double slow = r.d(0.1, 1);
  for(Motion * m : {&ctl, &sen})
  {
    m->w *= slow;
    m->w2 *= slow;
    m->ax2 *= slow * 0.5;
    m->p2 *= 0.01;
  }
  bool still = r.b(0.2);
  double dt = r.lg(5e-4, 2e-3), T = 8;
  double al = r.d(15, 40), be = r.d(3, 10), ga = r.d(5, 20);
  so::TiltEstimator est(al, be, ga);
  est.setSamplingTime(dt);
  auto kin = [&](double t, Kin & s, Kin & cs) {
    if(still) t = 0.3;
    Kin cc = ctl.kin(t);
    s = sen.kin(t);
    if(still)
      for(Kin * q : {&cc, &s})
      {
        q->v.setZero();
        q->w.setZero();
        q->a.setZero();
        q->al.setZero();
      }
    cs = (Jet(cc) * Jet(s)).kin(); // sensor in the world
    return cc;
  };
  Kin s, w;
  kin(0, s, w);
  V3 tilt = w.R.transpose() * V3::UnitZ();
  // any initial tilt, not opposite to the true one
  V3 ax = tilt.unitOrthogonal();
  ax = ref::exp3(r.d(-M_PI, M_PI) * tilt) * ax;
  double err0 = r.d(0, 2.8);
  V3 t0 = ref::exp3(err0 * ax) * tilt;
  Vec x(9);
  x << w.R.transpose() * w.v + r.v3(0.5), t0, t0;
  est.setState(x, 0);
  c.note(err0);
  c.note(dt);
  c.nontrivial = err0 > 0.1;
  long n = long(T / dt);
  double late = 0;
  for(long i = 0; i < n; ++i)
  {
    Kin cc = kin(double(i) * dt, s, w);
    est.setSensorPositionInC(s.p);
    est.setSensorOrientationInC(s.R);
    est.setSensorLinearVelocityInC(s.v);
    est.setSensorAngularVelocityInC(s.w);
    est.setControlOriginVelocityInW(cc.R.transpose() * cc.v);
    est.setMeasurement(w.R.transpose() * (w.a + ref::gravity()), w.R.transpose() * w.w, i + 1);
    Vec e = est.getEstimatedState(i + 1);
    if(i > n * 3 / 4)
    {
      kin(double(i + 1) * dt, s, w);
      V3 tr = w.R.transpose() * V3::UnitZ(), g = e.tail<3>();
      late = std::max(late, std::atan2(tr.cross(g).norm(), tr.dot(g)));
    }
  }
  ok(late < 0.01 + 20 * dt, "tilt-converges", "error " + str(late) + " initial " + str(err0) + " dt " + str(dt));
  count("converged");
}
