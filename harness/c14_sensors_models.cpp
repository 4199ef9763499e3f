// C14: simulated inertial sensors and motion models against rigid-body physics.
#include "kinref.hpp"
#include <memory>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/noise/noise-base.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/sensors-simulation/algorithm/linear-acceleration.hpp>
#include <state-observation/sensors-simulation/algorithm/magnetic-field.hpp>
#include <state-observation/sensors-simulation/algorithm/rotation-velocity.hpp>
using namespace kinref;

namespace
{
/// a noise that adds a known vector and records what it was given
struct KnownNoise : public so::NoiseBase
{
  long calls;
  Vec last;
  KnownNoise() : calls(0) {}
  static Vec offset(Eigen::Index n)
  {
    Vec v(n);
    for(Eigen::Index i = 0; i < n; ++i) v(i) = 100 + double(i);
    return v;
  }
  virtual so::Vector getNoisy(const so::Vector & v)
  {
    ++calls;
    last = v;
    return v + offset(v.size());
  }
};
const V3 field(0, 28, -33.7);
V3 specificForce(const M3 & R, const V3 & a)
{
  return R.transpose() * (a + ref::gravity());
}
template<typename S>
void sensorCase(Ctx & c, S & s, bool magneto)
{
  Rng & r = c.r;
  KnownNoise noise;
  bool matrix = false;
  long extra = 0;
  so::Index base = magneto ? 9 : 6;
  for(int n = int(r.i(2, 12)); n > 0; --n)
  {
    if(r.b(0.3)) s.setMatrixMode(matrix = r.b());
    if(r.b(0.3))
    {
      extra = r.i(0, 4);
      eq(s.concatenateWithInput(extra), base + extra, "concatenate-size");
    }
    bool noisy = r.b(0.4);
    if(noisy)
    {
      s.setNoise(&noise);
      eq(s.getNoise(), (so::NoiseBase *)&noise, "get-noise");
    }
    else
    {
      s.resetNoise();
      eq(s.getNoise(), (so::NoiseBase *)0, "get-noise");
    }
    Kin x = randKin(r);
    Vec ex = r.vec(extra, 10), st;
    so::Quaternion q(x.R);
    if(r.b()) q.coeffs() *= -1;
    if(matrix)
    {
      st.resize(15 + extra);
      for(int i = 0; i < 3; ++i) st.segment<3>(3 * i) = x.R.col(i);
      st.segment<3>(9) = x.a;
      st.segment<3>(12) = x.w;
    }
    else
    {
      st.resize(10 + extra);
      st.head<4>() << q.x(), q.y(), q.z(), q.w();
      st.segment<3>(4) = x.a;
      st.segment<3>(7) = x.w;
    }
    st.tail(extra) = ex;
    eq(s.getStateSize(), so::Index(st.size()), "state-size");
    eq(s.getMeasurementSize(), base + extra, "measurement-size");
    ok(s.checkStateVector(st) && !s.checkStateVector(Vec::Zero(st.size() + 1)), "check-state");
    closeM(s.stateVectorZero(), Vec::Zero(st.size()), 0, "state-zero");
    long t = r.i(-5, 1000);
    s.setState(st, t);
    eq(long(s.getTime()), t, "sensor-time");
    Vec e(base + extra);
    e.head<3>() = specificForce(x.R, x.a);
    e.segment<3>(3) = x.R.transpose() * x.w;
    if(magneto) e.segment<3>(6) = x.R.transpose() * field;
    e.tail(extra) = ex;
    count(std::string(matrix ? "matrix" : "quaternion") + (extra ? "-extra" : "") + (noisy ? "-noisy" : ""));
    c.note(st);
    c.nontrivial = true;
    noise.calls = 0;
    for(int k = int(r.i(1, 4)); k > 0; --k)
    {
      bool ask = r.b(0.6);
      Vec y = ask ? Vec(s.getMeasurements()) : Vec(s.getMeasurements(false));
      bool nz = ask && noisy;
      Vec ee = nz ? Vec(e + KnownNoise::offset(e.size())) : e;
      closeM(y, ee, 1e-11, nz ? "noisy-measurement" : "measurement",
             str(matrix) + " extra " + str(extra) + " noisy " + str(noisy));
    }
    ok(noise.calls <= 1, "one-draw-per-state", str(noise.calls));
  }
}
/// the state vectors of the models: position, orientation vector, velocities, accelerations
Vec pack(const Kin & x, const V3 & ori)
{
  Vec v(18);
  v << x.p, ori, x.v, x.w, x.a, x.al;
  return v;
}
Kin moved(const Kin & x, double dt)
{
  Kin e = x;
  e.p = x.p + dt * x.v + dt * dt / 2 * x.a;
  e.v = x.v + dt * x.a;
  e.R = ref::exp3(dt * x.w + dt * dt / 2 * x.al) * x.R;
  e.w = x.w + dt * x.al;
  return e;
}
void sameState(const Vec & y, const Kin & e, const char * key)
{
  eq(y.size(), Eigen::Index(18), key);
  closeM(y.segment<3>(0), e.p, 1e-11, key, "position");
  rotClose(ref::exp3(V3(y.segment<3>(3))), e.R, 1e-9, key, "orientation");
  ok(y.segment<3>(3).norm() <= M_PI + 1e-9, key, "orientation vector range");
  closeM(y.segment<3>(6), e.v, 1e-11, key, "velocity");
  closeM(y.segment<3>(9), e.w, 1e-11, key, "angular velocity");
  closeM(y.segment<3>(12), e.a, 1e-11, key, "acceleration");
  closeM(y.segment<3>(15), e.al, 1e-11, key, "angular acceleration");
}
/// any attitude, or one very close to the previous one (including the same with another representation)
struct Attitudes
{
  V3 last;
  bool any;
  std::vector<V3> used;
  Attitudes() : any(false) {}
  V3 next(Rng & r)
  {
    last = draw(r);
    used.push_back(last);
    return last;
  }
  V3 draw(Rng & r)
  {
    // the reference attitude, one already used, the opposite of one already used
    if(r.b(0.15)) return any = true, V3(V3::Zero());
    if(any && r.b(0.2)) return used[std::size_t(r.i(0, long(used.size()) - 1))];
    if(any && r.b(0.05)) return V3(-last);
    if(any && r.b(0.4))
    {
      double s = r.lg(1e-9, 1e-2);
      last = ref::log3(M3(ref::exp3(V3(r.v3(1) * s)) * ref::exp3(last)));
    }
    else
      last = r.rotvec();
    any = true;
    return last;
  }
};
template<typename M>
void sizes(M & m, long n, long p, long y, const char * key)
{
  eq(long(m.getStateSize()), n, key, "state");
  eq(long(m.getInputSize()), p, key, "input");
  eq(long(m.getMeasurementSize()), y, key, "measurement");
}
} // namespace

SUITE(algorithms, 20000, 300000)
{
  Rng & r = c.r;
  Kin x = randKin(r);
  c.note(x.a);
  c.nontrivial = true;
  so::algorithm::LinearAcceleration la;
  so::algorithm::RotationVelocity rv;
  so::algorithm::MagneticField mf;
  closeM(la.accelerationMeasure(x.a, x.R), specificForce(x.R, x.a), 1e-12, "accelerometer");
  closeM(rv.rotationVelocityMeasure(x.w, x.R), x.R.transpose() * x.w, 1e-12, "gyrometer");
  closeM(mf.magneticFieldMeasure(x.R), x.R.transpose() * field, 1e-12, "magnetometer");
}

SUITE(sensors, 6000, 150000)
{
  if(c.r.b())
  {
    so::AccelerometerGyrometer s;
    sensorCase(c, s, false);
  }
  else
  {
    so::AccelerometerGyrometerMagnetometer s;
    sensorCase(c, s, true);
  }
}

SUITE(free_models, 6000, 150000)
{
  // the three models of a free inertial unit, used alternately for several states, steps and noises
  Rng & r = c.r;
  so::IMUDynamicalSystem imu;
  so::IMUMagnetometerDynamicalSystem mgn;
  so::IMUMltpctiveDynamicalSystem mul;
  sizes(imu, 18, 6, 6, "imu-sizes");
  sizes(mgn, 18, 0, 9, "magneto-sizes");
  sizes(mul, 19, 6, 6, "multiplicative-sizes");
  KnownNoise pn, mn;
  double dt = 1; // documented default
  Attitudes att;
  for(int n = int(r.i(1, 8)); n > 0; --n)
  {
    if(r.b(0.7))
    {
      dt = r.lg(1e-4, 1);
      imu.setSamplingPeriod(dt);
      mgn.setSamplingPeriod(dt);
      mul.setSamplingPeriod(dt);
    }
    bool np = r.b(0.2), nm = r.b(0.2);
    if(np)
    {
      imu.setProcessNoise(&pn);
      mgn.setProcessNoise(&pn);
      mul.setProcessNoise(&pn);
    }
    else
    {
      imu.resetProcessNoise();
      mgn.resetProcessNoise();
      mul.resetProcessNoise();
    }
    if(nm)
    {
      imu.setMeasurementNoise(&mn);
      mgn.setMeasurementNoise(&mn);
      mul.setMeasurementNoise(&mn);
    }
    else
    {
      imu.resetMeasurementNoise();
      mgn.resetMeasurementNoise();
      mul.resetMeasurementNoise();
    }
    eq(imu.getProcessNoise() == (np ? &pn : 0) && mgn.getProcessNoise() == (np ? &pn : 0)
           && mul.getProcessNoise() == (np ? &pn : 0) && imu.getMeasurementNoise() == (nm ? &mn : 0)
           && mgn.getMeasurementNoise() == (nm ? &mn : 0) && mul.getMeasurementNoise() == (nm ? &mn : 0),
       true, "noise-getters");
    Kin x = randKin(r);
    V3 ori = att.next(r);
    x.R = ref::exp3(ori);
    so::Quaternion q(x.R);
    Vec s = pack(x, ori), s2(19), u = r.vec(6, 5);
    s2 << x.p, q.x(), q.y(), q.z(), q.w(), x.v, x.w, x.a, x.al;
    c.note(s);
    c.note(dt);
    c.nontrivial = true;
    long t = r.i(0, 1000);
    bool measureFirst = r.b();
    for(int part = 0; part < 2; ++part)
    {
      if((part == 0) == measureFirst)
      {
        Vec y(9);
        y << specificForce(x.R, x.a), x.R.transpose() * x.w, x.R.transpose() * field;
        Vec y6 = y.head(6);
        if(nm)
        {
          y += KnownNoise::offset(9);
          y6 += KnownNoise::offset(6);
        }
        closeM(imu.measureDynamics(s, u, t), y6, 1e-9, "imu-measure");
        closeM(mgn.measureDynamics(s, Vec(), t), y, 1e-9, "magneto-measure");
        closeM(mul.measureDynamics(s2, u, t), y6, 1e-9, "multiplicative-measure");
      }
      else
      {
        Kin e = moved(x, dt);
        Vec a = imu.stateDynamics(s, u, t), b = mgn.stateDynamics(s, Vec(), t), d = mul.stateDynamics(s2, u, t);
        if(np)
        {
          a -= KnownNoise::offset(18);
          b -= KnownNoise::offset(18);
          d -= KnownNoise::offset(19);
        }
        e.a = u.head<3>();
        e.al = u.tail<3>();
        sameState(a, e, "imu-dynamics");
        eq(d.size(), Eigen::Index(19), "multiplicative-dynamics");
        closeM(d.segment<3>(0), e.p, 1e-11, "multiplicative-position");
        rotClose(ref::qmat(d(6), d(3), d(4), d(5)), e.R, 1e-9, "multiplicative-orientation");
        close(d.segment<4>(3).norm(), 1, 1e-6, "multiplicative-quaternion");
        closeM(d.tail(12), (Vec(12) << e.v, e.w, e.a, e.al).finished(), 1e-11, "multiplicative-derivatives");
        e.a.setZero();
        e.al.setZero();
        sameState(b, e, "magneto-dynamics");
      }
    }
  }
}

SUITE(multiplicative_manifold, 8000, 200000)
{
  Rng & r = c.r;
  so::IMUMltpctiveDynamicalSystem mul;
  double dt = r.lg(1e-3, 0.3);
  mul.setSamplingPeriod(dt);
  auto state = [&](const Kin & x) {
    so::Quaternion q(x.R);
    Vec s(19);
    s << x.p, q.x(), q.y(), q.z(), q.w(), x.v, x.w, x.a, x.al;
    return s;
  };
  Kin x = randKin(r), y = randKin(r);
  x.w *= 0.3;
  Vec sx = state(x), sy = state(y), d, s2;
  if(r.b()) sy.segment<4>(3) *= -1;
  c.note(sx);
  c.nontrivial = true;
  // sum and difference are inverse of each other, in the world frame
  mul.stateDifference(sy, sx, d);
  eq(d.size(), Eigen::Index(18), "difference-size");
  rotClose(ref::exp3(V3(d.segment<3>(3))) * x.R, y.R, 2e-7, "difference-orientation");
  closeM(d.segment<3>(0), y.p - x.p, 1e-12, "difference-position");
  closeM(d.tail(12), sy.tail(12) - sx.tail(12), 1e-12, "difference-derivatives");
  mul.stateSum(sx, d, s2);
  eq(s2.size(), Eigen::Index(19), "sum-size");
  rotClose(ref::qmat(s2(6), s2(3), s2(4), s2(5)), y.R, 2e-7, "sum-orientation");
  closeM(s2.head(3), sy.head(3), 1e-11, "sum-position");
  closeM(s2.tail(12), sy.tail(12), 1e-11, "sum-derivatives");
  Vec t = r.vec(18, 0.8), s3, d3;
  mul.stateSum(sx, t, s3);
  mul.stateDifference(s3, sx, d3);
  closeM(d3, t, 1e-7, "difference-of-sum");
  // the analytic jacobians are the derivatives of the dynamics and measurements on the manifold
  Vec u = r.vec(6, 2);
  Mat A = mul.getAMatrix(sx), C = mul.getCMatrix(sx), An(18, 18), Cn(6, 18);
  double h = 1e-5;
  for(int i = 0; i < 18; ++i)
  {
    Vec e = Vec::Zero(18), sp, sm, dd;
    e(i) = h;
    mul.stateSum(sx, e, sp);
    mul.stateSum(sx, -e, sm);
    mul.stateDifference(mul.stateDynamics(sp, u, 0), mul.stateDynamics(sm, u, 0), dd);
    An.col(i) = dd / (2 * h);
    Cn.col(i) = (mul.measureDynamics(sp, u, 0) - mul.measureDynamics(sm, u, 0)) / (2 * h);
  }
  // the accelerations of the next state are the inputs: their rows are not part of the dynamics
  closeM(A.topRows(12), An.topRows(12), 1e-6 * mag(x), "A-jacobian");
  closeM(C, Cn, 1e-6 * mag(x), "C-jacobian");
}

SUITE(contact_models, 6000, 150000)
{
  Rng & r = c.r;
  double dt = r.lg(1e-4, 0.1);
  so::flexibilityEstimation::IMUFixedContactDynamicalSystem fix(dt);
  so::flexibilityEstimation::StableIMUFixedContactDynamicalSystem stb(dt);
  KnownNoise pn, mn;
  std::vector<V3> cp;
  Attitudes fa, ka;
  for(int n = int(r.i(1, 8)); n > 0; --n)
  {
    if(r.b(0.3))
    {
      dt = r.lg(1e-4, 0.1);
      fix.setSamplingPeriod(dt);
      stb.setSamplingPeriod(dt);
    }
    if(r.b(0.4))
    {
      unsigned k = unsigned(r.i(0, 4));
      cp.resize(k, V3::Zero());
      fix.setContactsNumber(k);
      stb.setContactsNumber(k);
    }
    for(unsigned i = 0; i < cp.size(); ++i)
      if(r.b(0.5))
      {
        cp[i] = r.v3(1);
        fix.setContactPosition(i, cp[i]);
        stb.setContactPosition(i, cp[i]);
      }
    long ny = 6 + 3 * long(cp.size());
    sizes(fix, 18, 15, ny, "fixed-contact-sizes");
    sizes(stb, 18, 15, ny, "stable-sizes");
    bool np = r.b(0.2), nm = r.b(0.2);
    if(np)
    {
      fix.setProcessNoise(&pn);
      stb.setProcessNoise(&pn);
    }
    else
    {
      fix.resetProcessNoise();
      stb.resetProcessNoise();
    }
    if(nm)
    {
      fix.setMeasurementNoise(&mn);
      stb.setMeasurementNoise(&mn);
    }
    else
    {
      fix.resetMeasurementNoise();
      stb.resetMeasurementNoise();
    }
    eq(fix.getProcessNoise() == (np ? &pn : 0) && stb.getProcessNoise() == (np ? &pn : 0)
           && fix.getMeasurementNoise() == (nm ? &mn : 0) && stb.getMeasurementNoise() == (nm ? &mn : 0),
       true, "fixed-contact-noises");
    Kin f = randKin(r), k = randKin(r);
    V3 fo = fa.next(r), ko = ka.next(r);
    f.R = ref::exp3(fo);
    k.R = ref::exp3(ko);
    k.al.setZero();
    Vec s = pack(f, fo), u = pack(k, ko).head(15);
    c.note(s);
    c.note(uint64_t(cp.size()));
    c.nontrivial = true;
    count("contacts-" + str(cp.size()));
    Kin w = (Jet(f) * Jet(k)).kin(); // the sensor in the world
    Vec y(ny);
    y.head<3>() = specificForce(w.R, w.a);
    y.segment<3>(3) = w.R.transpose() * w.w;
    if(nm) y.head<6>() += KnownNoise::offset(6);
    for(size_t i = 0; i < cp.size(); ++i) y.segment<3>(6 + 3 * long(i)) = f.R * cp[i] + f.p - cp[i];
    double tol = 1e-11 * mag(f) * mag(k);
    long t = r.i(0, 100);
    closeM(fix.measureDynamics(s, u, t), y, tol, "fixed-contact-measure");
    closeM(stb.measureDynamics(s, u, t), y, tol, "stable-measure");
    Vec a = fix.stateDynamics(s, u, t), b = stb.stateDynamics(s, u, t);
    if(np)
    {
      a -= KnownNoise::offset(18);
      b -= KnownNoise::offset(18);
    }
    sameState(a, moved(f, dt), "fixed-contact-dynamics");
    // the stable one is a damped oscillator of pulsation 5 and damping ratio 0.1 on each axis
    Kin g = f;
    g.a = -25. * f.p - 2 * 0.1 * 5 * f.v;
    g.al = -25. * fo - 2 * 0.1 * 5 * f.w;
    sameState(b, moved(g, dt), "stable-dynamics");
  }
}

SUITE(elastic_pendulum, 8000, 150000)
{
  // planar point mass at (p,h) in a frame turning by theta around an elastic joint: Lagrange equation by differentiation
  Rng & r = c.r;
  so::BidimElasticInvPendulum m;
  sizes(m, 4, 1, 0, "pendulum-sizes");
  double ms = 1, h = 1, k = r.lg(0.1, 1e3), dt = 1;
  m.setElasticity(k);
  if(r.b(0.8)) m.setMass(ms = r.lg(0.1, 100));
  if(r.b(0.8)) m.setHeight(h = r.d(0.2, 2));
  if(r.b(0.8)) m.setSamplingPeriod(dt = r.lg(1e-4, 1e-1));
  KnownNoise n;
  bool noisy = r.b(0.2);
  if(noisy || r.b(0.2)) m.setProcessNoise(&n);
  if(!noisy) m.resetProcessNoise();
  eq(m.getProcessNoise() == (noisy ? &n : 0), true, "pendulum-noise");
  Vec x = r.vec(4, 1), u = r.vec(1, 3);
  c.note(x);
  c.nontrivial = true;
  double p = x(0), th = x(1), pd = x(2), thd = x(3), pdd = u(0);
  // torque balance about the joint: d/dt(m r x v) = -k theta - m g * horizontal lever
  auto angMom = [&](double p_, double pd_, double th_, double thd_) {
    V2 rr(std::cos(th_) * p_ - std::sin(th_) * h, std::sin(th_) * p_ + std::cos(th_) * h);
    V2 v = V2(-rr(1), rr(0)) * thd_ + V2(std::cos(th_), std::sin(th_)) * pd_;
    return ms * (rr(0) * v(1) - rr(1) * v(0));
  };
  auto residual = [&](double thdd) {
    double e = 1e-5;
    double l1 = angMom(p + e * pd + e * e / 2 * pdd, pd + e * pdd, th + e * thd + e * e / 2 * thdd, thd + e * thdd);
    double l0 = angMom(p - e * pd + e * e / 2 * pdd, pd - e * pdd, th - e * thd + e * e / 2 * thdd, thd - e * thdd);
    double lever = std::cos(th) * p - std::sin(th) * h;
    return (l1 - l0) / (2 * e) + k * th + ms * ref::g * lever;
  };
  Vec y = m.stateDynamics(x, u, 0);
  if(noisy) y -= KnownNoise::offset(4);
  close(y(0), p + dt * pd, 1e-11, "pendulum-position");
  close(y(1), th + dt * thd, 1e-11, "pendulum-angle");
  close(y(2), pd + dt * pdd, 1e-11, "pendulum-velocity");
  double thdd = (y(3) - thd) / dt;
  close(residual(thdd), 0, 1e-5 * (k + ms * 100), "pendulum-torque-balance", "acceleration " + str(thdd));
  eq(m.measureDynamics(x, u, 0).size(), Eigen::Index(0), "pendulum-measure");
}
