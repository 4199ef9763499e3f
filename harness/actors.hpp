// Library objects behind one interface: an operation chosen by a generator, which returns everything it could observe.
#pragma once
#include "elref.hpp"
#include "kfref.hpp"
#include <memory>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/observer/tilt-estimator.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
namespace actors
{
using namespace vmon;
namespace so = stateObservation;
namespace kine = stateObservation::kine;

struct Out
{
  std::vector<double> v;
  void add(double d)
  {
    v.push_back(d);
  }
  template<typename D>
  void add(const Eigen::MatrixBase<D> & m)
  {
    v.push_back(double(m.rows() * 1000 + m.cols()));
    for(Eigen::Index j = 0; j < m.cols(); ++j)
      for(Eigen::Index i = 0; i < m.rows(); ++i) v.push_back(double(m(i, j)));
  }
};
struct Actor
{
  virtual ~Actor() {}
  virtual void op(Rng & r, Out & o) = 0;
  virtual Actor * copy() const = 0; // 0 when not copyable
  virtual void assign(const Actor &) = 0;
  virtual const char * name() const = 0;
};
template<typename T>
struct Copyable : public Actor
{
  virtual Actor * copy() const
  {
    return new T(static_cast<const T &>(*this));
  }
  virtual void assign(const Actor & a)
  {
    static_cast<T &>(*this) = static_cast<const T &>(a);
  }
};
template<typename T>
struct Fixed : public Actor
{
  virtual Actor * copy() const
  {
    return 0;
  }
  virtual void assign(const Actor &) {}
};

struct Array : public Copyable<Array>
{
  so::IndexedMatrixArray a;
  so::IndexedVectorArray b;
  so::IndexedMatrix m;
  so::CheckedMatrix3 c;
  long t;
  explicit Array(Rng & r) : t(r.i(-5, 50)) {}
  const char * name() const
  {
    return "containers";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 12))
    {
      case 0:
      case 1:
      case 2:
        a.setValue(r.mat(r.i(1, 4), r.i(1, 4)), a.size() ? a.getLastIndex() + 1 : t);
        break;
      case 3:
        if(a.size()) a.popFront();
        break;
      case 4:
        if(a.size()) a.setValue(r.mat(2, 2), r.i(a.getFirstIndex(), a.getLastIndex()));
        break;
      case 5:
        if(r.b(0.2)) a.reset();
        break;
      case 6:
        if(a.size()) a.truncateAfter(r.i(a.getFirstIndex(), a.getLastIndex()));
        break;
      case 7:
        if(a.size()) a.truncateBefore(r.i(a.getFirstIndex(), a.getLastIndex()));
        break;
      case 8:
        b.pushBack(r.vec(r.i(1, 5)));
        break;
      case 9:
        m.set(r.mat(r.i(1, 3), r.i(1, 3)), r.i(0, 9));
        break;
      case 10:
        m.reset();
        break;
      case 11:
        c = M3(r.mat(3, 3));
        break;
      default:
        c.reset();
    }
    o.add(double(a.size()));
    if(a.size())
      for(long k = long(a.getFirstIndex()); k <= long(a.getLastIndex()); ++k) o.add(a[k]);
    o.add(double(b.size()));
    for(long k = long(b.getFirstIndex()); b.size() && k <= long(b.getLastIndex()); ++k) o.add(b[k]);
    o.add(double(m.isSet()));
    if(m.isSet())
    {
      o.add(m());
      o.add(double(m.getTime()));
    }
    o.add(double(c.isSet()));
    if(c.isSet()) o.add(c());
  }
};

template<typename F>
void filterOut(F & f, Out & o)
{
  o.add(double(f.getCurrentTime()));
  o.add(f.getStateCovariance());
  o.add(f.getQ());
  o.add(f.getR());
  o.add(double(f.getMeasurementsNumber()));
  o.add(double(f.getInputsNumber()));
}
struct Linear : public Copyable<Linear>
{
  long n, m, p;
  so::LinearKalmanFilter f;
  long k;
  explicit Linear(Rng & r) : n(r.i(1, 4)), m(r.i(1, 3)), p(r.i(0, 2)), f(n, m, p), k(0)
  {
    f.setA(r.mat(n, n, 0.7));
    f.setB(r.mat(n, p));
    f.setC(r.mat(m, n));
    if(p) f.setD(r.mat(m, p));
    f.setQ(r.spd(n, 0.1, 0.1));
    f.setR(r.spd(m, 0.1, 0.1));
    f.setState(r.vec(n), 0);
    f.setStateCovariance(r.spd(n));
    if(p) f.setInput(r.vec(p), 0);
  }
  const char * name() const
  {
    return "linear-filter";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 7))
    {
      case 0:
        f.setQ(r.spd(n, 0.1, 0.1));
        break;
      case 1:
        f.setR(r.spd(m, 0.1, 0.1));
        break;
      case 2:
        f.setA(r.mat(n, n, 0.7));
        break;
      case 3:
        f.setStateCovariance(r.spd(n));
        break;
      default:
      {
        long s = r.i(1, 3);
        for(long i = 0; i < s; ++i)
        {
          ++k;
          f.setMeasurement(r.vec(m), k);
          if(p) f.setInput(r.vec(p), k);
        }
        o.add(f.getEstimatedState(r.i(k - s, k)));
        o.add(f.getEstimatedState(k));
        o.add(f.getInnovation());
        o.add(f.getLastPrediction());
      }
    }
    filterOut(f, o);
  }
};
struct Extended : public Copyable<Extended>
{
  kfref::Model mod;
  so::ExtendedKalmanFilter f;
  long k;
  explicit Extended(Rng & r) : f(1, 1), k(0)
  {
    long n = r.i(1, 4), m = r.i(1, 3), p = r.i(0, 2);
    mod.init(r, n, m, p, true, true, true);
    f = so::ExtendedKalmanFilter(n, m, p, true, true);
    f.setFunctor(&mod);
    f.setA(mod.fx(Vec::Zero(n)));
    f.setC(mod.hx(Vec::Zero(n)));
    f.setQ(r.spd(n, 0.1, 0.1));
    f.setR(r.spd(m, 0.1, 0.1));
    f.setState(r.vec(n), 0);
    f.setStateCovariance(r.spd(n));
    if(p) f.setInput(r.vec(p), 0);
  }
  // the model is given by the user: each copy uses its own
  Extended(const Extended & e) : Copyable<Extended>(), mod(e.mod), f(e.f), k(e.k)
  {
    f.setFunctor(&mod);
  }
  Extended & operator=(const Extended & e)
  {
    mod = e.mod;
    f = e.f;
    k = e.k;
    f.setFunctor(&mod);
    return *this;
  }
  const char * name() const
  {
    return "extended-filter";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 5))
    {
      case 0:
        f.setQ(r.spd(mod.n, 0.1, 0.1));
        break;
      case 1:
        f.setR(r.spd(mod.m, 0.1, 0.1));
        break;
      default:
      {
        ++k;
        f.setMeasurement(r.vec(mod.m), k);
        if(mod.p) f.setInput(r.vec(mod.p), k);
        if(r.b())
        {
          f.updateStateAndMeasurementPrediction();
          f.setA(f.getAMatrixFD(Vec::Constant(mod.n, 1e-6)));
          f.setC(f.getCMatrixFD(Vec::Constant(mod.n, 1e-6)));
        }
        o.add(f.getEstimatedState(k));
        o.add(f.getInnovation());
        o.add(f.getLastPredictedMeasurement());
      }
    }
    filterOut(f, o);
  }
};
struct Planar : public Copyable<Planar>
{
  so::LipmDcmEstimator e;
  explicit Planar(Rng & r)
  : e(0.005, r.d(1, 5), 0.002, 0.01, 0.005, V2::Constant(r.b() ? 0 : 0.02), V2(r.vec(2, 0.1)), V2(r.vec(2, 0.1)))
  {
  }
  const char * name() const
  {
    return "planar-lipm";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 8))
    {
      case 0:
        e.setBiasLimit(V2(r.d(0, 0.1), r.d(0, 0.1)));
        break;
      case 1:
        e.setLipmNaturalFrequency(r.d(1, 5));
        break;
      case 2:
        e.setBias(V2(r.vec(2, 0.01)), V2(0.1, 0.2));
        break;
      case 3:
        if(r.b(0.2)) e.resetWithMeasurements(V2(r.vec(2, 0.1)), V2(r.vec(2, 0.1)), r.d(-3, 3));
        break;
      default:
        e.setInputs(V2(r.vec(2, 0.2)), V2(r.vec(2, 0.2)), r.d(-3, 3));
        e.update();
    }
    o.add(e.getUnbiasedDCM());
    o.add(e.getBias());
    o.add(e.getLocalBias());
    o.add(e.getFilter().getStateCovariance());
  }
};
struct Unidim : public Copyable<Unidim>
{
  so::UnidimLipmDcmEstimator e;
  explicit Unidim(Rng & r) : e(0.005, r.d(1, 5)) {}
  const char * name() const
  {
    return "unidim-lipm";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 6))
    {
      case 0:
        e.setLipmNaturalFrequency(r.d(1, 5));
        break;
      case 1:
        e.setBias(r.d(-1, 1), 0.1);
        break;
      default:
        e.setInputs(r.d(-0.2, 0.2), r.d(-0.2, 0.2));
        o.add(e.update());
    }
    o.add(e.getUnbiasedDCM());
    o.add(e.getBias());
    o.add(e.getFilter().getStateCovariance());
  }
};
struct Tilt : public Copyable<Tilt>
{
  so::TiltEstimator e;
  long k;
  explicit Tilt(Rng & r) : e(r.d(1, 50), r.d(1, 10), r.d(1, 10)), k(0)
  {
    Vec x(9);
    x << r.v3(), r.v3(), r.unit();
    e.setState(x, 0);
  }
  const char * name() const
  {
    return "tilt";
  }
  void op(Rng & r, Out & o)
  {
    switch(r.i(0, 6))
    {
      case 0:
        e.setSensorPositionInC(r.v3());
        break;
      case 1:
        e.setAlpha(r.d(1, 50));
        break;
      case 2:
        e.setControlOriginVelocityInW(r.v3());
        break;
      default:
        ++k;
        e.setMeasurement(r.v3(10), r.v3(), k);
        o.add(e.getEstimatedState(k));
    }
    o.add(e.getSensorPositionInC());
    o.add(e.getControlOriginVelocityInW());
    o.add(e.getAlpha());
    o.add(double(e.getCurrentTime()));
  }
};
template<typename K>
void kineOut(K & k, Out & o)
{
  o.add(double(k.position.isSet()));
  if(k.position.isSet()) o.add(k.position());
  o.add(double(k.orientation.isSet()));
  if(k.orientation.isSet())
  {
    o.add(k.orientation.toMatrix3());
    o.add(k.orientation.toVector4());
    o.add(k.orientation.toRotationVector());
  }
  if(k.linVel.isSet()) o.add(k.linVel());
  if(k.angVel.isSet()) o.add(k.angVel());
  if(k.linAcc.isSet()) o.add(k.linAcc());
  if(k.angAcc.isSet()) o.add(k.angAcc());
}
struct Kine : public Copyable<Kine>
{
  kine::Kinematics k;
  kine::Orientation q;
  explicit Kine(Rng & r) : q(so::Quaternion(r.quat()))
  {
    fill(r, k);
  }
  static void fill(Rng & r, kine::Kinematics & k)
  {
    k.position = r.v3();
    if(r.b())
      k.orientation = so::Quaternion(r.quat());
    else
      k.orientation = so::Matrix3(ref::exp3(r.rotvec()));
    if(r.b(0.8)) k.linVel = r.v3();
    if(r.b(0.8)) k.angVel = r.v3();
    if(k.linVel.isSet() && r.b(0.8)) k.linAcc = r.v3();
    if(k.angVel.isSet() && r.b(0.8)) k.angAcc = r.v3();
  }
  const char * name() const
  {
    return "kinematics";
  }
  void op(Rng & r, Out & o)
  {
    kine::Kinematics z;
    fill(r, z);
    switch(r.i(0, 6))
    {
      case 0:
        k = z;
        break;
      case 1:
        k = k * z;
        break;
      case 2:
        k = k.getInverse();
        break;
      case 3:
        if(k.angVel.isSet() && k.linVel.isSet()) k.integrate(0.01);
        break;
      case 4:
        q.integrate(r.v3());
        break;
      case 5:
        q = q * k.orientation;
        break;
      default:
        q = kine::Orientation(r.rotvec());
    }
    kineOut(k, o);
    o.add(q.toMatrix3());
    o.add(q.toVector4());
  }
};
struct Sensor : public Copyable<Sensor>
{
  so::AccelerometerGyrometer s;
  so::AccelerometerGyrometerMagnetometer g;
  long k;
  explicit Sensor(Rng & r) : k(r.i(0, 9))
  {
    s.setMatrixMode(r.b());
  }
  const char * name() const
  {
    return "sensors";
  }
  void op(Rng & r, Out & o)
  {
    Vec x(s.getStateSize());
    Q4 q = r.quat();
    if(x.size() == 10)
      x.head<4>() << q.x(), q.y(), q.z(), q.w();
    else
    {
      M3 R = q.toRotationMatrix();
      for(int i = 0; i < 9; ++i) x(i) = R(i / 3, i % 3);
    }
    x.tail<6>() = r.vec(6);
    ++k;
    s.setState(x, k);
    o.add(s.getMeasurements());
    Vec y(10);
    y << q.x(), q.y(), q.z(), q.w(), r.vec(6);
    g.setState(y, k);
    o.add(g.getMeasurements());
    o.add(double(s.getTime()));
    o.add(double(s.getStateSize()));
  }
};
struct Systems : public Copyable<Systems>
{
  so::IMUDynamicalSystem a;
  so::IMUMagnetometerDynamicalSystem b;
  so::IMUMltpctiveDynamicalSystem c;
  so::BidimElasticInvPendulum d;
  so::flexibilityEstimation::IMUFixedContactDynamicalSystem e;
  so::flexibilityEstimation::StableIMUFixedContactDynamicalSystem f;
  explicit Systems(Rng & r) : e(0.005), f(0.005)
  {
    setDt(r.lg(1e-3, 1e-1));
    d.setHeight(1);
    d.setMass(10);
    d.setElasticity(100);
    contacts(r);
  }
  void contacts(Rng & r)
  {
    unsigned n = unsigned(r.i(1, 3));
    e.setContactsNumber(n);
    f.setContactsNumber(n);
    for(unsigned i = 0; i < n; ++i)
    {
      e.setContactPosition(i, r.v3());
      f.setContactPosition(i, r.v3());
    }
  }
  void setDt(double dt)
  {
    a.setSamplingPeriod(dt);
    b.setSamplingPeriod(dt);
    c.setSamplingPeriod(dt);
    d.setSamplingPeriod(dt);
    e.setSamplingPeriod(dt);
    f.setSamplingPeriod(dt);
  }
  const char * name() const
  {
    return "models";
  }
  void one(so::DynamicalSystemFunctorBase & s, Rng & r, Out & o, bool quat)
  {
    Vec x = r.vec(s.getStateSize()), u = r.vec(s.getInputSize());
    if(quat)
    {
      Q4 q = r.quat();
      x.segment<4>(3) << q.x(), q.y(), q.z(), q.w();
    }
    o.add(s.stateDynamics(x, u, 3));
    o.add(s.measureDynamics(x, u, 3));
  }
  void op(Rng & r, Out & o)
  {
    if(r.b(0.2)) setDt(r.lg(1e-3, 1e-1));
    if(r.b(0.2)) contacts(r);
    one(a, r, o, false);
    one(b, r, o, false);
    one(c, r, o, true);
    one(d, r, o, false);
    one(e, r, o, false);
    one(f, r, o, false);
  }
};
struct Simulator : public Copyable<Simulator>
{
  kfref::Model mod;
  so::DynamicalSystemSimulator s;
  explicit Simulator(Rng & r)
  {
    mod.init(r, r.i(1, 4), r.i(1, 3), r.i(1, 2), true, true, true);
    s.setDynamicsFunctor(&mod);
    s.setState(r.vec(mod.n), 0);
    s.setInput(r.vec(mod.p), 0);
  }
  Simulator(const Simulator & e) : Copyable<Simulator>(), mod(e.mod), s(e.s)
  {
    s.setDynamicsFunctor(&mod);
  }
  Simulator & operator=(const Simulator & e)
  {
    mod = e.mod;
    s = e.s;
    s.setDynamicsFunctor(&mod);
    return *this;
  }
  const char * name() const
  {
    return "simulator";
  }
  void op(Rng & r, Out & o)
  {
    long t = long(s.getCurrentTime());
    if(r.b()) s.setInput(r.vec(mod.p), t);
    s.simulateDynamics();
    t = long(s.getCurrentTime());
    o.add(double(t));
    o.add(s.getState(t));
    o.add(s.getMeasurement(t));
    if(r.b(0.3)) s.simulateDynamicsTo(t + r.i(1, 3));
    so::IndexedVectorArray a = s.getStateArray(1, so::TimeSize(s.getCurrentTime()));
    for(long k = long(a.getFirstIndex()); k <= long(a.getLastIndex()); ++k) o.add(a[k]);
  }
};
struct Elastic : public Fixed<Elastic>
{
  elref::Par q;
  elref::Sys s;
  explicit Elastic(Rng & r) : s(0.005)
  {
    q.n = int(r.i(1, 2));
    q.model = 1;
    s.setContactModel(elref::Sys::contactModel::elasticContact);
    s.setContactsNumber(unsigned(q.n));
    s.setFDstep(Vec::Constant(elref::XN, 1e-6));
  }
  const char * name() const
  {
    return "elastic-model";
  }
  void op(Rng & r, Out & o)
  {
    Vec x = elref::randState(r), u = elref::randInput(r, q);
    if(r.b(0.2)) s.setRobotMass(r.d(20, 100));
    if(r.b(0.2)) s.setKfe(elref::gainM(r, 1e3, 1e5));
    o.add(s.stateDynamics(x, u, 0));
    if(r.b(0.2)) o.add(s.stateDynamicsJacobian());
    o.add(s.measureDynamics(x, u, 0));
    if(r.b(0.2)) o.add(s.measureDynamicsJacobian());
    o.add(s.getMomentaDotFromForces(x, u));
  }
};
struct FixedContact : public Fixed<FixedContact>
{
  so::flexibilityEstimation::FixedContactEKFFlexEstimatorIMU e;
  explicit FixedContact(Rng & r) : e(0.005)
  {
    unsigned n = unsigned(r.i(0, 3));
    e.setContactsNumber(n);
    for(unsigned i = 0; i < n; ++i) e.setContactPosition(i, r.v3(0.3));
  }
  const char * name() const
  {
    return "fixed-contact-estimator";
  }
  void op(Rng & r, Out & o)
  {
    Vec u = r.vec(15, 0.1), y(6);
    y << r.v3(0.2) + V3(0, 0, 9.8), r.v3(0.1);
    e.setMeasurement(y);
    e.setMeasurementInput(u);
    o.add(e.getFlexibilityVector());
    o.add(e.getFlexibilityCovariance());
    o.add(e.getFlexibility());
  }
};
struct ModelBase : public Fixed<ModelBase>
{
  elref::Par q;
  so::flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU e;
  explicit ModelBase(Rng & r) : e(0.005)
  {
    q.n = int(r.i(1, 2));
    e.setContactModel(so::flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU::contactModel::elasticContact);
    e.setContactsNumber(unsigned(q.n));
    q.force = r.b();
    e.setWithForcesMeasurements(q.force);
    e.setRobotMass(q.m);
  }
  const char * name() const
  {
    return "model-base-estimator";
  }
  void op(Rng & r, Out & o)
  {
    Vec u = Vec::Zero(q.usize()), y = Vec::Zero(q.ysize());
    u.segment<3>(elref::UC) = V3(0.01, 0, 0.8);
    u.segment<6>(elref::UI) << 80, 80, 20, 0, 0, 0;
    u.segment<3>(elref::UP) = V3(-0.1, 0, 1.1);
    u.segment<3>(elref::UV) = r.v3(0.1);
    for(int i = 0; i < q.n; ++i) u.segment<3>(elref::UCT + 12 * i) = V3(0, i ? 0.1 : -0.1, 0);
    y.head<6>() << r.v3(0.2) + V3(0, 0, 9.8), r.v3(0.1);
    if(q.force)
      for(int i = 0; i < q.n; ++i) y(6 + 6 * i + 2) = q.m * 9.8 / q.n;
    e.setMeasurement(y);
    e.setMeasurementInput(u);
    o.add(e.getFlexibilityVector());
    o.add(e.getFlexibilityCovariance());
    o.add(e.getForcesAndMoments());
  }
};
struct Kinetics : public Fixed<Kinetics>
{
  so::KineticsObserver e;
  int n;
  explicit Kinetics(Rng & r) : e(4, 2), n(int(r.i(1, 2)))
  {
    e.setSamplingTime(0.005);
    e.setMass(50);
    // moderate priors (the default ones of the wrenches are 1e100)
    e.setContactInitCovMatDefault(1e-4 * so::Matrix12::Identity());
    e.setUnmodeledWrenchInitCovMatDefault(1e-4 * so::Matrix6::Identity());
    e.setUnmodeledWrenchStateCovMat(1e-4 * so::Matrix6::Identity());
    e.setContactWrenchSensorDefaultCovarianceMatrix(4 * so::Matrix6::Identity());
    e.setIMUDefaultCovarianceMatrix(0.1 * so::Matrix3::Identity(), 0.01 * so::Matrix3::Identity());
    e.setWithUnmodeledWrench(r.b());
    e.setWithGyroBias(r.b());
    kine::Kinematics k;
    k.position = r.v3(0.001);
    k.orientation = so::Matrix3(ref::exp3(r.v3(0.01)));
    k.linVel = V3(0, 0, 0);
    k.angVel = V3(0, 0, 0);
    e.setStateKinematics(k, true);
    for(int i = 0; i < n; ++i)
    {
      kine::Kinematics ck;
      ck.position = V3(0, i ? 0.1 : -0.1, -1);
      ck.orientation.setZeroRotation();
      e.addContact(ck, i, 2e4 * M3::Identity(), 300 * M3::Identity(), 400 * M3::Identity(), 20 * M3::Identity());
    }
  }
  const char * name() const
  {
    return "kinetics-observer";
  }
  void op(Rng & r, Out & o)
  {
    kine::Kinematics ik, ck;
    ik.position = V3(0, 0, 0.3);
    ik.orientation.setZeroRotation();
    ik.linVel = r.v3(0.01);
    ik.angVel = r.v3(0.01);
    ik.linAcc = V3(0, 0, 0);
    ik.angAcc = V3(0, 0, 0);
    e.setIMU(V3(r.v3(0.1) + V3(0, 0, 9.8)), r.v3(0.05), ik, 0);
    e.setCenterOfMass(r.v3(0.01), V3(0, 0, 0), V3(0, 0, 0));
    e.setInertiaMatrix(so::Matrix3(V3(15, 15, 5).asDiagonal()), so::Matrix3(M3::Zero()));
    e.setAngularMomentum(V3(0, 0, 0), V3(0, 0, 0));
    for(int i = 0; i < n; ++i)
    {
      ck.position = V3(0, i ? 0.1 : -0.1, -1);
      ck.orientation.setZeroRotation();
      ck.linVel = V3(0, 0, 0);
      ck.angVel = V3(0, 0, 0);
      so::Vector6 w;
      w << r.v3(1), r.v3(1);
      w(2) += 50 * 9.8 / n;
      e.updateContactWithWrenchSensor(w, ck, i);
    }
    o.add(e.update());
    o.add(e.getCurrentStateVector());
    kine::Kinematics z = e.getKinematics();
    kineOut(z, o);
  }
};

inline Actor * make(long kind, Rng & r)
{
  switch(kind)
  {
    case 0:
      return new Array(r);
    case 1:
      return new Linear(r);
    case 2:
      return new Extended(r);
    case 3:
      return new Planar(r);
    case 4:
      return new Unidim(r);
    case 5:
      return new Tilt(r);
    case 6:
      return new Kine(r);
    case 7:
      return new Sensor(r);
    case 8:
      return new Systems(r);
    case 9:
      return new Simulator(r);
    case 10:
      return new Elastic(r);
    case 11:
      return new FixedContact(r);
    case 12:
      return new ModelBase(r);
    default:
      return new Kinetics(r);
  }
}
const long copyableKinds = 10, allKinds = 14;

/// an object together with the way it was obtained: its twin is a new object with the same history
struct Twin
{
  long kind;
  uint64_t seed;
  std::vector<uint64_t> ops;
  Actor * rebuild() const
  {
    Rng r(seed);
    std::unique_ptr<Actor> a(make(kind, r));
    for(size_t i = 0; i < ops.size(); ++i)
    {
      Rng q(ops[i]);
      Out o;
      a->op(q, o);
    }
    return a.release();
  }
};
inline bool same(const Out & a, const Out & b)
{
  if(a.v.size() != b.v.size()) return false;
  for(size_t i = 0; i < a.v.size(); ++i)
    if(!(a.v[i] == b.v[i]) && (a.v[i] == a.v[i] || b.v[i] == b.v[i])) return false;
  return true;
}
} // namespace actors
