// C19: manifold arithmetic, accelerations, predicted state and predicted measurements of the kinetics observer against an
// independent rigid-body model
#include "koref.hpp"
#include <memory>
using namespace koref;
namespace
{
struct Setup
{
  Rng & r;
  Layout L;
  std::unique_ptr<KO> o;
  Inertial b;
  std::map<int, ContactRef> cs;
  std::map<int, k::Kinematics> imus;
  std::map<int, bool> sensor;
  bool bias, wrench, pose;
  double dt;
  Vec x;
  explicit Setup(Rng & r_) : r(r_), pose(false)
  {
    L.nc = r.i(1, 4);
    L.ni = r.i(1, 3);
    o.reset(new KO(unsigned(L.nc), unsigned(L.ni)));
    bias = true;
    wrench = false;
    if(r.b(0.8)) o->setWithGyroBias(bias = r.b(0.7));
    if(r.b(0.8)) o->setWithUnmodeledWrench(wrench = r.b(0.7));
    dt = r.lg(1e-4, 5e-2);
    o->setSamplingTime(dt);
    if(r.b(0.9)) o->setMass(b.m = r.lg(1, 200));
    for(int i = 0; i < L.nc; ++i)
      if(r.b(0.6)) addContact(i);
    randomState();
  }
  void addContact(int i)
  {
    ContactRef c;
    c.kp = r.spd(3, 0.2, r.lg(1, 1e4));
    c.kd = r.spd(3, 0.2, r.lg(1, 1e3));
    c.kpr = r.spd(3, 0.2, r.lg(1, 1e3));
    c.kdr = r.spd(3, 0.2, r.lg(0.1, 1e2));
    if(r.b(0.3)) c.kp = M3(r.mat(3, 3, 1000));
    M3 z = M3::Zero();
    unsigned keep = unsigned(r.b(0.5) ? 15 : r.i(0, 15));
    k::Kinematics p = make(r, randKin(r), F::position | F::orientation);
    int got = o->addContact(p, i, keep & 1 ? c.kp : z, keep & 2 ? c.kd : z, keep & 4 ? c.kpr : z, keep & 8 ? c.kdr : z);
    eq(got, i, "contact-number");
    M3 I = M3::Identity();
    if(!(keep & 1)) c.kp = I * Obs::linearStiffnessDefault;
    if(!(keep & 2)) c.kd = I * Obs::linearDampingDefault;
    if(!(keep & 4)) c.kpr = I * Obs::angularStiffnessDefault;
    if(!(keep & 8)) c.kdr = I * Obs::angularDampingDefault;
    cs[i] = c;
  }
  Vec randState()
  {
    Vec v = r.vec(L.size(), r.lg(0.1, 10));
    v.segment<4>(3) = q4(ref::exp3(r.rotvec()), r.sgn());
    for(int i = 0; i < L.nc; ++i)
    {
      v.segment<4>(L.contact(i) + 3) = q4(ref::exp3(r.rotvec()), r.sgn());
      v.segment<6>(L.contact(i) + 7) = r.vec(6, r.lg(0.1, 100));
    }
    return v;
  }
  void randomState()
  {
    x = randState();
    o->setStateVector(x, r.b());
  }
  /// inputs of one iteration, in random order, with the derivatives given or left to finite differences over the
  /// previous iteration
  void inputs(bool first)
  {
    std::vector<int> todo;
    for(int i = 0; i < L.nc; ++i)
      if(cs.count(i)) todo.push_back(i);
    for(int i = 0; i < L.ni; ++i) todo.push_back(100 + i);
    todo.push_back(200);
    todo.push_back(201);
    todo.push_back(202);
    todo.push_back(203);
    todo.push_back(204);
    todo.push_back(205);
    for(size_t i = todo.size(); i-- > 1;) std::swap(todo[i], todo[size_t(r.i(0, long(i)))]);
    pose = false;
    live.clear();
    sensor.clear();
    for(size_t q = 0; q < todo.size(); ++q)
    {
      int t = todo[q];
      if(t < 100)
      {
        unsigned mask = F::position | F::orientation;
        if(first || r.b()) mask |= F::linVel;
        if(first || r.b()) mask |= F::angVel;
        if(first && r.b(0.2)) mask = F::position | F::orientation;
        k::Kinematics lk = make(r, randKin(r, 0.3), mask);
        if(first)
        {
          cs[t].local = lk;
          if(!lk.linVel.isSet()) cs[t].local.linVel.set().setZero();
          if(!lk.angVel.isSet()) cs[t].local.angVel.set().setZero();
        }
        else
          cs[t].local.update(lk, dt, F::position | F::orientation | F::linVel | F::angVel);
        if(r.b())
        {
          o->updateContactWithWrenchSensor(r.vec(6, 10), lk, unsigned(t));
          sensor[t] = true;
        }
        else
          o->updateContactWithNoSensor(lk, unsigned(t));
      }
      else if(t < 200)
      {
        if(r.b(0.3) && !first) continue;
        unsigned mask = F::position | F::orientation;
        if(first || r.b()) mask |= F::linVel | F::angVel | F::linAcc;
        k::Kinematics lk = make(r, randKin(r, 0.3), mask);
        int id = t - 100;
        o->setIMU(r.v3(10), r.v3(3), lk, id);
        if(first)
          imus[id] = lk;
        else
          imus[id].update(lk, dt * double(iter - last[id]), Obs::flagsIMUKine);
        last[id] = iter;
        live[id] = true;
      }
      else if(t == 200)
      {
        if(!first && r.b(0.2)) continue;
        V3 c = r.v3(0.5), cd = r.v3(1), cdd = r.v3(3);
        double h = dt * double(iter - lastCom);
        bool kc = lastCom > 0, kv = lastComVel > 0; // known at an earlier iteration
        switch(r.i(0, 2))
        {
          case 0:
            o->setCenterOfMass(c, cd, cdd);
            lastComVel = iter;
            break;
          case 1:
            o->setCenterOfMass(c, cd);
            cdd = kv ? V3((cd - b.cd) / h) : b.cdd;
            lastComVel = iter;
            break;
          default:
            o->setCenterOfMass(c);
            cd = kc ? V3((c - b.c) / h) : b.cd;
            cdd = kc && kv ? V3((cd - b.cd) / h) : b.cdd;
            if(kc) lastComVel = iter;
        }
        // given again in the same iteration
        if(r.b(0.15)) o->setCenterOfMass(c);
        if(r.b(0.15))
        {
          o->setCenterOfMass(c, cd);
          lastComVel = iter;
        }
        b.c = c;
        b.cd = cd;
        b.cdd = cdd;
        lastCom = iter;
      }
      else if(t == 201)
      {
        if(!first && r.b(0.2)) continue;
        // about the origin of the frame, whatever the center of mass in [-0.5,0.5]^3
        M3 I = M3(r.spd(3, 0.3, r.lg(0.1, 10))) + b.m * 1.5 * M3::Identity();
        M3 Id = r.spd(3, 0.1, 1);
        double h = dt * double(iter - lastI);
        Eigen::Matrix<double, 6, 1> v, vd;
        v << I.diagonal(), I(0, 1), I(0, 2), I(1, 2);
        vd << Id.diagonal(), Id(0, 1), Id(0, 2), Id(1, 2);
        switch(r.i(0, 3))
        {
          case 0:
            o->setInertiaMatrix(I, Id);
            break;
          case 1:
            o->setInertiaMatrix(v, vd);
            break;
          case 2:
            o->setInertiaMatrix(I);
            Id = lastI > 0 ? M3((I - b.I) / h) : b.Id;
            break;
          default:
            o->setInertiaMatrix(v);
            Id = lastI > 0 ? M3((I - b.I) / h) : b.Id;
        }
        if(r.b(0.15)) o->setInertiaMatrix(I);
        if(r.b(0.15)) o->setInertiaMatrix(v);
        b.I = I;
        b.Id = Id;
        lastI = iter;
      }
      else if(t == 202)
      {
        if(!first && r.b(0.2)) continue;
        V3 s = r.v3(2), sd = r.v3(3);
        if(r.b())
          o->setAngularMomentum(s, sd);
        else
        {
          o->setAngularMomentum(s);
          sd = lastS > 0 ? V3((s - b.s) / (dt * double(iter - lastS))) : b.sd;
        }
        if(r.b(0.15)) o->setAngularMomentum(s);
        b.s = s;
        b.sd = sd;
        lastS = iter;
      }
      else if(t == 203)
      {
        if(r.b(0.5)) continue;
        b.F = r.v3(20);
        b.T = r.v3(5);
        o->setAdditionalWrench(b.F, b.T);
      }
      else if(t == 205)
      {
        // a state given among the inputs changes nothing else
        if(r.b(0.7)) continue;
        if(r.b())
        {
          Kin s = kinOfState(randState());
          o->setStateKinematics(make(r, s, F::position | F::orientation | F::linVel | F::angVel), false, r.b());
          x = o->getCurrentStateVector();
          rotClose(rotOf(x, 3), s.R, 1e-9, "state-given-among-inputs");
          closeM(x.segment<3>(0), s.p, 1e-9, "state-given-among-inputs");
        }
        else
          o->setStateVector(x, r.b());
      }
      else
      {
        if(r.b(0.5)) continue;
        o->setAbsolutePoseSensor(make(r, randKin(r), F::position | F::orientation));
        pose = true;
      }
    }
  }
  std::map<int, bool> live;
  std::map<int, long> last;
  long iter = 1, lastCom = 0, lastComVel = 0, lastI = 0, lastS = 0;
  Kin accelerated(const Vec & v)
  {
    Kin s = kinOfState(v);
    V3 Fo, T;
    wrenchOf(L, v, b, cs, Fo, T);
    newtonEuler(s.R, s.w, b, Fo, T, s.a, s.al);
    return s;
  }
  double scaleOf(const Kin & s)
  {
    return 1 + s.a.norm() + s.al.norm() + s.w.squaredNorm();
  }
  void checkAccelerations()
  {
    k::Kinematics g = o->estimateAccelerations();
    Kin s = accelerated(x);
    eq(maskOf(g), 0x3fu, "all-known");
    same(g, s, 1e-8 * scaleOf(s), "newton-euler");
    // any point attached to the frame
    Kin l = randKin(r);
    k::Kinematics gl = o->getKinematicsOf(make(r, l, 0x3f));
    Kin p = (Jet(s) * Jet(l)).kin();
    same(gl, p, 1e-7 * scaleOf(s) * (1 + l.p.norm()) * (1 + l.v.norm() + l.w.norm() + l.a.norm()) , "attached-point");
    count("accelerations");
  }
  void checkDynamics()
  {
    Kin s = accelerated(x);
    Vec x1 = o->f(x);
    double sc = scaleOf(s);
    Kin e;
    e.p = s.p + s.v * dt + 0.5 * s.a * dt * dt;
    e.v = s.v + s.a * dt;
    e.w = s.w + s.al * dt;
    e.R = ref::exp3(s.w * dt + 0.5 * s.al * dt * dt) * s.R;
    closeM(x1.segment<3>(0), e.p, 1e-8 * sc, "predicted-position");
    rotClose(rotOf(x1, 3), e.R, 1e-8 * sc, "predicted-orientation");
    closeM(x1.segment<3>(7), e.v, 1e-8 * sc, "predicted-velocity");
    closeM(x1.segment<3>(10), e.w, 1e-8 * sc, "predicted-angular-velocity");
    closeM(x1.segment(13, 3 * L.ni + 6), x.segment(13, 3 * L.ni + 6), 0, "constant-bias-and-wrench");
    for(int i = 0; i < L.nc; ++i)
    {
      long a = L.contact(i);
      closeM(x1.segment<7>(a), x.segment<7>(a), 0, "constant-contact-pose");
      if(!cs.count(i))
      {
        closeM(x1.segment<6>(a + 7), x.segment<6>(a + 7), 0, "missing-contact");
        continue;
      }
      const ContactRef & q = cs[i];
      M3 Rc = e.R * M3(q.local.orientation.toMatrix3());
      V3 f = -Rc.transpose() * (q.kp * e.p + q.kd * e.v);
      Eigen::Vector4d qq = q4(e.R);
      double ks = q.kp.norm() + q.kd.norm() + q.kpr.norm() + q.kdr.norm();
      closeM(x1.segment<3>(a + 7), f, 1e-8 * sc * (1 + ks), "predicted-contact-force");
      V3 t = -Rc.transpose() * (0.5 * (q.kpr * V3(qq.head<3>())) + q.kdr * e.w);
      if(std::fabs(qq(3)) > 1e-6) closeM(x1.segment<3>(a + 10), t, 1e-8 * sc * (1 + ks), "predicted-contact-torque");
      count("contact_wrenches");
    }
    count("predictions");
  }
  /// one estimation, with a well-conditioned filter; every predicted measurement it asks for is compared with the reference
  void update()
  {
    long n = 6 * long(live.size()) + 6 * long(sensor.size()) + (pose ? 7 : 0);
    eq(long(o->getMeasurementSize()), n, "measurement-size");
    eq(long(o->getMeasurementVector().size()), n, "measurement-vector-size");
    long nt = L.sizeT(), seen = 0;
    o->setStateCovarianceMat(Mat::Identity(nt, nt) * 1e-6);
    o->setProcessNoiseCovarianceMat(Mat::Identity(nt, nt) * 1e-6);
    Setup * me = this;
    o->watch = [me, n, &seen](const Vec & v, const Vec & y) {
      Vec e = me->predicted(v);
      Kin s = me->accelerated(v);
      double sc = me->scaleOf(s);
      eq(long(y.size()), n, "predicted-measurement-size");
      for(int i = 0; i < me->L.ni; ++i)
        if(me->live.count(i)) sc = std::max(sc, 1 + me->scaleOf(s) * (1 + me->imus[i].position().norm()));
      closeM(y, e, 1e-9 * sc, "predicted-measurement");
      ++seen;
    };
    o->update();
    o->watch = nullptr;
    ok(seen > 0 || n == 0, "measurement-model-observed");
    count("predicted_measurements", seen);
    iter = long(o->getStateVectorTimeIndex()) + 1; // nothing is estimated when nothing was given
  }
  Vec predicted(const Vec & v)
  {
    Kin s = accelerated(v);
    Vec y(6 * live.size() + 6 * sensor.size() + (pose ? 7 : 0));
    long i = 0;
    for(std::map<int, bool>::iterator q = live.begin(); q != live.end(); ++q, i += 6)
    {
      Kin g = (Jet(s) * Jet(kinOf(imus[q->first]))).kin();
      y.segment<3>(i) = g.R.transpose() * (g.a + ref::gravity());
      y.segment<3>(i + 3) = g.R.transpose() * g.w;
      if(bias) y.segment<3>(i + 3) += v.segment<3>(L.bias(q->first));
    }
    for(std::map<int, bool>::iterator q = sensor.begin(); q != sensor.end(); ++q, i += 6)
      y.segment<6>(i) = v.segment<6>(L.contact(q->first) + 7);
    if(pose) y.segment<7>(i) = v.segment<7>(0);
    return y;
  }
};
Vec minusRef(const Layout & L, const Vec & a, const Vec & b)
{
  Vec t = Vec::Zero(L.sizeT());
  t.segment<3>(0) = a.segment<3>(0) - b.segment<3>(0);
  t.segment<3>(3) = ref::log3(rotOf(a, 3) * rotOf(b, 3).transpose());
  t.segment<6>(6) = a.segment<6>(7) - b.segment<6>(7);
  t.segment(12, 3 * L.ni + 6) = a.segment(13, 3 * L.ni + 6) - b.segment(13, 3 * L.ni + 6);
  for(int i = 0; i < L.nc; ++i)
  {
    long p = L.contact(i), q = L.contactT(i);
    t.segment<3>(q) = a.segment<3>(p) - b.segment<3>(p);
    t.segment<3>(q + 3) = ref::log3(rotOf(a, p + 3) * rotOf(b, p + 3).transpose());
    t.segment<6>(q + 6) = a.segment<6>(p + 7) - b.segment<6>(p + 7);
  }
  return t;
}
void mask(const Setup & s, Vec & t)
{
  if(!s.bias) t.segment(12, 3 * s.L.ni).setZero();
  if(!s.wrench) t.segment<6>(s.L.wrenchT()).setZero();
  for(int i = 0; i < s.L.nc; ++i)
    if(!s.cs.count(i)) t.segment<12>(s.L.contactT(i)).setZero();
}
double piDistance(const Layout & L, const Vec & t)
{
  double d = M_PI - t.segment<3>(3).norm();
  for(int i = 0; i < L.nc; ++i) d = std::min(d, M_PI - t.segment<3>(L.contactT(i) + 3).norm());
  return d;
}
} // namespace

SUITE(sum_and_difference, 3000, 60000)
{
  Rng & r = c.r;
  Setup s(r);
  c.nontrivial = true;
  Vec a = s.randState(), b = s.randState();
  Vec d = r.b() ? Vec(s.o->stateDifference(a, b)) : Vec(r.vec(3));
  if(d.size() == 3) s.o->stateDifference(a, b, d);
  Vec e = minusRef(s.L, a, b);
  mask(s, e);
  if(piDistance(s.L, e) > 1e-4)
  {
    closeM(d, e, 1e-9, "difference");
    count("differences");
  }
  // a sum undone by the difference
  Vec t = r.vec(s.L.sizeT(), r.lg(1e-6, 1.5));
  if(r.b())
  {
    t.segment<3>(3) = r.rotvec();
    for(int i = 0; i < s.L.nc; ++i) t.segment<3>(s.L.contactT(i) + 3) = r.rotvec();
  }
  Vec sum = s.o->stateSum(a, t);
  Vec mt = t;
  mask(s, mt);
  Vec un = sum;
  eq(long(sum.size()), s.L.size(), "sum-size");
  un.segment<3>(0) -= mt.segment<3>(0);
  un.segment<6>(7) -= mt.segment<6>(6);
  un.segment(13, 3 * s.L.ni + 6) -= mt.segment(12, 3 * s.L.ni + 6);
  rotClose(rotOf(sum, 3), ref::exp3(mt.segment<3>(3)) * rotOf(a, 3), 1e-9, "sum-orientation");
  close(sum.segment<4>(3).norm(), 1, 1e-9, "sum-quaternion-norm");
  un.segment<4>(3) = a.segment<4>(3);
  for(int i = 0; i < s.L.nc; ++i)
  {
    long p = s.L.contact(i), q = s.L.contactT(i);
    un.segment<3>(p) -= mt.segment<3>(q);
    un.segment<6>(p + 7) -= mt.segment<6>(q + 6);
    rotClose(rotOf(sum, p + 3), ref::exp3(mt.segment<3>(q + 3)) * rotOf(a, p + 3), 1e-9, "sum-contact-orientation");
    close(sum.segment<4>(p + 3).norm(), 1, 1e-9, "sum-contact-quaternion-norm");
    un.segment<4>(p + 3) = a.segment<4>(p + 3);
  }
  closeM(un, a, 1e-11, "sum");
  count("sums");
  // inverses of each other, through the library only
  if(piDistance(s.L, mt) > 1e-4) closeM(Vec(s.o->stateDifference(sum, a)), mt, 1e-8, "difference-of-sum");
  Vec back = s.o->stateSum(b, d);
  Vec res = minusRef(s.L, back, a);
  mask(s, res);
  closeM(res, Vec::Zero(res.size()), 1e-8, "sum-of-difference");
  c.note(sum);
}

SUITE(dynamics, 3000, 60000)
{
  Rng & r = c.r;
  Setup s(r);
  c.nontrivial = true;
  if(r.b(0.1) && s.cs.empty())
  {
    // the default inertial parameters: unit inertia, center of mass at the origin
    s.checkAccelerations();
    s.checkDynamics();
  }
  s.inputs(true);
  s.checkAccelerations();
  s.checkDynamics();
  long steps = r.i(0, 3);
  for(long i = 0; i < steps; ++i)
  {
    s.update();
    s.randomState();
    s.inputs(false);
    s.checkAccelerations();
    s.checkDynamics();
    s.randomState();
    s.checkDynamics();
    s.checkAccelerations();
  }
  c.note(s.x);
}

SUITE(measurements, 2400, 40000)
{
  Rng & r = c.r;
  Setup s(r);
  c.nontrivial = true;
  long steps = r.i(1, 4);
  for(long i = 0; i < steps; ++i)
  {
    s.inputs(i == 0);
    s.update();
    s.randomState();
    c.note(s.x);
  }
}
