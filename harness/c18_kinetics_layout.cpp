// C18: histories of contacts, sensors, options and state changes of the kinetics observer against a bookkeeping model
#include "koref.hpp"
#include <memory>
using namespace koref;
namespace
{
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 12, 12> M12;
struct ImuIn
{
  V3 a, g;
  M3 ca, cg;
};
struct ForceIn
{
  Vec w;
  M6 c;
};
struct Mirror
{
  Layout L;
  Vec x;
  Mat P, Q;
  std::map<int, ContactRef> contacts;
  // defaults
  M3 accCov, gyrCov;
  M6 wrenchCov, poseCov;
  M12 kinInit, kinProc, contactInit, contactProc;
  M3 biasInit, biasProc;
  M6 unmodInit, unmodProc;
  bool withBias, withWrench, withAcc;
  double dt;
  long kEst;
  bool open; // an iteration has begun
  std::map<int, ImuIn> imus;
  std::map<int, ForceIn> forces;
  std::map<int, long> imuLast, contactLast;
  std::map<int, k::Kinematics> imuKin;
  bool pose;
  k::Kinematics poseVal;
  M6 poseC;
  void block(Mat & M, const Mat & b, long i)
  {
    M.middleRows(i, b.rows()).setZero();
    M.middleCols(i, b.rows()).setZero();
    M.block(i, i, b.rows(), b.rows()) = b;
  }
};
struct World
{
  Rng & r;
  Mirror m;
  std::unique_ptr<KO> o;
  std::string hist;
  World(Rng & r_) : r(r_)
  {
    m.L.nc = r.i(1, 4);
    m.L.ni = r.i(1, 3);
    o.reset(new KO(unsigned(m.L.nc), unsigned(m.L.ni)));
    m.x = Vec::Zero(m.L.size());
    m.P = Mat::Zero(m.L.sizeT(), m.L.sizeT());
    m.Q = m.P;
    M3 I = M3::Identity();
    m.accCov = I * Obs::acceleroVarianceDefault;
    m.gyrCov = I * Obs::gyroVarianceDefault;
    m.wrenchCov = two(Obs::forceSensorVarianceDefault, Obs::torqueSensorVarianceDefault);
    m.poseCov = two(Obs::positionSensorVarianceDefault, Obs::orientationSensorVarianceDefault);
    m.kinInit = four(Obs::statePoseInitVarianceDefault, Obs::stateOriInitVarianceDefault,
                     Obs::stateLinVelInitVarianceDefault, Obs::stateAngVelInitVarianceDefault);
    m.kinProc = four(Obs::statePoseProcessVarianceDefault, Obs::stateOriProcessVarianceDefault,
                     Obs::stateLinVelProcessVarianceDefault, Obs::stateAngVelProcessVarianceDefault);
    m.contactProc = four(Obs::contactPositionProcessVarianceDefault, Obs::contactOrientationProcessVarianceDefault,
                         Obs::contactForceProcessVarianceDefault, Obs::contactTorqueProcessVarianceDefault);
    m.biasInit = I * Obs::gyroBiasInitVarianceDefault;
    m.biasProc = I * Obs::gyroBiasProcessVarianceDefault;
    m.unmodInit = two(Obs::unmodeledWrenchInitVarianceDefault, Obs::unmodeledWrenchInitVarianceDefault);
    m.unmodProc = two(Obs::unmodeledWrenchProcessVarianceDefault, Obs::unmodeledWrenchProcessVarianceDefault);
    m.block(m.P, m.kinInit, 0);
    m.block(m.Q, m.kinProc, 0);
    for(long i = 0; i < m.L.ni; ++i)
    {
      m.block(m.P, m.biasInit, m.L.biasT(i));
      m.block(m.Q, m.biasProc, m.L.biasT(i));
    }
    m.block(m.P, m.unmodInit, m.L.wrenchT());
    m.block(m.Q, m.unmodProc, m.L.wrenchT());
    m.withBias = true;
    m.withWrench = false;
    m.withAcc = false;
    m.dt = 1e-6;
    m.kEst = 0;
    m.open = false;
    m.pose = false;
    look("created");
    // moderate priors (the default ones of the wrenches are 1e100)
    m.contactInit = r.spd(12, 0.1, 0.05);
    o->setContactInitCovMatDefault(m.contactInit);
    m.unmodInit = r.spd(6, 0.1, 0.05);
    o->setUnmodeledWrenchInitCovMatDefault(m.unmodInit);
    o->setUnmodeledWrenchStateCovMat(m.unmodInit);
    m.block(m.P, m.unmodInit, m.L.wrenchT());
    m.accCov = r.spd(3, 0.5, 0.1);
    m.gyrCov = r.spd(3, 0.5, 0.1);
    o->setIMUDefaultCovarianceMatrix(m.accCov, m.gyrCov);
    m.wrenchCov = r.spd(6, 0.5, 0.1);
    o->setContactWrenchSensorDefaultCovarianceMatrix(m.wrenchCov);
    m.poseCov = r.spd(6, 0.5, 0.1);
    o->setAbsolutePoseSensorDefaultCovarianceMatrix(m.poseCov);
    m.dt = r.lg(1e-3, 2e-2);
    o->setSamplingTime(m.dt);
    o->setMass(r.d(5, 100));
    k::Kinematics s = fullKine();
    o->setStateKinematics(s);
    storeKine(s);
    if(r.b()) o->useFiniteDifferencesJacobians(r.b());
    if(r.b())
    {
      Vec dx(m.L.sizeT());
      for(long i = 0; i < dx.size(); ++i) dx(i) = r.lg(1e-7, 1e-5);
      o->setFiniteDifferenceStep(dx);
    }
    look("configured");
  }
  static M6 two(double a, double b)
  {
    M6 q = M6::Zero();
    q.diagonal() << a, a, a, b, b, b;
    return q;
  }
  static M12 four(double a, double b, double c, double d)
  {
    M12 q = M12::Zero();
    q.diagonal() << a, a, a, b, b, b, c, c, c, d, d, d;
    return q;
  }
  Kin kin()
  {
    Kin q = randKin(r, 0.3);
    q.p *= 0.3;
    q.w *= 0.3;
    return q;
  }
  k::Kinematics fullKine()
  {
    return make(r, kin(), F::position | F::orientation | F::linVel | F::angVel);
  }
  void storeKine(const k::Kinematics & s)
  {
    m.x.segment<3>(0) = s.position();
    m.x.segment<4>(3) = s.orientation.toVector4();
    m.x.segment<3>(7) = s.linVel();
    m.x.segment<3>(10) = s.angVel();
  }
  void begin()
  {
    if(m.open) return;
    m.open = true;
    m.imus.clear();
    m.forces.clear();
    m.pose = false;
  }
  long kData() const
  {
    return m.open ? m.kEst + 1 : m.kEst;
  }
  /// what the observer shows, compared with the bookkeeping; exact: none of the operations computes
  void look(const char * op)
  {
    hist += op;
    hist += " ";
    count(std::string("op_") + op);
    const std::string ctx = "after " + (hist.size() > 300 ? hist.substr(hist.size() - 300) : hist);
    eq(long(o->getStateSize()), m.L.size(), "state-size", ctx);
    closeM(o->getCurrentStateVector(), m.x, 0, "state", ctx);
    closeM(o->getEKF().getCurrentEstimatedState(), m.x, 0, "filter-state", ctx);
    closeM(Mat(o->getStateCovarianceMat()), m.P, 0, "covariance", ctx);
    closeM(Mat(o->getEKF().getQ()), m.Q, 0, "process-covariance", ctx);
    eq(long(o->getStateVectorTimeIndex()), m.kEst, "time", ctx);
    eq(o->getSamplingTime(), m.dt, "sampling-time", ctx);
    std::vector<int> l = o->getListOfContacts();
    ok(l.size() == m.contacts.size(), "contact-list", ctx);
    size_t j = 0;
    for(std::map<int, ContactRef>::const_iterator i = m.contacts.begin(); i != m.contacts.end(); ++i, ++j)
    {
      eq(l[j], i->first, "contact-ids", ctx);
      long a = m.L.contact(i->first);
      closeM(o->getContactWrench(i->first), m.x.segment<6>(a + 7), 0, "contact-wrench", ctx);
      k::Kinematics p = o->getContactPosition(i->first);
      eq(maskOf(p), unsigned(F::position | F::orientation), "contact-position-flags", ctx);
      closeM(p.position(), m.x.segment<3>(a), 0, "contact-position", ctx);
      rotClose(p.orientation.toMatrix3(), rotOf(m.x, a + 3), 1e-9, "contact-orientation", ctx);
    }
    eq(long(o->getNumberOfContacts()), long(m.contacts.size()), "number-of-contacts", ctx);
    closeM(o->getUnmodeledWrench(), m.x.segment<6>(m.L.wrench()), 0, "unmodeled-wrench", ctx);
    if(m.x.segment<4>(3).norm() > 0.5)
    {
      k::Kinematics s = o->getKinematics();
      same(s, kinOfStateAcc(s), 1e-9, "kinematics", ctx);
      ok((maskOf(s) & 0xfu) == (F::position | F::orientation | F::linVel | F::angVel) || maskOf(s) == 0x3f, "kinematics-flags", ctx);
    }
    Vec y = expectedY();
    eq(long(o->getMeasurementSize()), long(y.size()), "measurement-size", ctx);
    closeM(o->getMeasurementVector(), y, 0, "measurement", ctx);
    indexes(ctx);
  }
  /// the published indexes are those of the documented layout
  void indexes(const std::string & ctx)
  {
    const Layout & L = m.L;
    const KO & q = *o;
    const char * fix = "state-index";
    eq(long(q.kineIndex()), 0L, fix, "kine");
    eq(long(q.posIndex()), 0L, fix, "position");
    eq(long(q.oriIndex()), 3L, fix, "orientation");
    eq(long(q.linVelIndex()), 7L, fix, "linear velocity");
    eq(long(q.angVelIndex()), 10L, fix, "angular velocity");
    for(int i = 0; i < L.ni; ++i) eq(long(q.gyroBiasIndex(unsigned(i))), L.bias(i), fix, "gyro bias");
    eq(long(q.unmodeledWrenchIndex()), L.wrench(), fix, "unmodeled wrench");
    eq(long(q.unmodeledForceIndex()), L.wrench(), fix, "unmodeled force");
    eq(long(q.unmodeledTorqueIndex()), L.wrench() + 3, fix, "unmodeled torque");
    eq(long(q.contactsIndex()), L.contact(0), fix, "contacts");
    fix = "tangent-index";
    eq(long(q.kineIndexTangent()), 0L, fix, "kine");
    eq(long(q.posIndexTangent()), 0L, fix, "position");
    eq(long(q.oriIndexTangent()), 3L, fix, "orientation");
    eq(long(q.linVelIndexTangent()), 6L, fix, "linear velocity");
    eq(long(q.angVelIndexTangent()), 9L, fix, "angular velocity");
    for(int i = 0; i < L.ni; ++i) eq(long(q.gyroBiasIndexTangent(unsigned(i))), L.biasT(i), fix, "gyro bias");
    eq(long(q.unmodeledWrenchIndexTangent()), L.wrenchT(), fix, "unmodeled wrench");
    eq(long(q.unmodeledForceIndexTangent()), L.wrenchT(), fix, "unmodeled force");
    eq(long(q.unmodeledTorqueIndexTangent()), L.wrenchT() + 3, fix, "unmodeled torque");
    eq(long(q.contactsIndexTangent()), L.contactT(0), fix, "contacts");
    for(std::map<int, ContactRef>::const_iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
    {
      unsigned n = unsigned(i->first);
      long a = L.contact(i->first), b = L.contactT(i->first);
      eq(long(q.contactIndex(n)), a, "contact-index", ctx);
      eq(long(q.contactKineIndex(n)), a, "contact-index", "kine " + ctx);
      eq(long(q.contactPosIndex(n)), a, "contact-index", "position " + ctx);
      eq(long(q.contactOriIndex(n)), a + 3, "contact-index", "orientation " + ctx);
      eq(long(q.contactWrenchIndex(n)), a + 7, "contact-index", "wrench " + ctx);
      eq(long(q.contactForceIndex(n)), a + 7, "contact-index", "force " + ctx);
      eq(long(q.contactTorqueIndex(n)), a + 10, "contact-index", "torque " + ctx);
      eq(long(q.contactIndexTangent(n)), b, "contact-tangent-index", ctx);
      eq(long(q.contactKineIndexTangent(n)), b, "contact-tangent-index", "kine " + ctx);
      eq(long(q.contactPosIndexTangent(n)), b, "contact-tangent-index", "position " + ctx);
      eq(long(q.contactOriIndexTangent(n)), b + 3, "contact-tangent-index", "orientation " + ctx);
      eq(long(q.contactWrenchIndexTangent(n)), b + 6, "contact-tangent-index", "wrench " + ctx);
      eq(long(q.contactForceIndexTangent(n)), b + 6, "contact-tangent-index", "force " + ctx);
      eq(long(q.contactTorqueIndexTangent(n)), b + 9, "contact-tangent-index", "torque " + ctx);
    }
  }
  /// what is not there, or not possible, is refused and changes nothing
  void refusals()
  {
    if(!kfref::debugBuild) return;
    int missing = -1;
    for(int i = 0; i < m.L.nc; ++i)
      if(!m.contacts.count(i)) missing = i;
    unsigned n = unsigned(missing);
    k::Kinematics p = fullKine();
    if(missing >= 0)
    {
      ok(kfref::refused([&] { o->contactIndex(n); }), "index-of-missing-contact", hist);
      ok(kfref::refused([&] { o->contactIndexTangent(n); }), "index-of-missing-contact", "tangent " + hist);
      ok(kfref::refused([&] { o->removeContact(missing); }), "removed-missing-contact", hist);
      if(m.open)
      {
        ok(kfref::refused([&] { o->updateContactWithNoSensor(p, n); }), "updated-missing-contact", hist);
        ok(kfref::refused([&] { o->updateContactWithWrenchSensor(Vec(Vec::Zero(6)), p, n); }), "updated-missing-contact", hist);
      }
    }
    if(!m.contacts.empty()) ok(kfref::refused([&] { o->addContact(p, m.contacts.begin()->first); }), "added-contact-twice", hist);
    ok(kfref::refused([&] { o->gyroBiasIndex(unsigned(m.L.ni)); }), "index-of-missing-imu", hist);
    ok(kfref::refused([&] { o->contactIndex(unsigned(m.L.nc)); }), "index-of-missing-contact", "too high " + hist);
    ok(kfref::refused([&] { o->addContact(p, int(m.L.nc)); }), "added-too-high-contact", hist);
    if(long(m.contacts.size()) == m.L.nc) ok(kfref::refused([&] { o->addContact(p); }), "added-too-many-contacts", hist);
    {
      k::Kinematics q = make(r, kin(), F::position | F::linVel), z = make(r, kin(), F::position | F::orientation | F::linVel);
      if(missing >= 0) ok(kfref::refused([&] { o->addContact(q, missing); }), "added-contact-without-orientation", hist);
      ok(kfref::refused([&] { o->setStateKinematics(z); }), "set-incomplete-kinematics", hist);
    }
    if(m.open)
    {
      V3 v = r.v3(1);
      ok(kfref::refused([&] { o->setIMU(v, v, p, int(m.L.ni)); }), "too-many-imus", hist);
      if(!m.imus.empty()) ok(kfref::refused([&] { o->setIMU(v, v, p, m.imus.begin()->first); }), "imu-set-twice", hist);
      if(long(m.imus.size()) == m.L.ni) ok(kfref::refused([&] { o->setIMU(v, v, p); }), "too-many-imus", hist);
    }
    count("refusals");
    look("refusals");
  }
  /// sum and difference of states, and of measurements
  void arithmetic()
  {
    Vec x = m.x, t = r.vec(m.L.sizeT(), r.lg(1e-6, 1)), b = r.vec(m.L.size(), 1);
    x.segment<4>(3) = q4(kin().R, r.sgn());
    b.segment<4>(3) = q4(kin().R, r.sgn());
    for(int i = 0; i < m.L.nc; ++i)
    {
      x.segment<4>(m.L.contact(i) + 3) = q4(kin().R, r.sgn());
      b.segment<4>(m.L.contact(i) + 3) = q4(kin().R, r.sgn());
    }
    const std::string ctx = hist.size() > 300 ? hist.substr(hist.size() - 300) : hist;
    Vec s = o->stateSum(x, t);
    sameState(s, plus(x, t), 1e-7 * (1 + x.cwiseAbs().maxCoeff()), "state-sum", ctx);
    Vec d = o->stateDifference(x, b), e = minus(x, b);
    mask(e);
    // near half a turn the rotation vector may be either of two
    bool amb = (rotOf(x, 3) * rotOf(b, 3).transpose()).trace() < -0.9;
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
      if((rotOf(x, m.L.contact(i->first) + 3) * rotOf(b, m.L.contact(i->first) + 3).transpose()).trace() < -0.9) amb = true;
    if(!amb) closeM(d, e, 1e-6 * (1 + x.cwiseAbs().maxCoeff()), "state-difference", ctx);
    // the difference undoes the sum
    Vec back = o->stateDifference(s, x), tt = t;
    mask(tt);
    bool turn = t.segment<3>(3).norm() > 2.5;
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
      if(t.segment<3>(m.L.contactT(i->first) + 3).norm() > 2.5) turn = true;
    if(!turn) closeM(back, tt, 1e-6 * (1 + x.cwiseAbs().maxCoeff()), "difference-undoes-sum", ctx);
    Vec y = expectedY();
    if(y.size())
    {
      Vec y2 = y + r.vec(y.size(), 1);
      if(m.pose) y2.tail<4>() = q4(ref::exp3(r.v3(1)) * rotOf(y, y.size() - 4), r.sgn());
      Vec dy;
      o->measurementDifference(y2, y, dy);
      long np = y.size() - (m.pose ? 7 : 0);
      Vec ey(np + (m.pose ? 6 : 0));
      ey.head(np) = y2.head(np) - y.head(np);
      if(m.pose) ey.tail<6>() << y2.segment<3>(np) - y.segment<3>(np), ref::log3(rotOf(y2, np + 3) * rotOf(y, np + 3).transpose());
      if(!m.pose || ey.tail<3>().norm() < 2.8) closeM(dy, ey, 1e-6 * (1 + y.cwiseAbs().maxCoeff()), "measurement-difference", ctx);
      count("measurement_differences");
    }
    look("arithmetic");
  }
  /// components of the tangent space that are switched off
  void mask(Vec & t)
  {
    if(!m.withBias) t.segment(12, 3 * m.L.ni).setZero();
    if(!m.withWrench) t.segment<6>(m.L.wrenchT()).setZero();
    for(int i = 0; i < m.L.nc; ++i)
      if(!m.contacts.count(i)) t.segment<12>(m.L.contactT(i)).setZero();
  }
  Kin kinOfStateAcc(const k::Kinematics & s)
  {
    Kin q = kinOfState(m.x);
    if(s.linAcc.isSet()) q.a = s.linAcc();
    if(s.angAcc.isSet()) q.al = s.angAcc();
    return q;
  }
  Vec expectedY()
  {
    if(!m.open) return Vec();
    long n = 6 * long(m.imus.size()) + 6 * long(m.forces.size()) + (m.pose ? 7 : 0), i = 0;
    Vec y(n);
    for(std::map<int, ImuIn>::const_iterator q = m.imus.begin(); q != m.imus.end(); ++q, i += 6) y.segment<6>(i) << q->second.a, q->second.g;
    for(std::map<int, ForceIn>::const_iterator q = m.forces.begin(); q != m.forces.end(); ++q, i += 6) y.segment<6>(i) = q->second.w;
    if(m.pose) y.segment<7>(i) << m.poseVal.position(), m.poseVal.orientation.toVector4();
    return y;
  }
  Mat expectedR()
  {
    long n = 6 * long(m.imus.size()) + 6 * long(m.forces.size()) + (m.pose ? 6 : 0), i = 0;
    Mat R = Mat::Zero(n, n);
    for(std::map<int, ImuIn>::const_iterator q = m.imus.begin(); q != m.imus.end(); ++q, i += 6)
    {
      R.block<3, 3>(i, i) = q->second.ca;
      R.block<3, 3>(i + 3, i + 3) = q->second.cg;
    }
    for(std::map<int, ForceIn>::const_iterator q = m.forces.begin(); q != m.forces.end(); ++q, i += 6) R.block<6, 6>(i, i) = q->second.c;
    if(m.pose) R.block<6, 6>(i, i) = m.poseC;
    return R;
  }
  unsigned velMask()
  {
    unsigned q = F::position | F::orientation;
    if(r.b(0.7)) q |= F::linVel;
    if(r.b(0.7)) q |= F::angVel;
    return q;
  }
  void addContact()
  {
    int want = -1;
    std::vector<int> freeIds;
    for(int i = 0; i < m.L.nc; ++i)
      if(!m.contacts.count(i)) freeIds.push_back(i);
    if(freeIds.empty()) return;
    if(r.b()) want = r.pick(freeIds);
    ContactRef c;
    M3 z = M3::Zero();
    c.kp = r.b(0.8) ? M3(r.spd(3, 0.2, 100)) : z;
    c.kd = r.b(0.8) ? M3(r.spd(3, 0.2, 10)) : z;
    c.kpr = r.b(0.8) ? M3(r.spd(3, 0.2, 20)) : z;
    c.kdr = r.b(0.8) ? M3(r.spd(3, 0.2, 2)) : z;
    k::Kinematics pose = make(r, kin(), F::position | F::orientation | (r.b(0.3) ? F::linVel : 0u));
    int got;
    M12 ip = m.contactInit, pp = m.contactProc;
    if(r.b())
    {
      ip = r.spd(12, 0.1, 0.05);
      pp = r.spd(12, 0.1, 1e-4);
      got = o->addContact(pose, ip, pp, want, c.kp, c.kd, c.kpr, c.kdr);
    }
    else
      got = o->addContact(pose, want, c.kp, c.kd, c.kpr, c.kdr);
    eq(got, want < 0 ? freeIds[0] : want, "contact-number");
    M3 I = M3::Identity();
    if(c.kp == z) c.kp = I * Obs::linearStiffnessDefault;
    if(c.kd == z) c.kd = I * Obs::linearDampingDefault;
    if(c.kpr == z) c.kpr = I * Obs::angularStiffnessDefault;
    if(c.kdr == z) c.kdr = I * Obs::angularDampingDefault;
    m.contacts[got] = c;
    m.contactLast.erase(got);
    long a = m.L.contact(got);
    m.x.segment<3>(a) = pose.position();
    m.x.segment<4>(a + 3) = pose.orientation.toVector4();
    m.x.segment<6>(a + 7).setZero();
    m.block(m.P, ip, m.L.contactT(got));
    m.block(m.Q, pp, m.L.contactT(got));
    look("addContact");
  }
  int someContact()
  {
    if(m.contacts.empty()) return -1;
    std::map<int, ContactRef>::iterator i = m.contacts.begin();
    std::advance(i, r.i(0, long(m.contacts.size()) - 1));
    return i->first;
  }
  void updateContact(int c)
  {
    begin();
    // given twice in one iteration, the last one counts
    bool again = m.contactLast.count(c) && m.contactLast[c] == kData();
    k::Kinematics lk = make(r, kin(), again ? (F::position | F::orientation | F::linVel | F::angVel) : velMask());
    if(again) count("contact_updated_twice");
    ContactRef & q = m.contacts[c];
    if(m.contactLast.count(c))
      q.local.update(lk, m.dt, F::position | F::orientation | F::linVel | F::angVel);
    else
    {
      q.local = lk;
      if(!lk.linVel.isSet()) q.local.linVel.set().setZero();
      if(!lk.angVel.isSet()) q.local.angVel.set().setZero();
    }
    m.contactLast[c] = kData();
    if(r.b(0.6))
    {
      ForceIn fi;
      fi.w = r.vec(6, 5);
      fi.c = m.wrenchCov;
      if(r.b())
      {
        fi.c = r.spd(6, 0.5, 0.1);
        o->updateContactWithWrenchSensor(fi.w, fi.c, lk, unsigned(c));
      }
      else
        o->updateContactWithWrenchSensor(fi.w, lk, unsigned(c));
      m.forces[c] = fi;
      look("updateContactWithWrenchSensor");
    }
    else
    {
      o->updateContactWithNoSensor(lk, unsigned(c));
      m.forces.erase(c);
      look("updateContactWithNoSensor");
    }
  }
  void imu()
  {
    std::vector<int> fr;
    for(int i = 0; i < m.L.ni; ++i)
      if(!(m.open && m.imus.count(i))) fr.push_back(i);
    if(fr.empty()) return;
    begin();
    int want = r.b() ? -1 : r.pick(fr), id = want < 0 ? fr[0] : want;
    ImuIn q;
    q.a = r.v3(5) + ref::gravity();
    q.g = r.v3(1);
    q.ca = m.accCov;
    q.cg = m.gyrCov;
    k::Kinematics lk = make(r, kin(), velMask() | (r.b() ? F::linAcc : 0u));
    int got;
    if(r.b())
    {
      q.ca = r.spd(3, 0.5, 0.1);
      q.cg = r.spd(3, 0.5, 0.1);
      got = o->setIMU(q.a, q.g, q.ca, q.cg, lk, want);
    }
    else
      got = o->setIMU(q.a, q.g, lk, want);
    eq(got, id, "imu-number");
    m.imus[id] = q;
    if(m.imuLast.count(id))
      m.imuKin[id].update(lk, m.dt * double(kData() - m.imuLast[id]), Obs::flagsIMUKine);
    else
    {
      m.imuKin[id] = lk;
      if(!lk.linVel.isSet()) m.imuKin[id].linVel.set().setZero();
      if(!lk.angVel.isSet()) m.imuKin[id].angVel.set().setZero();
      if(!lk.linAcc.isSet()) m.imuKin[id].linAcc.set().setZero();
    }
    m.imuLast[id] = kData();
    look("setIMU");
  }
  void operation()
  {
    Layout & L = m.L;
    switch(r.i(0, 30))
    {
      case 27:
      case 28:
        arithmetic();
        break;
      case 29:
        refusals();
        break;
      case 30:
        // full matrices, correlated all over
        if(!r.b(0.4)) break;
        if(r.b())
        {
          m.Q = r.spd(L.sizeT(), 1e-3, 1e-5);
          o->setProcessNoiseCovarianceMat(m.Q);
          look("setProcessNoiseCovarianceMat");
        }
        else
        {
          m.P = r.spd(L.sizeT(), 0.1, 0.01);
          o->setStateCovarianceMat(m.P);
          look("setStateCovarianceMat");
        }
        break;
      case 0:
      case 1:
      case 2:
        addContact();
        break;
      case 3:
      {
        int c = someContact();
        if(c < 0) break;
        o->removeContact(c);
        m.contacts.erase(c);
        m.forces.erase(c);
        look("removeContact");
        break;
      }
      case 4:
        if(!r.b(0.3)) break;
        o->clearContacts();
        m.contacts.clear();
        m.forces.clear();
        look("clearContacts");
        break;
      case 5:
      {
        k::Kinematics s = fullKine();
        bool rf = r.b(), rc = r.b();
        o->setStateKinematics(s, rf, rc);
        storeKine(s);
        for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end() && rf; ++i)
          m.x.segment<6>(L.contact(i->first) + 7).setZero();
        if(rc)
        {
          m.block(m.P, m.kinInit, 0);
          for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end() && rf; ++i)
            m.block(m.P, m.contactInit, L.contactT(i->first));
        }
        look("setStateKinematics");
        break;
      }
      case 6:
      {
        V3 b = r.v3(0.3);
        int i = int(r.i(0, L.ni - 1));
        bool rc = r.b();
        o->setGyroBias(b, unsigned(i), rc);
        m.x.segment<3>(L.bias(i)) = b;
        if(rc) m.block(m.P, m.biasInit, L.biasT(i));
        look("setGyroBias");
        break;
      }
      case 7:
      {
        Vec w = r.vec(6, 3);
        bool rc = r.b();
        o->setStateUnmodeledWrench(w, rc);
        m.x.segment<6>(L.wrench()) = w;
        if(rc) m.block(m.P, m.unmodInit, L.wrenchT());
        look("setStateUnmodeledWrench");
        break;
      }
      case 8:
      {
        Vec v = r.vec(L.size(), 1);
        v.segment<4>(3) = q4(kin().R, r.sgn());
        for(int i = 0; i < L.nc; ++i) v.segment<4>(L.contact(i) + 3) = q4(kin().R, r.sgn());
        bool rc = r.b();
        o->setStateVector(v, rc);
        m.x = v;
        if(rc) resetP();
        look("setStateVector");
        break;
      }
      case 9:
      {
        m.kinInit = r.spd(12, 0.1, 0.01);
        o->setKinematicsInitCovarianceDefault(m.kinInit);
        look("setKinematicsInitCovarianceDefault");
        break;
      }
      case 10:
      {
        M12 c = r.spd(12, 0.1, 0.01);
        o->setKinematicsStateCovariance(c);
        m.block(m.P, c, 0);
        look("setKinematicsStateCovariance");
        break;
      }
      case 11:
      {
        M12 c = r.spd(12, 0.1, 1e-4);
        o->setKinematicsProcessCovariance(c);
        m.block(m.Q, c, 0);
        look("setKinematicsProcessCovariance");
        break;
      }
      case 12:
      {
        int i = int(r.i(0, L.ni - 1));
        M3 c = r.spd(3, 0.1, 0.01);
        switch(r.i(0, 2))
        {
          case 0:
            o->setGyroBiasStateCovariance(c, unsigned(i));
            m.block(m.P, c, L.biasT(i));
            look("setGyroBiasStateCovariance");
            break;
          case 1:
            o->setGyroBiasProcessCovariance(c, unsigned(i));
            m.block(m.Q, c, L.biasT(i));
            look("setGyroBiasProcessCovariance");
            break;
          default:
            o->setGyroBiasInitCovarianceDefault(c);
            m.biasInit = c;
            look("setGyroBiasInitCovarianceDefault");
        }
        break;
      }
      case 13:
      {
        M6 c = r.spd(6, 0.1, 0.05);
        switch(r.i(0, 2))
        {
          case 0:
            o->setUnmodeledWrenchStateCovMat(c);
            m.block(m.P, c, L.wrenchT());
            look("setUnmodeledWrenchStateCovMat");
            break;
          case 1:
            o->setUnmodeledWrenchProcessCovMat(c);
            m.block(m.Q, c, L.wrenchT());
            look("setUnmodeledWrenchProcessCovMat");
            break;
          default:
            o->setUnmodeledWrenchInitCovMatDefault(c);
            m.unmodInit = c;
            look("setUnmodeledWrenchInitCovMatDefault");
        }
        break;
      }
      case 14:
      {
        int i = someContact();
        if(i < 0) break;
        M12 c = r.spd(12, 0.1, 0.05);
        switch(r.i(0, 2))
        {
          case 0:
            o->setContactStateCovMat(i, c);
            m.block(m.P, c, L.contactT(i));
            look("setContactStateCovMat");
            break;
          case 1:
            o->setContactProcessCovMat(i, c);
            m.block(m.Q, c, L.contactT(i));
            look("setContactProcessCovMat");
            break;
          default:
            o->setContactInitCovMatDefault(c);
            m.contactInit = c;
            look("setContactInitCovMatDefault");
        }
        break;
      }
      case 15:
        resetOne();
        break;
      case 16:
        m.withBias = r.b();
        o->setWithGyroBias(m.withBias);
        look("setWithGyroBias");
        break;
      case 17:
        m.withWrench = r.b();
        o->setWithUnmodeledWrench(m.withWrench);
        look("setWithUnmodeledWrench");
        break;
      case 18:
        m.withAcc = r.b();
        o->setWithAccelerationEstimation(m.withAcc);
        look("setWithAccelerationEstimation");
        break;
      case 19:
        switch(r.i(0, 3))
        {
          case 0:
            m.accCov = r.spd(3, 0.5, 0.1);
            m.gyrCov = r.spd(3, 0.5, 0.1);
            o->setIMUDefaultCovarianceMatrix(m.accCov, m.gyrCov);
            break;
          case 1:
            m.wrenchCov = r.spd(6, 0.5, 0.1);
            o->setContactWrenchSensorDefaultCovarianceMatrix(m.wrenchCov);
            break;
          case 2:
            m.poseCov = r.spd(6, 0.5, 0.1);
            o->setAbsolutePoseSensorDefaultCovarianceMatrix(m.poseCov);
            break;
          default:
            if(!r.b(0.3)) break;
            o->resetSensorsDefaultCovMat();
            m.accCov = M3::Identity() * Obs::acceleroVarianceDefault;
            m.gyrCov = M3::Identity() * Obs::gyroVarianceDefault;
            m.wrenchCov = two(Obs::forceSensorVarianceDefault, Obs::torqueSensorVarianceDefault);
            m.poseCov = two(Obs::positionSensorVarianceDefault, Obs::orientationSensorVarianceDefault);
        }
        look("defaultSensorCovariances");
        break;
      case 20:
      case 21:
        imu();
        break;
      case 22:
      {
        int c = someContact();
        if(c >= 0 && (!(m.open && m.contactLast.count(c) && m.contactLast[c] == kData()) || r.b(0.5))) updateContact(c);
        break;
      }
      case 23:
        if(m.open && m.pose) break;
        begin();
        m.pose = true;
        m.poseVal = make(r, kin(), F::position | F::orientation);
        m.poseC = m.poseCov;
        if(r.b())
        {
          m.poseC = r.spd(6, 0.5, 0.1);
          o->setAbsolutePoseSensor(m.poseVal, m.poseC);
        }
        else
          o->setAbsolutePoseSensor(m.poseVal);
        look("setAbsolutePoseSensor");
        break;
      case 24:
        begin();
        o->setCenterOfMass(r.v3(0.2), r.v3(0.2), r.v3(0.2));
        look("setCenterOfMass");
        break;
      case 25:
        begin();
        o->setInertiaMatrix(M3(r.spd(3, 1, 3) + 5 * M3::Identity()), M3(r.spd(3, 0.1, 0.1)));
        look("setInertiaMatrix");
        break;
      case 26:
        o->setAdditionalWrench(r.v3(5), r.v3(1));
        look("setAdditionalWrench");
        break;
      default:
        if(!r.b(0.4)) break;
        o->resetInputs();
        if(m.open)
        {
          m.open = false;
          for(std::map<int, long>::iterator i = m.imuLast.begin(); i != m.imuLast.end();)
          {
            if(i->second == m.kEst + 1) i->second = m.kEst;
            // an IMU whose only value was cancelled before the first estimation starts afresh
            if(i->second == 0)
              m.imuLast.erase(i++);
            else
              ++i;
          }
          for(std::map<int, long>::iterator i = m.contactLast.begin(); i != m.contactLast.end(); ++i)
            if(i->second == m.kEst + 1) i->second = m.kEst;
        }
        look("resetInputs");
    }
  }
  void resetP()
  {
    m.block(m.P, m.kinInit, 0);
    for(long i = 0; i < m.L.ni; ++i) m.block(m.P, m.biasInit, m.L.biasT(i));
    m.block(m.P, m.unmodInit, m.L.wrenchT());
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
      m.block(m.P, m.contactInit, m.L.contactT(i->first));
  }
  void resetOne()
  {
    Layout & L = m.L;
    int c = someContact();
    int i = int(r.i(0, L.ni - 1));
    switch(r.i(0, 11))
    {
      case 0:
        o->resetStateCovarianceMat();
        resetP();
        break;
      case 1:
        o->resetStateKinematicsCovMat();
        m.block(m.P, m.kinInit, 0);
        break;
      case 2:
        o->resetStateGyroBiasCovMat(unsigned(i));
        m.block(m.P, m.biasInit, L.biasT(i));
        break;
      case 3:
        o->resetStateUnmodeledWrenchCovMat();
        m.block(m.P, m.unmodInit, L.wrenchT());
        break;
      case 4:
        o->resetStateContactsCovMat();
        for(std::map<int, ContactRef>::iterator q = m.contacts.begin(); q != m.contacts.end(); ++q)
          m.block(m.P, m.contactInit, L.contactT(q->first));
        break;
      case 5:
        if(c < 0) break;
        o->resetStateContactCovMat(unsigned(c));
        m.block(m.P, m.contactInit, L.contactT(c));
        break;
      case 6:
        o->resetProcessCovarianceMat();
        m.block(m.Q, m.kinProc, 0);
        for(long q = 0; q < L.ni; ++q) m.block(m.Q, m.biasProc, L.biasT(q));
        m.block(m.Q, m.unmodProc, L.wrenchT());
        for(std::map<int, ContactRef>::iterator q = m.contacts.begin(); q != m.contacts.end(); ++q)
          m.block(m.Q, m.contactProc, L.contactT(q->first));
        break;
      case 7:
        o->resetProcessKinematicsCovMat();
        m.block(m.Q, m.kinProc, 0);
        break;
      case 8:
        o->resetProcessGyroBiasCovMat(unsigned(i));
        m.block(m.Q, m.biasProc, L.biasT(i));
        break;
      case 9:
        o->resetProcessUnmodeledWrenchCovMat();
        m.block(m.Q, m.unmodProc, L.wrenchT());
        break;
      case 10:
        o->resetProcessContactsCovMat();
        for(std::map<int, ContactRef>::iterator q = m.contacts.begin(); q != m.contacts.end(); ++q)
          m.block(m.Q, m.contactProc, L.contactT(q->first));
        break;
      default:
        if(c < 0) break;
        o->resetProcessContactCovMat(unsigned(c));
        m.block(m.Q, m.contactProc, L.contactT(c));
    }
    look("resetCovMat");
  }
  /// false when the numbers are too ill-conditioned to be compared any further
  bool update()
  {
    if(!m.open)
    {
      closeM(o->update(), m.x, 0, "update-without-data", hist);
      look("update-without-data");
      return true;
    }
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
      if(!(m.contactLast.count(i->first) && m.contactLast[i->first] == kData())) updateContact(i->first);
    Vec y = expectedY();
    Mat R = expectedR();
    Vec x0 = m.x;
    Vec got = o->update();
    m.kEst++;
    m.open = false;
    count("updates");
    count("updates_contacts_" + str(m.contacts.size()));
    count("updates_measurement_size_" + str(y.size()));
    cur->note(uint64_t(y.size() * 100 + m.contacts.size()));
    const std::string ctx = "update after " + (hist.size() > 300 ? hist.substr(hist.size() - 300) : hist);
    eq(long(o->getStateVectorTimeIndex()), m.kEst, "update-time", ctx);
    closeM(Mat(o->getEKF().getR()), R, 0, "measurement-covariance", ctx);
    eq(long(o->getEKF().getMeasureSize()), long(y.size()), "filter-measurement-size", ctx);
    Mat A = o->getEKF().getA(), C = o->getEKF().getC();
    Vec xb = o->f(x0);
    if(!got.allFinite() || !A.allFinite()) fail("not-finite", "estimate not finite " + ctx);
    kfref::RefStep s;
    kfref::refGain(A, C, m.Q, R, m.P, s);
    m.P = o->getStateCovarianceMat();
    m.x = got;
    double cond = 1;
    if(s.S.size())
    {
      Eigen::JacobiSVD<Mat> svd(s.S);
      cond = svd.singularValues()(0) / svd.singularValues()(s.S.rows() - 1);
    }
    double scale = 1 + s.pbar.cwiseAbs().maxCoeff();
    if(!(cond < 1e7) || !(scale < 1e8) || !(xb.cwiseAbs().maxCoeff() < 1e7))
    {
      count("histories_cut_ill_conditioned");
      return false;
    }
    // consistency of the covariance
    closeM(m.P, s.P, 1e-8 * scale * std::max(1., cond * 1e-3), "update-covariance", ctx);
    ok((m.P - m.P.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * scale, "covariance-symmetric", ctx);
    Mat Ps = 0.5 * (m.P + m.P.transpose());
    Vec ev = Eigen::SelfAdjointEigenSolver<Mat>(Ps).eigenvalues();
    ok(ev(0) >= -1e-9 * scale * std::max(1., cond * 1e-3), "covariance-positive", "min eigenvalue " + str(ev(0)) + " " + ctx);
    if(r.b(0.3) && std::fabs(xb(6)) > 1e-3) jacobians(x0, xb, A, C, y.size(), ctx);
    // the estimate
    Vec xs = x0;
    if(y.size())
    {
      Vec inno = innovation(y, xb);
      Vec tangent = s.K * inno;
      xs = plus(xb, tangent);
    }
    else
      xs = xb;
    sameState(got, xs, 1e-7 * std::max(1., cond * 1e-3) * (1 + xs.cwiseAbs().maxCoeff()), "update-state", ctx);
    // components that are not estimated are left alone
    if(!m.withBias) closeM(got.segment(13, 3 * m.L.ni), x0.segment(13, 3 * m.L.ni), 0, "disabled-bias", ctx);
    if(!m.withWrench) closeM(got.segment<6>(m.L.wrench()), x0.segment<6>(m.L.wrench()), 0, "disabled-wrench", ctx);
    for(int i = 0; i < m.L.nc; ++i)
      if(!m.contacts.count(i)) closeM(got.segment<13>(m.L.contact(i)), x0.segment<13>(m.L.contact(i)), 0, "missing-contact", ctx);
    close(got.segment<4>(3).norm(), 1, 1e-9, "orientation-norm", ctx);
    k::Kinematics sk = o->getKinematics();
    eq(sk.linAcc.isSet() && sk.angAcc.isSet(), m.withAcc, "accelerations-on-demand", ctx);
    look("update");
    return true;
  }
  Vec minus(const Vec & a, const Vec & b)
  {
    Layout & L = m.L;
    Vec t = Vec::Zero(L.sizeT());
    t.segment<3>(0) = a.segment<3>(0) - b.segment<3>(0);
    t.segment<3>(3) = ref::log3(rotOf(a, 3) * rotOf(b, 3).transpose());
    t.segment<6>(6) = a.segment<6>(7) - b.segment<6>(7);
    t.segment(12, 3 * L.ni + 6) = a.segment(13, 3 * L.ni + 6) - b.segment(13, 3 * L.ni + 6);
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
    {
      long p = L.contact(i->first), q = L.contactT(i->first);
      t.segment<3>(q) = a.segment<3>(p) - b.segment<3>(p);
      t.segment<3>(q + 3) = ref::log3(rotOf(a, p + 3) * rotOf(b, p + 3).transpose());
      t.segment<6>(q + 6) = a.segment<6>(p + 7) - b.segment<6>(p + 7);
    }
    return t;
  }
  /// the Jacobians used by the filter against central differences of the model, in the tangent space
  void jacobians(const Vec & x0, const Vec & xb, const Mat & A, const Mat & C, long ny, const std::string & ctx)
  {
    const double e = 1e-5;
    long n = m.L.sizeT();
    Mat Ar(n, n);
    for(long i = 0; i < n; ++i)
    {
      Vec d = Vec::Zero(n);
      d(i) = e;
      Ar.col(i) = minus(o->f(plus(x0, d)), o->f(plus(x0, -d))) / (2 * e);
    }
    closeM(A, Ar, 1e-3, "state-jacobian", ctx);
    count("state_jacobians");
    if(!ny) return;
    Vec y0 = predicted(xb);
    Mat Cr(C.rows(), n);
    for(long i = 0; i < n; ++i)
    {
      Vec d = Vec::Zero(n);
      d(i) = e;
      Cr.col(i) = (innovation(predicted(plus(xb, d)), xb) - innovation(predicted(plus(xb, -d)), xb)) / (2 * e);
    }
    closeM(C, Cr, 1e-3, "measurement-jacobian", ctx);
    count("measurement_jacobians");
  }
  // predicted measurement at the predicted state, with the measurements of the closed iteration
  Vec innovation(const Vec & y, const Vec & xb)
  {
    Vec yb = predicted(xb);
    long np = y.size() - (m.pose ? 7 : 0);
    Vec d(np + (m.pose ? 6 : 0));
    d.head(np) = y.head(np) - yb.head(np);
    if(m.pose)
    {
      d.segment<3>(np) = y.segment<3>(np) - yb.segment<3>(np);
      d.segment<3>(np + 3) = ref::log3(rotOf(y, np + 3) * rotOf(yb, np + 3).transpose());
    }
    return d;
  }
  Vec predicted(const Vec & xb)
  {
    // the observer's own accelerations at that state (checked against Newton-Euler in C19)
    Kin s = kinOfState(xb);
    Vec x1 = o->f(xb);
    s.a = (x1.segment<3>(7) - xb.segment<3>(7)) / m.dt;
    s.al = (x1.segment<3>(10) - xb.segment<3>(10)) / m.dt;
    Vec yb(6 * m.imus.size() + 6 * m.forces.size() + (m.pose ? 7 : 0));
    long i = 0;
    for(std::map<int, ImuIn>::const_iterator q = m.imus.begin(); q != m.imus.end(); ++q, i += 6)
    {
      Kin g = (Jet(s) * Jet(kinOf(m.imuKin[q->first]))).kin();
      yb.segment<3>(i) = g.R.transpose() * (g.a + ref::gravity());
      yb.segment<3>(i + 3) = g.R.transpose() * g.w;
      if(m.withBias) yb.segment<3>(i + 3) += xb.segment<3>(m.L.bias(q->first));
    }
    for(std::map<int, ForceIn>::const_iterator q = m.forces.begin(); q != m.forces.end(); ++q, i += 6)
      yb.segment<6>(i) = xb.segment<6>(m.L.contact(q->first) + 7);
    if(m.pose) yb.segment<7>(i) = xb.segment<7>(0);
    return yb;
  }
  Vec plus(const Vec & x, const Vec & t)
  {
    Layout & L = m.L;
    Vec y = x;
    y.segment<3>(0) += t.segment<3>(0);
    y.segment<4>(3) = q4(ref::exp3(t.segment<3>(3)) * rotOf(x, 3));
    y.segment<6>(7) += t.segment<6>(6);
    if(m.withBias) y.segment(13, 3 * L.ni) += t.segment(12, 3 * L.ni);
    if(m.withWrench) y.segment<6>(L.wrench()) += t.segment<6>(L.wrenchT());
    for(std::map<int, ContactRef>::iterator i = m.contacts.begin(); i != m.contacts.end(); ++i)
    {
      long a = L.contact(i->first), b = L.contactT(i->first);
      y.segment<3>(a) += t.segment<3>(b);
      y.segment<4>(a + 3) = q4(ref::exp3(t.segment<3>(b + 3)) * rotOf(x, a + 3));
      y.segment<6>(a + 7) += t.segment<6>(b + 6);
    }
    return y;
  }
  void sameState(const Vec & a, const Vec & b, double tol, const char * key, const std::string & ctx)
  {
    Vec u = a, v = b;
    rotClose(rotOf(a, 3), rotOf(b, 3), tol, key, "orientation " + ctx);
    u.segment<4>(3).setZero();
    v.segment<4>(3).setZero();
    for(int i = 0; i < m.L.nc; ++i)
    {
      long q = m.L.contact(i) + 3;
      if(m.contacts.count(i)) rotClose(rotOf(a, q), rotOf(b, q), tol, key, "contact orientation " + ctx);
      u.segment<4>(q).setZero();
      v.segment<4>(q).setZero();
    }
    closeM(u, v, tol, key, ctx);
  }
};
} // namespace

SUITE(histories, 2000, 20000)
{
  Rng & r = c.r;
  World w(r);
  c.nontrivial = true;
  long steps = r.i(1, c.thorough ? 14 : 8);
  for(long s = 0; s < steps; ++s)
  {
    long n = r.i(1, 14);
    for(long i = 0; i < n; ++i) w.operation();
    if(!w.update()) break;
  }
  c.note(w.m.x);
}
