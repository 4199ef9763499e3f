// C21: the elastic contact model against an independent Newton-Euler reference, over histories of configuration changes
#include "elref.hpp"
#include <stdexcept>
using namespace elref;
namespace
{
struct Shift : public so::NoiseBase
{
  Vec d;
  virtual so::Vector getNoisy(const so::Vector & v)
  {
    eq(v.size(), d.size(), "noise-size");
    return v + d;
  }
};
struct Run
{
  Rng & r;
  Par q;
  Sys s;
  Shift pn, mn;
  bool hasPn, hasMn;
  explicit Run(Rng & r_, double dt) : r(r_), s(dt), hasPn(false), hasMn(false)
  {
    q.dt = dt;
    model(1);
  }
  void model(int k)
  {
    q.model = k;
    s.setContactModel(k == 1 ? Sys::contactModel::elasticContact : Sys::contactModel::pendulum);
  }
  void noiseSizes()
  {
    if(hasMn) mn.d = r.vec(q.ysize(), 10);
  }
  void configure(int k)
  {
    cur->note(uint64_t(1000 + k));
    switch(k)
    {
      case 0:
        s.setRobotMass(q.m = r.lg(5, 200));
        lastU.resize(0); // its inertia tensor is that of another body
        break;
      case 1:
        s.setContactsNumber(unsigned(q.n = int(r.i(0, 2))));
        break;
      case 2:
        s.setSamplingPeriod(q.dt = r.lg(1e-4, 2e-2));
        break;
      case 3:
        s.setWithForceMeasurements(q.force = r.b());
        break;
      case 4:
        s.setWithComBias(q.comBias = r.b());
        break;
      case 5:
        s.setWithAbsolutePosition(q.absPos = r.b());
        break;
      case 6:
        s.setWithUnmodeledForces(q.unmod = r.b());
        break;
      case 7:
        s.setKfe(q.Kfe = gainM(r, 1e3, 1e5));
        break;
      case 8:
        s.setKfv(q.Kfv = gainM(r, 10, 2e3));
        break;
      case 9:
        s.setKte(q.Kte = gainM(r, 10, 2e3));
        break;
      case 10:
        s.setKtv(q.Ktv = gainM(r, 1, 200));
        break;
      case 11:
        s.setKfeRopes(q.RKfe = gainM(r, 1e3, 1e5));
        break;
      case 12:
        s.setKfvRopes(q.RKfv = gainM(r, 10, 2e3));
        break;
      case 13:
        s.setKteRopes(q.RKte = gainM(r, 10, 2e3));
        break;
      case 14:
        s.setKtvRopes(q.RKtv = gainM(r, 1, 200));
        break;
      case 15:
        s.setPe(q.pe = r.v3(2) + V3(0, 0, 3));
        break;
      case 16:
        model(r.b(0.75) ? 1 : 2);
        break;
      case 17:
        hasPn = !hasPn && r.b();
        if(hasPn)
        {
          pn.d = r.vec(XN, 10);
          s.setProcessNoise(&pn);
        }
        else
          s.resetProcessNoise();
        break;
      case 18:
        hasMn = !hasMn && r.b();
        if(hasMn)
          s.setMeasurementNoise(&mn);
        else
          s.resetMeasurementNoise();
        break;
    }
    noiseSizes();
    eq(s.getStateSize(), long(XN), "state-size");
    eq(s.getInputSize(), q.usize(), "input-size");
    eq(s.getMeasurementSize(), q.ysize(), "measurement-size");
    eq(long(s.getContactsNumber()), long(q.n), "contacts-number");
    eq(s.getRobotMass(), q.m, "mass");
    eq(s.getWithForceMeasurements(), q.force, "option-force");
    eq(s.getWithComBias(), q.comBias, "option-com-bias");
    eq(s.getWithAbsolutePosition(), q.absPos, "option-absolute-position");
    ok(s.getKfe() == Mat(q.Kfe) && s.getKfv() == Mat(q.Kfv) && s.getKte() == Mat(q.Kte) && s.getKtv() == Mat(q.Ktv),
       "gains");
    ok(s.getProcessNoise() == (hasPn ? &pn : (so::NoiseBase *)0x0), "process-noise");
    ok(s.getMeasurementNoise() == (hasMn ? &mn : (so::NoiseBase *)0x0), "measurement-noise");
  }
  void closeState(const Vec & y, const Vec & e, const char * key)
  {
    eq(y.size(), long(XN), key);
    finite(y, key);
    // amplification of the rounding of the pose by the stiffness
    double ks = 1 + (q.model == 1 ? q.Kfe.norm() + q.Kte.norm() : q.RKfe.norm() + q.RKte.norm());
    closeM(y.segment<3>(XPOS), e.segment<3>(XPOS), 1e-9, key, "position");
    closeM(y.segment<3>(XLV), e.segment<3>(XLV), 1e-8, key, "linear velocity");
    closeM(y.segment<3>(XAV), e.segment<3>(XAV), 1e-8, key, "angular velocity");
    rotClose(ref::exp3(y.segment<3>(XORI)), ref::exp3(e.segment<3>(XORI)), 1e-8, key, "orientation");
    double nearPi = e.segment<3>(XORI).norm() > 3.14 ? 1 : 0; // the rotation vector may flip there
    if(!nearPi)
    {
      closeM(y.segment<12>(XFC), e.segment<12>(XFC), 1e-9 * ks, key, "contact wrenches");
      count("wrench-predictions");
    }
    closeM(y.segment<6>(XUM), e.segment<6>(XUM), 1e-12, key, "unmodeled wrench");
    closeM(y.segment<5>(XCB), e.segment<5>(XCB), 1e-12, key, "bias and drift");
  }
  void closeMeasure(const Vec & y, const Vec & e, const char * key)
  {
    eq(y.size(), e.size(), key);
    finite(y, key);
    closeM(y.head<6>(), e.head<6>(), 1e-8, key, "inertial");
    long at = 6;
    if(q.force)
    {
      closeM(y.segment(at, 6 * q.n), e.segment(at, 6 * q.n), 1e-11, key, "forces");
      at += 6 * q.n;
    }
    if(q.absPos)
    {
      closeM(y.segment<3>(at), e.segment<3>(at), 1e-10, key, "absolute position");
      if(hasMn)
        count("noisy-orientation");
      else
        rotClose(ref::exp3(y.segment<3>(at + 3)), ref::exp3(e.segment<3>(at + 3)), 1e-9, key, "absolute orientation");
      if(e.segment<3>(at + 3).norm() < 3.14)
        closeM(y.segment<3>(at + 3), e.segment<3>(at + 3), 1e-7, key, "absolute rotation vector");
    }
  }
  void query(int k)
  {
    Vec x = randState(r), u = randInput(r, q);
    if(lastX.size() == x.size() && r.b(0.4))
    {
      // a state very close to the previous one, the same configuration or one very close to it
      double d = r.lg(1e-8, 1e-2);
      x = lastX;
      if(r.b(0.8)) x.segment<3>(XORI) += r.v3(d);
      if(r.b(0.3)) x += r.vec(x.size(), d);
      if(lastU.size() == u.size() && r.b(0.7))
      {
        u = lastU;
        if(r.b(0.5)) u += r.vec(u.size(), d);
      }
      count("queries next to the previous one");
    }
    lastX = x;
    lastU = u;
    query(k, x, u);
  }
  Vec lastX, lastU;
  void query(int k, const Vec & x, const Vec & u)
  {
    cur->note(uint64_t(k));
    cur->note(x);
    std::string nc = "contacts " + str(q.n) + " model " + str(q.model);
    switch(k)
    {
      case 0:
      {
        V6 a = q.acc(x, u);
        closeM(s.computeAccelerations(x, u), a, 1e-8, "accelerations", nc);
        count("accelerations");
        break;
      }
      case 1:
      {
        Vec y = s.stateDynamics(x, u, 0), e = q.next(x, u);
        if(hasPn) y -= pn.d;
        closeState(y, e, "state-dynamics");
        count("state-dynamics");
        break;
      }
      case 2:
      {
        Vec y = s.measureDynamics(x, u, r.i(0, 100)), e = q.measure(x, u);
        if(hasMn)
        {
          noiseCheck(y);
          y -= mn.d;
        }
        closeMeasure(y, e, "measurement");
        count("measurements");
        break;
      }
      case 3:
      {
        V6 d = q.momentaDot(x, u);
        closeM(s.getMomentaDotFromForces(x, u), d, 1e-9, "momenta-from-forces", nc);
        break;
      }
      case 4:
      {
        V6 d = q.momentaDot(x, u);
        closeM(s.getMomentaDotFromKinematics(x, u), d, 1e-8, "momenta-from-kinematics", nc);
        count("momenta");
        break;
      }
      case 5:
      {
        Vec e = q.efforts(x, u);
        closeM(s.getForcesAndMoments(x, u), Vec(e.head(6 * q.n)), 1e-8, "forces-and-moments", nc);
        closeM(s.getForcesAndMoments(), Vec(e.head(6 * q.n)), 1e-8, "last-forces-and-moments", nc);
        s.computeForcesAndMoments(x, u);
        closeM(s.getForcesAndMoments(), Vec(e.head(6 * q.n)), 1e-8, "computed-forces-and-moments", nc);
        count("elastic-forces");
        break;
      }
      case 6:
        schemes(x, u);
        break;
      case 7:
        jacobians();
        break;
    }
  }
  void noiseCheck(const Vec & y)
  {
    eq(y.size(), mn.d.size(), "noisy-measurement-size");
  }
  struct St
  {
    V3 p, v, o, w;
    Vec fc, tc;
  };
  St start(const Vec & x) const
  {
    St t;
    t.p = x.segment<3>(XPOS);
    t.v = x.segment<3>(XLV);
    t.o = x.segment<3>(XORI);
    t.w = x.segment<3>(XAV);
    t.fc.resize(6);
    t.tc.resize(6);
    for(int i = 0; i < 2; ++i)
    {
      t.fc.segment<3>(3 * i) = x.segment<3>(XFC + 6 * i);
      t.tc.segment<3>(3 * i) = x.segment<3>(XFC + 6 * i + 3);
    }
    return t;
  }
  void iterate(bool rk, St & t, const Vec & x, const Vec & u, double h)
  {
    so::IndexedVectorArray cp, co;
    for(int i = 0; i < q.n; ++i)
    {
      cp.setValue(Vec(u.segment<3>(UCT + 12 * i)), i);
      co.setValue(Vec(u.segment<3>(UCT + 12 * i + 3)), i);
    }
    V3 c = q.com(x, u), cv = u.segment<3>(UCV), ca = u.segment<3>(UCA), am = u.segment<3>(UAM), dam = u.segment<3>(UDAM);
    M3 I = inertiaOf(u, UI), dI = inertiaOf(u, UDI);
    V3 fm = x.segment<3>(XUM), tm = x.segment<3>(XUM + 3), af = u.segment<3>(UADD), at = u.segment<3>(UADD + 3);
    // the contact velocities used for the resulting forces are those of the last state prediction
    s.computeForcesAndMoments(x, u);
    if(rk)
      s.iterateDynamicsRK4(c, cv, ca, am, dam, I, dI, cp, co, t.p, t.v, t.fc, t.o, t.w, t.tc, fm, tm, af, at, h);
    else
      s.iterateDynamicsEuler(c, cv, ca, am, dam, I, dI, cp, co, t.p, t.v, t.fc, t.o, t.w, t.tc, fm, tm, af, at, h);
  }
  /// accurate solution of the same equations (contact wrenches held during the step)
  St exact(const Vec & x0, const Vec & u, double h) const
  {
    const int n = 16;
    double d = h / n;
    Vec x = x0;
    for(int i = 0; i < n; ++i)
    {
      Vec k[4], xs = x;
      M3 R0 = ref::exp3(x.segment<3>(XORI));
      V3 dr[4];
      for(int j = 0; j < 4; ++j)
      {
        double f = j == 0 ? 0 : j == 3 ? d : d / 2;
        xs = x;
        if(j)
        {
          xs.segment<3>(XPOS) += f * k[j - 1].head<3>();
          xs.segment<6>(XLV) += f * k[j - 1].tail<6>();
          xs.segment<3>(XORI) = ref::log3(ref::exp3(f * dr[j - 1]) * R0);
        }
        k[j].resize(9);
        k[j].head<3>() = xs.segment<3>(XLV);
        k[j].tail<6>() = q.acc(xs, u);
        V3 w = xs.segment<3>(XAV), th = j ? V3(f * dr[j - 1]) : V3(V3::Zero());
        // derivative of the rotation vector increment, to the order needed
        dr[j] = w - 0.5 * th.cross(w) + th.cross(th.cross(w)) / 12.;
      }
      x.segment<3>(XPOS) += d / 6 * (k[0] + 2 * k[1] + 2 * k[2] + k[3]).head<3>();
      x.segment<6>(XLV) += d / 6 * (k[0] + 2 * k[1] + 2 * k[2] + k[3]).tail<6>();
      x.segment<3>(XORI) = ref::log3(ref::exp3(d / 6 * (dr[0] + 2 * dr[1] + 2 * dr[2] + dr[3])) * R0);
    }
    return start(x);
  }
  void schemes(const Vec & x0, const Vec & u)
  {
    Vec x = x0;
    if(x.segment<3>(XORI).norm() > 2.8) x.segment<3>(XORI).setZero();
    x.segment<6>(XLV) = r.vec(6, 1);
    double h = r.lg(2e-3, 1e-2), e[2][4][3];
    double sc = 1;
    for(int j = 0; j < 3; ++j)
    {
      double hh = h / std::pow(4, j);
      St t = exact(x, u, hh);
      for(int k = 0; k < 2; ++k)
      {
        St a = start(x);
        iterate(k == 1, a, x, u, hh);
        finite(a.p, "scheme-finite");
        e[k][0][j] = (a.p - t.p).norm();
        e[k][1][j] = ref::dist(ref::exp3(a.o), ref::exp3(t.o));
        e[k][2][j] = (a.v - t.v).norm();
        e[k][3][j] = (a.w - t.w).norm();
        V6 ac = q.acc(x, u);
        sc = std::max(sc, ac.norm());
        // the contact wrenches handed back are those of the state reached
        Vec xe = x;
        xe.segment<3>(XPOS) = a.p;
        xe.segment<3>(XORI) = a.o;
        xe.segment<3>(XLV) = a.v;
        xe.segment<3>(XAV) = a.w;
        Vec ef = q.efforts(xe, u);
        for(int i = 0; i < 2; ++i)
        {
          closeM(a.fc.segment<3>(3 * i), ef.segment<3>(6 * i), 1e-8, "scheme-forces");
          closeM(a.tc.segment<3>(3 * i), ef.segment<3>(6 * i + 3), 1e-8, "scheme-moments");
        }
      }
    }
    const char * nm[2][4] = {{"euler-position-order", "euler-orientation-order", "euler-velocity-order",
                              "euler-angular-velocity-order"},
                             {"rk4-position-order", "rk4-orientation-order", "rk4-velocity-order",
                              "rk4-angular-velocity-order"}};
    // local errors: Euler O(h^2) on the velocities and O(h^3) on the pose; Runge-Kutta at least O(h^3) on everything
    for(int k = 0; k < 2; ++k)
      for(int j = 0; j < 4; ++j)
      {
        bool third = k == 1 || j < 2;
        double r1 = third ? 25 : 7.5;
        double * v = e[k][j];
        double fl = 3e-12 * sc;
        bool bad = v[1] > v[0] / r1 + fl && v[2] > v[1] / r1 + fl && v[2] > v[0] / (r1 * r1) + fl;
        ok(!bad, nm[k][j], str(v[0]) + " " + str(v[1]) + " " + str(v[2]) + " for step " + str(h));
      }
    count("integration-schemes");
  }
  void jacobians()
  {
    if(hasPn || hasMn) return;
    Vec x = randState(r), u = randInput(r, q), dx(XN);
    if(x.segment<3>(XORI).norm() > 2.5) x.segment<3>(XORI) = r.v3(0.5);
    for(int i = 0; i < XN; ++i) dx(i) = r.lg(1e-8, 1e-6);
    if(!q.unmod) x.segment<6>(XUM).setZero();
    s.setFDstep(dx);
    bool sfirst = r.b();
    for(int pass = 0; pass < 2; ++pass)
    {
      bool st = (pass == 0) == sfirst;
      if(st)
      {
        Vec y0 = s.stateDynamics(x, u, 0);
        if(r.b(0.3)) s.measureDynamics(randState(r), u, 3); // must not disturb
        Mat J = s.stateDynamicsJacobian();
        eq(J.rows(), long(XN), "state-jacobian-size");
        eq(J.cols(), long(XN), "state-jacobian-size");
        if(ref::exp3(y0.segment<3>(XORI)).trace() < -0.9) continue; // rotation vector discontinuity
        checkJac(J, x, u, true);
        if(r.b(0.3)) closeM(s.stateDynamicsJacobian(), J, 1e-12, "state-jacobian-repeated");
        closeM(s.stateDynamics(x, u, 0), y0, 1e-12, "state-dynamics-after-jacobian");
        count("state-jacobians");
      }
      else
      {
        TimeIx k = r.i(0, 50);
        Vec y0 = s.measureDynamics(x, u, k);
        if(r.b(0.3)) s.stateDynamics(randState(r), u, 3);
        Mat J = s.measureDynamicsJacobian();
        eq(J.rows(), q.ysize(), "measure-jacobian-size");
        eq(J.cols(), long(XN), "measure-jacobian-size");
        bool skip = q.absPos && ref::exp3(y0.tail<3>()).trace() < -0.9;
        if(skip) continue;
        checkJac(J, x, u, false);
        if(r.b(0.3)) closeM(s.measureDynamicsJacobian(), J, 1e-12, "measure-jacobian-repeated");
        closeM(s.measureDynamics(x, u, k), y0, 1e-12, "measurement-after-jacobian");
        count("measure-jacobians");
      }
    }
  }
  typedef so::TimeIndex TimeIx;
  void checkJac(const Mat & J, const Vec & x, const Vec & u, bool st)
  {
    Vec row = Vec::Constant(J.rows(), 1);
    Mat E(J.rows(), XN);
    for(int i = 0; i < XN; ++i)
    {
      double d = 1e-6;
      Vec a = x, b = x;
      a(i) += d;
      b(i) -= d;
      E.col(i) = ((st ? q.next(a, u) : q.measure(a, u)) - (st ? q.next(b, u) : q.measure(b, u))) / (2 * d);
    }
    for(int i = 0; i < J.rows(); ++i) row(i) += E.row(i).cwiseAbs().maxCoeff();
    Vec f = st ? q.next(x, u) : q.measure(x, u);
    double big = 1 + f.cwiseAbs().maxCoeff();
    for(int i = 0; i < XN; ++i)
    {
      bool off = (i >= XUM && i < XUM + 6 && !q.unmod) || (i >= XCB && i < XCB + 2 && !q.comBias)
                 || (i >= XDR && i < XDR + 3 && !q.absPos);
      Vec e = E.col(i);
      if(off)
      {
        // disabled parts of the state: constant, and without influence
        e.setZero();
        if(st) e(i) = 1;
      }
      for(int k = 0; k < J.rows(); ++k)
        if(!(std::fabs(J(k, i) - e(k)) <= 3e-4 * row(k) + 1e-6 * big))
          fail(st ? "state-jacobian" : "measure-jacobian",
               "d(" + str(k) + ")/d(" + str(i) + "): " + str(J(k, i)) + " expected " + str(e(k)));
      cur->observed();
    }
  }
};
} // namespace

SUITE(elastic_histories, 6000, 60000)
{
  Run t(c.r, c.r.lg(1e-3, 2e-2));
  Rng & r = c.r;
  int n = int(r.i(3, 12));
  if(r.b(0.9)) t.s.setContactsNumber(unsigned(t.q.n = int(r.i(0, 2))));
  for(int i = 0; i < n; ++i)
  {
    int nc = int(r.i(0, 3));
    for(int j = 0; j < nc; ++j) t.configure(int(r.i(0, 18)));
    int k = int(r.i(0, 6));
    t.query(k);
  }
  c.nontrivial = true;
}

SUITE(elastic_jacobians, 2500, 25000)
{
  Run t(c.r, c.r.lg(1e-3, 2e-2));
  Rng & r = c.r;
  t.s.setContactsNumber(unsigned(t.q.n = int(r.i(0, 2))));
  for(int j = 0; j < 8; ++j) t.configure(int(r.i(0, 16)));
  if(r.b(0.3)) t.configure(1);
  int n = int(r.i(1, 3));
  for(int i = 0; i < n; ++i) t.query(7);
  c.nontrivial = true;
}

/// first use of a new object is any of its functions
SUITE(elastic_first_use, 1500, 10000)
{
  Run t(c.r, c.r.lg(1e-3, 2e-2));
  t.s.setContactsNumber(unsigned(t.q.n = int(c.r.i(0, 2))));
  if(c.r.b()) t.configure(int(c.r.i(3, 6)));
  t.query(int(c.r.i(0, 6)));
  t.query(int(c.r.i(0, 6)));
  c.nontrivial = true;
}

/// a model without contact model refuses to predict the state
SUITE(elastic_no_contact_model, 20, 100)
{
  Sys s(0.005);
  Par q;
  s.setContactsNumber(unsigned(q.n = 2));
  Vec x = randState(c.r), u = randInput(c.r, q);
  bool thrown = false;
  try
  {
    s.stateDynamics(x, u, 0);
  }
  catch(const std::invalid_argument &)
  {
    thrown = true;
  }
  ok(thrown, "no-contact-model");
  c.note(x);
  c.nontrivial = true;
}

/// the momenta of a motion simulated with tiny steps change as the predicted derivatives
SUITE(elastic_momenta_over_time, 300, 3000)
{
  Rng & r = c.r;
  Run t(r, 1e-4);
  t.s.setContactsNumber(unsigned(t.q.n = int(r.i(0, 2))));
  t.configure(0);
  Vec u = randInput(r, t.q), x = randState(r);
  x.segment<6>(XLV) = r.vec(6, 0.5);
  u.segment<3>(UADD).setZero();
  V3 b(0, 0, 0);
  // motion of the internal parts over +-h, second order
  double h = 1e-5;
  V6 acc = V6(t.s.computeAccelerations(x, u));
  V6 L[2];
  for(int k = 0; k < 2; ++k)
  {
    double d = k ? h : -h;
    V3 a = acc.head<3>(), al = acc.tail<3>(), w0 = x.segment<3>(XAV);
    V3 p = x.segment<3>(XPOS) + d * x.segment<3>(XLV) + 0.5 * d * d * a, v = x.segment<3>(XLV) + d * a, w = w0 + d * al;
    M3 R = ref::exp3(d * w0 + 0.5 * d * d * al) * ref::exp3(x.segment<3>(XORI));
    V3 cc = u.segment<3>(UC) + d * u.segment<3>(UCV) + 0.5 * d * d * u.segment<3>(UCA);
    V3 cv = u.segment<3>(UCV) + d * u.segment<3>(UCA);
    M3 I = inertiaOf(u, UI) + d * inertiaOf(u, UDI);
    V3 s = u.segment<3>(UAM) + d * u.segment<3>(UDAM);
    double m = t.q.m;
    V3 vg = v + w.cross(R * cc) + R * cv;
    L[k].head<3>() = m * vg;
    L[k].tail<3>() = R * (I * (R.transpose() * w)) + R * s + m * (R * cc).cross(v) + m * p.cross(vg);
  }
  Vec d = t.s.getMomentaDotFromForces(x, u);
  closeM((L[1] - L[0]) / (2 * h), d, 1e-5, "momentum-balance");
  closeM(t.s.getMomentaDotFromKinematics(x, u), d, 1e-8, "momentum-kinematics");
  c.note(x);
  c.nontrivial = true;
}
