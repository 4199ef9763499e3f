// C09: integration and update of kinematics against the equations of motion.
#include "kinref.hpp"
using namespace kinref;

namespace
{
struct Part
{
  bool ps, vs, as;
};
/// what the documented update rule gives for one half (linear or angular) of the kinematics. T is the pose type,
/// plus(T,V3) moves it and minus(T1,T0) gives the displacement from T0 to T1
template<typename T, typename Plus, typename Minus>
void refUpdate(bool tp, T & p, bool tv, V3 & v, bool ta, V3 & a, bool np, const T & pn, bool nv, const V3 & vn, bool na,
               const V3 & an, double dt, bool fp, bool fv, bool fa, Plus plus, Minus minus, bool & accMonitored)
{
  T p0 = p;
  V3 v0 = v, a0 = a;
  accMonitored = true;
  bool diff = tp && np, velFromPose = fv && !nv && diff;
  // acceleration (the new one is not used to move from the previous sample to this one)
  V3 amove = a0;
  V3 aNew = a0;
  if(fa)
  {
    if(na)
      aNew = an;
    else if(tv && nv)
      amove = aNew = (vn - v0) / dt;
    else if(tv && velFromPose)
      aNew = (minus(pn, p0) / dt - v0) / dt;
    else if(diff)
      accMonitored = false;
  }
  if(fv)
  {
    if(nv)
      v = vn;
    else if(velFromPose)
      v = minus(pn, p0) / dt;
    else if(ta)
      v = v0 + a0 * dt;
  }
  if(fp)
  {
    if(np)
      p = pn;
    else
    {
      V3 d = V3::Zero();
      if(tv) d += v0 * dt;
      if(ta) d += amove * dt * dt / 2;
      p = plus(p0, d);
    }
  }
  if(fa) a = aNew;
}
bool allowed(bool tp, bool tv, bool ta, bool np, bool nv, bool na, bool fp, bool fv, bool fa)
{
  bool diff = tp && np;
  if(fp && !np && !tp) return false;
  if(fv && !nv && !diff && !tv) return false;
  if(fa && !na && !(tv && nv) && !diff && !ta) return false;
  return true;
}
} // namespace

SUITE(integrate_all, 30000, 800000)
{
  Rng & r = c.r;
  Kin x = randKin(r);
  unsigned m = r.b(0.4) ? unsigned(F::all) : unsigned(r.i(0, 63));
  double dt = r.lg(1e-4, 1e-1);
  k::Kinematics a = make(r, x, m);
  c.note(uint64_t(m));
  c.note(x.p);
  c.note(dt);
  c.nontrivial = m == F::all;
  a.integrate(dt);
  Kin e = x;
  V3 al = (m & F::angAcc) ? x.al : V3(V3::Zero()), la = (m & F::linAcc) ? x.a : V3(V3::Zero());
  if(m & F::angVel)
  {
    e.R = ref::exp3(x.w * dt + al * dt * dt / 2) * x.R;
    e.w = x.w + al * dt;
  }
  if(m & F::linVel)
  {
    e.p = x.p + x.v * dt + la * dt * dt / 2;
    e.v = x.v + la * dt;
  }
  eq(maskOf(a), m, "integrate-known");
  same(a, e, 1e-10, "integrate", "mask " + str(m));
  // the free functions
  {
    so::Vector3 p = x.p, v = x.v;
    k::integrateKinematics(p, v, dt);
    closeM(p, x.p + x.v * dt, 1e-12, "free-pos");
    p = x.p;
    k::integrateKinematics(p, v, so::Vector3(x.a), dt);
    closeM(p, x.p + x.v * dt + x.a * dt * dt / 2, 1e-12, "free-pos-acc");
    closeM(v, x.v + x.a * dt, 1e-12, "free-vel");
    M3 R1 = ref::exp3(x.w * dt) * x.R, R2 = ref::exp3(x.w * dt + x.al * dt * dt / 2) * x.R;
    V3 p1 = x.p + x.v * dt, p2 = p1 + x.a * dt * dt / 2, v2 = x.v + x.a * dt, w2 = x.w + x.al * dt;
    so::Matrix3 R = x.R;
    so::Quaternion q(x.R);
    so::Vector3 w = x.w;
    k::integrateKinematics(R, w, dt);
    rotClose(R, R1, 1e-10, "free-matrix");
    k::integrateKinematics(q, w, dt);
    rotClose(ref::qmat(q), R1, 1e-10, "free-quaternion");
    closeM(w, x.w, 0, "free-angvel-kept");
    R = x.R;
    k::integrateKinematics(R, w, so::Vector3(x.al), dt);
    rotClose(R, R2, 1e-10, "free-matrix-acc");
    closeM(w, w2, 1e-12, "free-angvel");
    w = x.w;
    q = so::Quaternion(x.R);
    k::integrateKinematics(q, w, so::Vector3(x.al), dt);
    rotClose(ref::qmat(q), R2, 1e-10, "free-quaternion-acc");
    closeM(w, w2, 1e-12, "free-angvel-q");
    p = x.p;
    v = x.v;
    w = x.w;
    R = x.R;
    k::integrateKinematics(p, v, so::Vector3(x.a), R, w, so::Vector3(x.al), dt);
    closeM(p, p2, 1e-12, "free-all-pos");
    closeM(v, v2, 1e-12, "free-all-vel");
    rotClose(R, R2, 1e-10, "free-all-ori");
    closeM(w, w2, 1e-12, "free-all-angvel");
    p = x.p;
    v = x.v;
    w = x.w;
    q = so::Quaternion(x.R);
    k::integrateKinematics(p, v, so::Vector3(x.a), q, w, so::Vector3(x.al), dt);
    closeM(p, p2, 1e-12, "free-allq-pos");
    closeM(v, v2, 1e-12, "free-allq-vel");
    rotClose(ref::qmat(q), R2, 1e-10, "free-allq-ori");
    closeM(w, w2, 1e-12, "free-allq-angvel");
    p = x.p;
    v = x.v;
    w = x.w;
    R = x.R;
    k::integrateKinematics(p, v, R, w, dt);
    closeM(p, p1, 1e-12, "free-vel-pos");
    rotClose(R, R1, 1e-10, "free-vel-ori");
    p = x.p;
    q = so::Quaternion(x.R);
    k::integrateKinematics(p, v, q, w, dt);
    closeM(p, p1, 1e-12, "free-velq-pos");
    rotClose(ref::qmat(q), R1, 1e-10, "free-velq-ori");
  }
  // against the constant acceleration motion, by small exact sub-steps
  if(m == F::all && r.b(0.05))
  {
    M3 R = x.R;
    int n = 200;
    double h = dt / n;
    for(int i = 0; i < n; ++i) R = ref::exp3((x.w + x.al * ((i + 0.5) * h)) * h) * R;
    double bound = x.w.norm() * x.al.norm() * dt * dt * dt + 1e-8;
    ok(ref::dist(R, a.orientation.toMatrix3()) <= bound, "integrate-order", str(ref::dist(R, a.orientation.toMatrix3())));
  }
}

SUITE(update_sequences, 15000, 400000)
{
  Rng & r = c.r;
  Kin x = randKin(r);
  unsigned mt = r.b(0.3) ? unsigned(F::all) : unsigned(r.i(0, 63));
  k::Kinematics a = make(r, x, mt);
  long steps = r.i(1, 8);
  auto plusL = [](const V3 & p, const V3 & d) { return V3(p + d); };
  auto minusL = [](const V3 & p1, const V3 & p0) { return V3(p1 - p0); };
  auto plusR = [](const M3 & p, const V3 & d) { return M3(ref::exp3(d) * p); };
  auto minusR = [](const M3 & p1, const M3 & p0) { return ref::log3(p1 * p0.transpose()); };
  for(long s = 0; s < steps; ++s)
  {
    double dt = r.lg(1e-3, 1);
    Kin n;
    n.p = x.p + r.v3(1);
    n.v = x.v + r.v3(1);
    n.a = x.a + r.v3(1);
    n.w = x.w + r.v3(1);
    n.al = x.al + r.v3(1);
    n.R = ref::exp3(r.unit() * r.d(0, 2.5)) * x.R;
    unsigned mn = r.b(0.15) ? unsigned(F::all) : unsigned(r.i(0, 63));
    unsigned f = r.b(0.5) ? unsigned(F::all) : unsigned(r.i(0, 63));
#define B_(m, n) bool((m)&F::n)
    while(!allowed(B_(mt, position), B_(mt, linVel), B_(mt, linAcc), B_(mn, position), B_(mn, linVel), B_(mn, linAcc),
                   B_(f, position), B_(f, linVel), B_(f, linAcc))
          || !allowed(B_(mt, orientation), B_(mt, angVel), B_(mt, angAcc), B_(mn, orientation), B_(mn, angVel),
                      B_(mn, angAcc), B_(f, orientation), B_(f, angVel), B_(f, angAcc)))
    {
      if(r.b())
        mn |= 1u << r.i(0, 5);
      else
        f &= ~(1u << r.i(0, 5));
    }
    c.note(uint64_t((mt * 64 + mn) * 64 + f));
    c.say(" step: known " + str(mt) + " new " + str(mn) + " flags " + str(f) + " dt " + str(dt));
    count("transition", 1);
    bool ml, ma;
    Kin e = x;
    refUpdate(B_(mt, position), e.p, B_(mt, linVel), e.v, B_(mt, linAcc), e.a, B_(mn, position), n.p, B_(mn, linVel), n.v,
              B_(mn, linAcc), n.a, dt, B_(f, position), B_(f, linVel), B_(f, linAcc), plusL, minusL, ml);
    refUpdate(B_(mt, orientation), e.R, B_(mt, angVel), e.w, B_(mt, angAcc), e.al, B_(mn, orientation), n.R,
              B_(mn, angVel), n.w, B_(mn, angAcc), n.al, dt, B_(f, orientation), B_(f, angVel), B_(f, angAcc), plusR,
              minusR, ma);
    k::Kinematics nk = make(r, n, mn);
    const k::Kinematics & ret = a.update(nk, dt, F::Byte(f));
    eq(&ret, (const k::Kinematics *)&a, "update-returns-itself");
    eq(maskOf(nk), mn, "update-operand");
    same(nk, n, 1e-12, "update-operand");
    eq(maskOf(a), f, "update-known", "known " + str(mt) + " new " + str(mn) + " flags " + str(f));
    c.nontrivial = true;
    if(!ml && a.linAcc.isSet())
    {
      count("acc-from-poses-only");
      finite(a.linAcc(), "update-acc-finite");
      e.a = a.linAcc();
    }
    if(!ma && a.angAcc.isSet())
    {
      finite(a.angAcc(), "update-acc-finite");
      // directed along the displacement
      V3 d = minusR(n.R, x.R);
      ok(d.dot(a.angAcc()) >= -1e-9 * d.norm() * a.angAcc().norm(), "update-angacc-direction");
      e.al = a.angAcc();
    }
    same(a, e, 2e-7 * (1 + 1 / (dt * dt)), "update",
         "known " + str(mt) + " new " + str(mn) + " flags " + str(f) + " dt " + str(dt));
    // the ones that are known in the new sample are copied exactly
    k::Kinematics cp = a;
    if(!B_(mn, position)) cp.position.reset();
    if(!B_(mn, orientation)) cp.orientation.reset();
    if(!B_(mn, linVel)) cp.linVel.reset();
    if(!B_(mn, angVel)) cp.angVel.reset();
    if(!B_(mn, linAcc)) cp.linAcc.reset();
    if(!B_(mn, angAcc)) cp.angAcc.reset();
    same(cp, n, 1e-12, "update-copy");
    // restart from the value, to bound the accumulation of errors
    x = e;
    mt = f;
    if(a.orientation.isSet()) x.R = a.orientation.toMatrix3();
    if(a.position.isSet()) x.p = a.position();
    if(a.linVel.isSet()) x.v = a.linVel();
    if(a.angVel.isSet()) x.w = a.angVel();
    if(a.linAcc.isSet()) x.a = a.linAcc();
    if(a.angAcc.isSet()) x.al = a.angAcc();
#undef B_
  }
}

SUITE(reconstruction, 4000, 80000)
{
  // tracking a smooth motion from sampled poses only: velocity and acceleration to the order of the step
  Rng & r = c.r;
  Motion m(r);
  double t = r.d(-2, 2), dt = r.lg(1e-4, 2e-3);
  c.note(t);
  c.note(dt);
  c.nontrivial = true;
  k::Kinematics a = make(r, m.kin(t), F::all);
  int n = int(r.i(4, 12));
  unsigned known = F::position | F::orientation;
  if(r.b(0.3)) known |= F::linVel | F::angVel;
  for(int i = 1; i <= n; ++i) a.update(make(r, m.kin(t + i * dt), known), dt);
  Kin e = m.kin(t + n * dt);
  double B = 200 * dt; // bounds the third derivatives of the generated motions
  closeM(a.linVel(), e.v, B, "track-linvel");
  closeM(a.angVel(), e.w, B, "track-angvel");
  closeM(a.linAcc(), e.a, B + 1e-9 / (dt * dt), "track-linacc");
  closeM(a.angAcc(), e.al, B + 1e-9 / (dt * dt), "track-angacc");
  // and the array version
  long i0 = r.i(-5, 1000);
  if(r.b(0.4)) n = int(r.i(-1, 3)); // short ones, down to none
  so::IndexedVectorArray po;
  for(int i = 0; i <= n; ++i)
  {
    Kin x = m.kin(t + i * dt);
    so::Vector6 v;
    v << x.p, ref::log3(x.R);
    po.setValue(v, i0 + i);
  }
  so::IndexedVectorArray s = k::reconstructStateTrajectory(po, dt);
  eq(s.size(), po.size(), "trajectory-size");
  if(n >= 0) eq(long(s.getFirstIndex()), i0, "trajectory-first");
  for(int i = 0; i <= n; ++i)
  {
    Kin x = m.kin(t + i * dt);
    Vec v = s[i0 + i];
    eq(v.size(), Eigen::Index(18), "trajectory-vector");
    closeM(v.segment<3>(0), x.p, 1e-12, "trajectory-pos");
    rotClose(ref::exp3(V3(v.segment<3>(3))), x.R, 1e-7, "trajectory-ori");
    if(i <= n - 1)
    {
      closeM(v.segment<3>(6), (m.kin(t + (i + 1) * dt).p - x.p) / dt, 1e-9, "trajectory-linvel-fd");
      closeM(v.segment<3>(6), x.v, B, "trajectory-linvel");
      closeM(v.segment<3>(9), x.w, B + 1e-9 / dt, "trajectory-angvel");
    }
    if(i <= n - 2)
    {
      closeM(v.segment<3>(12), x.a, B + 1e-9 / (dt * dt), "trajectory-linacc");
      closeM(v.segment<3>(15), x.al, B + 1e-9 / (dt * dt), "trajectory-angacc");
    }
  }
}
