// Access to the kinetics observer's own model functions, and an independent rigid-body reference for them.
#pragma once
#include "kinref.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
namespace koref
{
using namespace kinref;
typedef so::KineticsObserver Obs;
struct KO : public Obs
{
  KO(unsigned nc, unsigned ni) : Obs(nc, ni) {}
  Vec f(const Vec & x)
  {
    return stateDynamics(x, Vec(), 0);
  }
  /// called on every evaluation of the measurement model made by the filter
  std::function<void(const Vec &, const Vec &)> watch;
  virtual so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k)
  {
    so::Vector y = Obs::measureDynamics(x, u, k);
    if(watch) watch(x, y);
    return y;
  }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
/// published layout of the state and of its tangent space
struct Layout
{
  long nc, ni;
  long bias(long i) const
  {
    return 13 + 3 * i;
  }
  long wrench() const
  {
    return 13 + 3 * ni;
  }
  long contact(long i) const
  {
    return 19 + 3 * ni + 13 * i;
  }
  long size() const
  {
    return 19 + 3 * ni + 13 * nc;
  }
  long biasT(long i) const
  {
    return 12 + 3 * i;
  }
  long wrenchT() const
  {
    return 12 + 3 * ni;
  }
  long contactT(long i) const
  {
    return 18 + 3 * ni + 12 * i;
  }
  long sizeT() const
  {
    return 18 + 3 * ni + 12 * nc;
  }
};
inline Eigen::Vector4d q4(const M3 & R, double sign = 1)
{
  Q4 q(R);
  if(q.w() < 0) q.coeffs() *= -1;
  return sign * q.normalized().coeffs();
}
inline M3 rotOf(const Vec & x, long i)
{
  return ref::qmat(x(i + 3), x(i), x(i + 1), x(i + 2));
}
struct Inertial
{
  double m;
  V3 c, cd, cdd, s, sd, F, T; // F, T additional wrench
  M3 I, Id;
  Inertial() : m(50)
  {
    c.setZero();
    cd.setZero();
    cdd.setZero();
    s.setZero();
    sd.setZero();
    F.setZero();
    T.setZero();
    I.setIdentity();
    Id.setZero();
  }
};
struct ContactRef
{
  k::Kinematics local;
  M3 kp, kd, kpr, kdr;
};
/// total local wrench on the frame
inline void wrenchOf(const Layout & L, const Vec & x, const Inertial & b, const std::map<int, ContactRef> & cs, V3 & F, V3 & T)
{
  F = b.F + x.segment<3>(L.wrench());
  T = b.T + x.segment<3>(L.wrench() + 3);
  for(std::map<int, ContactRef>::const_iterator i = cs.begin(); i != cs.end(); ++i)
  {
    M3 R = i->second.local.orientation.toMatrix3();
    V3 f = R * x.segment<3>(L.contact(i->first) + 7);
    F += f;
    T += R * x.segment<3>(L.contact(i->first) + 10) + V3(i->second.local.position()).cross(f);
  }
}
/// Newton-Euler in the world frame, solved for the two accelerations of the frame
inline void newtonEuler(const M3 & R, const V3 & w, const Inertial & b, const V3 & F, const V3 & T, V3 & a, V3 & al)
{
  V3 rc = R * b.c;
  M3 Iw = R * b.I * R.transpose(), Idw = R * b.Id * R.transpose();
  V3 fw = R * F, tw = R * T, sw = R * b.s;
  Eigen::Matrix<double, 6, 6> M;
  Eigen::Matrix<double, 6, 1> rhs;
  // m (a + al x rc + w x (w x rc) + 2 w x R cd + R cdd) = f - m g
  M.block<3, 3>(0, 0) = b.m * M3::Identity();
  M.block<3, 3>(0, 3) = -b.m * ref::skew(rc);
  rhs.head<3>() = fw - b.m * (ref::gravity() + w.cross(w.cross(rc)) + 2 * w.cross(R * b.cd) + R * b.cdd);
  // d/dt (Iw w + sw) + m rc x a = t - rc x m g
  M.block<3, 3>(3, 0) = b.m * ref::skew(rc);
  M.block<3, 3>(3, 3) = Iw;
  rhs.tail<3>() = tw - b.m * rc.cross(ref::gravity()) - w.cross(Iw * w + sw) - Idw * w - R * b.sd;
  Eigen::Matrix<double, 6, 1> s = M.fullPivLu().solve(rhs);
  a = s.head<3>();
  al = s.tail<3>();
}
inline Kin kinOfState(const Vec & x)
{
  Kin s;
  s.p = x.segment<3>(0);
  s.R = rotOf(x, 3);
  s.v = x.segment<3>(7);
  s.w = x.segment<3>(10);
  s.a.setZero();
  s.al.setZero();
  return s;
}
inline Kin kinOf(const k::Kinematics & o)
{
  Kin s;
  s.p = o.position();
  s.R = o.orientation.toMatrix3();
  s.v = o.linVel.isSet() ? V3(o.linVel()) : V3(V3::Zero());
  s.w = o.angVel.isSet() ? V3(o.angVel()) : V3(V3::Zero());
  s.a = o.linAcc.isSet() ? V3(o.linAcc()) : V3(V3::Zero());
  s.al = o.angAcc.isSet() ? V3(o.angAcc()) : V3(V3::Zero());
  return s;
}
} // namespace koref
