// Independent reference for moving frames: homogeneous matrices with their first two time derivatives.
#pragma once
#include "kfref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
namespace kinref
{
using namespace vmon;
namespace so = stateObservation;
namespace k = stateObservation::kine;
typedef Eigen::Matrix4d M4;

struct Kin
{
  V3 p, v, a, w, al;
  M3 R;
};
inline V3 vee(const M3 & S)
{
  return V3(0.5 * (S(2, 1) - S(1, 2)), 0.5 * (S(0, 2) - S(2, 0)), 0.5 * (S(1, 0) - S(0, 1)));
}
struct Jet
{
  M4 T, D, DD;
  explicit Jet(const Kin & x)
  {
    T.setZero();
    D.setZero();
    DD.setZero();
    M3 W = ref::skew(x.w), A = ref::skew(x.al);
    T.topLeftCorner<3, 3>() = x.R;
    D.topLeftCorner<3, 3>() = W * x.R;
    DD.topLeftCorner<3, 3>() = (A + W * W) * x.R;
    T.topRightCorner<3, 1>() = x.p;
    D.topRightCorner<3, 1>() = x.v;
    DD.topRightCorner<3, 1>() = x.a;
    T(3, 3) = 1;
  }
  Jet() {}
  Jet operator*(const Jet & o) const
  {
    Jet r;
    r.T = T * o.T;
    r.D = D * o.T + T * o.D;
    r.DD = DD * o.T + 2 * D * o.D + T * o.DD;
    return r;
  }
  Jet inv() const
  {
    Jet r;
    r.T = T.inverse();
    r.D = -r.T * D * r.T;
    r.DD = -r.D * D * r.T - r.T * DD * r.T - r.T * D * r.D;
    return r;
  }
  Kin kin() const
  {
    Kin x;
    x.R = T.topLeftCorner<3, 3>();
    M3 Rd = D.topLeftCorner<3, 3>(), Rdd = DD.topLeftCorner<3, 3>();
    x.w = vee(Rd * x.R.transpose());
    x.al = vee(Rdd * x.R.transpose() + Rd * Rd.transpose());
    x.p = T.topRightCorner<3, 1>();
    x.v = D.topRightCorner<3, 1>();
    x.a = DD.topRightCorner<3, 1>();
    return x;
  }
};
inline Kin randKin(Rng & r, double scale = 1)
{
  Kin x;
  double s = scale * r.lg(1e-2, 1e1);
  x.p = r.v3(s);
  x.v = r.v3(s);
  x.a = r.v3(s);
  x.w = r.v3(r.lg(1e-2, 1e1));
  x.al = r.v3(r.lg(1e-2, 1e1));
  if(r.b(0.05)) x.w.setZero();
  if(r.b(0.05)) x.p.setZero();
  x.R = ref::exp3(r.rotvec(true));
  return x;
}
typedef k::Kinematics::Flags F;
/// fills a kinematics with the components of the mask, with the orientation in any representation
inline k::Kinematics make(Rng & r, const Kin & x, unsigned mask, bool dirty = false)
{
  k::Kinematics o;
  (void)dirty;
  if(mask & F::position) o.position = x.p;
  if(mask & F::orientation)
  {
    so::Quaternion q(x.R);
    if(r.b()) q.coeffs() *= -1;
    switch(r.i(0, 2))
    {
      case 0:
        o.orientation = q;
        break;
      case 1:
        o.orientation = so::Matrix3(x.R);
        break;
      default:
        o.orientation.setValue(q, so::Matrix3(x.R));
    }
  }
  if(mask & F::linVel) o.linVel = x.v;
  if(mask & F::angVel) o.angVel = x.w;
  if(mask & F::linAcc) o.linAcc = x.a;
  if(mask & F::angAcc) o.angAcc = x.al;
  return o;
}
inline unsigned maskOf(const k::Kinematics & o)
{
  return (o.position.isSet() ? F::position : 0u) | (o.orientation.isSet() ? F::orientation : 0u)
         | (o.linVel.isSet() ? F::linVel : 0u) | (o.angVel.isSet() ? F::angVel : 0u) | (o.linAcc.isSet() ? F::linAcc : 0u)
         | (o.angAcc.isSet() ? F::angAcc : 0u);
}
/// the known components have the value of the reference
inline void same(const k::Kinematics & o, const Kin & x, double tol, const char * key, const std::string & ctx = "")
{
  if(o.position.isSet()) closeM(o.position(), x.p, tol, key, "position " + ctx);
  if(o.orientation.isSet()) rotClose(o.orientation.toMatrix3(), x.R, tol, key, "orientation " + ctx);
  if(o.linVel.isSet()) closeM(o.linVel(), x.v, tol, key, "linVel " + ctx);
  if(o.angVel.isSet()) closeM(o.angVel(), x.w, tol, key, "angVel " + ctx);
  if(o.linAcc.isSet()) closeM(o.linAcc(), x.a, tol, key, "linAcc " + ctx);
  if(o.angAcc.isSet()) closeM(o.angAcc(), x.al, tol, key, "angAcc " + ctx);
}
/// a smooth motion known in closed form
struct Motion
{
  V3 p0, p1, p2, ax, ax2;
  M3 R0;
  double w, w2, ph;
  explicit Motion(Rng & r)
  {
    p0 = r.v3(1);
    p1 = r.v3(1);
    p2 = r.v3(0.5);
    ax = r.v3(1);
    ax2 = r.v3(1);
    R0 = ref::exp3(r.rotvec());
    w = r.d(0.2, 3);
    w2 = r.d(0.2, 3);
    ph = r.d(-3, 3);
  }
  V3 p(double t) const
  {
    return p0 + p1 * std::sin(w * t + ph) + p2 * t * t;
  }
  M3 R(double t) const
  {
    return ref::exp3(ax * std::sin(w2 * t)) * R0 * ref::exp3(ax2 * t);
  }
  Kin kin(double t) const
  {
    // closed-form derivatives of the position, angular ones by composition of rotations
    Kin x;
    x.p = p(t);
    x.v = p1 * w * std::cos(w * t + ph) + 2 * t * p2;
    x.a = -p1 * w * w * std::sin(w * t + ph) + 2 * p2;
    M3 A = ref::exp3(ax * std::sin(w2 * t)) * R0; // R = A(t) B(t)
    V3 wa = ax * w2 * std::cos(w2 * t), ala = -ax * w2 * w2 * std::sin(w2 * t);
    V3 wb = A * ax2; // B turns around ax2 at constant speed in the frame A
    x.R = R(t);
    x.w = wa + wb;
    x.al = ala + wa.cross(wb);
    return x;
  }
};
inline double mag(const Kin & x)
{
  return 1 + x.p.norm() * (1 + x.w.norm()) * (1 + x.w.norm()) + x.p.norm() * x.al.norm() + x.v.norm() * (1 + x.w.norm())
         + x.a.norm() + x.w.norm() * x.w.norm() + x.al.norm();
}
} // namespace kinref
