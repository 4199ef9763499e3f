// C10: tilt/yaw merging and extraction against their geometric definitions.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vmon;
namespace so = stateObservation;
namespace k = stateObservation::kine;

namespace
{
const V3 ez(0, 0, 1);
/// rotations of all kinds: generic, pure yaw, tiny tilts, gimbal lock, upside down
M3 anyRot(Rng & r)
{
  switch(r.i(0, 7))
  {
    case 0:
      return ref::rz(r.d(-M_PI, M_PI));
    case 1:
      return ref::rz(r.d(-M_PI, M_PI)) * ref::exp3(r.v3(r.lg(1e-9, 1e-2)));
    case 2:
      return ref::rz(r.d(-M_PI, M_PI)) * ref::ry(r.sgn() * M_PI / 2) * ref::rx(r.d(-M_PI, M_PI));
    case 3:
      return ref::rz(r.d(-M_PI, M_PI)) * ref::ry(r.sgn() * (M_PI / 2 - r.lg(1e-6, 1e-1))) * ref::rx(r.d(-M_PI, M_PI));
    case 4:
      return ref::rx(M_PI - r.sgn() * r.lg(1e-6, 1e-1)) * ref::rz(r.d(-M_PI, M_PI));
    default:
      return ref::qmat(r.quat());
  }
}
} // namespace

SUITE(merge_with_axis, 30000, 800000)
{
  Rng & r = c.r;
  M3 R1 = anyRot(r), R2 = anyRot(r);
  if(r.b(0.1)) R2 = R1;
  if(r.b(0.1)) R2 = ref::rz(r.d(-M_PI, M_PI)) * R1; // same tilt
  double a = r.b(0.4) ? 0 : r.d(-M_PI, M_PI);
  V3 m(std::cos(a), std::sin(a), 0);
  if(a != 0 && r.b(0.3))
  {
    // exactly an axis of the horizontal plane
    m = r.b() ? V3::UnitX() : V3::UnitY();
    m *= double(r.sgn());
    a = std::atan2(m(1), m(0));
  }
  c.note(R1);
  c.note(R2);
  c.nontrivial = true;
  c.say("R1=" + mstr(R1) + " R2=" + mstr(R2) + " axis angle " + str(a));
  V3 tilt = R1.transpose() * ez;
  tilt.normalize();
  V3 ml = R2.transpose() * m;
  double sing = ml.cross(tilt).norm();
  if(sing < 1e-5)
  {
    count("close-to-singular");
    return;
  }
  double tol = 1e-12 + 1e-14 / sing;
  M3 M[3];
  int n = 0;
  M[n++] = k::mergeTiltWithYaw(tilt, R2, m);
  M[n++] = k::mergeRoll1Pitch1WithYaw2(R1, R2, m);
  if(a == 0)
  {
    M[n++] = r.b() ? M3(k::mergeTiltWithYaw(tilt, R2)) : M3(k::mergeRoll1Pitch1WithYaw2(R1, R2));
    count("default-axis");
  }
  for(int i = 0; i < n; ++i)
  {
    const M3 & R = M[i];
    finite(R, "merge-axis");
    ok(ref::isRot(R, tol * 10), "merge-axis-proper", mstr(R));
    closeM(R.transpose() * ez, tilt, tol, "merge-axis-tilt");
    // the heading of the reference vector is the one it has in R2: the image of ml is in the vertical plane of m
    V3 im = R * ml;
    ok(std::fabs(im.dot(m.cross(ez))) <= tol, "merge-axis-heading", mstr(im.transpose()));
    ok(im.dot(m) > 0, "merge-axis-heading-side", mstr(im.transpose()));
    if((R1.transpose() * ez - R2.transpose() * ez).norm() < 1e-14)
    {
      closeM(R, R2, 1e-9 + tol, "merge-axis-same-tilt");
      count("same-tilt");
    }
  }
  if(a == 0 && std::fabs(R1(2, 0)) < 0.999 && std::fabs(R2(2, 0)) < 0.999)
  {
    // default axis: the roll and pitch are the ones of the first rotation (up to the rpy of the merged rotation)
    V3 e = k::rotationMatrixToRollPitchYaw(M[0]), e1 = k::rotationMatrixToRollPitchYaw(R1);
    close(ref::wrapPi(e(0) - e1(0)), 0, 1e-9 + 100 * tol, "merge-axis-roll");
    close(e(1), e1(1), 1e-9 + 100 * tol, "merge-axis-pitch");
  }
}

SUITE(merge_singular, 5000, 100000)
{
  Rng & r = c.r;
  double a = r.b(0.5) ? 0 : r.i(0, 3) * M_PI / 2;
  V3 m(std::round(std::cos(a)), std::round(std::sin(a)), 0);
  M3 R2 = r.b() ? M3(M3::Identity()) : anyRot(r);
  V3 ml = R2.transpose() * m;
  V3 tilt = r.sgn() * ml;
  c.note(R2);
  c.nontrivial = true;
  bool thrown = false;
  M3 R;
  try
  {
    R = k::mergeTiltWithYaw(tilt, R2, m);
  }
  catch(const std::invalid_argument &)
  {
    thrown = true;
  }
  // either reported, or (rounding) still a rotation with the requested tilt
  if(!thrown)
  {
    count("not-reported");
    ok(ref::isRot(R, 1e-6), "singular-merge", mstr(R));
    closeM(R.transpose() * ez, tilt, 1e-6, "singular-merge-tilt");
  }
  else
    count("reported");
  if(R2.isIdentity(0)) ok(thrown, "singular-merge-reported");
  // the axis agnostic version has no singularity there
  M3 S = k::mergeTiltWithYawAxisAgnostic(tilt, R2);
  ok(ref::isRot(S, 1e-9), "agnostic-merge-at-singularity", mstr(S));
  closeM(S.transpose() * ez, tilt, 1e-9, "agnostic-merge-at-singularity-tilt");
}

SUITE(merge_axis_agnostic, 30000, 800000)
{
  Rng & r = c.r;
  M3 R1 = anyRot(r), R2 = anyRot(r);
  if(r.b(0.1)) R2 = R1;
  if(r.b(0.1)) R2 = ref::rz(r.d(-M_PI, M_PI)) * R1;
  c.note(R1);
  c.note(R2);
  c.nontrivial = true;
  c.say("R1=" + mstr(R1) + " R2=" + mstr(R2));
  V3 tilt = (R1.transpose() * ez).normalized();
  M3 M[2] = {k::mergeTiltWithYawAxisAgnostic(tilt, R2), k::mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R2)};
  V3 h = R2 * tilt; // the vertical of the first one seen by the second one
  double hs = h.head<2>().norm();
  for(int i = 0; i < 2; ++i)
  {
    const M3 & R = M[i];
    finite(R, "merge-agnostic");
    double tol = 1e-11 + 1e-15 / std::max(hs, 1e-6);
    ok(ref::isRot(R, std::min(tol * 10, 1e-7)), "merge-agnostic-proper", mstr(R));
    closeM(R.transpose() * ez, tilt, tol, "merge-agnostic-tilt");
    if(hs > 1e-6)
    {
      // the horizontal vector that stays horizontal keeps its image
      V3 m(h(1) / hs, -h(0) / hs, 0);
      closeM(R * (R2.transpose() * m), m, 10 * tol, "merge-agnostic-heading");
      // hence it is the rotation of this tilt the closest to R2
      close(ref::log3(R * R2.transpose()).norm(), std::atan2(hs, h(2)), 1e-6 + 100 * tol, "merge-agnostic-minimal");
    }
    else if(h(2) > 0)
      closeM(R, R2, 1e-5, "merge-agnostic-same-tilt");
  }
}

SUITE(yaw_extraction, 30000, 800000)
{
  Rng & r = c.r;
  // angle around an axis
  V3 ax = r.unit(), any = r.unit();
  V3 v = ax.cross(any);
  if(v.norm() < 1e-2) return;
  v.normalize();
  double th = r.d(-M_PI + 1e-6, M_PI - 1e-6);
  V3 w = ax.cross(v);
  // a rotation which brings v anywhere in the half plane at angle th
  double el = r.d(-1.4, 1.4);
  V3 dir = std::cos(el) * (std::cos(th) * v + std::sin(th) * w) + std::sin(el) * ax;
  V3 x2 = dir, y2 = x2.unitOrthogonal();
  y2 = ref::exp3(r.d(-M_PI, M_PI) * x2) * y2;
  M3 F1, F2;
  F1 << v, w, v.cross(w);
  F2 << x2, y2, x2.cross(y2);
  M3 R = F2 * F1.transpose();
  c.note(R);
  c.nontrivial = true;
  c.say("angle " + str(th) + " elevation " + str(el) + " axis " + mstr(ax.transpose()));
  close(ref::wrapPi(k::rotationMatrixToAngle(R, ax, v) - th), 0, 1e-9, "angle-around-axis");
  // yaw: heading of the image of a horizontal vector
  double a = r.d(-M_PI, M_PI), yaw = r.d(-M_PI + 1e-6, M_PI - 1e-6);
  M3 Ry = ref::rz(yaw) * ref::rz(a) * ref::ry(el) * ref::rx(r.d(-M_PI, M_PI)) * ref::rz(-a);
  V2 hv(std::cos(a), std::sin(a));
  close(ref::wrapPi(k::rotationMatrixToYaw(Ry, hv) - yaw), 0, 1e-9, "yaw-of-vector");
  M3 Rx = ref::rz(yaw) * ref::ry(el) * ref::rx(r.d(-M_PI, M_PI));
  close(ref::wrapPi(k::rotationMatrixToYaw(Rx) - yaw), 0, 1e-9, "yaw");
  close(ref::wrapPi(k::rotationMatrixToYaw(Rx, V2(1, 0)) - yaw), 0, 1e-9, "yaw-ex");
  close(k::rotationMatrixToRollPitchYaw(Rx)(2), k::rotationMatrixToYaw(Rx), 1e-9, "yaw-vs-rpy");
  // axis agnostic: R = Rz(yaw) exp(alpha h), h horizontal
  double al = r.b(0.2) ? 0 : r.sgn() * (r.b(0.3) ? r.lg(1e-5, 1e-1) : r.d(0, M_PI - 1e-3));
  M3 Rh = ref::rz(yaw) * ref::exp3(al * V3(hv(0), hv(1), 0));
  double tol = al == 0 ? 1e-9 : 1e-9 + 1e-13 / std::fabs(std::sin(al));
  close(ref::wrapPi(k::rotationMatrixToYawAxisAgnostic(Rh) - yaw), 0, tol, "yaw-agnostic", "tilt " + str(al));
  // invariant vectors
  V3 iv = k::getInvariantHorizontalVector(Rh);
  ok(iv.norm() > 0, "invariant-horizontal-nonzero");
  close(iv(2), 0, 0, "invariant-horizontal");
  close((Rh * iv)(2), 0, 1e-12, "invariant-horizontal-image");
  V3 tilt = r.b(0.2) ? V3(Rh.transpose() * ez) : r.unit();
  V3 io = k::getInvariantOrthogonalVector(Rh, tilt);
  ok(io.norm() > 0, "invariant-orthogonal-nonzero");
  close(io(2), 0, 0, "invariant-orthogonal");
  close((Rh.transpose() * io).dot(tilt), 0, 1e-12, "invariant-orthogonal-tilt");
  // pure yaw test
  ok(k::isPureYaw(ref::rz(yaw)), "pure-yaw");
  if(std::fabs(al) > 1e-4) ok(!k::isPureYaw(Rh), "not-pure-yaw", str(al));
  double ra = c.noRandom ? 0 : k::randomAngle();
  ok(ra >= -M_PI && ra <= M_PI, "random-angle", str(ra));
}
