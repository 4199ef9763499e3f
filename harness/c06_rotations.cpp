// C06: every rotation conversion, jacobian and homogeneous transform against an independent reference algebra.
#include "common.hpp"
#include <memory>
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vmon;
namespace so = stateObservation;
namespace k = stateObservation::kine;

namespace
{
/// exact half turns are included: the conversions must give one of the two vectors
V3 anyRotvec(Rng & r)
{
  if(r.b(0.05)) return V3(M_PI * V3::Unit(int(r.i(0, 2))) * r.sgn());
  if(r.b(0.05)) return V3(M_PI * r.unit());
  return r.rotvec(true);
}
void sameVecRot(const V3 & got, const V3 & w, const char * key)
{
  // w is any rotation vector, got must be the canonical representative: norm <= pi and same rotation
  finite(got, key);
  ok(got.norm() <= M_PI + 1e-9, key, "norm " + str(got.norm()));
  rotClose(ref::exp3(got), ref::exp3(w), 1e-9, key, "from " + mstr(w.transpose()) + " to " + mstr(got.transpose()));
  if(w.norm() < M_PI - 1e-3)
  {
    // the representative is then unique, with relative accuracy for the tiny ones
    V3 e = got - w;
    ok(e.norm() <= 1e-9 * w.norm() + 1e-12 * std::min(1., 1e3 * w.norm()) + 1e-15, key,
       "got " + mstr(got.transpose()) + " expected " + mstr(w.transpose()));
  }
}
} // namespace

SUITE(conversions, 40000, 1000000)
{
  Rng & r = c.r;
  V3 w = anyRotvec(r);
  c.note(w);
  c.say("w=" + mstr(w.transpose()));
  M3 R = ref::exp3(w);
  c.nontrivial = w.norm() > 1e-9;
  count(w.norm() < 1e-4 ? "tiny" : w.norm() < M_PI - 1e-2 ? "moderate" : w.norm() < M_PI + 1e-6 ? "near-pi" : "multi-turn");
  // from the rotation vector
  so::AngleAxis aa = k::rotationVectorToAngleAxis(w);
  close(aa.axis().norm(), 1, 1e-9, "rotvec-to-angleaxis");
  rotClose(ref::exp3(aa.angle() * aa.axis()), R, 1e-9, "rotvec-to-angleaxis");
  rotClose(k::rotationVectorToRotationMatrix(w), R, 1e-9, "rotvec-to-matrix");
  so::Quaternion q = k::rotationVectorToQuaternion(w);
  close(q.norm(), 1, 1e-12, "rotvec-to-quaternion");
  rotClose(ref::qmat(q), R, 1e-9, "rotvec-to-quaternion");
  if(w.norm() < M_PI - 1e-3)
  {
    // tiny rotations are not lost: relative accuracy of the vector part
    ok((2 * V3(q.x(), q.y(), q.z()) - w).norm() <= 1e-9 * w.norm() + 0.5 * w.squaredNorm() + 1e-15, "rotvec-to-quaternion-tiny");
  }
  // back
  so::Quaternion qq(q.w(), q.x(), q.y(), q.z());
  if(r.b()) qq.coeffs() *= -1; // the same rotation
  sameVecRot(k::quaternionToRotationVector(qq), w, "quaternion-to-rotvec");
  sameVecRot(k::quaternionToRotationVector(so::Vector4(qq.coeffs())), w, "quaternion-to-rotvec");
  V3 fromR = k::rotationMatrixToRotationVector(R);
  finite(fromR, "matrix-to-rotvec");
  ok(fromR.norm() <= M_PI + 1e-9, "matrix-to-rotvec", str(fromR.norm()));
  rotClose(ref::exp3(fromR), R, 2e-7, "matrix-to-rotvec");
  close(k::scalarComponent(qq), qq.w(), 0, "scalar-component");
  closeM(k::vectorComponent(qq), V3(qq.x(), qq.y(), qq.z()), 0, "vector-component");
  // regulation
  Vec g = k::regulateRotationVector(w);
  eq(g.size(), Eigen::Index(3), "regulate");
  rotClose(ref::exp3(V3(g)), R, 1e-8, "regulate", mstr(g.transpose()));
  ok(g.norm() <= 1.5 * M_PI + 1e-9, "regulate", str(g.norm()));
  if(w.norm() > 1.5 * M_PI + 1e-9)
    ok(g.norm() <= M_PI + 1e-9, "regulate-range", str(g.norm()));
  else if(w.norm() < 1.5 * M_PI - 1e-9)
    closeM(g, w, 0, "regulate-identity");
  Vec g2 = k::regulateOrientationVector(w);
  closeM(g2, g, 0, "regulate-old-name");
}

SUITE(roll_pitch_yaw, 30000, 800000)
{
  Rng & r = c.r;
  double cap = r.b(0.3) ? 1.5707 : 1.5; // stay out of the exact gimbal lock
  double roll, pitch, yaw;
  switch(r.i(0, 3))
  {
    case 0:
      roll = r.d(-M_PI, M_PI);
      pitch = r.d(-cap, cap);
      yaw = r.d(-M_PI, M_PI);
      break;
    case 1:
      roll = r.b() ? 0 : r.sgn() * r.lg(1e-10, 1e-3);
      pitch = r.b() ? 0 : r.sgn() * r.lg(1e-10, 1e-3);
      yaw = r.b() ? 0 : r.sgn() * (M_PI - r.lg(1e-6, 1e-1));
      break;
    default:
      roll = r.sgn() * (M_PI - r.lg(1e-6, 1));
      pitch = r.sgn() * (cap - r.lg(1e-6, 1));
      yaw = r.d(-M_PI, M_PI);
  }
  c.note(roll);
  c.note(pitch);
  c.note(yaw);
  c.say("rpy=" + str(roll) + " " + str(pitch) + " " + str(yaw));
  c.nontrivial = true;
  M3 R = ref::rz(yaw) * ref::ry(pitch) * ref::rx(roll);
  V3 rpy(roll, pitch, yaw);
  rotClose(k::rollPitchYawToRotationMatrix(roll, pitch, yaw), R, 1e-12, "rpy-to-matrix");
  rotClose(k::rollPitchYawToRotationMatrix(rpy), R, 1e-12, "rpy-to-matrix-vec");
  rotClose(ref::qmat(k::rollPitchYawToQuaternion(roll, pitch, yaw)), R, 1e-12, "rpy-to-quaternion");
  rotClose(ref::qmat(k::rollPitchYawToQuaternion(rpy)), R, 1e-12, "rpy-to-quaternion-vec");
  close(k::rollPitchYawToQuaternion(rpy).norm(), 1, 1e-12, "rpy-to-quaternion");
  double tol = 1e-14 / std::cos(pitch) + 1e-12;
  V3 out(7, 7, 7);
  V3 a = k::rotationMatrixToRollPitchYaw(R), b = k::rotationMatrixToRollPitchYaw(R, out);
  closeM(a, rpy, tol, "matrix-to-rpy");
  closeM(b, rpy, tol, "matrix-to-rpy-2");
  closeM(out, rpy, tol, "matrix-to-rpy-out");
  // any angles give the documented product, and the extraction gives the same rotation in the principal range
  V3 any(r.d(-20, 20), r.d(-20, 20), r.d(-20, 20));
  M3 Ra = ref::rz(any(2)) * ref::ry(any(1)) * ref::rx(any(0));
  rotClose(k::rollPitchYawToRotationMatrix(any), Ra, 1e-12, "rpy-any-to-matrix");
  if(std::fabs(std::cos(any(1))) > 1e-4)
  {
    V3 e = k::rotationMatrixToRollPitchYaw(Ra);
    ok(std::fabs(e(0)) <= M_PI + 1e-12 && std::fabs(e(1)) <= M_PI / 2 + 1e-12 && std::fabs(e(2)) <= M_PI + 1e-12, "rpy-range",
       mstr(e.transpose()));
    rotClose(ref::rz(e(2)) * ref::ry(e(1)) * ref::rx(e(0)), Ra, 1e-9, "rpy-reconstruct");
  }
}

SUITE(skew_and_homogeneous, 30000, 600000)
{
  Rng & r = c.r;
  V3 a = r.v3(r.lg(1e-6, 1e4)), b = r.v3(r.lg(1e-6, 1e4));
  c.note(a);
  c.nontrivial = true;
  so::Matrix3 S = so::Matrix3::Constant(3), S2 = so::Matrix3::Constant(3);
  double sc = a.norm() * b.norm() + 1e-30, sc2 = a.norm() * sc + 1e-30;
  ok((k::skewSymmetric(a) * b - a.cross(b)).norm() <= 1e-13 * sc, "skew");
  ok((k::skewSymmetric(a, S) * b - a.cross(b)).norm() <= 1e-13 * sc, "skew-ref");
  ok((S * b - a.cross(b)).norm() <= 1e-13 * sc, "skew-out");
  ok((k::skewSymmetric2(a) * b - a.cross(a.cross(b))).norm() <= 1e-13 * sc2, "skew2");
  ok((k::skewSymmetric2(a, S2) * b - a.cross(a.cross(b))).norm() <= 1e-13 * sc2, "skew2-ref");
  ok((S2 * b - a.cross(a.cross(b))).norm() <= 1e-13 * sc2, "skew2-out");
  // homogeneous matrices
  V3 w = r.rotvec(true), p = r.v3(r.lg(1e-3, 1e3));
  M3 R = ref::exp3(w);
  so::Vector6 v;
  v << p, w;
  c.say("p=" + mstr(p.transpose()) + " w=" + mstr(w.transpose()));
  so::Matrix4 M = k::vector6ToHomogeneousMatrix(v);
  rotClose(M.topLeftCorner<3, 3>(), R, 1e-9, "vec6-to-homo");
  closeM(M.topRightCorner<3, 1>(), p, 1e-15, "vec6-to-homo");
  closeM(M.bottomRows<1>(), Eigen::RowVector4d(0, 0, 0, 1), 0, "vec6-to-homo-last-row");
  so::Vector6 v2 = k::homogeneousMatrixToVector6(M);
  closeM(v2.head<3>(), p, 1e-15, "homo-to-vec6");
  ok(v2.tail<3>().norm() <= M_PI + 1e-9, "homo-to-vec6");
  rotClose(ref::exp3(v2.tail<3>()), R, 1e-7, "homo-to-vec6");
  so::Matrix4 I = k::invertHomoMatrix(M);
  closeM(I * M, so::Matrix4::Identity(), 1e-9 * (1 + p.norm()), "homo-inverse");
  closeM(M * I, so::Matrix4::Identity(), 1e-9 * (1 + p.norm()), "homo-inverse");
  closeM(I.bottomRows<1>(), Eigen::RowVector4d(0, 0, 0, 1), 0, "homo-inverse-last-row");
  // fixed point: the map x -> R x + t leaves the fixed point in place, and so do its first two derivatives
  V3 om = r.v3(3), al = r.v3(10), fp = r.v3(2), t, td, tdd;
  k::fixedPointRotationToTranslation(R, om, al, fp, t, td, tdd);
  closeM(R * fp + t, fp, 1e-12, "fixed-point-pos");
  closeM(om.cross(R * fp) + td, V3::Zero(), 1e-11, "fixed-point-vel");
  closeM(al.cross(R * fp) + om.cross(om.cross(R * fp)) + tdd, V3::Zero(), 1e-10, "fixed-point-acc");
}

SUITE(projections, 20000, 400000)
{
  Rng & r = c.r;
  M3 R = ref::exp3(r.rotvec());
  c.note(R);
  c.nontrivial = true;
  {
    // nearly orthogonal matrices: the projection is a proper rotation, and the nearest one
    double e = r.lg(1e-12, 0.3);
    M3 M = R + e * M3(r.mat(3, 3));
    M3 O = k::orthogonalizeRotationMatrix(M);
    ok(ref::isRot(O, 1e-9), "orthogonalize", mstr(O));
    ok((O - M).norm() <= (R - M).norm() + 1e-9, "orthogonalize-near", mstr(O));
    for(int j = 0; j < 4; ++j)
    {
      M3 N = ref::exp3(r.v3(r.lg(1e-4, 1))) * O;
      ok((O - M).norm() <= (N - M).norm() + 1e-9, "orthogonalize-nearest", mstr(O));
    }
  }
  {
    // any matrix (including negative determinants and nearly singular ones)
    M3 M = r.mat(3, 3, r.lg(1e-3, 1e3));
    if(r.b(0.2)) M.col(2) = M.col(0) + M.col(1);
    M3 O = k::orthogonalizeRotationMatrix(M);
    ok(ref::isRot(O, 1e-9), "orthogonalize-any", mstr(O) + " from " + mstr(M));
    for(int j = 0; j < 4; ++j)
    {
      M3 N = ref::qmat(r.quat());
      ok((O - M).norm() <= (N - M).norm() * (1 + 1e-9) + 1e-9, "orthogonalize-any-nearest", mstr(O));
    }
  }
  {
    // rotation test
    ok(k::isRotationMatrix(R, 1e-9), "is-rotation", mstr(R));
    M3 B = R;
    switch(r.i(0, 3))
    {
      case 0:
        B = -R;
        break;
      case 1:
        B = R * V3(1, -1, 1).asDiagonal();
        break;
      case 2:
        B = R * (1 + r.sgn() * r.lg(1e-5, 0.5));
        break;
      default:
        B += M3(r.mat(3, 3, 0.5).array() + 0.01);
        if(ref::isRot(B, 1e-3)) B = -R;
    }
    ok(!k::isRotationMatrix(B, 1e-9), "is-not-rotation", mstr(B));
  }
  {
    // the smallest rotation between two unit vectors
    V3 v1 = r.unit(), v2 = r.unit();
    switch(r.i(0, 4))
    {
      case 0:
        v2 = ref::exp3(r.v3(r.lg(1e-12, 1e-2))) * v1;
        break;
      case 1:
        v2 = -(ref::exp3(r.v3(r.lg(1e-4, 1e-1))) * v1);
        break;
      case 2:
        v2 = v1;
        break;
      case 3:
        v1 = V3::Unit(int(r.i(0, 2)));
        v2 = V3::Unit(int(r.i(0, 2))); // equal or orthogonal
        break;
      default:
        break;
    }
    v1.normalize();
    v2.normalize();
    double ang = std::atan2(v1.cross(v2).norm(), v1.dot(v2));
    if(ang < M_PI - 1e-5)
    {
      M3 T = k::twoVectorsToRotationMatrix(v1, v2);
      double tol = 3e-8 + 1e-12 / std::max(1e-12, M_PI - ang);
      ok(ref::isRot(T, tol), "two-vectors-proper", mstr(T));
      closeM(T * v1, v2, tol, "two-vectors-image");
      close(ref::log3(T).norm(), ang, 10 * tol, "two-vectors-minimal-angle");
    }
    bool thrown = false;
    try
    {
      V3 u = V3::Unit(int(r.i(0, 2))) * r.sgn();
      k::twoVectorsToRotationMatrix(u, -u);
    }
    catch(const std::invalid_argument &)
    {
      thrown = true;
    }
    ok(thrown, "two-vectors-opposite");
  }
}

SUITE(derivatives, 20000, 400000)
{
  Rng & r = c.r;
  V3 d = r.rotvec(true);
  if(d.norm() > 20) d *= 20 / d.norm();
  c.note(d);
  c.say("delta=" + mstr(d.transpose()));
  c.nontrivial = d.norm() > 1e-9;
  M3 A = M3::Constant(9), B = M3::Constant(9);
  k::derivateRotationMultiplicative(d, A, B);
  M3 E = ref::exp3(d);
  rotClose(A, E, 1e-9, "jac-wrt-rotation");
  // exp(d+e) exp(-d) = exp(B e) at the first order: central differences
  double h = 1e-5;
  M3 N;
  for(int i = 0; i < 3; ++i)
  {
    V3 e = h * V3::Unit(i);
    N.col(i) = ref::log3(ref::exp3(d + e) * ref::exp3(d - e).transpose()) / (2 * h);
  }
  closeM(B, N, 1e-6, "jac-wrt-delta");
  // derivative of R^T v with respect to a rotation of the frame: R -> exp(e) R
  M3 R = ref::exp3(r.rotvec());
  V3 v = r.v3(10);
  M3 J = k::derivateRtvMultiplicative(R, v), JN;
  for(int i = 0; i < 3; ++i)
  {
    V3 e = h * V3::Unit(i);
    JN.col(i) = ((ref::exp3(e) * R).transpose() * v - (ref::exp3(-e) * R).transpose() * v) / (2 * h);
  }
  closeM(J, JN, 1e-7, "jac-of-local-vector");
  // finite difference derivation: constant angular velocity over dt is recovered exactly
  double dt = r.lg(1e-4, 1);
  V3 om = r.unit() * r.d(0, 0.98 * M_PI) / dt;
  if(r.b(0.2)) om = r.unit() * r.lg(1e-6, 1e-1);
  if(om.norm() * dt > 0.98 * M_PI) om *= 0.98 * M_PI / (om.norm() * dt);
  V3 w1 = r.rotvec();
  M3 R1 = ref::exp3(w1), R2 = ref::exp3(om * dt) * R1;
  V3 w2 = ref::log3(R2);
  double tol = 1e-7 / dt;
  so::Quaternion q1(R1), q2(R2);
  if(r.b()) q1.coeffs() *= -1;
  if(r.b()) q2.coeffs() *= -1;
  V3 o1 = k::derivateRotationFD(q1, q2, dt), o2 = k::derivateRotationFD(w1, w2, dt);
  ok((o1 - om).norm() <= tol, "rotation-fd-quaternion", mstr(o1.transpose()) + " expected " + mstr(om.transpose()));
  ok((o2 - om).norm() <= tol, "rotation-fd-rotvec", mstr(o2.transpose()) + " expected " + mstr(om.transpose()));
  V3 p1 = r.v3(5), lv = r.v3(5), p2 = p1 + lv * dt;
  so::Vector6 P1, P2;
  P1 << p1, w1;
  P2 << p2, w2;
  so::Vector6 pd = k::derivatePoseThetaUFD(P1, P2, dt);
  ok((pd.head<3>() - lv).norm() <= tol, "pose-fd-linear");
  ok((pd.tail<3>() - om).norm() <= tol, "pose-fd-angular");
  so::Matrix4 M1 = so::Matrix4::Identity(), M2 = M1;
  M1.topLeftCorner<3, 3>() = R1;
  M1.topRightCorner<3, 1>() = p1;
  M2.topLeftCorner<3, 3>() = R2;
  M2.topRightCorner<3, 1>() = p2;
  so::Vector6 hd = k::derivateHomogeneousMatrixFD(M1, M2, dt);
  ok((hd.head<3>() - lv).norm() <= tol, "homo-fd-linear");
  ok((hd.tail<3>() - om).norm() <= tol, "homo-fd-angular");
}

SUITE(scalar_tools, 20000, 200000)
{
  Rng & r = c.r;
  double x = r.sgn() * r.lg(1e-6, 1e6), hi = r.sgn() * r.lg(1e-6, 1e6), lo = hi - r.lg(1e-6, 1e6);
  if(r.b(0.1)) x = r.b() ? hi : lo;
  c.note(x);
  c.nontrivial = true;
  eq(so::tools::clampScalar(x, hi, lo), std::min(std::max(x, lo), hi), "clamp");
  double l = r.lg(1e-6, 1e6);
  eq(so::tools::clampScalar(x, l), std::min(std::max(x, -l), l), "clamp-symmetric");
  eq(so::tools::signum(x), x > 0 ? 1 : -1, "signum");
  {
    // equality up to a relative, or to an absolute, precision
    double p = r.lg(1e-12, 0.5), ratio = p * r.lg(0.1, 10), y = x * (1 + r.sgn() * ratio);
    if(r.b(0.2)) y = r.b() ? -x : r.d(-2, 2) * x;
    long double rel = std::fabs((long double)x - y), sum = std::fabs((long double)x + y);
    double s = r.b(0.1) ? 0 : 1;
    if(s == 0 && sum > 0) ok(so::isApprox(x, x) && so::isApprox(x, x, p), "approx-itself");
    if(rel < sum * p * 0.999 - 1e-15 * std::fabs(x)) ok(so::isApprox(x, y, p) && so::isApprox(y, x, p), "approx", str(y));
    if(rel > sum * p * 1.001 + 1e-15 * std::fabs(x)) ok(!so::isApprox(x, y, p) && !so::isApprox(y, x, p), "not-approx", str(y));
    double a = double(rel) * r.lg(0.1, 10);
    if(a > double(rel) * 1.001 + 1e-15) ok(so::isApproxAbs(x, y, a) && so::isApproxAbs(y, x, a), "approx-abs", str(y));
    if(a < double(rel) * 0.999 - 1e-15) ok(!so::isApproxAbs(x, y, a) && !so::isApproxAbs(y, x, a), "not-approx-abs", str(y));
    ok(so::isApproxAbs(x, x), "approx-abs-itself");
  }
  eq(so::tools::signum(0.), 0, "signum");
  eq(so::tools::square(x), x * x, "square");
  V3 a = r.v3(r.lg(1e-6, 1e6)), b = r.v3(1);
  double dt = r.lg(1e-4, 10);
  V3 dd = so::tools::derivate(a, b, dt);
  ok((dd * dt - (b - a)).norm() <= 1e-12 * (a.norm() + b.norm()), "derivate");
  V3 n = so::tools::normalizedLazy(a);
  close(n.norm(), 1, 1e-12, "normalized-lazy");
  closeM(n * a.norm(), a, 1e-9, "normalized-lazy");
  V3 u = r.unit();
  closeM(so::tools::normalizedLazy(u), u, 1e-12, "normalized-lazy-unit");
  ok(so::tools::checkIfNormalized(V3::UnitY()), "check-normalized");
  double sq = -1;
  ok(!so::tools::checkIfNormalized(u * 1.001, sq), "check-not-normalized");
  close(sq, 1.001 * 1.001, 1e-12, "check-normalized-norm");
  so::Quaternion z = k::zeroRotationQuaternion();
  rotClose(ref::qmat(z), M3::Identity(), 0, "zero-rotation");
}
