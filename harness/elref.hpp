// Independent reference of the elastic contact model (flexible base): Newton-Euler written as one 6x6 linear system.
#pragma once
#include "common.hpp"
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
namespace elref
{
using namespace vmon;
namespace so = stateObservation;
typedef so::flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem Sys;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
// published layout
enum
{
  XPOS = 0,
  XORI = 3,
  XLV = 6,
  XAV = 9,
  XFC = 12,
  XUM = 24,
  XCB = 30,
  XDR = 32,
  XN = 35
};
enum
{
  UC = 0,
  UCV = 3,
  UCA = 6,
  UI = 9,
  UAM = 15,
  UDI = 18,
  UDAM = 24,
  UP = 27,
  UO = 30,
  UV = 33,
  UW = 36,
  UA = 39,
  UADD = 42,
  UCT = 48
};
inline M3 inertiaOf(const Vec & u, int at)
{
  M3 I;
  I << u(at), u(at + 3), u(at + 4), u(at + 3), u(at + 1), u(at + 5), u(at + 4), u(at + 5), u(at + 2);
  return I;
}
struct Par
{
  double m, dt;
  M3 Kfe, Kfv, Kte, Ktv, RKfe, RKfv, RKte, RKtv;
  V3 pe;
  int n, model; // 1 elastic contacts, 2 ropes
  bool force, comBias, absPos, unmod;
  Par()
  : m(56.8), dt(0.005), Kfe(40000 * M3::Identity()), Kfv(600 * M3::Identity()), Kte(600 * M3::Identity()),
    Ktv(60 * M3::Identity()), RKfe(Kfe), RKfv(Kfv), RKte(Kte), RKtv(Ktv), pe(V3::Zero()), n(0), model(0), force(false),
    comBias(false), absPos(false), unmod(false)
  {
  }
  long usize() const
  {
    return UCT + 12 * n;
  }
  long ysize() const
  {
    return 6 + (force ? 6 * n : 0) + (absPos ? 6 : 0);
  }
  V3 com(const Vec & x, const Vec & u) const
  {
    V3 c = u.segment<3>(UC);
    if(comBias) c -= V3(x(XCB), x(XCB + 1), 0);
    return c;
  }
  /// total external wrench about the origin of the world, without the weight; contact wrenches are those of the state
  void wrench(const Vec & x, const Vec & u, V3 & f, V3 & t) const
  {
    V3 p = x.segment<3>(XPOS);
    M3 R = ref::exp3(x.segment<3>(XORI));
    f = R * u.segment<3>(UADD);
    t = R * u.segment<3>(UADD + 3) + p.cross(f);
    f += x.segment<3>(XUM);
    t += x.segment<3>(XUM + 3);
    if(model == 1)
      for(int i = 0; i < n; ++i)
      {
        M3 Rc = R * ref::exp3(u.segment<3>(UCT + 12 * i + 3));
        V3 fi = Rc * x.segment<3>(XFC + 6 * i);
        f += fi;
        t += Rc * x.segment<3>(XFC + 6 * i + 3) + (p + R * u.segment<3>(UCT + 12 * i)).cross(fi);
      }
    else
    {
      f += x.segment<3>(XFC);
      t += x.segment<3>(XFC + 3);
    }
  }
  /// derivatives of the linear momentum, and of the angular momentum about the origin of the world
  V6 momentaDot(const Vec & x, const Vec & u) const
  {
    V3 f, t;
    wrench(x, u, f, t);
    V3 g = V3::Unit(2) * ref::g;
    V6 d;
    d.head<3>() = f - m * g;
    d.tail<3>() = t - m * (x.segment<3>(XPOS) + ref::exp3(x.segment<3>(XORI)) * com(x, u)).cross(g);
    return d;
  }
  /// (linear, angular) acceleration of the base: the derivative of the momenta is linear in it
  V6 acc(const Vec & x, const Vec & u) const
  {
    V3 p = x.segment<3>(XPOS), w = x.segment<3>(XAV);
    M3 R = ref::exp3(x.segment<3>(XORI)), W = ref::skew(w);
    V3 c = R * com(x, u), cv = R * u.segment<3>(UCV), ca = R * u.segment<3>(UCA);
    M3 I = R * inertiaOf(u, UI) * R.transpose(), dI = R * inertiaOf(u, UDI) * R.transpose();
    V3 s = R * u.segment<3>(UAM), ds = R * u.segment<3>(UDAM);
    // linear: m (a + al x c + b) ; angular: m p x (a + al x c + b) + m c x a + I al + e
    V3 b = W * (W * c) + 2 * (W * cv) + ca;
    V3 e = W * (I * w) + dI * w + W * s + ds;
    M6 A;
    M3 C = ref::skew(c), Pm = ref::skew(p);
    A.block<3, 3>(0, 0) = m * M3::Identity();
    A.block<3, 3>(0, 3) = -m * C;
    A.block<3, 3>(3, 0) = m * Pm + m * C;
    A.block<3, 3>(3, 3) = I - m * Pm * C;
    V6 rhs = momentaDot(x, u);
    rhs.head<3>() -= m * b;
    rhs.tail<3>() -= m * p.cross(b) + e;
    return A.fullPivLu().solve(rhs);
  }
  /// contact wrenches generated by the displacement of the base, in the frames of the contacts (ropes: world frame)
  Vec efforts(const Vec & x, const Vec & u) const
  {
    Vec e = Vec::Zero(12);
    V3 p = x.segment<3>(XPOS), v = x.segment<3>(XLV), o = x.segment<3>(XORI), w = x.segment<3>(XAV);
    M3 R = ref::exp3(o);
    if(model == 1)
      for(int i = 0; i < n; ++i)
      {
        V3 c = u.segment<3>(UCT + 12 * i), cd = u.segment<3>(UCT + 12 * i + 6);
        M3 T = (R * ref::exp3(u.segment<3>(UCT + 12 * i + 3))).transpose();
        V3 P = R * c;
        e.segment<3>(6 * i) = -Kfe * (T * (p + P - c)) - Kfv * (T * (w.cross(P) + v + R * cd));
        e.segment<3>(6 * i + 3) = -Kte * (T * o) - Ktv * (T * w);
      }
    else
    {
      V3 f = -RKfv * v;
      for(int i = 0; i < n; ++i)
      {
        V3 c = u.segment<3>(UCT + 12 * i), d = p + R * c - pe;
        f -= (d.norm() - (c - pe).norm()) * (RKfe * d.normalized());
      }
      e.segment<3>(0) = f;
      e.segment<3>(3) = V3(0, 0, -RKte(2, 2) * o(2)) - RKtv * w;
    }
    return e;
  }
  /// next state; the orientation is returned apart
  Vec next(const Vec & x, const Vec & u) const
  {
    V6 a = acc(x, u);
    Vec y = x;
    V3 v = x.segment<3>(XLV), w = x.segment<3>(XAV);
    y.segment<3>(XPOS) += v * dt + 0.5 * dt * dt * a.head<3>();
    y.segment<3>(XLV) += dt * a.head<3>();
    y.segment<3>(XAV) += dt * a.tail<3>();
    y.segment<3>(XORI) = ref::log3(ref::exp3(w * dt + 0.5 * dt * dt * a.tail<3>()) * ref::exp3(x.segment<3>(XORI)));
    y.segment<12>(XFC) = efforts(y, u);
    if(unmod)
      y.segment<6>(XUM) *= 0.9999;
    else
      y.segment<6>(XUM).setZero();
    return y;
  }
  Vec measure(const Vec & x, const Vec & u) const
  {
    Vec y(ysize());
    V3 w = x.segment<3>(XAV);
    M3 R = ref::exp3(x.segment<3>(XORI)), W = ref::skew(w), S = R * ref::exp3(u.segment<3>(UO));
    V6 a = acc(x, u);
    V3 P = R * u.segment<3>(UP);
    V3 al = a.tail<3>();
    V3 im = a.head<3>() + al.cross(P) + W * (W * P) + 2 * (W * (R * u.segment<3>(UV))) + R * u.segment<3>(UA);
    y.segment<3>(0) = S.transpose() * (im + V3::Unit(2) * ref::g);
    y.segment<3>(3) = S.transpose() * (w + R * u.segment<3>(UW));
    long at = 6;
    if(force)
    {
      y.segment(at, 6 * n) = x.segment(XFC, 6 * n);
      at += 6 * n;
    }
    if(absPos)
    {
      M3 D = ref::rz(x(XDR + 2));
      y.segment<3>(at) = D * x.segment<3>(XPOS) + V3(x(XDR), x(XDR + 1), 0);
      y.segment<3>(at + 3) = ref::log3(D * R);
    }
    return y;
  }
};
inline Vec randInput(Rng & r, const Par & q, double scale = 1)
{
  Vec u(q.usize());
  u.segment<3>(UC) = r.v3(0.5) + V3(0, 0, 0.8);
  u.segment<3>(UCV) = r.v3(scale);
  u.segment<3>(UCA) = r.v3(3 * scale);
  V3 c = u.segment<3>(UC);
  // inertia about the origin of the local frame, valid for centres of mass displaced by the bias as well
  M3 I = M3(r.spd(3, 0.5, r.lg(1, 20)));
  M3 J = -ref::skew(c) * ref::skew(c);
  I += q.m * (1.5 * J + 2.0 * M3::Identity() * r.d(0.2, 1));
  u.segment<6>(UI) << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
  u.segment<3>(UAM) = r.v3(5 * scale);
  u.segment<6>(UDI) = r.vec(6, 5 * scale);
  u.segment<3>(UDAM) = r.v3(10 * scale);
  u.segment<3>(UP) = r.v3(1);
  u.segment<3>(UO) = r.rotvec(true);
  u.segment<3>(UV) = r.v3(scale);
  u.segment<3>(UW) = r.v3(scale);
  u.segment<3>(UA) = r.v3(3 * scale);
  u.segment<6>(UADD) = r.vec(6, r.b() ? 0 : 50 * scale);
  for(int i = 0; i < q.n; ++i)
  {
    u.segment<3>(UCT + 12 * i) = r.v3(0.5);
    u.segment<3>(UCT + 12 * i + 3) = r.b(0.3) ? V3(V3::Zero()) : r.rotvec(true);
    u.segment<6>(UCT + 12 * i + 6) = r.b() ? Vec(Vec::Zero(6)) : r.vec(6, scale);
  }
  return u;
}
inline Vec randState(Rng & r, double scale = 1)
{
  Vec x(XN);
  x.segment<3>(XPOS) = r.v3(r.lg(1e-5, 1) * scale);
  x.segment<3>(XORI) = r.rotvec();
  if(r.b()) x.segment<3>(XORI) = r.v3(0.2);
  x.segment<6>(XLV) = r.vec(6, r.lg(1e-3, 2) * scale);
  x.segment<12>(XFC) = r.vec(12, r.lg(1, 1000) * scale);
  x.segment<6>(XUM) = r.vec(6, r.b() ? 0 : r.lg(1, 100));
  x.segment<2>(XCB) = r.vec(2, 0.1);
  x.segment<3>(XDR) = r.v3(1);
  if(r.b(0.2)) x(XDR + 2) = r.d(-10, 10);
  return x;
}
inline M3 gainM(Rng & r, double lo, double hi)
{
  double g = r.lg(lo, hi);
  switch(r.i(0, 2))
  {
    case 0:
      return g * M3::Identity();
    case 1:
      return g * M3(V3(r.d(0.1, 1), r.d(0.1, 1), r.d(0.1, 1)).asDiagonal());
    default:
      return M3(r.spd(3, 0.2, g));
  }
}
} // namespace elref
