// C08: composition and inversion of kinematics against homogeneous matrices and their time derivatives.
#include "kinref.hpp"
using namespace kinref;

namespace
{
bool has(unsigned m, unsigned f)
{
  return (m & f) == f;
}
/// what the product determines, out of what is known of its operands
unsigned productMask(unsigned a, unsigned b)
{
  unsigned m = 0;
  if(has(a, F::position) && has(b, F::position))
  {
    m |= F::position;
    if(has(a, F::linVel | F::angVel) && has(b, F::linVel))
    {
      m |= F::linVel;
      if(has(a, F::linAcc | F::angAcc) && has(b, F::linAcc)) m |= F::linAcc;
    }
  }
  if(has(b, F::orientation))
  {
    m |= F::orientation;
    if(has(a, F::angVel) && has(b, F::angVel))
    {
      m |= F::angVel;
      if(has(a, F::angAcc) && has(b, F::angAcc)) m |= F::angAcc;
    }
  }
  return m;
}
unsigned inverseMask(unsigned a)
{
  unsigned m = F::orientation;
  if(has(a, F::angVel))
  {
    m |= F::angVel;
    if(has(a, F::angAcc)) m |= F::angAcc;
  }
  if(has(a, F::position))
  {
    m |= F::position;
    if(has(a, F::linVel | F::angVel))
    {
      m |= F::linVel;
      if(has(a, F::linAcc | F::angAcc)) m |= F::linAcc;
    }
  }
  return m;
}
unsigned randMask(Rng & r)
{
  if(r.b(0.3)) return F::all;
  return unsigned(r.i(0, 63));
}
} // namespace

SUITE(composition, 40000, 1000000)
{
  Rng & r = c.r;
  Kin x1 = randKin(r), x2 = randKin(r);
  unsigned m1 = randMask(r) | F::orientation, m2 = randMask(r);
  if(!(m2 & (F::position | F::orientation))) m2 |= r.b() ? F::position : F::orientation;
  c.note(uint64_t(m1 * 64 + m2));
  c.note(x1.p);
  c.say("masks " + str(m1) + " " + str(m2));
  c.nontrivial = m1 == F::all && m2 == F::all;
  count("masks-" + str((m1 == F::all) + (m2 == F::all)));
  k::Kinematics a = make(r, x1, m1), b = make(r, x2, m2);
  k::Kinematics p;
  int how = int(r.i(0, 3));
  if(how == 0)
    p = a * b;
  else if(how == 1)
    p = k::Kinematics(a, b);
  else
  {
    // in an object holding other values
    if(how == 2) p = make(r, randKin(r), randMask(r));
    k::Kinematics ret = p.setToProductNoAlias(a, b);
    eq(maskOf(ret), maskOf(p), "product-return");
  }
  Kin e = (Jet(x1) * Jet(x2)).kin();
  double tol = 1e-10 * mag(x1) * mag(x2);
  eq(maskOf(p), productMask(m1, m2), "product-known", "masks " + str(m1) + " " + str(m2));
  same(p, e, tol, "product", "masks " + str(m1) + " " + str(m2));
  // the operands did not change
  eq(maskOf(a), m1, "product-operand");
  eq(maskOf(b), m2, "product-operand");
  same(a, x1, 1e-12, "product-operand");
  same(b, x2, 1e-12, "product-operand");
}

SUITE(inversion, 40000, 1000000)
{
  Rng & r = c.r;
  Kin x = randKin(r);
  unsigned m = randMask(r) | F::orientation;
  c.note(uint64_t(m));
  c.note(x.p);
  c.nontrivial = m == F::all;
  k::Kinematics a = make(r, x, m), i = a.getInverse();
  double tol = 1e-10 * mag(x) * mag(x);
  eq(maskOf(i), inverseMask(m), "inverse-known", "mask " + str(m));
  same(i, Jet(x).inv().kin(), tol, "inverse", "mask " + str(m));
  eq(maskOf(a), m, "inverse-operand");
  same(a, x, 1e-12, "inverse-operand");
  // cancels on both sides
  Kin id;
  id.p.setZero();
  id.v.setZero();
  id.a.setZero();
  id.w.setZero();
  id.al.setZero();
  id.R.setIdentity();
  tol *= mag(x);
  k::Kinematics l = i * a, rr = a * i, ii = i.getInverse();
  same(l, id, tol, "inverse-left");
  same(rr, id, tol, "inverse-right");
  same(ii, x, tol, "inverse-of-inverse");
  if(m == F::all)
  {
    eq(maskOf(l), unsigned(F::all), "inverse-left-known");
    eq(maskOf(rr), unsigned(F::all), "inverse-right-known");
    eq(maskOf(ii), unsigned(F::all), "inverse-of-inverse-known");
    // the vector form of the state inversion
    Vec s(18);
    s << x.p, ref::log3(x.R), x.v, x.w, x.a, x.al;
    Vec t = k::invertState(s);
    Kin e = Jet(x).inv().kin();
    eq(t.size(), Eigen::Index(18), "invert-state");
    closeM(t.segment<3>(0), e.p, tol, "invert-state-pos");
    rotClose(ref::exp3(V3(t.segment<3>(3))), e.R, 1e-7, "invert-state-ori");
    closeM(t.segment<3>(6), e.v, tol, "invert-state-vel");
    closeM(t.segment<3>(9), e.w, tol, "invert-state-angvel");
    closeM(t.segment<3>(12), e.a, tol, "invert-state-acc");
    closeM(t.segment<3>(15), e.al, tol, "invert-state-angacc");
  }
}

SUITE(chains, 10000, 300000)
{
  // products of several frames in any bracketing, with inverses inside
  Rng & r = c.r;
  int n = int(r.i(2, 6));
  std::vector<k::Kinematics> f;
  Jet J;
  double scale = 1;
  for(int i = 0; i < n; ++i)
  {
    Kin x = randKin(r, 0.3);
    if(x.w.norm() > 2) x.w *= 2 / x.w.norm();
    if(x.al.norm() > 4) x.al *= 4 / x.al.norm();
    k::Kinematics o = make(r, x, F::all);
    Jet j(x);
    if(r.b(0.3))
    {
      o = o.getInverse();
      j = j.inv();
    }
    f.push_back(o);
    J = i == 0 ? j : J * j;
    scale *= mag(j.kin());
    c.note(x.p);
  }
  c.nontrivial = n > 2;
  while(f.size() > 1)
  {
    size_t i = size_t(r.i(0, long(f.size()) - 2));
    k::Kinematics p = f[i] * f[i + 1];
    f[i] = p;
    f.erase(f.begin() + long(i) + 1);
  }
  eq(maskOf(f[0]), unsigned(F::all), "chain-known");
  Kin e = J.kin();
  double tol = std::min(1e-5, 1e-12 * scale);
  same(f[0], e, tol, "chain");
}

SUITE(differentiated_motion, 4000, 100000)
{
  // the composition of two motions known in closed form, differentiated numerically over time
  Rng & r = c.r;
  Motion m[2] = {Motion(r), Motion(r)};
  double t = r.d(-2, 2), h = 1e-4;
  c.note(t);
  c.nontrivial = true;
  k::Kinematics a = make(r, m[0].kin(t), F::all), b = make(r, m[1].kin(t), F::all), p = a * b;
  auto P = [&](double s) { return V3(m[0].p(s) + m[0].R(s) * m[1].p(s)); };
  auto R = [&](double s) { return M3(m[0].R(s) * m[1].R(s)); };
  closeM(p.position(), P(t), 1e-10, "motion-position");
  rotClose(p.orientation.toMatrix3(), R(t), 1e-10, "motion-orientation");
  closeM(p.linVel(), (P(t + h) - P(t - h)) / (2 * h), 1e-5, "motion-linvel");
  closeM(p.linAcc(), (P(t + h) - 2 * P(t) + P(t - h)) / (h * h), 1e-4, "motion-linacc");
  closeM(p.angVel(), ref::log3(R(t + h) * R(t - h).transpose()) / (2 * h), 1e-5, "motion-angvel");
  V3 wp = ref::log3(R(t + 2 * h) * R(t).transpose()) / (2 * h), wm = ref::log3(R(t) * R(t - 2 * h).transpose()) / (2 * h);
  closeM(p.angAcc(), (wp - wm) / (2 * h), 1e-4, "motion-angacc");
}

SUITE(vector_form, 20000, 300000)
{
  Rng & r = c.r;
  Kin x = randKin(r);
  unsigned m = randMask(r), sub = unsigned(r.i(0, 63)) & m;
  k::Kinematics a = make(r, x, m);
  c.note(uint64_t(m * 64 + sub));
  c.note(x.p);
  c.nontrivial = sub != 0;
  auto expect = [&](unsigned f, const Vec & v) {
    int i = 0;
    if(f & F::position)
    {
      closeM(v.segment(i, 3), x.p, 0, "vector-position");
      i += 3;
    }
    if(f & F::orientation)
    {
      rotClose(ref::qmat(v(i + 3), v(i), v(i + 1), v(i + 2)), x.R, 1e-9, "vector-orientation");
      i += 4;
    }
    if(f & F::linVel)
    {
      closeM(v.segment(i, 3), x.v, 0, "vector-linvel");
      i += 3;
    }
    if(f & F::angVel)
    {
      closeM(v.segment(i, 3), x.w, 0, "vector-angvel");
      i += 3;
    }
    if(f & F::linAcc)
    {
      closeM(v.segment(i, 3), x.a, 0, "vector-linacc");
      i += 3;
    }
    if(f & F::angAcc)
    {
      closeM(v.segment(i, 3), x.al, 0, "vector-angacc");
      i += 3;
    }
    eq(v.size(), Eigen::Index(i), "vector-size");
  };
  Vec all = a.toVector(), part = a.toVector(F::Byte(sub));
  expect(m, all);
  expect(sub, part);
  // back, in a fresh object and in one with other values
  k::Kinematics b(part, F::Byte(sub));
  eq(maskOf(b), sub, "from-vector-known");
  same(b, x, 1e-9, "from-vector");
  Kin y = randKin(r);
  unsigned my = randMask(r);
  k::Kinematics d = make(r, y, my);
  d.fromVector(part, F::Byte(sub));
  eq(maskOf(d), my | sub, "from-vector-merge-known");
  k::Kinematics dx = d, dy = d;
  if(!(sub & F::position)) dx.position.reset(); else dy.position.reset();
  if(!(sub & F::orientation)) dx.orientation.reset(); else dy.orientation.reset();
  if(!(sub & F::linVel)) dx.linVel.reset(); else dy.linVel.reset();
  if(!(sub & F::angVel)) dx.angVel.reset(); else dy.angVel.reset();
  if(!(sub & F::linAcc)) dx.linAcc.reset(); else dy.linAcc.reset();
  if(!(sub & F::angAcc)) dx.angAcc.reset(); else dy.angAcc.reset();
  same(dx, x, 1e-9, "from-vector-merge");
  same(dy, y, 1e-9, "from-vector-kept");
  // zero and reset
  Kin z;
  z.p.setZero();
  z.v.setZero();
  z.a.setZero();
  z.w.setZero();
  z.al.setZero();
  z.R.setIdentity();
  k::Kinematics e;
  unsigned mz = unsigned(r.i(0, 63));
  if(r.b())
    e.setZero<so::Matrix3>(F::Byte(mz));
  else
    e.setZero(F::Byte(mz));
  eq(maskOf(e), mz, "set-zero-known");
  same(e, z, 0, "set-zero");
  a.reset();
  eq(maskOf(a), 0u, "reset");
  std::ostringstream os;
  os << a << d;
  ok(os.str().size() > 0, "print");
}
