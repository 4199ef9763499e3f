// C07: random programs over a pool of Orientation objects; every view is compared to a reference rotation matrix that
// undergoes the same operations.
#include "kfref.hpp"
#include <memory>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vmon;
namespace so = stateObservation;
namespace k = stateObservation::kine;

namespace
{
struct Obj
{
  k::Orientation o;
  bool set;
  M3 R;
  double err; // accumulated tolerance
};
const double EPS = 1e-11;

void checkView(Ctx & c, Obj & x, int view)
{
  Rng & r = c.r;
  double tol = x.err;
  count("view-" + str(view));
  switch(view)
  {
    case 0:
      rotClose(x.o.toMatrix3(), x.R, tol, "matrix");
      break;
    case 1:
    {
      so::Quaternion q = x.o.toQuaternion();
      close(q.norm(), 1, 1e-6, "quaternion-norm");
      rotClose(ref::qmat(q), x.R, tol, "quaternion");
      break;
    }
    case 2:
    {
      V3 v = x.o.toRotationVector();
      ok(v.norm() <= M_PI + 1e-6, "rotation-vector", mstr(v.transpose()));
      rotClose(ref::exp3(v), x.R, tol + 2e-7, "rotation-vector");
      break;
    }
    case 3:
    {
      V3 e = x.o.toRollPitchYaw();
      if(std::fabs(std::cos(e(1))) > 1e-3)
        rotClose(ref::rz(e(2)) * ref::ry(e(1)) * ref::rx(e(0)), x.R, tol * 1e4, "rpy");
      break;
    }
    case 4:
    {
      so::AngleAxis aa = x.o.toAngleAxis();
      rotClose(ref::exp3(aa.angle() * aa.axis()), x.R, tol + 2e-7, "angle-axis");
      break;
    }
    case 5:
    {
      so::Vector4 v = x.o.toVector4();
      rotClose(ref::qmat(v(3), v(0), v(1), v(2)), x.R, tol, "vector4");
      break;
    }
    case 6:
    {
      V3 v = r.v3(10);
      closeM(x.o * v, x.R * v, 10 * tol, "rotate-vector");
      break;
    }
    case 7:
    {
      const so::Matrix3 & m = x.o;
      rotClose(m, x.R, tol, "matrix-conversion");
      break;
    }
    case 8:
    {
      const so::Quaternion & q = x.o;
      rotClose(ref::qmat(q), x.R, tol, "quaternion-conversion");
      break;
    }
    case 9:
    {
      // both stored representations agree
      if(x.o.isMatrixSet()) rotClose(x.o.getMatrixRefUnsafe()(), x.R, tol, "stored-matrix");
      if(x.o.isQuaternionSet()) rotClose(ref::qmat(x.o.getQuaternionRefUnsafe()()), x.R, tol, "stored-quaternion");
      ok(x.o.isMatrixSet() || x.o.isQuaternionSet(), "stored-any");
      break;
    }
  }
  ok(x.o.isSet(), "is-set");
}
} // namespace

SUITE(orientation_programs, 20000, 200000)
{
  Rng & r = c.r;
  const int N = 4;
  std::vector<std::unique_ptr<Obj>> pool;
  for(int i = 0; i < N; ++i)
  {
    pool.emplace_back(new Obj);
    pool.back()->set = false;
    pool.back()->R.setIdentity();
    pool.back()->err = EPS;
    ok(!pool.back()->o.isSet(), "default-unset");
  }
  long steps = r.i(5, 40);
  for(long s = 0; s < steps; ++s)
  {
    int a = int(r.i(0, N - 1)), b = int(r.i(0, N - 1)), d = int(r.i(0, N - 1));
    Obj &A = *pool[size_t(a)], &B = *pool[size_t(b)], &D = *pool[size_t(d)];
    int op = int(r.i(0, 27));
    c.note(uint64_t(op * 64 + a * 16 + b * 4 + d));
    c.say(" op" + str(op) + "(" + str(a) + "," + str(b) + "," + str(d) + ")");
    count("op-" + str(op));
    V3 w = r.rotvec(true);
    M3 Rw = ref::exp3(w);
    so::Quaternion q = r.quat();
    bool set = true;
    M3 R = Rw;
    double err = EPS;
    switch(op)
    {
      case 0:
        A.o = so::Vector3(w);
        break;
      case 1:
        A.o = q;
        R = ref::qmat(q);
        break;
      case 2:
        A.o = so::Matrix3(Rw);
        break;
      case 3:
        A.o = so::AngleAxis(w.norm(), w.norm() > 0 ? V3(w / w.norm()) : V3(V3::UnitX()));
        break;
      case 4:
        A.o = k::Orientation(so::Vector3(w));
        break;
      case 5:
        A.o = k::Orientation(q);
        R = ref::qmat(q);
        break;
      case 6:
        A.o = k::Orientation(so::Matrix3(Rw));
        break;
      case 7:
      {
        V3 rpy = r.v3(4);
        A.o = k::Orientation(rpy(0), rpy(1), rpy(2));
        R = ref::rz(rpy(2)) * ref::ry(rpy(1)) * ref::rx(rpy(0));
        break;
      }
      case 8:
        A.o = k::Orientation(q, so::Matrix3(ref::qmat(q)));
        R = ref::qmat(q);
        break;
      case 9:
        A.o.setValue(q, so::Matrix3(ref::qmat(q)));
        R = ref::qmat(q);
        break;
      case 10:
        A.o.fromVector4(q.coeffs());
        R = ref::qmat(q);
        break;
      case 11: // product
        if(!B.set || !D.set) continue;
        A.o = B.o * D.o;
        R = B.R * D.R;
        err = B.err + D.err + EPS;
        break;
      case 12:
        if(!B.set || !D.set || a == b || a == d) continue;
        {
          const k::Orientation & ret = A.o.setToProductNoAlias(B.o, D.o);
          eq(&ret, (const k::Orientation *)&A.o, "product-returns-itself");
        }
        R = B.R * D.R;
        err = B.err + D.err + EPS;
        break;
      case 13:
        if(!B.set || !D.set) continue;
        A.o = k::Orientation(B.o, D.o);
        R = B.R * D.R;
        err = B.err + D.err + EPS;
        break;
      case 14:
        if(!B.set) continue;
        A.o = B.o.inverse();
        R = B.R.transpose();
        err = B.err + EPS;
        break;
      case 15: // integration in the world frame
        if(!A.set) continue;
        A.o.integrate(w);
        R = Rw * A.R;
        err = A.err + EPS;
        break;
      case 16: // difference, inverse operation of the integration
      {
        if(!B.set || !D.set) continue;
        V3 v = B.o.differentiate(D.o);
        ok(v.norm() <= M_PI + 1e-6, "differentiate-range");
        rotClose(ref::exp3(v), D.R * B.R.transpose(), B.err + D.err + 2e-7, "differentiate");
        k::Orientation t(B.o);
        t.integrate(v);
        rotClose(t.toMatrix3(), D.R, B.err + D.err + 3e-7, "integrate-of-differentiate");
        continue;
      }
      case 17: // copies (assignment, self assignment included, and construction)
        A.o = B.o;
        set = B.set;
        R = B.R;
        err = B.err;
        break;
      case 18:
      {
        k::Orientation t(B.o);
        A.o = t;
        set = B.set;
        R = B.R;
        err = B.err;
        break;
      }
      case 19:
        A.o.reset();
        set = false;
        break;
      case 20:
        if(!A.set) continue;
        A.o.synchronize();
        ok(A.o.isMatrixSet() && A.o.isQuaternionSet(), "synchronize");
        R = A.R;
        err = A.err;
        break;
      case 21:
        switch(r.i(0, 3))
        {
          case 0:
            A.o.setZeroRotation<so::Quaternion>();
            break;
          case 1:
            A.o.setZeroRotation<so::Matrix3>();
            break;
          case 2:
            A.o.setZeroRotation();
            break;
          default:
            A.o = k::Orientation::zeroRotation();
        }
        R.setIdentity();
        break;
      case 22: // random rotation: adopt it as the reference
      {
        k::Orientation t;
        if(c.noRandom)
          t = so::Quaternion(r.quat());
        else if(r.b())
          t.setRandom();
        else
          t = k::Orientation::randomRotation();
        so::Vector4 v = t.toVector4();
        close(v.norm(), 1, 1e-9, "random-rotation-unit");
        R = ref::qmat(v(3), v(0), v(1), v(2));
        A.o = t;
        break;
      }
      case 23: // unset ones are reported and refused
        if(A.set)
        {
          ok(A.o.isSet(), "is-set");
          continue;
        }
        ok(!A.o.isSet() && !A.o.isMatrixSet() && !A.o.isQuaternionSet(), "is-unset");
        if(kfref::debugBuild)
        {
          int kind = int(r.i(0, 5));
          bool ref = kfref::refused([&]() {
            if(kind == 0) (void)A.o.toMatrix3();
            if(kind == 1) (void)A.o.toQuaternion();
            if(kind == 2) (void)A.o.toRotationVector();
            if(kind == 3) (void)A.o.inverse();
            if(kind == 4) (void)(A.o * so::Vector3(w));
            if(kind == 5) (void)A.o.toAngleAxis();
          });
          ok(ref, "unset-access-refused", "kind " + str(kind));
        }
        continue;
      default: // queries, in random order
        if(!A.set) continue;
        c.nontrivial = true;
        for(int n = int(r.i(1, 4)); n > 0; --n) checkView(c, A, int(r.i(0, 9)));
        R = A.R;
        err = A.err;
    }
    A.set = set;
    A.R = R;
    A.err = err;
    eq(A.o.isSet(), set, "is-set");
    // the operands and the other objects did not change
    if(r.b(0.3))
      for(auto & p : pool)
        if(p->set) checkView(c, *p, r.b() ? 9 : int(r.i(0, 9)));
  }
  for(auto & p : pool)
    if(p->set)
      for(int v = 0; v < 10; ++v) checkView(c, *p, v);
}
