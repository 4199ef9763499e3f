// Common monitor runtime: deterministic case generation, verdict recording, evidence counters, crash reporting.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <Eigen/Cholesky>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>

namespace vmon
{
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q4;

// ---------- deterministic RNG (independent of the library and of libstdc++ distributions)
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  static uint64_t mix(uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t u64()
  {
    s += 0x9e3779b97f4a7c15ULL;
    return mix(s);
  }
  /// integer in [a,b]
  long i(long a, long b)
  {
    return a + long(u64() % uint64_t(b - a + 1));
  }
  bool b(double p = 0.5)
  {
    return d01() < p;
  }
  double d01()
  {
    return double(u64() >> 11) * (1.0 / 9007199254740992.0);
  }
  double d(double a, double b)
  {
    return a + (b - a) * d01();
  }
  double n()
  {
    double u = d01();
    if(u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * d01());
  }
  /// log-uniform magnitude
  double lg(double lo, double hi)
  {
    return std::exp(d(std::log(lo), std::log(hi)));
  }
  double sgn()
  {
    return b() ? 1. : -1.;
  }
  Vec vec(Eigen::Index k, double scale = 1)
  {
    Vec v(k);
    for(Eigen::Index j = 0; j < k; ++j) v(j) = scale * d(-1, 1);
    return v;
  }
  V3 v3(double scale = 1)
  {
    return V3(scale * d(-1, 1), scale * d(-1, 1), scale * d(-1, 1));
  }
  V3 unit()
  {
    V3 v;
    do
    {
      v = V3(n(), n(), n());
    } while(v.norm() < 1e-3);
    return v.normalized();
  }
  Mat mat(Eigen::Index r, Eigen::Index c, double scale = 1)
  {
    Mat m(r, c);
    for(Eigen::Index a = 0; a < r; ++a)
      for(Eigen::Index e = 0; e < c; ++e) m(a, e) = scale * d(-1, 1);
    return m;
  }
  /// symmetric positive definite
  Mat spd(Eigen::Index k, double floor_ = 0.1, double scale = 1)
  {
    Mat m = mat(k, k);
    Mat r = scale * (m * m.transpose() + floor_ * Mat::Identity(k, k));
    return 0.5 * (r + r.transpose());
  }
  Q4 quat()
  {
    Eigen::Vector4d v;
    do
    {
      v << n(), n(), n(), n();
    } while(v.norm() < 1e-3);
    v.normalize();
    return Q4(v(0), v(1), v(2), v(3));
  }
  /// rotation vectors of all the interesting magnitudes (tiny, moderate, near pi, beyond)
  V3 rotvec(bool beyondPi = false)
  {
    V3 ax = unit();
    switch(i(0, 9))
    {
      case 0:
        ax = V3::Unit(int(i(0, 2))) * sgn();
        break;
      default:
        break;
    }
    double a;
    switch(i(0, beyondPi ? 7 : 6))
    {
      case 0:
        a = 0;
        break;
      case 1:
        a = lg(1e-12, 1e-4);
        break;
      case 2:
        a = M_PI - lg(1e-6, 1e-2);
        break;
      case 3:
      case 4:
        a = d(0, 0.7);
        break;
      case 7:
        a = d(M_PI, 12 * M_PI);
        break;
      default:
        a = d(0, M_PI);
        break;
    }
    return a * ax;
  }
  template<typename T>
  const T & pick(const std::vector<T> & v)
  {
    return v[size_t(i(0, long(v.size()) - 1))];
  }
};

struct Fail : public std::exception
{
  std::string key, msg;
  Fail(const std::string & k, const std::string & m) : key(k), msg(m) {}
  virtual ~Fail() noexcept {}
  virtual const char * what() const noexcept
  {
    return msg.c_str();
  }
};

struct Ctx
{
  Rng r;
  uint64_t h; // digest of what the case looked like (for counting the distinct cases)
  bool nontrivial;
  std::string desc; // only filled when wantDesc
  std::string inputs, trail; // idem: the first inputs and events of the case
  bool wantDesc;
  bool thorough;
  long events; // observations made by the monitors
  uint64_t rh; // digest of the results of the library seen by the monitors
  void (*hook)(Ctx &); // called at each observation (schedule of the interleaved cases)
  bool noRandom; // the shared random generator of the library must not be used
  Ctx() : r(1), h(0), nontrivial(false), wantDesc(false), thorough(false), events(0), rh(0), hook(0), noRandom(false) {}
  void saw(uint64_t x)
  {
    rh = (rh ^ x) * 0x9fb21c651e98df25ULL;
    rh ^= rh >> 29;
  }
  void saw(double x)
  {
    uint64_t u;
    std::memcpy(&u, &x, 8);
    if(x != x) u = 0x7ff8000000000000ULL;
    saw(u);
  }
  template<typename D>
  void sawM(const Eigen::MatrixBase<D> & m)
  {
    saw(uint64_t(m.rows() * 1000003 + m.cols()));
    for(Eigen::Index a = 0; a < m.rows(); ++a)
      for(Eigen::Index e = 0; e < m.cols(); ++e) saw(double(m(a, e)));
  }
  void observed()
  {
    ++events;
    if(hook) hook(*this);
  }
  void note(uint64_t x)
  {
    if(wantDesc && inputs.size() < 300) inputs += " " + std::to_string(x);
    mixIn(x);
  }
  void mixIn(uint64_t x)
  {
    h = Rng::mix(h ^ (x + 0x9e3779b97f4a7c15ULL + (h << 6)));
  }
  void note(double x)
  {
    uint64_t u;
    std::memcpy(&u, &x, 8);
    if(wantDesc && inputs.size() < 300)
    {
      char b[40];
      std::snprintf(b, sizeof(b), " %.6g", x);
      inputs += b;
    }
    mixIn(u);
  }
  template<typename D>
  void note(const Eigen::MatrixBase<D> & m)
  {
    for(Eigen::Index a = 0; a < m.rows(); ++a)
      for(Eigen::Index e = 0; e < m.cols(); ++e) note(double(m(a, e)));
  }
  void say(const std::string & s)
  {
    if(wantDesc && desc.size() < 4000) desc += s;
  }
};

extern thread_local Ctx * cur; // current case
extern thread_local std::map<std::string, long> counters; // named observation counters
/// number unique in the process (scratch files)
long uniqueNumber();
inline void count(const std::string & n, long k = 1)
{
  counters[n] += k;
  if(cur && cur->wantDesc && cur->trail.size() < 400) cur->trail += " " + n;
}

// ---------- checks (every call is one monitored observation)
template<typename A>
std::string str(const A & a)
{
  std::ostringstream s;
  s.precision(17);
  s << a;
  return s.str();
}
template<typename D>
std::string mstr(const Eigen::MatrixBase<D> & m)
{
  Eigen::IOFormat f(17, 0, ", ", "; ", "", "", "[", "]");
  std::ostringstream s;
  if(m.size() > 400)
    s << "<" << m.rows() << "x" << m.cols() << " matrix>";
  else
    s << m.format(f);
  return s.str();
}
inline void fail(const std::string & key, const std::string & msg)
{
  throw Fail(key, msg);
}
template<typename A>
typename std::enable_if<std::is_arithmetic<A>::value>::type sawValue(const A & a)
{
  cur->saw(double(a));
}
template<typename A>
typename std::enable_if<!std::is_arithmetic<A>::value>::type sawValue(const A &)
{
}
inline void ok(bool c, const char * key, const std::string & msg = "")
{
  cur->observed();
  cur->saw(uint64_t(c));
  if(!c) fail(key, msg);
}
template<typename A, typename B>
void eq(const A & a, const B & b, const char * key, const std::string & ctx = "")
{
  cur->observed();
  sawValue(a);
  if(!(a == b)) fail(key, "got " + str(a) + " expected " + str(b) + " " + ctx);
}
inline void close(double a, double b, double tol, const char * key, const std::string & ctx = "")
{
  cur->observed();
  cur->saw(a);
  if(!(std::fabs(a - b) <= tol)) fail(key, "got " + str(a) + " expected " + str(b) + " tol " + str(tol) + " " + ctx);
}
/// element-wise comparison, absolute tolerance tol*(1+max|b|)
template<typename DA, typename DB>
void closeM(const Eigen::MatrixBase<DA> & a_, const Eigen::MatrixBase<DB> & b_, double tol, const char * key,
            const std::string & ctx = "")
{
  cur->observed();
  Mat a = a_, b = b_;
  cur->sawM(a);
  if(a.rows() != b.rows() || a.cols() != b.cols())
    fail(key, "size " + str(a.rows()) + "x" + str(a.cols()) + " expected " + str(b.rows()) + "x" + str(b.cols()) + " "
                  + ctx);
  if(a.size() == 0) return;
  double t = tol * (1 + b.cwiseAbs().maxCoeff());
  for(Eigen::Index i = 0; i < a.rows(); ++i)
    for(Eigen::Index j = 0; j < a.cols(); ++j)
      if(!(std::fabs(a(i, j) - b(i, j)) <= t))
        fail(key, "at (" + str(i) + "," + str(j) + "): got " + mstr(a.transpose()) + " expected " + mstr(b.transpose())
                      + " tol " + str(t) + " " + ctx);
}
template<typename DA>
void finite(const Eigen::MatrixBase<DA> & a, const char * key)
{
  cur->observed();
  cur->sawM(a);
  if(!a.allFinite()) fail(key, "non-finite value " + mstr(a));
}

// ---------- independent reference rotation algebra
namespace ref
{
inline M3 skew(const V3 & v)
{
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
/// Rodrigues formula with series for the small angles
inline M3 exp3(const V3 & w)
{
  double t2 = w.squaredNorm(), t = std::sqrt(t2), a, b;
  if(t < 1e-3)
  {
    a = 1 - t2 / 6 + t2 * t2 / 120;
    b = 0.5 - t2 / 24 + t2 * t2 / 720;
  }
  else
  {
    a = std::sin(t) / t;
    double s = std::sin(0.5 * t);
    b = 2 * s * s / t2;
  }
  M3 S = skew(w);
  return M3::Identity() + a * S + b * S * S;
}
/// logarithm through the quaternion (Shepperd), norm in [0,pi]
inline V3 log3(const M3 & R)
{
  double q[4];
  double tr = R.trace();
  int k = 3;
  double best = tr;
  for(int i = 0; i < 3; ++i)
    if(R(i, i) > best)
    {
      best = R(i, i);
      k = i;
    }
  if(k == 3)
  {
    q[3] = 1 + tr;
    q[0] = R(2, 1) - R(1, 2);
    q[1] = R(0, 2) - R(2, 0);
    q[2] = R(1, 0) - R(0, 1);
  }
  else
  {
    int i = k, j = (k + 1) % 3, l = (k + 2) % 3;
    q[i] = 1 + R(i, i) - R(j, j) - R(l, l);
    q[j] = R(j, i) + R(i, j);
    q[l] = R(l, i) + R(i, l);
    q[3] = R(l, j) - R(j, l);
  }
  double nn = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  V3 v(q[0] / nn, q[1] / nn, q[2] / nn);
  double w = q[3] / nn;
  if(w < 0)
  {
    w = -w;
    v = -v;
  }
  double s = v.norm();
  if(s < 1e-12) return 2 * v;
  return (2 * std::atan2(s, w) / s) * v;
}
inline M3 qmat(double w, double x, double y, double z)
{
  double n = w * w + x * x + y * y + z * z;
  M3 m;
  m << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), //
      2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), //
      2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return m / n;
}
inline M3 qmat(const Q4 & q)
{
  return qmat(q.w(), q.x(), q.y(), q.z());
}
inline M3 rx(double a)
{
  M3 m;
  m << 1, 0, 0, 0, std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a);
  return m;
}
inline M3 ry(double a)
{
  M3 m;
  m << std::cos(a), 0, std::sin(a), 0, 1, 0, -std::sin(a), 0, std::cos(a);
  return m;
}
inline M3 rz(double a)
{
  M3 m;
  m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
  return m;
}
/// angle between two rotations
inline double dist(const M3 & A, const M3 & B)
{
  return log3(A * B.transpose()).norm();
}
inline double wrapPi(double a)
{
  return std::atan2(std::sin(a), std::cos(a));
}
inline bool isRot(const M3 & R, double tol)
{
  return (R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff() < tol && std::fabs(R.determinant() - 1) < tol;
}
const double g = 9.8; // documented gravity constant of the library
inline V3 gravity()
{
  return V3(0, 0, g);
}
} // namespace ref

inline void rotClose(const M3 & a, const M3 & b, double tol, const char * key, const std::string & ctx = "")
{
  cur->observed();
  cur->sawM(a);
  if(!a.allFinite() || !((a - b).cwiseAbs().maxCoeff() <= tol))
    fail(key, "rotation " + mstr(a) + " expected " + mstr(b) + " tol " + str(tol) + " " + ctx);
}

// ---------- suites
typedef void (*SuiteFn)(Ctx &);
struct Suite
{
  const char * name;
  SuiteFn fn;
  long quick, thorough;
  double releaseFactor; // how many times more cases in the fast (release) build
};
std::vector<Suite> & suites();
/// runs one case; key is empty when nothing was violated
struct Outcome
{
  std::string key, msg;
};
Outcome runCase(const Suite & s, Ctx & c, uint64_t seed, long k);
extern uint64_t theSeed;
struct Reg
{
  Reg(const char * n, SuiteFn f, long q, long t, double rf)
  {
    Suite s = {n, f, q, t, rf};
    suites().push_back(s);
  }
};
#define SUITE_RF(name, q, t, rf)                        \
  static void name(vmon::Ctx &);                        \
  static vmon::Reg reg_##name(#name, &name, q, t, rf);  \
  static void name(vmon::Ctx & c)
#define SUITE(name, q, t) SUITE_RF(name, q, t, 3)
} // namespace vmon
