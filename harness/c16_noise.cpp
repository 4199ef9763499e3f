// C16: statistics of the simulated noises, by whitening the draws of the real generators.
// All the statistical thresholds are at least 8 standard deviations wide.
#include "common.hpp"
#include "kfref.hpp"
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/tools/probability-law-simulation.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vmon;
namespace so = stateObservation;

namespace
{
/// makes the replays deterministic when the generator is where it was; the verdicts do not need it
template<typename B>
struct Seeder : public B
{
  template<typename T>
  static auto seed(unsigned s, T *) -> decltype(T::gen_.seed(s), void())
  {
    T::gen_.seed(s);
  }
  static void seed(unsigned, ...) {}
  static void run(unsigned s)
  {
    seed(s, (B *)0);
  }
};
void reseed(Rng & r)
{
  Seeder<so::tools::ProbabilityLawSimulation>::run(unsigned(r.u64()));
}
void doubling(const so::Vector & x, const so::Vector & t, so::Vector & res)
{
  res = x + 2 * t;
}
/// the columns of z (independent draws) are a white standard Gaussian vector
void white(const Mat & z, const char * key)
{
  Eigen::Index n = z.rows(), N = z.cols();
  double s = 8 / std::sqrt(double(N));
  for(Eigen::Index i = 0; i < n; ++i)
  {
    double m = z.row(i).mean();
    close(m, 0, s, key, "mean of component " + str(i));
    double in1 = 0, in2 = 0, up = 0;
    for(Eigen::Index k = 0; k < N; ++k)
    {
      in1 += std::fabs(z(i, k)) < 1;
      in2 += std::fabs(z(i, k)) < 2;
      up += z(i, k) > 0;
    }
    close(in1 / double(N), 0.682689, s * 0.5, key, "share within one deviation");
    close(in2 / double(N), 0.954500, s * 0.3, key, "share within two deviations");
    close(up / double(N), 0.5, s * 0.5, key, "share of positive draws");
    for(Eigen::Index j = 0; j < n; ++j)
    {
      double v = z.row(i).dot(z.row(j)) / double(N);
      close(v, i == j ? 1 : 0, i == j ? 1.5 * s : s * 1.1, key, "covariance " + str(i) + "," + str(j));
      // from one draw to the next
      double a = z.row(i).head(N - 1).dot(z.row(j).tail(N - 1)) / double(N - 1);
      close(a, 0, s * 1.1, key, "correlation with the next draw " + str(i) + "," + str(j));
    }
  }
}
/// draws of a noise of covariance S S^T and given mean: the part outside of the range of S is null, the rest is white
void distribution(const Mat & e, const Vec & mean, const Mat & cov, const char * key)
{
  Eigen::Index n = e.rows(), N = e.cols();
  Eigen::SelfAdjointEigenSolver<Mat> es(cov);
  double top = std::max(es.eigenvalues().cwiseAbs().maxCoeff(), 1e-300);
  std::vector<Eigen::Index> in;
  for(Eigen::Index i = 0; i < n; ++i)
  {
    Vec v = es.eigenvectors().col(i);
    double ev = es.eigenvalues()(i);
    if(ev > 1e-6 * top)
      in.push_back(i);
    else
    {
      Vec d = e.transpose() * v - Vec::Constant(N, v.dot(mean));
      ok(d.cwiseAbs().maxCoeff() <= 1e-6 * std::sqrt(top) + 1e-11 * (1 + mean.norm()), key,
         "noise in a direction without any: " + str(d.cwiseAbs().maxCoeff()) + " eigenvalues " + mstr(es.eigenvalues()));
    }
  }
  count("rank-" + str(in.size()) + "-of-" + str(n));
  Mat z(Eigen::Index(in.size()), N);
  for(size_t i = 0; i < in.size(); ++i)
    z.row(Eigen::Index(i)) = (e.transpose() * es.eigenvectors().col(in[i])
                              - Vec::Constant(N, es.eigenvectors().col(in[i]).dot(mean)))
                                 .transpose()
                             / std::sqrt(es.eigenvalues()(in[i]));
  white(z, key);
}
/// a covariance of any rank, with a gap between null and non-null eigenvalues
Mat psd(Rng & r, Eigen::Index n)
{
  Mat c;
  switch(r.i(0, 5))
  {
    case 0:
      c = Mat::Zero(n, n);
      break;
    case 1: // some null components, the others independent
      c = Mat::Zero(n, n);
      for(Eigen::Index i = 0; i < n; ++i)
        if(r.b()) c(i, i) = r.lg(0.01, 1);
      break;
    case 2: // any rank
    {
      Mat f = r.mat(n, r.i(1, n));
      c = f * f.transpose();
      break;
    }
    case 3: // twice the same component
    {
      Mat f = r.mat(n, n);
      f.row(r.i(0, n - 1)) = f.row(r.i(0, n - 1));
      c = f * f.transpose();
      break;
    }
    default:
      c = r.spd(n, 0.05);
  }
  c *= r.lg(1e-6, 1e4);
  return 0.5 * (c + c.transpose());
}
bool gap(const Mat & c)
{
  Eigen::SelfAdjointEigenSolver<Mat> es(c);
  double top = es.eigenvalues().cwiseAbs().maxCoeff();
  for(Eigen::Index i = 0; i < c.rows(); ++i)
  {
    double v = std::fabs(es.eigenvalues()(i));
    if(v > 1e-13 * top && v < 1e-3 * top) return false;
  }
  return true;
}
} // namespace

SUITE(white_noise, 480, 20000)
{
  Rng & r = c.r;
  reseed(r);
  Eigen::Index n = r.i(1, 6);
  so::GaussianWhiteNoise g0(r.b() ? n : r.i(1, 6)), g1;
  so::GaussianWhiteNoise & g = r.b() ? g0 : g1;
  if(&g == &g1 || g.getDimension() != n) g.setDimension(n);
  Vec mean = Vec::Zero(n);
  Mat cov = Mat::Identity(n, n);
  double scale = 1;
  // a history of settings: the last one of each counts
  for(int k = int(r.i(0, 6)); k > 0; --k)
    switch(r.i(0, 4))
    {
      case 0:
        mean = r.vec(n, 10);
        g.setBias(mean);
        break;
      case 1:
      {
        Mat s = r.mat(n, n, r.lg(1e-2, 10));
        if(!gap(s * s.transpose())) break;
        cov = s * s.transpose();
        g.setStandardDeviation(s);
        break;
      }
      case 2:
        if(r.b(0.3))
        {
          n = r.i(1, 6);
          g.setDimension(n);
          mean = Vec::Zero(n);
          cov = Mat::Identity(n, n);
        }
        break;
      default:
      {
        Mat s = psd(r, n);
        if(!gap(s)) break;
        cov = s;
        g.setCovarianceMatrix(s);
      }
    }
  if(r.b(0.2))
  {
    scale = 2;
    g.setSumFunction(doubling);
  }
  eq(Eigen::Index(g.getDimension()), n, "dimension");
  so::GaussianWhiteNoise copy(g);
  so::NoiseBase & used = r.b(0.3) ? static_cast<so::NoiseBase &>(copy) : g;
  c.note(cov);
  c.note(mean);
  c.nontrivial = true;
  Eigen::Index N = 3000;
  Mat e(n, N);
  for(Eigen::Index k = 0; k < N; ++k)
  {
    Vec x = r.vec(n, 5);
    Vec y = used.getNoisy(x);
    eq(y.size(), n, "noisy-size");
    e.col(k) = (y - x) / scale;
  }
  distribution(e, mean, cov, "gaussian-noise");
}

/// what does not fit the dimension is refused, and the refused call leaves the noise usable
SUITE(noise_dimensions, 3000, 60000)
{
  Rng & r = c.r;
  reseed(r);
  so::GaussianWhiteNoise d;
  eq(d.getDimension(), 0, "default-dimension");
  Eigen::Index n = r.i(1, 6), m = r.i(0, 7), m2 = r.i(0, 7);
  c.note(uint64_t(n * 100 + m * 10 + m2));
  c.nontrivial = true;
  so::GaussianWhiteNoise w(n);
  if(r.b())
  {
    d.setDimension(n);
    w = d;
  }
  eq(w.getDimension(), n, "dimension");
  if(kfref::debugBuild)
  {
    if(m != n || m2 != n)
    {
      ok(kfref::refused([&] { w.setStandardDeviation(Mat::Zero(m, m2)); }), "deviation-size-refused", str(m) + "x" + str(m2));
      ok(kfref::refused([&] { w.setCovarianceMatrix(Mat::Zero(m, m2)); }), "covariance-size-refused", str(m) + "x" + str(m2));
    }
    if(m != n)
    {
      ok(kfref::refused([&] { w.setBias(Vec::Zero(m)); }), "bias-size-refused", str(m));
      ok(kfref::refused([&] { w.getNoisy(Vec::Zero(m)); }), "vector-size-refused", str(m));
    }
  }
  eq(w.getDimension(), n, "dimension");
  // without deviation, the noise is the bias
  Vec b = r.vec(n, 3), v = r.vec(n, 3);
  w.setBias(b);
  if(r.b())
    w.setStandardDeviation(Mat::Zero(n, n));
  else
    w.setCovarianceMatrix(Mat::Zero(n, n));
  closeM(w.getNoisy(v), Vec(v + b), 1e-12, "bias-only");
  // a new dimension forgets the bias and the deviation
  Eigen::Index n2 = r.i(1, 6);
  w.setDimension(n2);
  eq(w.getDimension(), n2, "new-dimension");
  w.setStandardDeviation(Mat::Zero(n2, n2));
  v = r.vec(n2, 3);
  closeM(w.getNoisy(v), v, 0, "new-dimension-no-bias");
  // through the interface, on a copy
  so::GaussianWhiteNoise k(w);
  k.setBias(r.vec(n2, 2));
  so::NoiseBase & base = w;
  closeM(base.getNoisy(v), v, 0, "copies-are-independent");
}

SUITE(generators, 480, 20000)
{
  Rng & r = c.r;
  reseed(r);
  typedef so::tools::ProbabilityLawSimulation P;
  Eigen::Index N = 3000;
  double sd = r.lg(1e-3, 1e3), b = r.d(-10, 10), lo = r.d(-100, 100), hi = lo + r.lg(1e-3, 1e3);
  c.note(sd);
  c.note(lo);
  c.nontrivial = true;
  Mat z(1, N), zd(1, N), uz(2, N);
  for(Eigen::Index k = 0; k < N; ++k)
  {
    z(0, k) = (P::getGaussianScalar(sd, b) - b) / sd;
    zd(0, k) = P::getGaussianScalar();
    double u = P::getUniformScalar(lo, hi), u0 = P::getUniformScalar();
    ok(u >= lo && u <= hi && u0 >= 0 && u0 <= 1, "uniform-range", str(u) + " in " + str(lo) + " " + str(hi));
    uz(0, k) = (u - lo) / (hi - lo);
    uz(1, k) = u0;
  }
  white(z, "gaussian-scalar");
  white(zd, "gaussian-scalar-default");
  double s = 8 / std::sqrt(double(N));
  for(int i = 0; i < 2; ++i)
  {
    // uniform: each tenth has its share; no relation from one draw to the next
    std::vector<double> h(10, 0.);
    for(Eigen::Index k = 0; k < N; ++k) h[size_t(std::min(9., std::floor(10 * uz(i, k))))] += 1;
    for(int j = 0; j < 10; ++j) close(h[size_t(j)] / double(N), 0.1, 0.3 * s, "uniform-share");
    Vec q = uz.row(i).transpose() - Vec::Constant(N, 0.5);
    close(q.head(N - 1).dot(q.tail(N - 1)) / double(N), 0, s / 12 * 1.2, "uniform-next");
  }
  // matrices and vectors of any type
  Eigen::Index n = r.i(1, 4);
  Mat S = r.mat(n, n), e(n, N), e3(3, N);
  while(!gap(S * S.transpose())) S = r.mat(n, n);
  Vec m = r.vec(n, 3);
  M3 S3 = r.mat(3, 3);
  while(!gap(S3 * S3.transpose())) S3 = r.mat(3, 3);
  V3 m3 = r.v3(3);
  for(Eigen::Index k = 0; k < N; ++k)
  {
    Vec v = P::getGaussianVector<so::Vector>(S, m, n);
    e.col(k) = v;
    e3.col(k) = P::getGaussianVector<so::Vector3>(S3, m3, 3);
  }
  distribution(e, m, S * S.transpose(), "gaussian-vector");
  distribution(e3, m3, S3 * S3.transpose(), "gaussian-vector3");
  // several columns at once: independent draws, each of the bias given for its column
  Eigen::Index cols = r.i(2, 4), M = 1500;
  Mat mc = r.mat(n, cols) * 3, stack(n * cols, M), S2 = Mat::Zero(n * cols, n * cols);
  Vec mv(n * cols);
  for(Eigen::Index j = 0; j < cols; ++j)
  {
    mv.segment(n * j, n) = mc.col(j);
    S2.block(n * j, n * j, n, n) = S * S.transpose();
  }
  for(Eigen::Index k = 0; k < M; ++k)
  {
    so::Matrix g = P::getGaussianVector<so::Matrix>(S, mc, n, cols);
    ok(g.rows() == n && g.cols() == cols, "gaussian-matrix-size");
    for(Eigen::Index j = 0; j < cols; ++j) stack.col(k).segment(n * j, n) = g.col(j);
  }
  distribution(stack, mv, S2, "gaussian-matrix");
}

SUITE(rotations, 240, 8000)
{
  Rng & r = c.r;
  reseed(r);
  c.note(uint64_t(r.u64()));
  c.nontrivial = true;
  Eigen::Index N = 3000;
  double s = 8 / std::sqrt(double(N));
  Mat acc = Mat::Zero(9, 1), prod = Mat::Zero(9, 9);
  V3 prev(0, 0, 0);
  double ang = 0, corr = 0, q0 = 0, low = 0;
  for(Eigen::Index k = 0; k < N; ++k)
  {
    M3 R;
    if(r.b())
    {
      so::Quaternion q = so::kine::randomRotationQuaternion();
      close(q.norm(), 1, 1e-12, "random-quaternion-unit");
      R = ref::qmat(q.w(), q.x(), q.y(), q.z());
    }
    else if(r.b())
      R = so::kine::Orientation::randomRotation().toMatrix3();
    else
    {
      so::kine::Orientation o;
      R = o.setRandom().toMatrix3();
      ok(o.isSet(), "random-orientation-set");
    }
    ok(ref::isRot(R, 1e-9), "random-rotation");
    Eigen::Map<Mat> v(R.data(), 9, 1);
    acc += v;
    prod += v * v.transpose();
    V3 ax = R.col(0);
    corr += prev.dot(ax);
    prev = ax;
    double a = so::kine::randomAngle();
    ok(a >= -M_PI && a <= M_PI, "random-angle");
    ang += a / M_PI;
    low += std::fabs(a) < M_PI / 2;
    q0 += R.trace();
  }
  for(int i = 0; i < 9; ++i) close(acc(i) / double(N), 0, s * 0.6, "uniform-rotation-mean");
  // E[vec(R) vec(R)^T] = I/3 for the uniform rotations
  for(int i = 0; i < 9; ++i)
    for(int j = 0; j < 9; ++j)
      close(prod(i, j) / double(N), i == j ? 1. / 3 : 0, s * 0.4, "uniform-rotation-covariance", str(i) + "," + str(j));
  close(corr / double(N), 0, s * 0.6, "independent-rotations");
  close(ang / double(N), 0, s * 0.6, "uniform-angle");
  close(low / double(N), 0.5, s * 0.5, "uniform-angle-half");
}
