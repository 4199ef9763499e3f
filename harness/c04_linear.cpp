// C04: the linear Kalman filter against the textbook recursion, computed independently (explicit inverses, Joseph form,
// and, for constant models, the batch least-squares solution over the whole history).
#include "kfref.hpp"
#include <memory>
using namespace kfref;

namespace
{
void psd(const Mat & P, double tol, const char * key)
{
  closeM(P, P.transpose(), 1e-12, key, "symmetry");
  Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (P + P.transpose()));
  double mx = std::max(1e-300, es.eigenvalues().cwiseAbs().maxCoeff());
  ok(es.eigenvalues().minCoeff() >= -tol * mx, key, "eigenvalues " + mstr(es.eigenvalues().transpose()));
}
Mat psdMat(Rng & r, Eigen::Index n, double scale)
{
  switch(r.i(0, 3))
  {
    case 0: // singular
    {
      Mat G = r.mat(n, std::max<Eigen::Index>(1, n - r.i(1, 2)));
      return scale * G * G.transpose();
    }
    case 1: // diagonal of very different magnitudes
    {
      Vec d(n);
      for(Eigen::Index i = 0; i < n; ++i) d(i) = scale * r.lg(1e-4, 1e2);
      return Mat(d.asDiagonal());
    }
    default:
      return r.spd(n, 0.05, scale);
  }
}
} // namespace

SUITE(textbook_recursion, 3000, 80000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 7), m = r.i(1, 7), p = r.b(0.6) ? r.i(1, 5) : 0;
  so::LinearKalmanFilter f(n, m, p);
  bool tv = r.b(0.5), hasB = p > 0 && r.b(0.8), hasD = p > 0 && r.b(0.5), setD = hasD || r.b();
  Mat A, B, C, D, Q, R;
  // units of the inputs and of the measurements: the estimates must not depend on them
  double su = r.b(0.4) ? r.lg(1e-12, 1e6) : 1, sy = r.b(0.3) ? r.lg(1e-6, 1e6) : 1;
  auto newModel = [&](bool all) {
    if(all || r.b(0.5)) A = r.mat(n, n, r.b(0.2) ? 2. / double(n) : 1. / std::sqrt(double(n)));
    if(all || r.b(0.3)) B = hasB ? Mat(r.mat(n, p) * su) : Mat(Mat::Zero(n, p));
    if(all || r.b(0.5)) C = r.mat(m, n, r.lg(0.3, 3)) * sy;
    if(all || r.b(0.3)) D = hasD ? Mat(r.mat(m, p) * su * sy) : Mat(Mat::Zero(m, p));
    if(all || r.b(0.3)) Q = psdMat(r, n, r.lg(1e-3, 10));
    if(all || r.b(0.3)) R = r.spd(m, 0.2, r.lg(1e-2, 10)) * sy * sy;
    f.setA(A);
    f.setB(B);
    f.setC(C);
    if(setD) f.setD(D);
    f.setQ(Q);
    f.setR(R);
    eq(Mat(f.getA()) == A && Mat(f.getC()) == C && Mat(f.getQ()) == Q && Mat(f.getR()) == R, true, "model-getters");
    closeM(f.getMeasurementCovariance(), R, 0, "model-getters");
    closeM(f.getProcessCovariance(), Q, 0, "model-getters");
  };
  newModel(true);
  long t = r.i(-5, 1000);
  Vec x = r.vec(n, 5);
  Mat P = psdMat(r, n, r.lg(1e-3, 10));
  f.setState(x, t);
  f.setStateCovariance(P);
  long steps = r.i(1, 15);
  std::map<long, Vec> u;
  for(long k = t; k <= t + steps; ++k)
    if(p > 0)
    {
      u[k] = r.vec(p, 3) / su;
      f.setInput(u[k], k);
    }
  c.note(x);
  c.note(A);
  c.note(C);
  c.say("n=" + str(n) + " m=" + str(m) + " p=" + str(p) + " B=" + str(hasB) + " D=" + str(hasD) + " steps=" + str(steps)
        + " time-varying=" + str(tv) + " A=" + mstr(A));
  for(long j = 0; j < steps; ++j)
  {
    if(tv) newModel(false);
    Vec y = r.vec(m, 5) * sy;
    f.setMeasurement(y, t + 1);
    RefStep s;
    refGain(A, C, Q, R, P, s);
    {
      // beyond this conditioning rounding alone separates two correct implementations
      Eigen::SelfAdjointEigenSolver<Mat> es(s.S);
      if(es.eigenvalues().maxCoeff() > 2e4 * es.eigenvalues().minCoeff())
      {
        count("histories cut at an ill-conditioned innovation");
        break;
      }
    }
    s.xbar = A * x;
    if(p > 0) s.xbar += B * u[t];
    s.ybar = C * s.xbar;
    if(p > 0) s.ybar += D * u[t + 1];
    s.inno = s.K * (y - s.ybar);
    s.x = s.xbar + s.inno;
    double sc = 5e-7;
    if(r.b(0.3)) closeM(f.updateStatePrediction(), s.xbar, sc, "state-prediction");
    if(r.b(0.3)) closeM(f.updateStateAndMeasurementPrediction() / sy, s.ybar / sy, sc, "measurement-prediction");
    Vec e = f.getEstimatedState(t + 1);
    std::string w = "step " + str(j);
    closeM(e, s.x, sc, "estimate", w);
    closeM(f.getCurrentEstimatedState(), s.x, sc, "current-estimate", w);
    closeM(f.getStateCovariance(), s.P, sc, "covariance", w);
    closeM(f.getLastPrediction(), s.xbar, sc, "last-prediction", w);
    closeM(f.getLastPredictedMeasurement() / sy, s.ybar / sy, sc, "last-predicted-measurement", w);
    closeM(f.getInnovation(), s.inno, sc, "innovation", w);
    closeM(f.getLastGain() * sy, s.K * sy, sc, "gain", w);
    psd(f.getStateCovariance(), 1e-7, "covariance-psd");
    // correction never increases the uncertainty
    Mat dec = s.pbar - f.getStateCovariance();
    Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (dec + dec.transpose()));
    ok(es.eigenvalues().minCoeff() >= -1e-7 * (1 + s.pbar.norm()), "covariance-grew");
    Vec sim = C * s.x;
    if(p > 0) sim += D * u[t + 1];
    if(r.b(0.5))
    {
      closeM(f.getSimulatedMeasurement(t + 1) / sy, sim / sy, sc, "simulated-measurement", w);
      closeM(f.getLastPredictedMeasurement() / sy, s.ybar / sy, sc, "last-predicted-measurement-after-simulation", w);
      closeM(f.getCurrentEstimatedState(), s.x, sc, "estimate-after-simulation", w);
    }
    x = s.x;
    P = s.P;
    ++t;
    count("filter steps");
    c.nontrivial = true;
  }
}

/// the filter is the least-squares solution over the whole history (constant or varying model, no recursion shared)
SUITE(batch_least_squares, 1200, 30000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 3), m = r.i(1, 3), p = r.i(0, 2);
  so::LinearKalmanFilter f(n, m, p);
  long N = r.i(1, 6);
  Vec x0 = r.vec(n, 3);
  Mat P0 = r.spd(n, 0.3);
  f.setState(x0, 0);
  f.setStateCovariance(P0);
  // unknowns x_0..x_N ; residuals: prior, dynamics, measurements
  Eigen::Index dim = n * (N + 1), rows = n + N * (n + m);
  Mat H = Mat::Zero(rows, dim);
  Vec z(rows);
  auto whiten = [&](const Mat & S) -> Mat {
    Eigen::SelfAdjointEigenSolver<Mat> es(S);
    return es.operatorInverseSqrt();
  };
  Mat W = whiten(P0);
  H.block(0, 0, n, n) = W;
  z.head(n) = W * x0;
  Eigen::Index at = n;
  std::vector<Vec> us;
  double su = r.b(0.4) ? r.lg(1e-12, 1e6) : 1;
  for(long k = 0; k <= N; ++k) us.push_back(r.vec(p, 2) / su);
  Vec est;
  for(long k = 0; k < N; ++k)
  {
    Mat A = r.mat(n, n), B = r.mat(n, p) * su, C = r.mat(m, n), D = r.mat(m, p) * su, Q = r.spd(n, 0.3), R = r.spd(m, 0.3);
    Vec y = r.vec(m, 3);
    f.setA(A);
    f.setB(B);
    f.setC(C);
    f.setD(D);
    f.setQ(Q);
    f.setR(R);
    if(p > 0)
    {
      f.setInput(us[size_t(k)], k);
      f.setInput(us[size_t(k + 1)], k + 1);
    }
    f.setMeasurement(y, k + 1);
    est = f.getEstimatedState(k + 1);
    Mat Wq = whiten(Q), Wr = whiten(R);
    H.block(at, n * k, n, n) = -Wq * A;
    H.block(at, n * (k + 1), n, n) = Wq;
    z.segment(at, n) = Wq * (B * us[size_t(k)]);
    at += n;
    H.block(at, n * (k + 1), m, n) = Wr * C;
    z.segment(at, m) = Wr * (y - D * us[size_t(k + 1)]);
    at += m;
    c.note(A);
    c.note(y);
  }
  Mat info = H.transpose() * H;
  Vec sol = H.colPivHouseholderQr().solve(z);
  Mat cov = info.fullPivLu().inverse();
  closeM(est, sol.tail(n), 1e-6, "least-squares-estimate");
  closeM(f.getStateCovariance(), cov.bottomRightCorner(n, n), 1e-6, "least-squares-covariance");
  c.say("n=" + str(n) + " m=" + str(m) + " p=" + str(p) + " horizon=" + str(N) + " estimate=" + mstr(est.transpose()));
  count("least-squares horizons", N);
  c.nontrivial = true;
}

/// large number of steps: the covariance stays symmetric PSD and reaches the Riccati fixed point; stiff noise levels
SUITE(long_runs, 60, 1500)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 5), m = r.i(1, 4);
  so::LinearKalmanFilter f(n, m, 0);
  Mat A = r.mat(n, n, 1. / double(n)) + 0.6 * Mat::Identity(n, n), C = r.mat(m, n);
  Mat Q = r.spd(n, 0.1, r.lg(1e-3, 1)), R = r.spd(m, 0.2, r.lg(1e-2, 1));
  f.setA(A);
  f.setB(Mat::Zero(n, 0));
  f.setC(C);
  f.setQ(Q);
  f.setR(R);
  Mat P = r.spd(n, 0.1, 5);
  Vec x = r.vec(n, 10);
  f.setState(x, 0);
  f.setStateCovariance(P);
  c.note(A);
  c.note(C);
  c.say("n=" + str(n) + " m=" + str(m));
  for(long k = 1; k <= 300; ++k)
  {
    Vec y = r.vec(m, 5);
    f.setMeasurement(y, k);
    RefStep s;
    refGain(A, C, Q, R, P, s);
    x = A * x;
    x += s.K * (y - C * x);
    P = s.P;
    if(k % 10 == 0 || k < 5)
    {
      closeM(f.getEstimatedState(k), x, 1e-6, "estimate-long");
      closeM(f.getStateCovariance(), P, 1e-6, "covariance-long");
      psd(f.getStateCovariance(), 1e-8, "covariance-long-psd");
    }
  }
  RefStep s;
  refGain(A, C, Q, R, P, s);
  closeM(f.getStateCovariance(), s.P, 1e-3, "riccati-fixed-point");
  count("long runs");
  c.nontrivial = true;
}

/// helpers: constant / zero / identity / random matrices of the right size, size checks, refusal of wrong sizes
SUITE(helpers, 300, 3000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 6), m = r.i(1, 6), p = r.i(1, 4);
  so::LinearKalmanFilter g, f(n, m, p);
  so::LinearKalmanFilter & h = r.b() ? f : g;
  if(&h == &g)
  {
    g.setStateSize(n);
    g.setMeasureSize(m);
    g.setInputSize(p);
  }
  double v = r.d(-5, 5);
  c.note(v);
  c.say("n=" + str(n) + " m=" + str(m) + " p=" + str(p));
  closeM(h.getAmatrixConstant(v), Mat::Constant(n, n, v), 0, "A-constant");
  closeM(h.getCmatrixConstant(v), Mat::Constant(m, n, v), 0, "C-constant");
  closeM(h.getQmatrixConstant(v), Mat::Constant(n, n, v), 0, "Q-constant");
  closeM(h.getRmatrixConstant(v), Mat::Constant(m, m, v), 0, "R-constant");
  closeM(h.getPmatrixConstant(v), Mat::Constant(n, n, v), 0, "P-constant");
  closeM(h.getBmatrixConstant(v), Mat::Constant(n, p, v), 0, "B-constant");
  closeM(h.getDmatrixConstant(v), Mat::Constant(m, p, v), 0, "D-constant");
  closeM(h.getAmatrixZero(), Mat::Zero(n, n), 0, "A-zero");
  closeM(h.getCmatrixZero(), Mat::Zero(m, n), 0, "C-zero");
  closeM(h.getQmatrixZero(), Mat::Zero(n, n), 0, "Q-zero");
  closeM(h.getRmatrixZero(), Mat::Zero(m, m), 0, "R-zero");
  closeM(h.getPmatrixZero(), Mat::Zero(n, n), 0, "P-zero");
  closeM(h.getBmatrixZero(), Mat::Zero(n, p), 0, "B-zero");
  closeM(h.getDmatrixZero(), Mat::Zero(m, p), 0, "D-zero");
  closeM(h.getAmatrixIdentity(), Mat::Identity(n, n), 0, "A-identity");
  closeM(h.getQmatrixIdentity(), Mat::Identity(n, n), 0, "Q-identity");
  closeM(h.getRmatrixIdentity(), Mat::Identity(m, m), 0, "R-identity");
  closeM(h.getPmatrixIdentity(), Mat::Identity(n, n), 0, "P-identity");
  closeM(h.stateVectorConstant(v), Vec::Constant(n, v), 0, "x-constant");
  closeM(h.measureVectorConstant(v), Vec::Constant(m, v), 0, "y-constant");
  closeM(h.inputVectorConstant(v), Vec::Constant(p, v), 0, "u-constant");
  closeM(h.stateVectorZero(), Vec::Zero(n), 0, "x-zero");
  closeM(h.measureVectorZero(), Vec::Zero(m), 0, "y-zero");
  closeM(h.inputVectorZero(), Vec::Zero(p), 0, "u-zero");
  closeM(h.stateTangentVectorConstant(v), Vec::Constant(n, v), 0, "dx-constant");
  closeM(h.measureTangentVectorConstant(v), Vec::Constant(m, v), 0, "dy-constant");
  closeM(h.stateTangentVectorZero(), Vec::Zero(n), 0, "dx-zero");
  closeM(h.measureTangentVectorZero(), Vec::Zero(m), 0, "dy-zero");
  ok(h.checkAmatrix(h.getAmatrixRandom()) && h.checkCmatrix(h.getCmatrixRandom()) && h.checkQmatrix(h.getQmatrixRandom())
         && h.checkRmatrix(h.getRmatrixRandom()) && h.checkPmatrix(h.getPmatrixRandom())
         && h.checkBmatrix(h.getBmatrixRandom()) && h.checkDmatrix(h.getDmatrixRandom())
         && h.checkStateVector(h.stateVectorRandom()) && h.checkMeasureVector(h.measureVectorRandom())
         && h.checkInputVector(h.inputVectorRandom()) && h.checkStateTangentVector(h.stateTangentVectorRandom())
         && h.checkMeasureTangentVector(h.measureTangentVectorRandom()),
     "random-sizes");
  Eigen::Index a = r.i(1, 7), b = r.i(1, 7);
  Mat M = Mat::Zero(a, b);
  eq(h.checkAmatrix(M), a == n && b == n, "check-A");
  eq(h.checkBmatrix(M), a == n && b == p, "check-B");
  eq(h.checkCmatrix(M), a == m && b == n, "check-C");
  eq(h.checkDmatrix(M), a == m && b == p, "check-D");
  eq(h.checkQmatrix(M), a == n && b == n, "check-Q");
  eq(h.checkRmatrix(M), a == m && b == m, "check-R");
  eq(h.checkPmatrix(M), a == n && b == n, "check-P");
  if(debugBuild)
  {
    eq(refused([&] { h.setA(M); }), !(a == n && b == n), "refused-A");
    eq(refused([&] { h.setB(M); }), !(a == n && b == p), "refused-B");
    eq(refused([&] { h.setC(M); }), !(a == m && b == n), "refused-C");
    eq(refused([&] { h.setD(M); }), !(a == m && b == p), "refused-D");
    eq(refused([&] { h.setQ(M); }), !(a == n && b == n), "refused-Q");
    eq(refused([&] { h.setR(M); }), !(a == m && b == m), "refused-R");
    eq(refused([&] { h.setStateCovariance(M); }), !(a == n && b == n), "refused-P");
    // nothing can be estimated before the model is given
    so::LinearKalmanFilter e(n, m, p);
    e.setState(Vec(Vec::Zero(n)), 0);
    e.setMeasurement(Vec(Vec::Zero(m)), 1);
    e.setInput(Vec(Vec::Zero(p)), 0);
    e.setInput(Vec(Vec::Zero(p)), 1);
    int miss = int(r.i(0, 5));
    if(miss != 0) e.setA(e.getAmatrixIdentity());
    if(miss != 1) e.setB(e.getBmatrixZero());
    if(miss != 2) e.setC(e.getCmatrixRandom());
    if(miss != 3) e.setQ(e.getQmatrixIdentity());
    if(miss != 4) e.setR(e.getRmatrixIdentity());
    if(miss != 5) e.setStateCovariance(e.getPmatrixIdentity());
    ok(refused([&] { e.getEstimatedState(1); }), "estimated-without-model", str(miss));
    eq(long(e.getCurrentTime()), 0L, "refusal-changed-time");
    count("refusals");
  }
  c.nontrivial = true;
}

/// histories of clearing, resizing, resetting and setting again: what was cleared is refused, what was not still counts
SUITE(reconfiguration, 1200, 20000)
{
  Rng & r = c.r;
  Eigen::Index n = r.i(1, 4), m = r.i(1, 4), p = r.i(1, 3);
  so::LinearKalmanFilter f(n, m, p);
  std::map<char, Mat> set; // what is set
  bool hasX = false;
  Vec x;
  long t = 0;
  std::map<long, Vec> u;
  Vec y;
  bool hasY = false;
  std::string hist;
  auto give = [&](char w) {
    switch(w)
    {
      case 'A':
        f.setA(set['A'] = r.mat(n, n));
        break;
      case 'B':
        f.setB(set['B'] = r.b(0.2) ? Mat(Mat::Zero(n, p)) : Mat(r.mat(n, p)));
        break;
      case 'C':
        f.setC(set['C'] = r.mat(m, n));
        break;
      case 'D':
        f.setD(set['D'] = r.mat(m, p));
        break;
      case 'Q':
        f.setQ(set['Q'] = r.spd(n, 0.3));
        break;
      case 'R':
        f.setR(set['R'] = r.spd(m, 0.3));
        break;
      default:
        f.setStateCovariance(set['P'] = r.spd(n, 0.3));
    }
    hist += std::string(" set") + w;
  };
  auto dropStates = [&] {
    hasX = false;
    set.erase('P');
  };
  auto dropData = [&] {
    u.clear();
    hasY = false;
  };
  const char all[] = "ABCDQRP";
  for(int i = 0; i < 7; ++i)
    if(r.b(0.8)) give(all[i]);
  long steps = r.i(4, 40);
  for(long j = 0; j < steps; ++j)
  {
    switch(r.i(0, 13))
    {
      case 0:
      case 1:
      case 2:
        give(all[r.i(0, 6)]);
        break;
      case 3:
      {
        char w = all[r.i(0, 6)];
        switch(w)
        {
          case 'A':
            f.clearA();
            break;
          case 'B':
            f.clearB();
            break;
          case 'C':
            f.clearC();
            break;
          case 'D':
            f.clearD();
            break;
          case 'Q':
            f.clearQ();
            break;
          case 'R':
            f.clearR();
            break;
          default:
            f.clearStateCovariance();
        }
        set.erase(w);
        hist += std::string(" clear") + w;
        break;
      }
      case 4:
      {
        Eigen::Index q = r.b(0.4) ? n : r.i(1, 4);
        f.setStateSize(q);
        hist += " stateSize" + str(n) + "->" + str(q);
        if(q != n)
        {
          n = q;
          set.erase('A');
          set.erase('B');
          set.erase('C');
          set.erase('Q');
          dropStates();
        }
        break;
      }
      case 5:
      {
        Eigen::Index q = r.b(0.4) ? m : r.i(1, 4);
        f.setMeasureSize(q);
        hist += " measureSize" + str(m) + "->" + str(q);
        if(q != m)
        {
          m = q;
          set.erase('C');
          set.erase('D');
          set.erase('R');
          hasY = false;
        }
        break;
      }
      case 6:
      {
        Eigen::Index q = r.b(0.4) ? p : r.i(1, 3);
        f.setInputSize(q);
        hist += " inputSize" + str(p) + "->" + str(q);
        if(q != p)
        {
          p = q;
          set.erase('B');
          set.erase('D');
          u.clear();
        }
        break;
      }
      case 7:
        if(!r.b(0.3)) break;
        f.reset();
        hist += " reset";
        dropStates();
        dropData();
        break;
      case 8:
        if(!r.b(0.3)) break;
        f.clearStates();
        hist += " clearStates";
        dropStates();
        break;
      case 9:
        f.clearInputsAndMeasurements();
        dropData();
        hist += " clearData";
        break;
      default:
      {
        // attempt an estimation
        if(!hasX)
        {
          f.clearInputsAndMeasurements();
          dropData();
          f.setState(x = r.vec(n, 2), t = r.i(-5, 100));
          hasX = true;
        }
        for(long k = t; k <= t + 1; ++k)
          if(!u.count(k)) f.setInput(u[k] = r.vec(p, 2), k);
        if(!hasY)
        {
          f.setMeasurement(y = r.vec(m, 2), t + 1);
          hasY = true;
        }
        std::string missing;
        for(const char * w = "ABCQRP"; *w; ++w)
          if(!set.count(*w)) missing += *w;
        eq(long(f.getStateSize()) * 100 + long(f.getMeasureSize()) * 10 + long(f.getInputSize()), long(n * 100 + m * 10 + p), "sizes", hist);
        if(!missing.empty())
        {
          if(debugBuild)
          {
            ok(refused([&] { f.getEstimatedState(t + 1); }), "estimated-without-model", missing + " after" + hist);
            eq(long(f.getCurrentTime()), t, "refusal-changed-time", hist);
            count("refused_missing_" + missing.substr(0, 1));
          }
          for(size_t i = 0; i < missing.size(); ++i) give(missing[i]);
        }
        RefStep s;
        refGain(set['A'], set['C'], set['Q'], set['R'], set['P'], s);
        s.xbar = set['A'] * x + set['B'] * u[t];
        s.ybar = set['C'] * s.xbar;
        if(set.count('D')) s.ybar += set['D'] * u[t + 1];
        s.x = s.xbar + s.K * (y - s.ybar);
        Vec e = f.getEstimatedState(t + 1);
        closeM(e, s.x, 1e-6, "reconfigured-estimate", hist);
        closeM(f.getStateCovariance(), s.P, 1e-6, "reconfigured-covariance", hist);
        count("reconfigured_estimates");
        x = e;
        set['P'] = f.getStateCovariance();
        u.erase(t);
        hasY = false;
        ++t;
        hist += " estimate";
        c.nontrivial = true;
        c.note(e);
      }
    }
  }
  c.say(hist.substr(0, 300));
}
