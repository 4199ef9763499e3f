// C03: observer bookkeeping. Random histories of state / measurement / input / clear / query operations on the linear
// and the extended Kalman filters, mirrored on a shadow record of what was given; the estimate must always be the
// recursion run over the shadow record, and every query must report the shadow record.
#include "kfref.hpp"
#include <memory>
using namespace kfref;

namespace
{
struct Hist
{
  Ctx & c;
  Rng & r;
  bool lin;
  Eigen::Index n, m, p;
  bool uS, uM;
  Model md;
  Mat A, C, Q, R; // what the filter linearises with
  std::unique_ptr<so::LinearKalmanFilter> lf;
  std::unique_ptr<so::ExtendedKalmanFilter> ef;
  so::KalmanFilterBase * f;
  // shadow
  bool xs;
  long t;
  Vec x;
  bool ps;
  Mat P;
  std::map<long, Vec> y, u;
  long steps;

  Hist(Ctx & c_, bool linear) : c(c_), r(c_.r), lin(linear), f(0), xs(false), t(0), ps(false), steps(0)
  {
    n = r.i(1, 4);
    m = r.i(1, 4);
    p = r.b(0.7) ? r.i(1, 3) : 0;
    uS = p > 0 && r.b(0.7);
    uM = p > 0 && r.b(0.4);
    md.init(r, n, m, p, uS, uM, !lin);
    if(lin)
    {
      lf.reset(r.b(0.8) ? new so::LinearKalmanFilter(n, m, p) : new so::LinearKalmanFilter());
      f = lf.get();
      if(f->getStateSize() == 0)
      {
        f->setStateSize(n);
        f->setMeasureSize(m);
        f->setInputSize(p);
      }
    }
    else
    {
      if(p == 0 && r.b())
        ef.reset(new so::ExtendedKalmanFilter(n, m));
      else if(r.b())
        ef.reset(new so::ExtendedKalmanFilter(n, m, p, uM, uS));
      else
        ef.reset(new so::ExtendedKalmanFilter(n, n, m, m, p, uM, uS));
      ef->setFunctor(&md);
      f = ef.get();
    }
    model(true);
    c.note(uint64_t(n * 100 + m * 10 + p));
    c.say(std::string(lin ? "linear" : "extended") + " n=" + str(n) + " m=" + str(m) + " p=" + str(p) + " uS=" + str(uS)
          + " uM=" + str(uM) + ": ");
  }
  void model(bool all)
  {
    if(lin && all)
    {
      lf->setB(md.B);
      if(p == 0 || uM || r.b()) lf->setD(md.D);
    }
    if(lin)
    {
      A = md.A;
      C = md.C;
    }
    else
    {
      A = r.mat(n, n, 1. / double(n));
      C = r.mat(m, n);
    }
    Q = r.spd(n, 0.1, r.lg(0.01, 1));
    R = r.spd(m, 0.3, r.lg(0.05, 2));
    f->setA(A);
    f->setC(C);
    if(r.b())
      f->setQ(Q);
    else
      f->setProcessCovariance(Q);
    if(r.b())
      f->setR(R);
    else
      f->setMeasurementCovariance(R);
  }
  Vec inp(long k) const
  {
    std::map<long, Vec>::const_iterator it = u.find(k);
    return it == u.end() ? Vec(Vec::Zero(p)) : it->second;
  }
  bool canPredict(long k0) const
  {
    return !uS || u.count(k0);
  }
  bool canStep(long k0) const
  {
    return y.count(k0 + 1) && ps && canPredict(k0) && (!uM || u.count(k0 + 1));
  }
  long reach() const
  {
    long k = t;
    while(canStep(k) && k < t + 50) ++k;
    return k;
  }
  void shadowStep()
  {
    RefStep s;
    refGain(A, C, Q, R, P, s);
    s.xbar = md.f(x, uS ? inp(t) : Vec(Vec::Zero(p)), t);
    s.ybar = md.h(s.xbar, inp(t + 1), t + 1);
    x = s.xbar + s.K * (y[t + 1] - s.ybar);
    P = s.P;
    ++t;
    ++steps;
  }
  void shadowRun(long k)
  {
    while(t < k)
    {
      shadowStep();
      if(!y.empty() && y.begin()->first < k) y.erase(y.begin());
      if(!u.empty() && u.begin()->first < k) u.erase(u.begin());
    }
  }
  void verify(const char * op)
  {
    std::string w = std::string("after ") + op;
    eq(f->stateIsSet(), xs, "state-is-set", w);
    if(xs)
    {
      eq(long(f->getCurrentTime()), t, "current-time", w);
      closeM(f->getCurrentEstimatedState(), x, 1e-6, "current-state", w);
    }
    if(ps) closeM(f->getStateCovariance(), P, 1e-6, "covariance", w);
    eq(long(f->getMeasurementsNumber()), long(y.size()), "measurements-number", w);
    if(!y.empty())
    {
      eq(long(f->getMeasurementTime()), y.rbegin()->first, "measurement-time", w);
      for(std::map<long, Vec>::iterator it = y.begin(); it != y.end(); ++it)
        ok(Vec(f->getMeasurement(it->first)) == it->second, "measurement-value", w);
    }
    eq(long(f->getInputsNumber()), long(u.size()), "inputs-number", w);
    if(!u.empty())
    {
      eq(long(f->getInputTime()), u.rbegin()->first, "input-time", w);
      for(std::map<long, Vec>::iterator it = u.begin(); it != u.end(); ++it)
        ok(Vec(f->getInput(it->first)) == it->second, "input-value", w);
    }
    eq(long(f->getStateSize()), long(n), "state-size", w);
    eq(long(f->getMeasureSize()), long(m), "measure-size", w);
    eq(long(f->getInputSize()), long(p), "input-size", w);
  }
  void setState(long k)
  {
    Vec v = r.vec(n, 2);
    f->setState(v, k);
    if(xs && k < t)
    {
      y.clear();
      u.clear();
    }
    else
    {
      while(!y.empty() && y.begin()->first <= k) y.erase(y.begin());
      while(!u.empty() && u.begin()->first < k) u.erase(u.begin());
    }
    xs = true;
    t = k;
    x = v;
  }
  void setCov()
  {
    P = r.spd(n, 0.2, r.lg(0.05, 2));
    f->setStateCovariance(P);
    ps = true;
  }
  void op()
  {
    int o = int(r.i(0, 33));
    c.note(uint64_t(o));
    switch(o)
    {
      case 0:
      {
        long k = xs ? t + r.i(r.b(0.4) ? -5 : 0, 4) : r.i(-5, 30);
        // a queue left of the new state with a gap cannot be continued: stay within what the queue allows
        if(!y.empty() && y.begin()->first > k + 1 && !(xs && k < t)) break;
        if(!u.empty() && u.begin()->first > k && !(xs && k < t)) break;
        c.say("setState@" + str(k) + " ");
        setState(k);
        if(!ps || r.b(0.3)) setCov();
        verify("setState");
        break;
      }
      case 1:
        if(!xs) break;
        x = r.vec(n, 2);
        f->setCurrentState(x);
        c.say("setCurrentState ");
        verify("setCurrentState");
        break;
      case 2:
      case 3:
      case 4:
      case 5:
      case 6:
      case 7:
      case 8: // measurements
      {
        Vec v = r.vec(m, 3);
        long cnt = r.i(1, 4);
        for(long j = 0; j < cnt; ++j)
        {
          v = r.vec(m, 3);
          long k;
          if(y.empty())
          {
            if(!xs)
            {
              if(!r.b(0.3)) break;
              k = r.i(-5, 30);
            }
            else
              k = t + 1;
          }
          else
            k = r.b(0.75) ? y.rbegin()->first + 1 : r.i(y.begin()->first, y.rbegin()->first);
          if(y.size() > 12) break;
          bool next = y.empty() ? xs : k == y.rbegin()->first + 1;
          if(next && r.b(0.4))
          {
            f->pushMeasurement(v);
            c.say("push y" + str(k) + " ");
          }
          else
          {
            f->setMeasurement(v, k);
            c.say("y" + str(k) + " ");
          }
          y[k] = v;
        }
        verify("setMeasurement");
        break;
      }
      case 9:
      case 10:
      case 11:
      case 12:
      case 13:
      case 14: // inputs
      {
        if(p == 0)
        {
          f->setInput(so::Vector(), xs ? t : 0);
          if(r.b()) f->pushInput(so::Vector());
          f->clearInputs();
          verify("setInput-without-input");
          break;
        }
        long cnt = r.i(1, 4);
        for(long j = 0; j < cnt; ++j)
        {
          Vec v = r.vec(p, 3);
          long k;
          if(u.empty())
          {
            if(!xs)
            {
              if(!r.b(0.3)) break;
              k = r.i(-5, 30);
            }
            else
              k = t + ((uS || r.b(0.7)) ? 0 : 1);
          }
          else
            k = r.b(0.75) ? u.rbegin()->first + 1 : r.i(u.begin()->first, u.rbegin()->first);
          if(u.size() > 12) break;
          bool next = u.empty() ? (xs && k == t) : k == u.rbegin()->first + 1;
          if(next && r.b(0.4))
          {
            f->pushInput(v);
            c.say("push u" + str(k) + " ");
          }
          else
          {
            f->setInput(v, k);
            c.say("u" + str(k) + " ");
          }
          u[k] = v;
        }
        verify("setInput");
        break;
      }
      case 15:
      case 16:
      case 17:
      case 18:
      case 19: // estimate up to somewhere reachable
      {
        if(!xs || !ps) break;
        long k = r.i(t, reach());
        long t0 = t;
        shadowRun(k);
        Vec e = f->getEstimatedState(k);
        c.say("estimate@" + str(k) + " ");
        closeM(e, x, 1e-6, "estimate", "at " + str(k));
        verify("getEstimatedState");
        if(r.b(0.3))
        {
          closeM(f->getEstimatedState(k), x, 1e-6, "repeated-estimate");
          verify("repeated getEstimatedState");
        }
        if(k > t0) count("estimation steps", k - t0);
        if(k - t0 > 1) count("batched estimations");
        if(k > t0) c.nontrivial = true;
        break;
      }
      case 20:
      case 21:
      {
        if(!xs || !ps) break;
        if(!y.empty() && y.rbegin()->first > reach()) break;
        if(!y.empty() && y.rbegin()->first < t) break;
        if(!y.empty()) shadowRun(y.rbegin()->first);
        long e = long(f->estimateState());
        c.say("estimateState ");
        eq(e, t, "estimateState-time");
        verify("estimateState");
        break;
      }
      case 22: // look at the predictions: must not change anything
      {
        if(!xs || !canPredict(t)) break;
        Vec ex = md.f(x, uS ? inp(t) : Vec(Vec::Zero(p)), t);
        closeM(f->updateStatePrediction(), ex, 1e-6, "prediction");
        if(!uM || u.count(t + 1))
          closeM(f->updateStateAndMeasurementPrediction(), md.h(ex, inp(t + 1), t + 1), 1e-6, "measurement-prediction");
        c.say("predict ");
        verify("prediction");
        break;
      }
      case 23:
      {
        if(!xs || !ps) break;
        long k = r.i(t, reach());
        if(uM && !u.count(k)) break;
        Vec uk = inp(k); // the shadow run may erase it
        shadowRun(k);
        closeM(f->getSimulatedMeasurement(k), md.h(x, uk, k), 1e-6, "simulated-measurement");
        c.say("simulate@" + str(k) + " ");
        verify("getSimulatedMeasurement");
        break;
      }
      case 24:
        if(!r.b(0.4)) break;
        f->clearMeasurements();
        y.clear();
        c.say("clearY ");
        verify("clearMeasurements");
        break;
      case 25:
        if(!r.b(0.4)) break;
        f->clearInputs();
        u.clear();
        c.say("clearU ");
        verify("clearInputs");
        break;
      case 26:
        if(!r.b(0.3)) break;
        f->clearInputsAndMeasurements();
        y.clear();
        u.clear();
        c.say("clearYU ");
        verify("clearInputsAndMeasurements");
        break;
      case 27:
        if(!r.b(0.15)) break;
        f->clearStates();
        xs = ps = false;
        y.clear();
        u.clear();
        f->clearInputsAndMeasurements();
        c.say("clearStates ");
        verify("clearStates");
        eq(long(f->getStateCovariance().size()), 0L, "covariance-cleared");
        break;
      case 28:
      {
        if(!r.b(0.2)) break;
        long rs = md.resets;
        f->reset();
        xs = ps = false;
        y.clear();
        u.clear();
        c.say("reset ");
        verify("reset");
        if(!lin) eq(md.resets, rs + 1, "functor-reset");
        eq(long(f->getStateCovariance().size()), 0L, "covariance-cleared");
        ok(Mat(f->getA()) == A && Mat(f->getC()) == C && Mat(f->getQ()) == Q && Mat(f->getR()) == R, "model-kept");
        break;
      }
      case 29:
        model(false);
        c.say("newmodel ");
        verify("model change");
        break;
      case 30:
        if(!xs) break;
        setCov();
        c.say("setP ");
        verify("setStateCovariance");
        break;
      case 31:
      case 32: // misuse must be refused, and leave everything as it was
        if(debugBuild) misuse();
        break;
      case 33:
        if(!r.b(0.2)) break;
        resize();
        break;
    }
  }
  void resize()
  {
    // giving the current sizes again changes nothing
    if(r.b(0.4))
    {
      f->setStateSize(n);
      f->setMeasureSize(m);
      f->setInputSize(p);
      verify("same sizes");
      return;
    }
    if(p == 0 || !lin) return;
    Eigen::Index n2 = r.i(1, 4), m2 = r.i(1, 4), p2 = r.i(1, 3);
    f->setStateSize(n2);
    if(n2 != n)
    {
      xs = ps = false;
      eq(long(f->getA().size()) + long(f->getC().size()) + long(f->getQ().size()), 0L, "resized-matrices");
    }
    n = n2;
    verifySizes();
    f->setMeasureSize(m2);
    if(m2 != m)
    {
      y.clear();
      eq(long(f->getC().size()) + long(f->getR().size()), 0L, "resized-matrices");
    }
    m = m2;
    verifySizes();
    f->setInputSize(p2);
    if(p2 != p) u.clear();
    p = p2;
    verifySizes();
    md.init(r, n, m, p, uS, uM, !lin);
    // an old D of the right size would otherwise stay
    lf->setD(md.D);
    lf->setB(md.B);
    f->clearInputsAndMeasurements();
    y.clear();
    u.clear();
    model(true);
    c.say("resize ");
    count("resizes");
  }
  void verifySizes()
  {
    verify("resize");
    eq(f->checkStateVector(Vec::Zero(n)), true, "check-state");
    eq(f->checkStateVector(Vec::Zero(n + 1)), false, "check-state");
    eq(f->checkMeasureVector(Vec::Zero(m)), true, "check-measure");
    eq(f->checkMeasureVector(Vec::Zero(m + 1)), false, "check-measure");
    eq(f->checkInputVector(Vec::Zero(p)), true, "check-input");
    eq(f->checkInputVector(Vec::Zero(p + 1)), false, "check-input");
    eq(long(f->getAmatrixZero().rows()), long(n), "amatrix-size");
    eq(long(f->getCmatrixZero().rows()), long(m), "cmatrix-size");
    eq(long(f->getCmatrixZero().cols()), long(n), "cmatrix-size");
    eq(long(f->getRmatrixZero().cols()), long(m), "rmatrix-size");
    eq(long(f->getPmatrixZero().cols()), long(n), "pmatrix-size");
    eq(long(f->getQmatrixZero().cols()), long(n), "qmatrix-size");
  }
  void misuse()
  {
    so::KalmanFilterBase & g = *f;
    bool rej = true;
    const char * what = "";
    switch(r.i(0, 14))
    {
      case 0:
        what = "state of wrong size";
        rej = refused([&] { g.setState(Vec(Vec::Zero(n + 1)), t); });
        break;
      case 1:
        what = "measurement of wrong size";
        rej = refused([&] { g.setMeasurement(Vec(Vec::Zero(m + 1)), y.empty() ? t + 1 : y.rbegin()->first + 1); });
        break;
      case 2:
        if(p == 0) return;
        what = "input of wrong size";
        rej = refused([&] { g.setInput(Vec(Vec::Zero(p + 1)), u.empty() ? t : u.rbegin()->first + 1); });
        break;
      case 3:
        if(y.empty()) return;
        what = "measurement after a gap";
        rej = refused([&] { g.setMeasurement(Vec(Vec::Zero(m)), y.rbegin()->first + r.i(2, 5)); });
        break;
      case 4:
        if(y.empty()) return;
        what = "measurement before the first one";
        rej = refused([&] { g.setMeasurement(Vec(Vec::Zero(m)), y.begin()->first - r.i(1, 5)); });
        break;
      case 5:
        if(u.empty()) return;
        what = "input after a gap";
        rej = refused([&] { g.setInput(Vec(Vec::Zero(p)), u.rbegin()->first + r.i(2, 5)); });
        break;
      case 6:
        if(u.empty()) return;
        what = "input before the first one";
        rej = refused([&] { g.setInput(Vec(Vec::Zero(p)), u.begin()->first - r.i(1, 5)); });
        break;
      case 7:
        if(!xs) return;
        what = "estimate of the past";
        rej = refused([&] { g.getEstimatedState(t - r.i(1, 3)); });
        break;
      case 8:
        if(!xs || !ps || canStep(t)) return;
        what = "estimate without the data";
        rej = refused([&] { g.getEstimatedState(t + r.i(1, 3)); });
        break;
      case 9:
        if(xs) return;
        what = "estimate without state";
        rej = refused([&] { g.getCurrentEstimatedState(); }) && refused([&] { g.getEstimatedState(3); })
              && refused([&] { g.getCurrentTime(); }) && refused([&] { g.setCurrentState(Vec(Vec::Zero(n))); });
        break;
      case 10:
        if(!y.empty()) return;
        what = "time of no measurement";
        rej = refused([&] { g.getMeasurementTime(); });
        break;
      case 11:
        if(!u.empty()) return;
        what = "time of no input";
        rej = refused([&] { g.getInputTime(); });
        break;
      case 12:
        if(!xs || !y.empty()) return;
        what = "first measurement not following the state";
        rej = refused([&] { g.setMeasurement(Vec(Vec::Zero(m)), t + 1 + r.sgn() * r.i(1, 3)); });
        break;
      case 13:
        if(xs || !y.empty()) return;
        what = "push without time";
        rej = refused([&] { g.pushMeasurement(Vec(Vec::Zero(m))); });
        if(p > 0 && u.empty()) rej = rej && refused([&] { g.pushInput(Vec(Vec::Zero(p))); });
        break;
      case 14:
        if(!xs || p == 0 || !u.empty()) return;
        what = "first input away from the state";
        rej = refused([&] { g.setInput(Vec(Vec::Zero(p)), r.b() ? t - r.i(1, 3) : t + r.i(2, 4)); });
        break;
    }
    ok(rej, "misuse-accepted", what);
    c.say(std::string("[refused ") + what + "] ");
    count("refused misuses");
    verify(what);
  }
};
void run(Ctx & c, bool lin)
{
  Hist h(c, lin);
  if(c.r.b(0.8))
  {
    h.setState(c.r.i(-3, 20));
    h.setCov();
    h.verify("initial state");
  }
  long n = c.r.i(20, 80);
  for(long i = 0; i < n; ++i) h.op();
}
} // namespace

SUITE(linear_histories, 1500, 40000)
{
  run(c, true);
}
SUITE(extended_histories, 1500, 40000)
{
  run(c, false);
}
