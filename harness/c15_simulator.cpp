// C15: the simulator against a reference map of instants, with a model whose every evaluation is distinguishable.
#include "kfref.hpp"
#include <memory>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
using namespace vmon;
namespace so = stateObservation;

namespace
{
typedef std::map<long, Vec> TMap;
Vec process(const Vec & x, const Vec & u, long k)
{
  Vec r(x.size());
  for(Eigen::Index i = 0; i < x.size(); ++i)
    r(i) = 0.7 * std::sin(x(i) + 0.1 * double(k)) + 0.3 * x((i + 1) % x.size()) + (u.size() ? u(i % u.size()) : 0);
  return r;
}
Vec measure(const Vec & x, const Vec & u, long k, long ny)
{
  Vec r(ny);
  for(Eigen::Index i = 0; i < ny; ++i)
    r(i) = x(i % x.size()) * (1 + double(i)) - 0.5 * (u.size() ? u((i + 1) % u.size()) : 0) + 0.01 * double(k);
  return r;
}
/// the n-th evaluation at an instant draws its own disturbance, as a noisy model does
double draw(int what, long k, long n)
{
  return double(Rng::mix(uint64_t(what) * 1000003u + uint64_t(k) * 101u + uint64_t(n)) % 1000u) * 1e-3;
}
struct Model : public so::DynamicalSystemFunctorBase
{
  long n, p, m;
  bool noisy;
  std::map<std::pair<int, long>, long> calls;
  Model(long n_, long p_, long m_, bool noisy_) : n(n_), p(p_), m(m_), noisy(noisy_) {}
  double noise(int what, long k)
  {
    return noisy ? draw(what, k, ++calls[std::make_pair(what, k)]) : 0;
  }
  virtual so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k)
  {
    return process(x, u, k) + Vec::Constant(n, noise(0, k));
  }
  virtual so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k)
  {
    return measure(x, u, k, m) + Vec::Constant(m, noise(1, k));
  }
  virtual so::Index getStateSize() const
  {
    return n;
  }
  virtual so::Index getInputSize() const
  {
    return p;
  }
  virtual so::Index getMeasurementSize() const
  {
    return m;
  }
};
/// what the simulator must hold
struct World
{
  long n, p, m;
  bool noisy;
  TMap x, y, u;
  std::map<std::pair<int, long>, long> calls;
  Vec input(long k) const
  {
    TMap::const_iterator i = u.upper_bound(k);
    --i;
    return i->second;
  }
  bool hasInput(long k) const
  {
    return !u.empty() && u.begin()->first <= k;
  }
  long first() const
  {
    return x.begin()->first;
  }
  long last() const
  {
    return x.rbegin()->first;
  }
  double noise(int what, long k)
  {
    return noisy ? draw(what, k, ++calls[std::make_pair(what, k)]) : 0;
  }
  void meas(long k)
  {
    y[k] = measure(x[k], input(k), k, m) + Vec::Constant(m, noise(1, k));
  }
  void step()
  {
    long k = last();
    if(!y.empty())
      for(long i = y.rbegin()->first + 1; i < k; ++i) meas(i);
    meas(k);
    x[k + 1] = process(x[k], input(k), k) + Vec::Constant(n, noise(0, k));
  }
  void setState(const Vec & v, long k)
  {
    x.erase(x.lower_bound(k), x.end());
    y.erase(y.lower_bound(k), y.end());
    x[k] = v;
  }
  Vec state(long k)
  {
    while(last() < k) step();
    return x[k];
  }
  Vec measurement(long k)
  {
    while(y.empty() || y.rbegin()->first < k) step();
    return y[k];
  }
};
struct Pair
{
  so::DynamicalSystemSimulator sim;
  std::shared_ptr<Model> f;
  World w;
};
void history(Ctx & c, bool noisy)
{
  Rng & r = c.r;
  std::vector<Pair> ps(1);
  {
    Pair & a = ps[0];
    a.w.n = r.i(1, 5);
    a.w.p = r.i(0, 3);
    a.w.m = r.i(1, 5);
    a.w.noisy = noisy;
    a.f.reset(new Model(a.w.n, a.w.p, a.w.m, noisy));
    a.sim.setDynamicsFunctor(a.f.get());
  }
  long base = r.i(0, 3) ? 0 : r.i(1, 1000);
  for(int ops = int(r.i(5, 60)); ops > 0; --ops)
  {
    size_t idx = size_t(r.i(0, long(ps.size()) - 1));
    Pair & a = ps[idx];
    World & w = a.w;
    if(w.x.empty())
    {
      Vec v = r.vec(w.n, 2), u = r.vec(w.p, 2);
      bool order = r.b();
      if(order) a.sim.setState(v, base);
      a.sim.setInput(u, base);
      if(!order) a.sim.setState(v, base);
      w.x[base] = v;
      w.u[base] = u;
    }
    long far = w.last() + r.i(0, 6);
    int op = int(r.i(0, 15));
    c.note(uint64_t(op));
    c.note(uint64_t(far));
    switch(op)
    {
      case 0:
      {
        long k = r.i(w.first(), w.last() + 1);
        Vec v = r.vec(w.n, 2);
        count(k == w.last() + 1 ? "state-next" : k == w.first() ? "state-first" : k == w.last() ? "state-current" : "state-past");
        a.sim.setState(v, k);
        w.setState(v, k);
        break;
      }
      case 1:
      case 2:
      case 3:
      {
        long k = r.b(0.7) ? far : r.i(w.first(), w.last());
        Vec u = r.vec(w.p, 2);
        count(w.u.count(k) ? "input-overwrite" : k < w.last() ? "input-past" : "input-future");
        a.sim.setInput(u, k);
        w.u[k] = u;
        break;
      }
      case 4:
      case 5:
        a.sim.simulateDynamics();
        w.step();
        break;
      case 6:
        a.sim.simulateDynamicsTo(far);
        w.state(far);
        break;
      case 7:
      case 8:
      {
        long k = r.b() ? far : r.i(w.first(), w.last());
        closeM(a.sim.getState(k), w.state(k), 1e-12, "state", "at " + str(k));
        break;
      }
      case 9:
      case 10:
      {
        // (the measurements start with the first simulated instant)
        if(w.y.empty()) w.step(), a.sim.simulateDynamics();
        long k = r.b() ? far : r.i(w.y.begin()->first, w.last());
        closeM(a.sim.getMeasurement(k), w.measurement(k), 1e-12, "measurement", "at " + str(k));
        break;
      }
      case 11:
      {
        long k = r.i(w.first() + 1, w.last() + 3), d = r.i(0, 5);
        so::IndexedVectorArray s = a.sim.getStateArray(k, so::TimeSize(d));
        eq(long(s.size()), d, "state-array-size");
        for(long i = k; i < k + d; ++i) closeM(Vec(s[i]), w.state(i), 1e-12, "state-array");
        break;
      }
      case 12:
      {
        if(w.y.empty()) w.step(), a.sim.simulateDynamics();
        long k = r.i(w.y.begin()->first + 1, w.last() + 3), d = r.i(0, 5);
        so::IndexedVectorArray s = a.sim.getMeasurementArray(k, so::TimeSize(d));
        eq(long(s.size()), d, "measurement-array-size");
        for(long i = k; i < k + d; ++i) closeM(Vec(s[i]), w.measurement(i), 1e-12, "measurement-array");
        break;
      }
      case 13:
        if(r.b(0.2))
        {
          if(r.b())
            a.sim.resetDynamics();
          else
          {
            a.sim.resetSimulator();
            if(kfref::debugBuild)
            {
              // no model any more
              so::DynamicalSystemSimulator t = a.sim;
              t.setState(Vec::Zero(a.w.n), 0);
              t.setInput(Vec::Zero(a.w.p), 0);
              ok(kfref::refused([&] { t.simulateDynamics(); }), "no-model-after-reset");
              ok(kfref::refused([&] { t.getMeasurement(r.i(0, 3)); }), "no-model-after-reset");
            }
            a.sim.setDynamicsFunctor(a.f.get());
          }
          w.x.clear();
          w.y.clear();
          w.u.clear();
          base = r.i(0, 50);
          count("reset");
        }
        break;
      case 14:
        if(ps.size() < 3 && r.b(0.3))
        {
          Pair b = a;
          b.f.reset(new Model(*a.f));
          b.sim.setDynamicsFunctor(b.f.get());
          ps.push_back(b);
          count("copied");
        }
        break;
      default:
        if(kfref::debugBuild)
        {
          // what is not known is refused
          so::DynamicalSystemSimulator t = a.sim;
          if(w.first() > 0) ok(kfref::refused([&] { t.getState(w.first() - 1); }), "state-before-first");
          if(w.u.begin()->first > 0) ok(kfref::refused([&] { t.getInput(w.u.begin()->first - 1); }), "input-before-first");
        }
    }
    // reading everything that is stored changes nothing (all instances)
    for(Pair & q : ps)
    {
      if(q.w.x.empty()) continue;
      eq(long(q.sim.getCurrentTime()), q.w.last(), "current-time");
      closeM(q.sim.getCurrentState(), q.w.x.rbegin()->second, 1e-12, "current-state");
      long k = r.i(q.w.first(), q.w.last());
      closeM(q.sim.getState(k), q.w.x[k], 1e-12, "stored-state", "at " + str(k));
      if(!q.w.y.empty())
      {
        k = r.i(q.w.y.begin()->first, q.w.y.rbegin()->first);
        closeM(q.sim.getMeasurement(k), q.w.y[k], 1e-12, "stored-measurement", "at " + str(k));
      }
      k = r.i(q.w.u.begin()->first, q.w.u.rbegin()->first + 3);
      closeM(q.sim.getInput(k), q.w.input(k), 0, "input", "at " + str(k));
    }
    c.nontrivial = true;
  }
  Pair & a = ps[0];
  ok(a.f->checkStateVector(Vec::Zero(a.w.n)) && !a.f->checkStateVector(Vec::Zero(a.w.n + 1)), "check-state");
  ok(a.f->checkInputvector(Vec::Zero(a.w.p)) && !a.f->checkInputvector(Vec::Zero(a.w.p + 1)), "check-input");
}
} // namespace

SUITE(deterministic, 6000, 150000)
{
  history(c, false);
}
SUITE(noisy, 6000, 150000)
{
  history(c, true);
}
