// C23: separate objects do not interfere. The cases of all the other monitors are run alone, then concurrently in
// threads (under ThreadSanitizer), then interleaved at the granularity of the observations under a seeded scheduler,
// then alone again in another order; every value seen by the monitors must be the same each time.
#include "actors.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace actors;

namespace
{
struct Run
{
  size_t suite;
  long k;
};
struct Seen
{
  uint64_t rh;
  long events;
  std::string key;
  bool operator==(const Seen & o) const
  {
    return rh == o.rh && events == o.events && key == o.key;
  }
};
/// suites that use the random generator shared by design, or that are too long, or of this file
bool usable(const std::string & n)
{
  return n.compare(0, 4, "thr_") != 0 && n.compare(0, 4, "mem_") != 0 && n != "white_noise" && n != "noise_dimensions" && n != "generators"
         && n != "rotations" && n != "long_runs" && n != "flex_convergence" && n != "elastic_momenta_over_time";
}
const std::vector<size_t> & usableSuites()
{
  static std::vector<size_t> v;
  if(v.empty())
    for(size_t i = 0; i < suites().size(); ++i)
      if(usable(suites()[i].name)) v.push_back(i);
  return v;
}
struct Sched;
thread_local Sched * mySched = 0;
thread_local int myId = -1;
/// one thread at a time, which hands over to a random one at random observations
struct Sched
{
  std::mutex m;
  std::condition_variable cv;
  int turn;
  std::vector<char> alive;
  Rng r;
  double p;
  long switches;
  Sched(int n, uint64_t seed, double p_) : turn(0), alive(size_t(n), 1), r(seed), p(p_), switches(0) {}
  int next()
  {
    std::vector<int> v;
    for(size_t i = 0; i < alive.size(); ++i)
      if(alive[i]) v.push_back(int(i));
    return v.empty() ? -1 : v[size_t(r.i(0, long(v.size()) - 1))];
  }
  void start(int id)
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return turn == id; });
  }
  void step(int id)
  {
    std::unique_lock<std::mutex> l(m);
    if(!r.b(p)) return;
    int n = next();
    if(n == id) return;
    ++switches;
    turn = n;
    cv.notify_all();
    cv.wait(l, [&] { return turn == id; });
  }
  void end(int id)
  {
    std::unique_lock<std::mutex> l(m);
    alive[size_t(id)] = 0;
    turn = next();
    cv.notify_all();
  }
};
void handOver(Ctx &)
{
  if(mySched) mySched->step(myId);
}
Seen runOne(const Run & q, void (*hook)(Ctx &) = 0)
{
  Ctx * before = cur;
  Ctx c;
  c.noRandom = true;
  c.hook = hook;
  Outcome o = runCase(suites()[q.suite], c, theSeed, q.k);
  cur = before;
  Seen s = {c.rh, c.events, o.key};
  return s;
}
std::string describe(const std::vector<Run> & v, size_t i)
{
  std::string s = std::string(suites()[v[i].suite].name) + "#" + str(v[i].k) + " together with";
  for(size_t j = 0; j < v.size(); ++j)
    if(j != i) s += std::string(" ") + suites()[v[j].suite].name + "#" + str(v[j].k);
  return s;
}
/// waits until all the threads are there
struct Barrier
{
  std::atomic<int> n;
  explicit Barrier(int k) : n(k) {}
  void wait()
  {
    n.fetch_sub(1);
    while(n.load() > 0) std::this_thread::yield();
  }
};
} // namespace

SUITE(thr_cases, 1500, 16000)
{
  Rng & r = c.r;
  const std::vector<size_t> & us = usableSuites();
  std::vector<Run> runs;
  long n = r.i(2, 4);
  size_t main = us[size_t(r.i(0, long(us.size()) - 1))];
  for(long i = 0; i < n; ++i)
  {
    // often several cases of the same classes
    Run q = {r.b(0.6) ? main : us[size_t(r.i(0, long(us.size()) - 1))], r.i(0, 100000)};
    runs.push_back(q);
    c.note(uint64_t(q.suite));
    c.note(uint64_t(q.k));
    count(std::string("suite:") + suites()[q.suite].name);
  }
  c.nontrivial = true;
  std::vector<Seen> alone(runs.size()), seen(runs.size());
  for(size_t i = 0; i < runs.size(); ++i) alone[i] = runOne(runs[i]);
  // in parallel
  {
    Barrier b(int(runs.size()));
    std::vector<std::thread> t;
    for(size_t i = 0; i < runs.size(); ++i)
      t.push_back(std::thread(
          [&, i]
          {
            b.wait();
            seen[i] = runOne(runs[i]);
          }));
    for(size_t i = 0; i < t.size(); ++i) t[i].join();
    for(size_t i = 0; i < runs.size(); ++i)
    {
      ok(seen[i] == alone[i], "parallel-same-results",
         describe(runs, i) + ": parallel " + seen[i].key + ", alone " + alone[i].key);
      count("observations-compared", alone[i].events);
    }
    count("parallel-runs", long(runs.size()));
  }
  // handed over from one to the other at the observations
  {
    Sched s(int(runs.size()), r.u64(), r.b() ? 0.5 : 0.05);
    std::vector<std::thread> t;
    for(size_t i = 0; i < runs.size(); ++i)
      t.push_back(std::thread(
          [&, i]
          {
            mySched = &s;
            myId = int(i);
            s.start(int(i));
            seen[i] = runOne(runs[i], &handOver);
            s.end(int(i));
          }));
    for(size_t i = 0; i < t.size(); ++i) t[i].join();
    for(size_t i = 0; i < runs.size(); ++i)
      ok(seen[i] == alone[i], "interleaved-same-results",
         describe(runs, i) + ": interleaved " + seen[i].key + ", alone " + alone[i].key);
    count("handovers", s.switches);
  }
  // again, in the other order
  for(size_t i = runs.size(); i-- > 0;)
  {
    seen[i] = runOne(runs[i]);
    ok(seen[i] == alone[i], "repeated-same-results",
       describe(runs, i) + ": repeated " + seen[i].key + ", first " + alone[i].key);
  }
}

SUITE(thr_objects, 1500, 20000)
{
  Rng & r = c.r;
  long n = r.i(2, 5), kind = r.i(0, allKinds - 1);
  std::vector<Twin> tw;
  std::vector<std::vector<Out>> alone;
  for(long i = 0; i < n; ++i)
  {
    Twin t;
    t.kind = r.b(0.6) ? kind : r.i(0, allKinds - 1);
    t.seed = r.u64();
    long m = r.i(1, 12);
    for(long k = 0; k < m; ++k) t.ops.push_back(r.u64());
    tw.push_back(t);
    c.note(uint64_t(t.kind));
    c.note(t.seed);
    // each one alone
    std::vector<Out> o(t.ops.size());
    Rng q(t.seed);
    std::unique_ptr<Actor> a(make(t.kind, q));
    count(std::string("class:") + a->name());
    for(size_t k = 0; k < t.ops.size(); ++k)
    {
      Rng e(t.ops[k]);
      a->op(e, o[k]);
    }
    alone.push_back(o);
  }
  c.nontrivial = true;
  // all of them alive in one thread, created, used and destroyed in any order
  {
    std::vector<std::unique_ptr<Actor>> objs(static_cast<size_t>(n));
    std::vector<size_t> done(static_cast<size_t>(n), 0);
    std::vector<size_t> todo;
    for(size_t i = 0; i < size_t(n); ++i) todo.push_back(i);
    while(!todo.empty())
    {
      size_t w = size_t(r.i(0, long(todo.size()) - 1)), i = todo[w];
      if(!objs[i])
      {
        Rng q(tw[i].seed);
        objs[i].reset(make(tw[i].kind, q));
        continue;
      }
      Out o;
      Rng e(tw[i].ops[done[i]]);
      objs[i]->op(e, o);
      ok(same(o, alone[i][done[i]]), "same-results-beside-others",
         std::string(objs[i]->name()) + " at operation " + str(done[i]));
      if(++done[i] == tw[i].ops.size())
      {
        objs[i].reset();
        todo.erase(todo.begin() + long(w));
      }
      count("interleaved-operations");
    }
  }
  // one thread each
  {
    Barrier b(static_cast<int>(n));
    std::vector<std::vector<Out>> got(static_cast<size_t>(n));
    std::vector<std::thread> t;
    std::vector<std::string> err(static_cast<size_t>(n));
    for(size_t i = 0; i < size_t(n); ++i)
      t.push_back(std::thread(
          [&, i]
          {
            Ctx mine;
            cur = &mine;
            std::vector<Out> o(tw[i].ops.size());
            b.wait();
            try
            {
              Rng q(tw[i].seed);
              std::unique_ptr<Actor> a(make(tw[i].kind, q));
              for(size_t k = 0; k < tw[i].ops.size(); ++k)
              {
                Rng e(tw[i].ops[k]);
                a->op(e, o[k]);
              }
            }
            catch(const std::exception & e)
            {
              err[i] = e.what();
            }
            got[i].swap(o);
            cur = 0;
          }));
    for(size_t i = 0; i < t.size(); ++i) t[i].join();
    for(size_t i = 0; i < size_t(n); ++i)
    {
      ok(err[i].empty(), "parallel-exception", err[i]);
      for(size_t k = 0; k < alone[i].size(); ++k)
        ok(same(got[i][k], alone[i][k]), "same-results-in-parallel",
           "object of kind " + str(tw[i].kind) + " at operation " + str(k));
      count("parallel-operations", long(alone[i].size()));
    }
  }
}
