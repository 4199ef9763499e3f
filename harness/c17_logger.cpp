// C17: the logger records, for every tracked variable, exactly the sequence of values it had when it was pushed.
#include "common.hpp"
#include <memory>
#include <state-observation/tools/logger.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace vmon;
namespace so = stateObservation;

struct Var
{
  int type; // 0 Matrix 1 Vector 2 Matrix3 3 Vector3 4 int 5 long 6 double 7 float 8 unsigned
  so::Matrix m;
  so::Vector v;
  so::Matrix3 m3;
  so::Vector3 v3;
  int i;
  long l;
  double d;
  float f;
  unsigned u;
  bool tracked;
  std::string file;
  std::map<long, Mat> log; // expected record
  long next;
  Var() : type(0), i(0), l(0), d(0), f(0), u(0), tracked(false), next(0) {}
  const void * addr() const
  {
    switch(type)
    {
      case 0:
        return &m;
      case 1:
        return &v;
      case 2:
        return &m3;
      case 3:
        return &v3;
      case 4:
        return &i;
      case 5:
        return &l;
      case 6:
        return &d;
      case 7:
        return &f;
      default:
        return &u;
    }
  }
  Mat value() const
  {
    Mat s(1, 1);
    switch(type)
    {
      case 0:
        return m;
      case 1:
        return v;
      case 2:
        return m3;
      case 3:
        return v3;
      case 4:
        s(0, 0) = i;
        return s;
      case 5:
        s(0, 0) = double(l);
        return s;
      case 6:
        s(0, 0) = d;
        return s;
      case 7:
        s(0, 0) = f;
        return s;
      default:
        s(0, 0) = u;
        return s;
    }
  }
  void change(Rng & r)
  {
    m = r.mat(2, 3, 5);
    v = r.vec(4, 5);
    m3 = r.mat(3, 3);
    v3 = r.v3();
    // the whole range of the scalar types
    i = r.b(0.3) ? int(r.i(-2147483647L - 1, 2147483647L)) : int(r.i(-100000, 100000));
    l = r.b(0.3) ? r.i(-9007199254740992L, 9007199254740992L) : r.i(-100000, 100000);
    d = r.d(-5, 5);
    f = float(r.d(-5, 5));
    if(r.b(0.1)) d *= 1e300;
    if(r.b(0.1)) d *= 1e-300;
    u = r.b(0.3) ? unsigned(r.i(0, 4294967295L)) : unsigned(r.i(0, 100000));
  }
  template<typename F>
  void apply(F & fn)
  {
    switch(type)
    {
      case 0:
        fn(m);
        break;
      case 1:
        fn(v);
        break;
      case 2:
        fn(m3);
        break;
      case 3:
        fn(v3);
        break;
      case 4:
        fn(i);
        break;
      case 5:
        fn(l);
        break;
      case 6:
        fn(d);
        break;
      case 7:
        fn(f);
        break;
      default:
        fn(u);
        break;
    }
  }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
struct Record
{
  so::tools::Logger & L;
  std::string file;
  bool ptr;
  template<typename T>
  void operator()(const T & x)
  {
    if(ptr)
      L.record(&x, file);
    else
      L.record(x, file);
  }
};
struct Push
{
  so::tools::Logger & L;
  bool ptr;
  template<typename T>
  void operator()(const T & x)
  {
    if(ptr)
      L.push(&x);
    else
      L.push(x);
  }
};
struct Move
{
  so::tools::Logger & L;
  const void * old;
  template<typename T>
  void operator()(const T & x)
  {
    L.updateAddress(old, &x);
  }
};

static void verify(so::tools::Logger & L, std::vector<std::unique_ptr<Var>> & vs, const char * op)
{
  const so::tools::Logger & cL = L;
  for(size_t k = 0; k < vs.size(); ++k)
  {
    Var & w = *vs[k];
    if(!w.tracked) continue;
    const so::IndexedMatrixArray & a = cL.getRecord(w.addr());
    std::string c = std::string("after ") + op + " type " + str(w.type);
    eq(&a, static_cast<const so::IndexedMatrixArray *>(&L.getRecord(w.addr())), "record-ref");
    eq(long(a.size()), long(w.log.size()), "record-length", c);
    eq(long(a.getNextIndex()), w.next, "record-next", c);
    for(std::map<long, Mat>::const_iterator it = w.log.begin(); it != w.log.end(); ++it)
    {
      ok(a.checkIndex(it->first), "record-time", c);
      Mat got = a[it->first];
      ok(got.rows() == it->second.rows() && got.cols() == it->second.cols() && got == it->second, "record-value", c);
    }
  }
}

namespace
{
struct Unsupported
{
  int a;
};
template<typename F>
bool refusedBy(F f)
{
  try
  {
    f();
  }
  catch(const AssertionFired &)
  {
    return true;
  }
  catch(const std::invalid_argument &)
  {
    return true;
  }
  return false;
}
/// what is not tracked, or has a type that is not supported, is refused and leaves the log as it was
void refusals(so::tools::Logger & L, Rng & r)
{
  const Unsupported a = {1};
  const short b = 2;
  const std::string c = "x";
  double d = r.n(), d2 = r.n();
  Mat m = Mat::Zero(2, 2);
  ok(refusedBy([&] { L.record(a); }), "unsupported-type-refused");
  ok(refusedBy([&] { L.record(&b, "b.log"); }), "unsupported-type-refused");
  ok(refusedBy([&] { L.record(c, "c.log"); }), "unsupported-type-refused");
  ok(refusedBy([&] { L.push(d); }), "untracked-push-refused");
  ok(refusedBy([&] { L.push(&m); }), "untracked-push-refused");
  ok(refusedBy([&] { L.updateAddress(&d, &d2); }), "untracked-move-refused");
  ok(refusedBy([&] { L.getRecord(&a); }), "untracked-refused");
  const so::tools::Logger & K = L;
  ok(refusedBy([&] { K.getRecord(&d2); }), "untracked-refused");
  count("logger_refusals");
}
} // namespace

SUITE(logger_histories, 1500, 30000)
{
  Rng & r = c.r;
  const char * tmp = std::getenv("TMPDIR");
  std::string dir = std::string(tmp ? tmp : "/tmp") + "/so_c17_" + str(long(getpid())) + "_" + str(uniqueNumber());
  ::mkdir(dir.c_str(), 0755);
  so::tools::Logger L;
  L.setPath(dir);
  std::vector<std::unique_ptr<Var>> vs;
  long nv = r.i(1, 6);
  std::map<std::string, std::map<long, Mat>> files;
  std::set<std::string> made;
  for(long k = 0; k < nv; ++k)
  {
    vs.push_back(std::unique_ptr<Var>(new Var));
    vs.back()->type = int(r.i(0, 8));
    vs.back()->change(r);
  }
  long n = r.i(5, 50);
  for(long k = 0; k < n; ++k)
  {
    size_t idx = size_t(r.i(0, nv - 1));
    Var & w = *vs[idx];
    int op = int(r.i(0, 14));
    c.note(uint64_t(op * 16 + w.type));
    if(op <= 2)
    {
      w.change(r);
    }
    else if(op <= 5)
    {
      if(w.tracked)
      {
        // recording again an already tracked variable changes nothing to its log
        Record f = {L, w.file, r.b()};
        w.apply(f);
        verify(L, vs, "re-record");
        continue;
      }
      w.file = r.b(0.6) ? ("v" + str(idx) + ".log") : "";
      Record f = {L, w.file, r.b()};
      w.apply(f);
      w.tracked = true;
      w.log.clear();
      w.next = 0;
      c.say("record(type " + str(w.type) + ") ");
      verify(L, vs, "record");
    }
    else if(op <= 8)
    {
      L.push();
      for(size_t q = 0; q < vs.size(); ++q)
        if(vs[q]->tracked) vs[q]->log[vs[q]->next++] = vs[q]->value();
      count("pushes");
      c.say("push() ");
      verify(L, vs, "push");
    }
    else if(op <= 10)
    {
      if(!w.tracked) continue;
      Push f = {L, r.b()};
      w.apply(f);
      w.log[w.next++] = w.value();
      c.say("push(one) ");
      verify(L, vs, "push-one");
    }
    else if(op == 11)
    {
      if(!w.tracked) continue;
      // the variable moves in memory: its record follows it
      std::unique_ptr<Var> z(new Var);
      z->type = w.type;
      z->tracked = true;
      z->file = w.file;
      z->log = w.log;
      z->next = w.next;
      z->change(r);
      Move f = {L, w.addr()};
      z->apply(f);
      if(r.b(0.3)) // same address: nothing changes
      {
        Move g = {L, z->addr()};
        z->apply(g);
      }
      vs[idx].swap(z);
      c.say("updateAddress ");
      verify(L, vs, "updateAddress");
    }
    else if(op == 12)
    {
      if(r.b(0.3))
      {
        refusals(L, r);
        verify(L, vs, "refusals");
      }
      if(!r.b(0.4)) continue;
      L.clearLogs();
      for(size_t q = 0; q < vs.size(); ++q) vs[q]->log.clear();
      c.say("clearLogs ");
      verify(L, vs, "clearLogs");
    }
    else if(op == 13)
    {
      bool clear = r.b(), append = r.b(0.3);
      L.save(clear, append);
      c.say("save(" + str(clear) + "," + str(append) + ") ");
      for(size_t q = 0; q < vs.size(); ++q)
      {
        Var & z = *vs[q];
        if(!z.tracked || z.file.empty()) continue;
        made.insert(z.file);
        bool fresh = !append || !files.count(z.file);
        if(!append) files[z.file].clear();
        if(fresh && !append)
        {
          files[z.file] = z.log;
          so::IndexedMatrixArray b;
          if(!z.log.empty())
          {
            b.readFromFile(dir + "/" + z.file, z.log.begin()->second.rows(), z.log.begin()->second.cols());
            eq(long(b.size()), long(z.log.size()), "saved-length");
            for(std::map<long, Mat>::const_iterator it = z.log.begin(); it != z.log.end(); ++it)
            {
              ok(b.checkIndex(it->first), "saved-time");
              Mat d = Mat(b[it->first]) - it->second;
              for(Eigen::Index e = 0; e < d.size(); ++e)
                ok(std::fabs(d(e)) <= 5.1e-6 * std::fabs(it->second(e)), "saved-value");
            }
            count("saved_files");
          }
        }
        if(clear) z.log.clear();
      }
      verify(L, vs, "save");
    }
    else
    {
      if(!r.b(0.2)) continue;
      L.clearTracking();
      for(size_t q = 0; q < vs.size(); ++q)
      {
        vs[q]->tracked = false;
        vs[q]->log.clear();
      }
      bool refused = false;
      try
      {
        L.getRecord(w.addr());
      }
      catch(const AssertionFired &)
      {
        refused = true;
      }
      catch(const std::invalid_argument &)
      {
        refused = true;
      }
      ok(refused, "untracked-refused");
      c.say("clearTracking ");
    }
  }
  for(std::set<std::string>::const_iterator it = made.begin(); it != made.end(); ++it)
    ::unlink((dir + "/" + *it).c_str());
  ::rmdir(dir.c_str());
  c.nontrivial = true;
}
