// C22: memory guarantees. The suites of all the other monitors are linked too and run with only the memory errors,
// undefined behaviours and assertions judged; the suites of this file exercise copies, assignments and destructions.
#include "actors.hpp"
#include <vector>
using namespace actors;

/// pool of objects copied, assigned, moved in containers and destroyed in any order, each with its expected history
SUITE(mem_copies, 2500, 60000)
{
  Rng & r = c.r;
  long kind = r.i(0, copyableKinds - 1);
  std::vector<std::unique_ptr<Actor>> objs;
  std::vector<Twin> twins;
  {
    Twin t;
    t.kind = kind;
    t.seed = r.u64();
    objs.push_back(std::unique_ptr<Actor>(t.rebuild()));
    twins.push_back(t);
  }
  c.note(uint64_t(kind));
  c.nontrivial = true;
  long n = r.i(4, 24);
  for(long k = 0; k < n; ++k)
  {
    size_t i = size_t(r.i(0, long(objs.size()) - 1));
    long what = r.i(0, 9);
    c.note(uint64_t(what * 64 + long(i)));
    if(what < 5 || (what == 9 && objs.size() == 1))
    {
      uint64_t s = r.u64();
      twins[i].ops.push_back(s);
      Rng a(s);
      Out got;
      objs[i]->op(a, got);
      count("operations");
      if(r.b(0.4) || k == n - 1)
      {
        // the same history on a new object
        Twin before = twins[i];
        before.ops.pop_back();
        std::unique_ptr<Actor> f(before.rebuild());
        Rng b(s);
        Out exp;
        f->op(b, exp);
        ok(same(got, exp), "mem-independent-copies", std::string(objs[i]->name()) + " differs from a new one with the same history");
        count("twins-compared");
      }
    }
    else if(what < 7)
    {
      objs.push_back(std::unique_ptr<Actor>(objs[i]->copy()));
      Twin t = twins[i];
      twins.push_back(t);
      count("copies");
    }
    else if(what < 9)
    {
      size_t j = size_t(r.i(0, long(objs.size()) - 1));
      if(r.b(0.3))
      {
        // onto an object of another history and sizes
        Twin t;
        t.kind = kind;
        t.seed = r.u64();
        for(long q = r.i(0, 3); q > 0; --q) t.ops.push_back(r.u64());
        objs[j].reset(t.rebuild());
        twins[j] = t;
      }
      objs[j]->assign(*objs[i]); // possibly itself
      Twin t = twins[i];
      twins[j] = t;
      count(i == j ? "self-assignments" : "assignments");
    }
    else
    {
      objs.erase(objs.begin() + long(i));
      twins.erase(twins.begin() + long(i));
      count("destructions");
    }
  }
}

/// objects of all the classes alive together, created and destroyed in any order
SUITE(mem_lifetimes, 500, 10000)
{
  Rng & r = c.r;
  std::vector<std::unique_ptr<Actor>> objs;
  c.nontrivial = true;
  long n = r.i(10, 40);
  double total = 0;
  for(long k = 0; k < n; ++k)
  {
    if(objs.empty() || r.b(0.3))
    {
      long kind = r.i(0, allKinds - 1);
      c.note(uint64_t(kind));
      objs.push_back(std::unique_ptr<Actor>(make(kind, r)));
      count("created");
    }
    else
    {
      size_t i = size_t(r.i(0, long(objs.size()) - 1));
      c.note(uint64_t(100 + i));
      if(r.b(0.25))
      {
        objs.erase(objs.begin() + long(i));
        count("destructions");
      }
      else
      {
        Out o;
        objs[i]->op(r, o);
        // every value is used, so that memcheck sees the ones that depend on uninitialised memory
        for(size_t q = 0; q < o.v.size(); ++q)
          if(o.v[q] > 0) total += 1;
        ok(true, "mem-used");
        count("operations");
      }
    }
  }
  count("positive-values", long(total));
}
