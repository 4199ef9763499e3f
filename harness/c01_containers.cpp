// C01: time-indexed containers against an ordered-map model, checked items / time-stamped values against a flag model.
#include "common.hpp"
#include <state-observation/tools/definitions.hpp>
using namespace vmon;
namespace so = stateObservation;

template<typename Arr, typename Val>
struct ArrayMonitor
{
  Arr a;
  std::map<long, Mat> m;
  bool nextKnown; // when empty: is the next time specified?
  long next;
  ArrayMonitor() : nextKnown(true), next(0) {}
  static Val val(Rng & r)
  {
    Eigen::Index rows = r.i(1, 4);
    return Val(r.mat(rows, Val::ColsAtCompileTime == 1 ? 1 : r.i(1, 3), 10));
  }
  void verify(const char * op)
  {
    std::string c = std::string("after ") + op;
    const Arr & ca = a;
    eq(long(a.size()), long(m.size()), "size", c);
    if(m.empty())
    {
      eq(long(a.getNextIndex()), long(a.getFirstIndex()), "empty-first-next", c);
      eq(long(a.getLastIndex()), long(a.getNextIndex()) - 1, "empty-last-next", c);
      if(nextKnown) eq(long(a.getNextIndex()), next, "empty-next", c);
      for(long k = -3; k < 4; ++k)
        ok(!a.checkIndex(a.getFirstIndex() + k), "empty-membership", c);
      ok(a.getArray().empty(), "empty-array", c);
      return;
    }
    long f = m.begin()->first, l = m.rbegin()->first;
    eq(long(a.getFirstIndex()), f, "first", c);
    eq(long(a.getLastIndex()), l, "last", c);
    eq(long(a.getNextIndex()), l + 1, "next", c);
    for(long k = f - 2; k <= l + 2; ++k) eq(bool(a.checkIndex(k)), m.count(k) > 0, "membership", c + " at " + str(k));
    for(std::map<long, Mat>::const_iterator it = m.begin(); it != m.end(); ++it)
    {
      ok(Mat(ca[it->first]) == it->second, "value-const", c + " at time " + str(it->first));
      ok(Mat(a[it->first]) == it->second, "value", c + " at time " + str(it->first));
    }
    ok(Mat(a.front()) == m.begin()->second && Mat(ca.front()) == m.begin()->second, "front", c);
    ok(Mat(a.back()) == m.rbegin()->second && Mat(ca.back()) == m.rbegin()->second, "back", c);
    typename Arr::Array v = a.getArray();
    eq(v.size(), m.size(), "array-size", c);
    size_t i = 0;
    for(std::map<long, Mat>::const_iterator it = m.begin(); it != m.end() && i < v.size(); ++it, ++i)
      ok(Mat(v[i]) == it->second, "array-value", c);
  }
  void relabel(long newFirst)
  {
    std::map<long, Mat> m2;
    long k = newFirst;
    for(std::map<long, Mat>::const_iterator it = m.begin(); it != m.end(); ++it) m2[k++] = it->second;
    m.swap(m2);
  }
  void step(Ctx & c)
  {
    Rng & r = c.r;
    int op = int(r.i(0, 16));
    c.note(uint64_t(op));
    long f = m.empty() ? 0 : m.begin()->first, l = m.empty() ? 0 : m.rbegin()->first;
    switch(op)
    {
      case 0:
      case 1:
      case 2: // set at an existing, next, or (when empty) any time
      {
        long k = m.empty() ? r.i(-20, 20) : (r.b(0.5) ? r.i(f, l) : l + 1);
        Val v = val(r);
        a.setValue(v, k);
        m[k] = v;
        c.say("setValue@" + str(k) + " ");
        verify("setValue");
        break;
      }
      case 3:
      case 4:
      case 5:
      {
        Val v = val(r);
        long k = m.empty() ? (nextKnown ? next : long(a.getNextIndex())) : l + 1;
        a.pushBack(v);
        m[k] = v;
        c.say("pushBack->" + str(k) + " ");
        verify("pushBack");
        break;
      }
      case 6:
        if(m.empty()) break;
        a.popFront();
        m.erase(m.begin());
        if(m.empty())
        {
          nextKnown = true;
          next = l + 1;
        }
        c.say("popFront ");
        verify("popFront");
        break;
      case 7:
      {
        long t = m.empty() ? r.i(-5, 5) : r.i(f - 3, l + 3);
        a.truncateAfter(t);
        bool was = m.empty();
        m.erase(m.upper_bound(t), m.end());
        if(m.empty() && !was) nextKnown = false;
        c.say("truncateAfter " + str(t) + " ");
        verify("truncateAfter");
        break;
      }
      case 8:
      {
        long t = m.empty() ? r.i(-5, 5) : (r.b(0.3) ? l : r.i(f - 3, l + 3));
        a.truncateBefore(t);
        bool was = m.empty();
        m.erase(m.begin(), m.lower_bound(t));
        if(m.empty() && !was) nextKnown = false;
        c.say("truncateBefore " + str(t) + " ");
        verify("truncateBefore");
        break;
      }
      case 9:
      {
        if(m.empty() && !nextKnown) break;
        long n = r.i(0, 6);
        Val v = val(r);
        a.resize(so::TimeSize(n), v);
        long first = m.empty() ? next : f;
        while(long(m.size()) > n)
        {
          std::map<long, Mat>::iterator it = m.end();
          m.erase(--it);
        }
        while(long(m.size()) < n) m[first + long(m.size())] = v;
        if(m.empty())
        {
          nextKnown = true;
          next = first;
        }
        c.say("resize " + str(n) + " ");
        verify("resize");
        break;
      }
      case 10:
      {
        if(m.empty()) break;
        long k = r.i(-30, 30);
        eq(long(a.setFirstIndex(int(k))), k, "setFirstIndex-return");
        relabel(k);
        c.say("setFirst " + str(k) + " ");
        verify("setFirstIndex");
        break;
      }
      case 11:
      {
        if(m.empty()) break;
        long k = r.i(-30, 30);
        a.setLastIndex(int(k));
        relabel(k - long(m.size()) + 1);
        c.say("setLast " + str(k) + " ");
        verify("setLastIndex");
        break;
      }
      case 12:
        if(!r.b(0.3)) break;
        a.clear();
        if(!m.empty())
        {
          next = l + 1;
          nextKnown = true;
        }
        m.clear();
        c.say("clear ");
        verify("clear");
        break;
      case 13:
        if(!r.b(0.3)) break;
        a.reset();
        m.clear();
        next = 0;
        nextKnown = true;
        c.say("reset ");
        verify("reset");
        break;
      case 14:
        if(m.empty()) break;
        {
          long k = r.i(f, l);
          Val v = val(r);
          a[k] = v; // writing through the element reference
          m[k] = v;
          verify("element-write");
        }
        break;
      case 15:
        if(m.empty()) break;
        {
          Arr b(a); // copies are independent
          b.popFront();
          b.pushBack(val(r));
          verify("copy-mutate");
          b = a;
          Arr sw(b);
          a.reset();
          a = sw;
          verify("copy-assign");
        }
        break;
      default:
#ifndef NDEBUG
      {
        // checked builds refuse the absent times instead of returning something
        long k = m.empty() ? r.i(-5, 5) : (r.b() ? f - r.i(1, 3) : l + r.i(1, 3));
        bool refused = false;
        try
        {
          Val v = static_cast<const Arr &>(a)[k];
          (void)v;
        }
        catch(const AssertionFired &)
        {
          refused = true;
        }
        ok(refused, "absent-time-read", "time " + str(k));
        if(!m.empty() && k != l + 1)
        {
          refused = false;
          try
          {
            a.setValue(val(r), k);
          }
          catch(const AssertionFired &)
          {
            refused = true;
          }
          ok(refused, "gap-write", "time " + str(k));
        }
        verify("refused-access");
      }
#endif
      break;
    }
  }
};

template<typename Arr, typename Val>
static void runArray(Ctx & c)
{
  ArrayMonitor<Arr, Val> mon;
  mon.verify("construction");
  if(c.r.b(0.15))
  {
    long n = c.r.i(0, 4), t = c.r.i(-9, 9);
    Arr b = Arr(so::TimeSize(n), so::TimeIndex(t));
    eq(long(b.size()), n, "sized-ctor-size");
    eq(long(b.getFirstIndex()), t, "sized-ctor-first");
    eq(long(b.getNextIndex()), t + n, "sized-ctor-next");
  }
  int n = int(c.r.i(5, 60));
  for(int i = 0; i < n; ++i) mon.step(c);
  c.nontrivial = true;
}
SUITE(vector_array_histories, 3000, 60000)
{
  runArray<so::IndexedVectorArray, so::Vector>(c);
}
SUITE(matrix_array_histories, 2000, 40000)
{
  runArray<so::IndexedMatrixArray, so::Matrix>(c);
}

// ---- time-stamped value
SUITE(timestamped_value, 2000, 30000)
{
  so::IndexedVector v;
  bool set = false;
  Vec val;
  long k = 0;
  bool haveVal = false;
  int n = int(c.r.i(3, 30));
  for(int i = 0; i < n; ++i)
  {
    int op = int(c.r.i(0, 6));
    c.note(uint64_t(op));
    switch(op)
    {
      case 0:
      case 1:
        val = c.r.vec(c.r.i(1, 5), 3);
        k = c.r.i(-50, 50);
        v.set(val, k);
        set = haveVal = true;
        break;
      case 2:
        v.reset();
        set = false;
        break;
      case 3:
        if(!haveVal) break;
        v.set(true); // switching it back to set makes the value accessible again
        set = true;
        break;
      case 4:
        if(!set) break;
        k = c.r.i(-50, 50);
        v.setIndex(k);
        break;
      case 5:
      {
        so::IndexedVector w(v);
        so::IndexedVector z;
        z = w;
        v = z;
        if(haveVal)
        {
          so::IndexedVector q(val, k);
          ok(q.isSet() && q.getTime() == k && Vec(q()) == val, "ctor-value");
        }
        break;
      }
      default:
#ifndef NDEBUG
        if(!set)
        {
          const so::IndexedVector & cv = v;
          int how = int(c.r.i(0, 3));
          bool refused = false;
          try
          {
            if(how == 0) v.getTime();
            if(how == 1) v.setIndex(c.r.i(-50, 50));
            if(how == 2) v();
            if(how == 3) cv();
          }
          catch(const AssertionFired &)
          {
            refused = true;
          }
          ok(refused, "unset-access-refused", str(how));
        }
#endif
        break;
    }
    eq(v.isSet(), set, "stamped-isset");
    if(set)
    {
      eq(long(v.getTime()), k, "stamped-time");
      const so::IndexedVector & cv = v;
      ok(Vec(v()) == val && Vec(cv()) == val, "stamped-value");
    }
  }
  c.nontrivial = true;
}

/// refusing: reading it unset is refused in this build
template<typename Item>
static void runChecked(Ctx & c, bool refusing)
{
  Item a, b(false);
  b.reset();
  bool sa = false, sb = false, ha = false, hb = false; // h*: a value was given at least once
  V3 va = V3::Zero(), vb = V3::Zero();
  int n = int(c.r.i(3, 40));
  for(int i = 0; i < n; ++i)
  {
    int op = int(c.r.i(0, 8));
    c.note(uint64_t(op));
    V3 v = c.r.v3(5);
    switch(op)
    {
      case 0:
        a = v;
        va = v;
        sa = ha = true;
        break;
      case 1:
        a.set() = v;
        va = v;
        sa = ha = true;
        break;
      case 2:
        a.reset();
        sa = false;
        break;
      case 3:
        b = a;
        sb = sa;
        vb = va;
        hb = ha;
        break;
      case 4:
        a = b;
        sa = sb;
        va = vb;
        ha = hb;
        break;
      case 5:
      {
        Item d(a);
        eq(d.isSet(), sa, "checked-copy-isset");
        if(sa) ok(V3(d()) == va, "checked-copy-value");
        Item e(v);
        ok(e.isSet() && V3(e()) == v, "checked-ctor");
        break;
      }
      case 6:
        if(sa)
        {
          a() = v;
          va = v;
        }
        break;
      case 7:
      {
        bool f = ha && c.r.b();
        a.set(f);
        sa = f;
        break;
      }
      default:
        if(!sa && refusing)
        {
          bool refused = false;
          int how = int(c.r.i(0, 3));
          try
          {
            const Item & ca = a;
            if(how == 0) (void)V3(ca());
            if(how == 1) (void)V3(a());
            if(how == 2) (void)V3(ca.chckitm_getValue());
            if(how == 3)
            {
              const V3 & x = ca;
              (void)x;
            }
          }
          catch(const AssertionFired &)
          {
            refused = true;
          }
          catch(const std::exception &)
          {
            refused = true;
          }
          ok(refused, "unset-item-read", str(how));
        }
        break;
    }
    eq(a.isSet(), sa, "checked-isset");
    eq(b.isSet(), sb, "checked-isset-b");
    if(sa)
    {
      const Item & ca = a;
      ok(V3(a()) == va && V3(ca()) == va && V3(ca.chckitm_getValue()) == va, "checked-value");
    }
    if(sb) ok(V3(b()) == vb, "checked-value-b");
  }
  c.nontrivial = true;
}
SUITE(checked_item, 2000, 30000)
{
#ifdef NDEBUG
  const bool debug = false;
#else
  const bool debug = true;
#endif
  switch(c.r.i(0, 3))
  {
    case 0:
      runChecked<so::CheckedVector3>(c, debug);
      break;
    case 1: // an exception instead of an assertion
      runChecked<so::CheckedItem<so::Vector3, false, false, false, true>>(c, debug);
      break;
    case 2: // in all builds
      runChecked<so::CheckedItem<so::Vector3, false, true, false, true>>(c, true);
      break;
    default:
      runChecked<so::CheckedItem<so::Vector3, false, true, true, true>>(c, true);
  }
}
