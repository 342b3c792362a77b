// C01: time-indexed arrays / stamped values versus a contiguous finite map.
#include "mc.hpp"
#include <state-observation/tools/definitions.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
template<typename M>
struct Val;
template<>
struct Val<Vector>
{
  static Vector make(int id)
  {
    Vector v(2);
    v << id, -id * 0.5;
    return v;
  }
};
template<>
struct Val<Matrix>
{
  static Matrix make(int id)
  {
    Matrix v(2, 3);
    v << id, 1, 2, 3, -id, 5;
    return v;
  }
};
template<>
struct Val<Matrix3>
{
  static Matrix3 make(int id)
  {
    Matrix3 v = Matrix3::Identity();
    v(0, 0) = id;
    v(2, 1) = 3 * id;
    return v;
  }
};
template<typename M>
bool same(const M & a, const M & b)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && a == b;
}

struct Model
{
  bool known = true; // is the index of an empty array determined?
  long first = 0;
  std::vector<int> v;
  long next() const
  {
    return first + long(v.size());
  }
  bool has(long t) const
  {
    return t >= first && t < next();
  }
};

template<typename M>
struct Sys
{
  typedef IndexedMatrixArrayT<M> A;
  A a;
  Model m;
  int id = 1;
};

template<typename F>
bool refuses(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

template<typename M>
void observe(C & c, typename Sys<M>::A & a, const Model & m)
{
  const typename Sys<M>::A & ca = a;
  c.require(ca.size() == Index(m.v.size()), "size");
  if(!m.v.empty() || m.known)
  {
    c.require(ca.getFirstIndex() == m.first, "first index",
              [&] { return "first index " + mc::str(ca.getFirstIndex()) + " expected " + mc::str(m.first); });
    c.require(ca.getNextIndex() == m.next(), "next index",
              [&] { return "next index " + mc::str(ca.getNextIndex()) + " expected " + mc::str(m.next()); });
    c.require(ca.getLastIndex() == m.next() - 1, "last index");
  }
  uint64_t h = mc::mix(17, uint64_t(m.first) * 2 + m.known);
  for(int x : m.v) h = mc::mix(h, uint64_t(x));
  c.state(h);
  auto arr = ca.getArray();
  c.require(arr.size() == m.v.size(), "vector conversion size");
  for(size_t i = 0; i < m.v.size(); ++i)
  {
    M want = Val<M>::make(m.v[i]);
    long t = m.first + long(i);
    c.require(same<M>(ca[t], want), "value", [&] { return "value at index " + mc::str(t) + " is " + mc::str(ca[t]); });
    c.require(same<M>(a[t], want), "value (reference)");
    c.require(same<M>(arr[i], want), "vector conversion value");
  }
  if(!m.v.empty())
  {
    c.require(same<M>(ca.front(), Val<M>::make(m.v.front())), "front");
    c.require(same<M>(ca.back(), Val<M>::make(m.v.back())), "back");
  }
  if(!m.v.empty() || m.known)
    for(long t = m.first - 2; t <= m.next() + 2; ++t) c.require(ca.checkIndex(t) == m.has(t), "membership");
  // outside the range nothing is handed out
  if(!m.v.empty())
  {
    c.require(refuses([&] { M x = ca[m.first - 1]; }), "read before the first element is refused");
    c.require(refuses([&] { M x = ca[m.next()]; }), "read after the last element is refused");
  }
  else
  {
    c.require(refuses([&] { M x = ca[m.first]; }), "read from an empty array is refused");
    c.require(refuses([&] { a.popFront(); }), "pop from an empty array is refused");
    c.require(ca.size() == 0, "size after refused pop");
  }
}

/// one operation chosen among all applicable ones
template<typename M>
void op(C & c, Sys<M> & s)
{
  auto & a = s.a;
  auto & m = s.m;
  const long n = long(m.v.size());
  // enumerate (kind, parameter) pairs
  struct O
  {
    int k;
    long p;
  };
  static thread_local std::vector<O> ops;
  ops.clear();
  if(n == 0)
  {
    for(long t : {-2L, 0L, 3L}) ops.push_back({0, t});
  }
  else
  {
    ops.push_back({0, m.next()});
    ops.push_back({15, m.next() + 1});
    ops.push_back({15, m.first - 1});
    for(long t = m.first; t < m.next(); ++t) ops.push_back({1, t});
    ops.push_back({3, 0});
    ops.push_back({7, -1});
    ops.push_back({7, 6});
    ops.push_back({11, 0});
    ops.push_back({11, 1});
    ops.push_back({11, 2});
  }
  ops.push_back({2, 0});
  for(long t = (n ? m.first - 2 : -1); t <= (n ? m.next() + 1 : 1); ++t)
  {
    ops.push_back({4, t});
    ops.push_back({5, t});
  }
  ops.push_back({6, -1});
  ops.push_back({6, 4});
  if(!n) ops.push_back({7, 2});
  for(long k : {0L, n - 1, n + 2})
    if(k >= 0 && k != n) ops.push_back({8, k});
  ops.push_back({9, 0});
  ops.push_back({10, 0});
  ops.push_back({12, 0});
  ops.push_back({13, 0});
  if(n) ops.push_back({14, 0});
  O o = ops[size_t(c.choose(int(ops.size())))];
  int id = s.id++;
  M v = Val<M>::make(id);
  switch(o.k)
  {
    case 0:
      c.step([&] { return "set value #" + mc::str(id) + " at " + mc::str(o.p); });
      a.setValue(v, o.p);
      if(n == 0)
      {
        m.first = o.p;
        m.known = true;
      }
      m.v.push_back(id);
      break;
    case 1:
      c.step([&] { return "overwrite value #" + mc::str(id) + " at " + mc::str(o.p); });
      a.setValue(v, o.p);
      m.v[size_t(o.p - m.first)] = id;
      break;
    case 2:
      c.step([&] { return "push back #" + mc::str(id); });
      a.pushBack(v);
      if(n == 0 && !m.known)
      {
        m.first = a.getFirstIndex();
        m.known = true;
      }
      m.v.push_back(id);
      break;
    case 3:
      c.step([&] { return std::string("pop front"); });
      a.popFront();
      m.v.erase(m.v.begin());
      ++m.first;
      break;
    case 4:
      c.step([&] { return "truncate after " + mc::str(o.p); });
      a.truncateAfter(o.p);
      if(n)
      {
        while(!m.v.empty() && m.next() - 1 > o.p) m.v.pop_back();
        // truncated just before its first element, the array goes on from there
        if(m.v.empty()) m.known = o.p == m.first - 1;
      }
      break;
    case 5:
      c.step([&] { return "truncate before " + mc::str(o.p); });
      a.truncateBefore(o.p);
      if(n)
      {
        while(!m.v.empty() && m.first < o.p)
        {
          m.v.erase(m.v.begin());
          ++m.first;
        }
        if(m.v.empty()) m.known = false;
      }
      break;
    case 6:
      c.step([&] { return "set first index " + mc::str(o.p); });
      a.setFirstIndex(int(o.p));
      m.first = o.p;
      m.known = true;
      break;
    case 7:
      c.step([&] { return "set last index " + mc::str(o.p); });
      a.setLastIndex(int(o.p));
      m.first = o.p - n + 1;
      m.known = true;
      break;
    case 8:
      c.step([&] { return "resize to " + mc::str(o.p); });
      if(n == 0 && !m.known)
      {
        a.resize(o.p, v);
        m.first = a.getFirstIndex();
        m.known = true;
      }
      else
        a.resize(o.p, v);
      while(long(m.v.size()) > o.p) m.v.pop_back();
      while(long(m.v.size()) < o.p) m.v.push_back(id);
      if(m.v.empty()) m.known = false;
      break;
    case 9:
      c.step([&] { return std::string("clear"); });
      a.clear();
      m.first = m.next();
      m.v.clear();
      break;
    case 10:
      c.step([&] { return std::string("reset"); });
      a.reset();
      m.first = 0;
      m.known = true;
      m.v.clear();
      break;
    case 11:
      c.step([&] { return "assign through reference, place " + mc::str(o.p); });
      if(o.p == 0)
      {
        a.front() = v;
        m.v.front() = id;
      }
      else if(o.p == 1)
      {
        a.back() = v;
        m.v.back() = id;
      }
      else
      {
        long t = m.first + n / 2;
        a[t] = v;
        m.v[size_t(n / 2)] = id;
      }
      break;
    case 12:
    {
      c.step([&] { return std::string("copy; original then modified"); });
      typename Sys<M>::A b(a);
      Model mb = m;
      a.pushBack(v);
      if(n == 0) m.first = a.getFirstIndex(), m.known = true;
      m.v.push_back(id);
      observe<M>(c, b, mb);
      break;
    }
    case 13:
    {
      c.step([&] { return std::string("assign into another array and continue with that one"); });
      typename Sys<M>::A b(3, 7);
      b = a;
      a.reset();
      a = b;
      break;
    }
    case 14:
    {
      c.step([&] { return std::string("set a value taken from the array itself"); });
      a.setValue(a.front(), m.next());
      m.v.push_back(m.v.front());
      break;
    }
    case 15:
    {
      c.step([&] { return "set value at non-contiguous index " + mc::str(o.p); });
      c.require(refuses([&] { a.setValue(v, o.p); }), "non-contiguous insertion is refused");
      break;
    }
  }
}

template<typename M>
void arrayBody(C & c, int depth)
{
  Sys<M> s;
  int init = c.choose(3);
  if(init == 1)
  {
    c.step([] { return std::string("array of size 2 starting at -1"); });
    s.a = typename Sys<M>::A(2, -1);
    s.m.first = -1;
    for(long t = -1; t <= 0; ++t)
    {
      s.a.setValue(Val<M>::make(s.id), t);
      s.m.v.push_back(s.id++);
    }
  }
  else if(init == 2)
  {
    c.step([] { return std::string("array of three pushed values starting at 2"); });
    s.a.setFirstIndex(2);
    s.m.first = 2;
    for(int i = 0; i < 3; ++i)
    {
      s.a.pushBack(Val<M>::make(s.id));
      s.m.v.push_back(s.id++);
    }
  }
  observe<M>(c, s.a, s.m);
  for(int d = 0; d < depth; ++d)
  {
    op<M>(c, s);
    observe<M>(c, s.a, s.m);
  }
  uint64_t h = 3;
  for(int x : s.m.v) h = mc::mix(h, uint64_t(x));
  c.outcome(mc::mix(h, uint64_t(s.m.first)));
}
} // namespace

MC_SUITE(vector_array, 3)
{
  arrayBody<Vector>(c, 4);
}
MC_SUITE(matrix_array, 3)
{
  arrayBody<Matrix>(c, c.t(3, 4));
}
MC_SUITE(fixed_matrix_array, 3)
{
  arrayBody<Matrix3>(c, 3);
}

// long series: indices, sliding windows (push/pop) and large offsets
MC_SUITE(sliding_window, 2)
{
  static const std::vector<long> starts = {0, 1, -5, 1000000, -1000000, 2147483600L};
  long t0 = c.pick(starts);
  int window = c.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 70, 300});
  int pushmode = c.choose(2);
  int drop = c.choose(3); // pop, truncateBefore, clear
  IndexedVectorArray a;
  std::map<long, int> m;
  long t = t0;
  for(int i = 0; i < (window > 6 ? 2 * window : 40); ++i, ++t)
  {
    c.step([&] { return "append at " + mc::str(t); });
    if(pushmode == 0 || i == 0)
      a.setValue(Val<Vector>::make(i + 1), t);
    else
      a.pushBack(Val<Vector>::make(i + 1));
    m[t] = i + 1;
    if(int(m.size()) > window)
    {
      if(drop == 0)
      {
        a.popFront();
        m.erase(m.begin());
      }
      else if(drop == 1)
      {
        a.truncateBefore(t - window + 1);
        m.erase(m.begin());
      }
      else
      {
        a.clear();
        m.clear();
        c.require(a.getNextIndex() == t + 1, "clear keeps the running index");
      }
    }
    c.require(a.size() == Index(m.size()), "size");
    if(!m.empty())
    {
      c.require(a.getFirstIndex() == m.begin()->first, "first index");
      c.require(a.getLastIndex() == m.rbegin()->first, "last index");
    }
    c.require(a.getNextIndex() == t + 1, "next index");
    for(auto & kv : m)
      if(window <= 6 || i % 16 == 0 || kv.first > t - 3 || kv.first < t - window + 3)
        c.require(a[kv.first] == Val<Vector>::make(kv.second), "value");
    c.state(mc::mix(uint64_t(t), m.size()));
  }
}

namespace
{
struct SM
{
  bool set = false;
  int id = 0;
  bool hasVal = false;
  long k = 0;
};

template<typename M, bool lazy>
void stamped(C & c, int depth)
{
  typedef IndexedMatrixT<M, lazy> T;
  T x;
  SM m;
  T y;
  SM my; // a second object: copies in both directions
  int id = 1;
  if(c.flag())
  {
    c.step([] { return std::string("construct set at time -3"); });
    x = T(Val<M>::make(id), -3);
    m = {true, id, true, -3};
    ++id;
  }
  auto obs = [&](T & o, const SM & s) {
    const T & co = o;
    c.require(co.isSet() == s.set, "is-set flag");
    if(s.set)
    {
      if(s.hasVal)
      {
        c.require(same<M>(co(), Val<M>::make(s.id)), "stamped value");
        c.require(same<M>(o(), Val<M>::make(s.id)), "stamped value (reference)");
      }
      c.require(co.getTime() == s.k, "time of stamped value");
    }
    else
    {
      c.require(refuses([&] { M q = co(); }), "unset value is refused");
      c.require(refuses([&] { M q = o(); }), "unset value is refused (reference)");
      c.require(refuses([&] { (void)co.getTime(); }), "time of unset value is refused");
    }
    uint64_t h = mc::mix(uint64_t(s.set) * 4 + s.hasVal, uint64_t(s.id));
    c.state(mc::mix(h, uint64_t(s.k)));
  };
  for(int d = 0; d < depth; ++d)
  {
    int o = c.choose(11);
    switch(o)
    {
      case 0:
      case 1:
      {
        long k = o == 0 ? 5 : -1;
        c.step([&] { return "set value at " + mc::str(k); });
        T & r = x.set(Val<M>::make(id), k);
        c.require(&r == &x, "set returns the object");
        m = {true, id++, true, k};
        break;
      }
      case 2:
        c.step([] { return std::string("reset"); });
        x.reset();
        m.set = false;
        break;
      case 3:
        c.step([] { return std::string("switch to set"); });
        x.set();
        m.set = true;
        break;
      case 4:
        c.step([] { return std::string("switch to unset"); });
        x.set(false);
        m.set = false;
        break;
      case 5:
        c.step([] { return std::string("set index 9"); });
        if(m.set)
        {
          x.setIndex(9);
          m.k = 9;
        }
        else
          c.require(refuses([&] { x.setIndex(9); }), "indexing an unset value is refused");
        break;
      case 6:
        c.step([] { return std::string("assign through reference"); });
        if(m.set)
        {
          x() = Val<M>::make(id);
          m.id = id++;
          m.hasVal = true;
        }
        break;
      case 7:
        c.step([] { return std::string("copy-assign to the second object"); });
        y = x;
        my = m;
        break;
      case 8:
        c.step([] { return std::string("copy-assign from the second object"); });
        x = y;
        m = my;
        break;
      case 9:
      {
        c.step([] { return std::string("copy-construct, then reset the copy"); });
        T z(x);
        obs(z, m);
        z.reset();
        break;
      }
      case 10:
        c.step([] { return std::string("set value at the same time"); });
        {
          long k = m.set ? x.getTime() : 0;
          x.set(Val<M>::make(id), k);
          m = {true, id++, true, k};
        }
        break;
    }
    obs(x, m);
    obs(y, my);
  }
  c.outcome(mc::mix(uint64_t(m.set), uint64_t(m.id * 31 + m.k)));
}

template<typename M, bool lazy, bool always, bool assertion>
void checked(C & c, int depth)
{
  typedef CheckedItem<M, lazy, always, assertion, true> T;
  int init = c.choose(3);
  int id = 1;
  T x = init == 0 ? T() : init == 1 ? T(Val<M>::make(1)) : T(false);
  SM m;
  if(init == 1)
  {
    m = {true, id, true, 0};
    ++id;
  }
  else if(init == 2)
  {
    // "initialize" not requested: declare it unset ourselves
    x.reset();
  }
  T y;
  SM my;
  auto obs = [&](T & o, const SM & s) {
    const T & co = o;
    c.require(co.isSet() == s.set, "is-set flag");
    if(s.set)
    {
      if(s.hasVal)
      {
        M want = Val<M>::make(s.id);
        c.require(same<M>(co(), want), "checked value");
        c.require(same<M>(o(), want), "checked value (reference)");
        c.require(same<M>(co.chckitm_getValue(), want), "checked value (by value)");
        const M & r = static_cast<const M &>(co);
        c.require(same<M>(r, want), "checked value (conversion)");
      }
    }
    else
    {
      c.require(refuses([&] { M q = co(); }), "unset checked value is refused");
      c.require(refuses([&] { M q = o(); }), "unset checked value is refused (reference)");
      c.require(refuses([&] { M q = co.chckitm_getValue(); }), "unset checked value is refused (by value)");
      c.require(refuses([&] { const M & q = static_cast<const M &>(co); (void)q; }),
                "unset checked value is refused (conversion)");
    }
    c.state(mc::mix(uint64_t(s.set) * 4 + s.hasVal, uint64_t(s.id)));
  };
  for(int d = 0; d < depth; ++d)
  {
    switch(c.choose(9))
    {
      case 0:
      {
        c.step([] { return std::string("assign value"); });
        M & r = (x = Val<M>::make(id));
        c.require(same<M>(r, Val<M>::make(id)), "assignment returns the value");
        m = {true, id++, true, 0};
        break;
      }
      case 1:
        c.step([] { return std::string("reset"); });
        x.reset();
        m.set = false;
        break;
      case 2:
        c.step([] { return std::string("set() and fill"); });
        x.set() = Val<M>::make(id);
        m = {true, id++, true, 0};
        break;
      case 3:
        c.step([] { return std::string("set(true)"); });
        x.set(true);
        m.set = true;
        break;
      case 4:
        c.step([] { return std::string("set(false)"); });
        x.set(false);
        m.set = false;
        break;
      case 5:
        c.step([] { return std::string("copy to second"); });
        y = x;
        my = m;
        break;
      case 6:
        c.step([] { return std::string("copy from second"); });
        x = y;
        m = my;
        break;
      case 7:
      {
        c.step([] { return std::string("copy-construct; modify the copy"); });
        T z(x);
        obs(z, m);
        z = Val<M>::make(99);
        break;
      }
      case 8:
        c.step([] { return std::string("modify through reference"); });
        if(m.set)
        {
          x() = Val<M>::make(id);
          m.id = id++;
          m.hasVal = true;
        }
        break;
    }
    obs(x, m);
    obs(y, my);
  }
  c.outcome(mc::mix(uint64_t(m.set), uint64_t(m.id)));
}
} // namespace

MC_SUITE(stamped_vector, 2)
{
  stamped<Vector, false>(c, c.t(5, 6));
}
MC_SUITE(stamped_lazy_matrix3, 2)
{
  stamped<Matrix3, true>(c, 4);
}
MC_SUITE(checked_default, 2)
{
  checked<Matrix3, false, false, true>(c, c.t(5, 6));
}
MC_SUITE(checked_throwing, 2)
{
  checked<Matrix3, false, true, false>(c, 4);
}
MC_SUITE(checked_lazy, 2)
{
  checked<Vector, true, false, true>(c, 4);
}
MC_MAIN()
