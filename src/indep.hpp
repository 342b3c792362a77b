// Independence of objects: every interleaving of two call histories, copies taken anywhere, resets.
// Shared by C06 and C21.  T(cfg) builds an object, op(o, seed) performs one of T::ops operations and returns what can be
// observed after it.
#pragma once
#include "mc.hpp"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <state-observation/tools/definitions.hpp>

namespace indep
{
using namespace stateObservation;
using mc::C;
inline Matrix gen(Index r, Index q, int seed)
{
  Matrix m(r, q);
  for(Index i = 0; i < r; ++i)
    for(Index j = 0; j < q; ++j) m(i, j) = std::sin(1.7 * double(i) + 2.3 * double(j) + 0.9 * seed + 0.4) * (i == j ? 1 : 0.5);
  return m;
}
inline Matrix spd(Index n, int seed)
{
  Matrix a = gen(n, n, seed);
  return a * a.transpose() + 0.3 * Matrix::Identity(n, n);
}
inline Vector cat(std::initializer_list<Vector> l)
{
  Index n = 0;
  for(auto & v : l) n += v.size();
  Vector r(n);
  n = 0;
  for(auto & v : l)
  {
    r.segment(n, v.size()) = v;
    n += v.size();
  }
  return r;
}
inline Vector flat(const Matrix & m)
{
  return Eigen::Map<const Vector>(m.data(), m.size());
}

typedef std::vector<int> Script;
inline Script pickScript(C & c, int n, int ops)
{
  Script s;
  for(int i = 0; i < n; ++i) s.push_back(c.choose(ops));
  return s;
}
inline int seedOf(int who, int i)
{
  return 11 * who + 3 * i + 1;
}
// what a history gives to an object used alone (computed once per worker)
template<typename T>
const std::vector<Vector> & alone(int cfg, const Script & s, int who)
{
  static std::map<std::pair<int, Script>, std::vector<Vector>> memo;
  std::vector<Vector> & r = memo[{cfg * 4 + who, s}];
  if(!r.empty()) return r;
  T t(cfg);
  for(size_t i = 0; i < s.size(); ++i) r.push_back(t.op(s[i], seedOf(who, int(i))));
  return r;
}
inline std::string name(const Script & s)
{
  std::string r;
  for(int x : s) r += std::to_string(x);
  return r;
}
// configurations of the two objects: different, or alike
inline void configs(C & c, int & cx, int & cy, bool all)
{
  int k = all ? c.choose(3) : 0;
  cx = k == 2;
  cy = k != 1;
}
// two objects: every interleaving of two call histories
template<typename T>
void interleaved(C & c, int len = 0, bool all = true)
{
  int n = len ? len : c.t(3, 4);
  Script a = pickScript(c, n, T::ops), b = pickScript(c, n, T::ops);
  int cx = 0, cy = 1;
  configs(c, cx, cy, all);
  const std::vector<Vector> &ra = alone<T>(cx, a, 0), &rb = alone<T>(cy, b, 1);
  T x(cx);
  T y(cy);
  int i = 0, j = 0;
  while(i < n || j < n)
  {
    bool first = i < n && (j == n || !c.flag());
    c.step([&] { return std::string(first ? "first" : "second") + " object: operation " + std::to_string(first ? a[size_t(i)] : b[size_t(j)]); });
    if(first)
    {
      c.near(x.op(a[size_t(i)], seedOf(0, i)), ra[size_t(i)], 0, "the first object is disturbed by the second");
      c.state(mc::hashM(1, ra[size_t(i)]));
      ++i;
    }
    else
    {
      c.near(y.op(b[size_t(j)], seedOf(1, j)), rb[size_t(j)], 0, "the second object is disturbed by the first");
      ++j;
    }
  }
}
// copies: taken at every point, the copy continues one history and the original another (or dies)
template<typename T>
void copied(C & c)
{
  int n = c.t(3, 4), m = 2;
  Script pre = pickScript(c, c.choose(n), T::ops), a = pickScript(c, m, T::ops), b = pickScript(c, m, T::ops);
  Script full = pre, other = pre;
  full.insert(full.end(), a.begin(), a.end());
  other.insert(other.end(), b.begin(), b.end());
  // expected: the copy continues with a as the original would have; the original goes on with b
  const std::vector<Vector> &ra = alone<T>(0, full, 0), &rb = alone<T>(0, other, 0);
  std::unique_ptr<T> o(new T(0));
  for(size_t i = 0; i < pre.size(); ++i) o->op(pre[i], seedOf(0, int(i)));
  int how = c.choose(3); // copy, assignment over a used object, copy then the original destroyed
  std::unique_ptr<T> d;
  if(how == 1)
  {
    d.reset(new T(1));
    d->op(0, 5);
    *d = *o;
  }
  else
    d.reset(new T(*o));
  if(how == 2) o.reset();
  c.step([&] { return "copied after " + name(pre) + " (way " + std::to_string(how) + ")"; });
  bool copyFirst = how == 2 || c.flag();
  for(int i = 0; i < m; ++i)
  {
    size_t q = pre.size() + size_t(i);
    for(int h = 0; h < 2; ++h)
    {
      if((h == 0) == copyFirst)
      {
        c.step([&] { return "copy: operation " + std::to_string(a[size_t(i)]); });
        c.near(d->op(a[size_t(i)], seedOf(0, int(q))), ra[q], 0, "the copy does not continue as the original would");
      }
      else if(o)
      {
        c.step([&] { return "original: operation " + std::to_string(b[size_t(i)]); });
        c.near(o->op(b[size_t(i)], seedOf(0, int(q))), rb[q], 0, "the original is disturbed by its copy");
      }
    }
    c.state(mc::hashM(1, ra[q]));
  }
  if(how == 0 && c.flag())
  {
    // destroying the copy leaves the original working
    d.reset();
    o->op(0, 77);
  }
}
// reset and re-initialisation give what another object so initialised gives, whatever happened before
template<typename T>
void resetted(C & c)
{
  int n = c.t(3, 4);
  Script pre = pickScript(c, 1 + c.choose(n), T::ops), post = pickScript(c, 2, T::ops);
  int cfg0 = c.choose(2), cfg1 = c.choose(2);
  T x(cfg0);
  for(size_t i = 0; i < pre.size(); ++i) x.op(pre[i], seedOf(0, int(i)));
  c.step([&] { return "reset after " + name(pre); });
  x.reset(cfg1);
  T y(cfg1); // newly built; then given the same initial data
  y.reset(cfg1);
  for(size_t i = 0; i < post.size(); ++i)
  {
    c.step([&] { return "operation " + std::to_string(post[i]); });
    Vector e = y.op(post[i], seedOf(2, int(i)));
    c.near(x.op(post[i], seedOf(2, int(i))), e, 1e-15, "a reset object remembers its past");
    c.state(mc::hashM(1, e));
  }
}

// ---- one call preempted anywhere by calls on another object, as a second thread would
// The library is compiled with -finstrument-functions: every entry of one of its functions is a possible preemption
// point.  Points beyond the first (thorough: third) passages through the same call site are left out.
struct Preempt
{
  enum Mode
  {
    off,
    count,
    fire
  } mode = off;
  std::map<std::pair<void *, void *>, int> seen;
  std::vector<int> points;
  int total = 0, target = 0, passages = 2;
  std::function<void()> run;
  static Preempt & get()
  {
    static Preempt p;
    return p;
  }
  void enter(void * fn, void * site)
  {
    Mode m = mode;
    mode = off;
    if(m == count)
    {
      if(seen[std::make_pair(fn, site)]++ < passages) points.push_back(total);
      ++total;
    }
    else if(total++ == target)
    {
      run();
      return;
    }
    mode = m;
  }
};
// the second thread
struct Second
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false;
  static Second & get()
  {
    static Second * s = new Second;
    return *s;
  }
  Second()
  {
    std::thread([this] {
      std::unique_lock<std::mutex> l(m);
      while(true)
      {
        cv.wait(l, [this] { return bool(job); });
        std::function<void()> j;
        j.swap(job);
        l.unlock();
        j();
        l.lock();
        busy = false;
        cv.notify_all();
      }
    }).detach();
  }
  void start(std::function<void()> j)
  {
    std::unique_lock<std::mutex> l(m);
    job = j;
    busy = true;
    cv.notify_all();
  }
  void wait(int secs)
  {
    std::unique_lock<std::mutex> l(m);
    if(secs)
      cv.wait_for(l, std::chrono::seconds(secs), [this] { return !busy; });
    else
      cv.wait(l, [this] { return !busy; });
  }
};
template<typename T>
void preempted(C & c, bool all = true, int pres = T::ops)
{
  Preempt & P = Preempt::get();
  int pre = c.choose(pres), a = c.choose(T::ops), b = c.choose(T::ops);
  Script sa = {pre, a, pre}, sb = {0, b, pre};
  int cx = 0, cy = 1;
  configs(c, cx, cy, all);
  static std::map<Script, std::vector<int>> points;
  const Script where = {cx, pre, a};
  auto at = points.find(where);
  if(at == points.end())
  {
    T x(cx);
    x.op(pre, seedOf(0, 0));
    P.seen.clear();
    P.points.clear();
    P.total = 0;
    P.passages = c.t(1, 3);
    P.mode = Preempt::count;
    x.op(a, seedOf(0, 1));
    P.mode = Preempt::off;
    at = points.insert({where, P.points}).first;
  }
  const std::vector<Vector> &ra = alone<T>(cx, sa, 0), &rb = alone<T>(cy, sb, 1);
  T x(cx), y(cy);
  c.near(x.op(pre, seedOf(0, 0)), ra[0], 0, "the first object is disturbed by the second");
  c.near(y.op(0, seedOf(1, 0)), rb[0], 0, "the second object is disturbed by the first");
  if(at->second.empty()) throw mc::Prune();
  P.target = at->second[size_t(c.choose(int(at->second.size())))];
  c.step([&] { return "operation " + std::to_string(a) + " of the first object, preempted at its call " + std::to_string(P.target) + " by operation " + std::to_string(b) + " of the second"; });
  bool ran = false;
  Vector inner;
  // a real second thread runs while the first one is stopped (were it to wait for the first, the first would go on)
  bool started = false;
  P.run = [&] {
    ran = true;
    started = true;
    Second::get().start([&] { inner = y.op(b, seedOf(1, 1)); });
    Second::get().wait(5);
  };
  P.total = 0;
  P.mode = Preempt::fire;
  Vector outer = x.op(a, seedOf(0, 1));
  P.mode = Preempt::off;
  P.run = nullptr;
  if(started) Second::get().wait(0);
  if(!ran) throw mc::Prune();
  c.near(outer, ra[1], 0, "a call is disturbed by a concurrent call on another object");
  c.near(inner, rb[1], 0, "a call is disturbed by the call of another object it preempts");
  c.near(x.op(pre, seedOf(0, 2)), ra[2], 0, "the first object is disturbed later");
  c.near(y.op(pre, seedOf(1, 2)), rb[2], 0, "the second object is disturbed later");
  c.state(mc::hashM(mc::hashM(1, outer), inner));
}
} // namespace indep
