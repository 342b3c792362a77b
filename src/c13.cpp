// C13: the simulator reproduces the system's trajectory for any access order.
#include "mc.hpp"
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
struct Sys : DynamicalSystemFunctorBase
{
  double a;
  Sys(double a) : a(a) {}
  static Vector f(double a, const Vector & x, const Vector & u, long k)
  {
    Vector r(2);
    r << 0.5 * x(0) + a * u(0) + 0.1 * double(k), x(0) - 0.3 * x(1);
    return r;
  }
  static Vector h(double a, const Vector & x, const Vector & u, long k)
  {
    Vector r(3);
    r << x(0) + x(1), a * u(0), 0.01 * double(k) * x(1);
    return r;
  }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    return f(a, x, u, k);
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    return h(a, x, u, k);
  }
  Index getStateSize() const override
  {
    return 2;
  }
  Index getInputSize() const override
  {
    return 1;
  }
  Index getMeasurementSize() const override
  {
    return 3;
  }
};

struct Model
{
  double a;
  std::map<long, Vector> x, y, u;
  long last() const
  {
    return x.rbegin()->first;
  }
  Vector input(long k) const
  {
    auto i = u.upper_bound(k);
    --i;
    return i->second;
  }
  void step()
  {
    long k = last();
    y[k] = Sys::h(a, x[k], input(k), k);
    x[k + 1] = Sys::f(a, x[k], input(k), k);
  }
  void to(long k)
  {
    while(last() < k) step();
  }
};

template<typename F>
bool refuses(F && f)
{
  try
  {
    f();
  }
  catch(const mcmon::AssertFailure &)
  {
    return true;
  }
  return false;
}

MC_SUITE(histories, 3)
{
  DynamicalSystemSimulator s;
  Sys f1(1), f2(-2);
  Model m;
  m.a = 1;
  s.setDynamicsFunctor(&f1);
  int id = 1;
  auto vx = [&] {
    Vector v(2);
    v << id, 1 - 0.5 * id;
    ++id;
    return v;
  };
  auto vu = [&] {
    Vector v(1);
    v << id * 0.7;
    ++id;
    return v;
  };
  long k0 = c.flag() ? 0 : 3;
  auto init = [&](bool inputFirst) {
    Vector x = vx(), u = vu();
    if(inputFirst) s.setInput(u, k0);
    s.setState(x, k0);
    if(!inputFirst) s.setInput(u, k0);
    m.x.clear();
    m.y.clear();
    m.u.clear();
    m.x[k0] = x;
    m.u[k0] = u;
  };
  init(c.flag());
  auto check = [&] {
    c.require(s.getCurrentTime() == m.last(), "current time",
              [&] { return "time " + mc::str(long(s.getCurrentTime())) + " expected " + mc::str(m.last()); });
    c.near(s.getCurrentState(), m.x[m.last()], 1e-12, "current state");
    for(long k = k0; k <= m.last() + 2; ++k) c.near(s.getInput(k), m.input(k), 0, "input in force");
    uint64_t h = mc::mix(1, uint64_t(m.last()));
    h = mc::hashM(h, m.x[m.last()]);
    c.state(h);
  };
  check();
  int depth = c.t(4, 5);
  for(int i = 0; i < depth; ++i)
  {
    switch(c.choose(11))
    {
      case 0:
        c.step([&] { return "simulateDynamics"; });
        s.simulateDynamics();
        m.step();
        break;
      case 1:
      {
        long k = m.last() + c.choose(3);
        c.step([&] { return "simulateDynamicsTo " + mc::str(k); });
        s.simulateDynamicsTo(k);
        m.to(k);
        break;
      }
      case 2: // future or present state
      {
        long k = m.last() + c.choose(3);
        c.step([&] { return "getState " + mc::str(k); });
        Vector x = s.getState(k);
        m.to(k);
        c.near(x, m.x[k], 1e-12, "state");
        break;
      }
      case 3: // past state
      {
        long k = m.last() - 1 - c.choose(2);
        if(k < k0) throw mc::Prune();
        c.step([&] { return "getState " + mc::str(k); });
        c.near(s.getState(k), m.x[k], 1e-12, "recorded state");
        break;
      }
      case 4: // future or present measurement
      {
        long k = m.last() + c.choose(3);
        c.step([&] { return "getMeasurement " + mc::str(k); });
        Vector y = s.getMeasurement(k);
        m.to(k + 1);
        c.near(y, m.y[k], 1e-12, "measurement");
        break;
      }
      case 5: // past measurement
      {
        long k = m.last() - 1 - c.choose(2);
        if(k < k0) throw mc::Prune();
        c.step([&] { return "getMeasurement " + mc::str(k); });
        Vector y = s.getMeasurement(k);
        if(!m.y.count(k)) throw mc::Prune(); // states imposed without simulating in between
        c.near(y, m.y[k], 1e-12, "recorded measurement");
        break;
      }
      case 6: // input now, later, or again
      {
        long k = m.last() + c.choose(3);
        c.step([&] { return "setInput at " + mc::str(k); });
        Vector u = vu();
        s.setInput(u, k);
        m.u[k] = u;
        break;
      }
      case 7: // impose a state now or in the past: everything later is forgotten
      {
        long k = m.last() - c.choose(3);
        if(k < k0) throw mc::Prune();
        c.step([&] { return "setState at " + mc::str(k); });
        Vector x = vx();
        s.setState(x, k);
        m.x.erase(m.x.lower_bound(k), m.x.end());
        m.y.erase(m.y.lower_bound(k), m.y.end());
        m.x[k] = x;
        break;
      }
      case 8: // arrays
      {
        bool meas = c.flag();
        long from = c.flag() ? k0 : m.last();
        long n = 1 + c.choose(3);
        c.step([&] { return std::string(meas ? "getMeasurementArray " : "getStateArray ") + mc::str(from) + " " + mc::str(n); });
        bool known = true;
        if(meas)
        {
          IndexedVectorArray a = s.getMeasurementArray(from, TimeSize(n));
          m.to(from + n);
          c.require(a.size() == Index(n) && a.getFirstIndex() == from, "array range");
          for(long k = from; k < from + n; ++k) c.near(a[k], m.y[k], 1e-12, "measurement array");
        }
        else
        {
          IndexedVectorArray a = s.getStateArray(from, TimeSize(n));
          m.to(from + n - 1);
          c.require(a.size() == Index(n) && a.getFirstIndex() == from, "array range");
          for(long k = from; k < from + n; ++k) c.near(a[k], m.x[k], 1e-12, "state array");
        }
        (void)known;
        break;
      }
      case 9:
        if(c.flag())
        {
          c.step([&] { return "resetDynamics"; });
          s.resetDynamics();
        }
        else
        {
          c.step([&] { return "resetSimulator"; });
          s.resetSimulator();
          s.setDynamicsFunctor(&f1);
          m.a = 1;
        }
        k0 = c.flag() ? 0 : 3;
        init(c.flag());
        break;
      default:
        c.step([&] { return "another system"; });
        s.setDynamicsFunctor(m.a == 1 ? &f2 : &f1);
        m.a = m.a == 1 ? -2 : 1;
        break;
    }
    check();
  }
  // the whole record once more
  c.require(refuses([&] { s.getInput(k0 - 1); }), "input before the first one is refused");
  for(auto & e : m.x) c.near(s.getState(e.first), e.second, 1e-12, "record of states");
  for(auto & e : m.y) c.near(s.getMeasurement(e.first), e.second, 1e-12, "record of measurements");
  c.outcome(mc::hashM(uint64_t(m.last()), m.x[m.last()]));
}

// any interleaving of input times and requests gives the plain iteration
MC_SUITE(any_access_order, 3)
{
  Sys f(1);
  const int N = 5;
  DynamicalSystemSimulator s;
  s.setDynamicsFunctor(&f);
  Model m;
  m.a = 1;
  Vector x0(2);
  x0 << 1, -1;
  // inputs defined at a subset of the times, supplied in increasing or decreasing order
  int mask = c.choose(1 << (N - 1)) * 2 + 1;
  bool dec = c.flag();
  for(int i = 0; i < N; ++i)
  {
    int k = dec ? N - 1 - i : i;
    if(!(mask >> k & 1)) continue;
    Vector u(1);
    u << 0.3 * k + 1;
    s.setInput(u, k);
    m.u[k] = u;
  }
  s.setState(x0, 0);
  m.x[0] = x0;
  m.to(N + 1);
  // requests in every order
  std::vector<int> todo;
  for(int k = 0; k < N; ++k) todo.push_back(k), todo.push_back(100 + k);
  for(int q = 0; q < c.t(4, 5); ++q)
  {
    int w = c.choose(int(todo.size()));
    int r = todo[size_t(w)];
    todo.erase(todo.begin() + w);
    c.step([&] { return (r < 100 ? "state " : "measurement ") + mc::str(r % 100); });
    if(r < 100)
      c.near(s.getState(r), m.x[r], 1e-12, "state");
    else
      c.near(s.getMeasurement(r - 100), m.y[r - 100], 1e-12, "measurement");
  }
  c.state(uint64_t(mask));
}
// a long trajectory: requests at every stride and distance, sparse inputs, a state imposed far in the past
MC_SUITE(long_life, 3)
{
  static const std::vector<long> starts = {0, -30, 1000000};
  const long k0 = c.pick(starts);
  const int stride = c.pick(std::vector<int>{1, 2, 7, 50}), gap = c.pick(std::vector<int>{1, 9, 64});
  const int what = c.choose(4), order = c.choose(2), N = c.t(120, 300);
  const long back = what == 2 ? c.pick(std::vector<long>{0, 1, 30, 60}) : 0;
  DynamicalSystemSimulator s;
  Sys f(1), g(-2);
  Model m;
  m.a = 1;
  s.setDynamicsFunctor(&f);
  Vector x0(2);
  x0 << 1, -1;
  s.setState(x0, k0);
  m.x[k0] = x0;
  auto u = [&](long k) {
    Vector v(1);
    v << std::sin(0.9 * double(k - k0)) + 0.3;
    s.setInput(v, k);
    m.u[k] = v;
  };
  long nextU = k0;
  for(; nextU < k0 + (order ? N : 1); nextU += gap) u(nextU);
  bool done = false;
  for(long k = k0; k < k0 + N; k += stride)
  {
    if(!order)
      for(; nextU <= k + stride; nextU += gap)
        if(nextU >= m.last()) u(nextU);
    c.step([&] { return "request at " + mc::str(k); });
    if(k % 2)
    {
      Vector y = s.getMeasurement(k);
      m.to(k + 1);
      c.near(y, m.y[k], 1e-12, "measurement of a long trajectory");
    }
    Vector x = s.getState(k);
    m.to(k);
    c.near(x, m.x[k], 1e-12, "state of a long trajectory");
    if(what == 1 && !done && k > k0 + N / 2)
    {
      done = true;
      s.setDynamicsFunctor(&g);
      m.a = -2;
    }
    if(what == 2 && !done && k > k0 + 70)
    {
      done = true;
      long at = k - back;
      Vector z(2);
      z << 5, -7;
      s.setState(z, at);
      m.x.erase(m.x.lower_bound(at), m.x.end());
      m.y.erase(m.y.lower_bound(at), m.y.end());
      m.x[at] = z;
      c.near(s.getCurrentState(), z, 0, "imposed state");
    }
    if(what == 3 && !done && k > k0 + N / 2) // an input in the middle of the defined ones
    {
      done = true;
      long at = m.last() + 3;
      Vector v(1);
      v << -4;
      s.setInput(v, at);
      m.u[at] = v;
    }
    c.require(s.getCurrentTime() == m.last(), "current time in a long trajectory");
    c.state(mc::hashM(uint64_t(k), m.x[m.last()]));
  }
  for(auto & e : m.x) c.near(s.getState(e.first), e.second, 1e-12, "long record of states");
  for(auto & e : m.y)
    if(e.first < m.last()) c.near(s.getMeasurement(e.first), e.second, 1e-12, "long record of measurements");
}
} // namespace
MC_MAIN()
