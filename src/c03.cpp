// C03: zero-delay observers consume exactly the measurement and input of each step; stored data are exact.
#include "kflong.hpp"
#include "mc.hpp"
#include "kfref.hpp"
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
#include <state-observation/observer/zero-delay-observer.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
// an observer whose state remembers exactly which measurement and input every step used
struct Obs : ZeroDelayObserver
{
  Obs(Index n, Index m, Index p) : ZeroDelayObserver(n, m, p) {}
  static Vector f(const Vector & x, const Vector & y, const Vector & u)
  {
    Vector r = 0.5 * x;
    r(0) += y.sum();
    if(u.size()) r(0) += 3 * u.sum();
    for(Index i = 1; i < r.size(); ++i) r(i) += r(i - 1);
    return r;
  }
  StateVector oneStepEstimation_() override
  {
    TimeIndex k = x_.getTime();
    if(!(y_.size() > 0 && y_.checkIndex(k + 1))) throw std::runtime_error("measurement missing");
    Vector u;
    if(p_ > 0)
    {
      if(!(u_.size() > 0 && u_.checkIndex(k))) throw std::runtime_error("input missing");
      u = u_[k];
    }
    Vector r = f(x_(), y_[k + 1], u);
    x_.set(r, k + 1);
    return r;
  }
};

struct Series
{
  std::map<long, Vector> v;
  bool empty() const
  {
    return v.empty();
  }
  long first() const
  {
    return v.begin()->first;
  }
  long last() const
  {
    return v.rbegin()->first;
  }
  bool has(long k) const
  {
    return v.count(k) > 0;
  }
  void dropBelow(long k)
  {
    while(!v.empty() && v.begin()->first < k) v.erase(v.begin());
  }
};

struct Model
{
  int n, m, p;
  bool set = false;
  long t = 0;
  Vector x;
  Series y, u;
};

template<typename F>
bool refuses(F && f)
{
  try
  {
    f();
  }
  catch(const mcmon::AssertFailure &)
  {
    return true;
  }
  return false;
}

void observe(C & c, Obs & o, const Model & m)
{
  const Obs & co = o;
  c.require(co.stateIsSet() == m.set, "state is set");
  uint64_t h = mc::mix(3, uint64_t(m.set));
  if(m.set)
  {
    c.require(co.getCurrentTime() == m.t, "current time",
              [&] { return "current time " + mc::str(long(co.getCurrentTime())) + " expected " + mc::str(m.t); });
    c.near(co.getCurrentEstimatedState(), m.x, 1e-12, "current state");
    h = mc::hashM(mc::mix(h, uint64_t(m.t)), m.x);
  }
  c.require(co.getMeasurementsNumber() == TimeSize(m.y.v.size()), "number of measurements", [&] {
    return "holds " + mc::str(long(co.getMeasurementsNumber())) + " measurements, expected " + mc::str(long(m.y.v.size()));
  });
  c.require(co.getInputsNumber() == TimeSize(m.u.v.size()), "number of inputs", [&] {
    return "holds " + mc::str(long(co.getInputsNumber())) + " inputs, expected " + mc::str(long(m.u.v.size()));
  });
  if(!m.y.empty()) c.require(co.getMeasurementTime() == m.y.last(), "measurement time");
  if(!m.u.empty()) c.require(co.getInputTime() == m.u.last(), "input time");
  for(auto & e : m.y.v)
  {
    c.near(co.getMeasurement(e.first), e.second, 0, "stored measurement");
    h = mc::hashM(mc::mix(h, uint64_t(e.first)), e.second);
  }
  for(auto & e : m.u.v)
  {
    c.near(co.getInput(e.first), e.second, 0, "stored input");
    h = mc::hashM(mc::mix(h, 77 + uint64_t(e.first)), e.second);
  }
  c.require(co.getStateSize() == m.n && co.getMeasureSize() == m.m && co.getInputSize() == m.p, "sizes");
  c.state(h);
}

bool feasible(const Model & m, long k)
{
  if(!m.set || k < m.t) return false;
  for(long i = m.t; i < k; ++i)
  {
    if(!m.y.has(i + 1)) return false;
    if(m.p > 0 && !m.u.has(i)) return false;
  }
  return true;
}
void estimate(Model & m, long k)
{
  bool moved = k > m.t;
  for(; m.t < k; ++m.t) m.x = Obs::f(m.x, m.y.v[m.t + 1], m.p > 0 ? m.u.v[m.t] : Vector());
  if(moved)
  {
    m.y.dropBelow(k);
    if(m.p > 0) m.u.dropBelow(k);
  }
}

void protocol(C & c, int p, int depth)
{
  Model m;
  m.n = 2;
  m.m = 1;
  m.p = p;
  Obs o(2, 1, p);
  int id = 1;
  auto vec = [&](int n) {
    Vector v(n);
    for(int i = 0; i < n; ++i) v(i) = id + 0.25 * i;
    ++id;
    return v;
  };
  auto meas = [&](long k) {
    Vector v = vec(m.m);
    c.step([&] { return "setMeasurement(" + mc::str(v) + "," + mc::str(k) + ")"; });
    o.setMeasurement(v, k);
    m.y.v[k] = v;
  };
  auto inp = [&](long k) {
    Vector v = vec(std::max(m.p, 1));
    c.step([&] { return "setInput(" + mc::str(v) + "," + mc::str(k) + ")"; });
    o.setInput(v, k);
    if(m.p > 0) m.u.v[k] = v;
  };
  observe(c, o, m);
  // start from an empty observer, from one with data waiting, or from one that has already run
  int start = c.choose(3);
  if(start)
  {
    Vector v = vec(m.n);
    o.setState(v, 2);
    m.set = true;
    m.x = v;
    m.t = 2;
    meas(3);
    meas(4);
    inp(2);
    inp(3);
    if(start == 2)
    {
      o.getEstimatedState(4);
      estimate(m, 4);
    }
    observe(c, o, m);
  }
  for(int s = 0; s < depth; ++s)
  {
    int nop = p > 0 ? 13 : 11;
    int op = c.choose(nop);
    switch(op)
    {
      case 0: // set the state, at a time before, at or after the current one
      {
        long k = m.set ? m.t + c.pick(std::vector<int>{0, 1, 2, -1}) : c.pick(std::vector<int>{1, 2});
        Vector v = vec(m.n);
        c.step([&] { return "setState(" + mc::str(v) + "," + mc::str(k) + ")"; });
        o.setState(v, k);
        if(m.set && k < m.t)
        {
          m.y.v.clear();
          m.u.v.clear();
        }
        else
        {
          m.y.dropBelow(k + 1);
          if(m.p > 0) m.u.dropBelow(k);
        }
        m.set = true;
        m.x = v;
        m.t = k;
        break;
      }
      case 1: // next measurement
      {
        long k = !m.y.empty() ? m.y.last() + 1 : m.set ? m.t + 1 : c.pick(std::vector<int>{1, 2});
        meas(k);
        break;
      }
      case 2: // replace a stored measurement
        if(m.y.empty()) throw mc::Prune();
        meas(c.flag() ? m.y.first() : m.y.last());
        break;
      case 3: // push a measurement
      {
        if(m.y.empty() && !m.set) throw mc::Prune();
        long k = m.y.empty() ? m.t + 1 : m.y.last() + 1;
        Vector v = vec(m.m);
        c.step([&] { return "pushMeasurement(" + mc::str(v) + ")"; });
        o.pushMeasurement(v);
        m.y.v[k] = v;
        break;
      }
      case 4: // a measurement leaving a gap or out of order is refused and changes nothing
      {
        if(m.y.empty() && !m.set) throw mc::Prune();
        long k = m.y.empty() ? m.t + 1 : m.y.last() + 1;
        k += c.flag() ? 1 : (m.y.empty() ? -1 : -long(m.y.v.size()) - 1);
        c.step([&] { return "setMeasurement at time " + mc::str(k) + " (not contiguous)"; });
        c.require(refuses([&] { o.setMeasurement(vec(m.m), k); }), "gap in the measurements accepted");
        break;
      }
      case 5: // one estimation request
      {
        long k = m.t + c.pick(std::vector<int>{1, 2, 0, 3});
        if(!feasible(m, k)) throw mc::Prune();
        c.step([&] { return "getEstimatedState(" + mc::str(k) + ")"; });
        Vector got = o.getEstimatedState(k);
        estimate(m, k);
        c.near(got, m.x, 1e-12, "estimate");
        break;
      }
      case 6:
      {
        if(!m.set) throw mc::Prune();
        long k = m.y.empty() ? m.t : m.y.last();
        if(k < m.t || !feasible(m, k)) throw mc::Prune();
        c.step([&] { return std::string("estimateState()"); });
        TimeIndex r = o.estimateState();
        estimate(m, k);
        c.require(r == m.t, "time returned by estimateState");
        break;
      }
      case 7:
      {
        if(!m.set) throw mc::Prune();
        Vector v = vec(m.n);
        c.step([&] { return "setCurrentState(" + mc::str(v) + ")"; });
        o.setCurrentState(v);
        m.x = v;
        break;
      }
      case 8:
        switch(c.choose(5))
        {
          case 0:
            c.step([&] { return std::string("clearMeasurements()"); });
            o.clearMeasurements();
            m.y.v.clear();
            break;
          case 1:
            c.step([&] { return std::string("clearInputs()"); });
            o.clearInputs();
            m.u.v.clear();
            break;
          case 2:
            c.step([&] { return std::string("clearInputsAndMeasurements()"); });
            o.clearInputsAndMeasurements();
            m.u.v.clear();
            m.y.v.clear();
            break;
          case 3:
            c.step([&] { return std::string("clearStates()"); });
            o.clearStates();
            m.set = false;
            break;
          default:
            c.step([&] { return std::string("reset()"); });
            o.reset();
            m.set = false;
            m.u.v.clear();
            m.y.v.clear();
            break;
        }
        break;
      case 9: // sizes
        switch(c.choose(3))
        {
          case 0:
          {
            int n = c.flag() ? 3 : m.n;
            c.step([&] { return "setStateSize(" + mc::str(n) + ")"; });
            o.setStateSize(n);
            if(n != m.n) m.set = false;
            m.n = n;
            break;
          }
          case 1:
          {
            int n = c.flag() ? 2 : m.m;
            c.step([&] { return "setMeasureSize(" + mc::str(n) + ")"; });
            o.setMeasureSize(n);
            if(n != m.m) m.y.v.clear();
            m.m = n;
            break;
          }
          default:
          {
            int n = c.flag() ? 2 : m.p;
            c.step([&] { return "setInputSize(" + mc::str(n) + ")"; });
            o.setInputSize(n);
            if(n != m.p) m.u.v.clear();
            m.p = n;
            break;
          }
        }
        break;
      case 10: // next input
      {
        long k = !m.u.empty() ? m.u.last() + 1 : m.set ? m.t + c.choose(2) : c.pick(std::vector<int>{0, 1});
        inp(k);
        break;
      }
      case 11: // push an input or replace a stored one
        if(c.flag())
        {
          if(m.u.empty()) throw mc::Prune();
          inp(c.flag() ? m.u.first() : m.u.last());
        }
        else
        {
          if(m.u.empty() && !m.set) throw mc::Prune();
          long k = m.u.empty() ? m.t : m.u.last() + 1;
          Vector v = vec(m.p);
          c.step([&] { return "pushInput(" + mc::str(v) + ")"; });
          o.pushInput(v);
          m.u.v[k] = v;
        }
        break;
      default:
      {
        if(m.u.empty() && !m.set) throw mc::Prune();
        long k = m.u.empty() ? m.t + 2 : m.u.last() + 2;
        if(c.flag()) k = m.u.empty() ? m.t - 1 : m.u.first() - 1;
        c.step([&] { return "setInput at time " + mc::str(k) + " (not contiguous)"; });
        c.require(refuses([&] { o.setInput(vec(m.p), k); }), "gap in the inputs accepted");
        break;
      }
    }
    observe(c, o, m);
  }
  c.outcome(mc::mix(uint64_t(m.set) + 2 * m.y.v.size() + 16 * m.u.v.size(), uint64_t(m.t)));
}

MC_SUITE(protocol_without_input, 3)
{
  protocol(c, 0, c.t(5, 6));
}
MC_SUITE(protocol_with_input, 3)
{
  protocol(c, 1, c.t(4, 6));
}

// ---------------------------------------------------------------------------------------------
// the same data supplied along every schedule give the same estimates
struct LinFunctor : DynamicalSystemFunctorBase
{
  Matrix A, B, Cm, D;
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = A * x;
    if(B.cols() && u.size()) r += B * u;
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = Cm * x;
    if(D.cols() && u.size()) r += D * u;
    return r;
  }
  Index getStateSize() const override
  {
    return A.rows();
  }
  Index getInputSize() const override
  {
    return B.cols();
  }
  Index getMeasurementSize() const override
  {
    return Cm.rows();
  }
};

struct Fixture
{
  ref::KF kf;
  std::vector<Vector> y, u;
  Fixture(int p, bool d)
  {
    kf.A = (Matrix(2, 2) << 1, 0.1, -0.2, 0.9).finished();
    kf.C = (Matrix(1, 2) << 1, 0.5).finished();
    if(p) kf.B = (Matrix(2, 1) << 0.3, 1).finished();
    if(p && d) kf.D = (Matrix(1, 1) << 0.7).finished();
    kf.Q = (Matrix(2, 2) << 0.1, 0.02, 0.02, 0.2).finished();
    kf.R = (Matrix(1, 1) << 0.5).finished();
    kf.P = (Matrix(2, 2) << 1, 0.1, 0.1, 2).finished();
    kf.x = (Vector(2) << 0.4, -1).finished();
    for(int i = 0; i < 8; ++i)
    {
      y.push_back((Vector(1) << std::sin(1.3 * i) + i).finished());
      u.push_back((Vector(1) << std::cos(0.7 * i) * (i + 1)).finished());
    }
  }
};

// every way of supplying N measurements and inputs and of requesting the estimates in between
template<typename F>
void schedules(C & c, F & filter, const Fixture & fx, int p, bool needU1, int N, long k0)
{
  std::vector<Vector> xs(1, fx.kf.x);
  ref::KF r = fx.kf;
  for(int i = 0; i < N; ++i)
  {
    r.step(fx.y[size_t(i)], fx.u[size_t(i)], fx.u[size_t(i) + 1]);
    xs.push_back(r.x);
  }
  int ny = 0, nu = 0, t = 0; // measurements, inputs supplied; steps estimated
  while(t < N)
  {
    int avail = ny;
    if(p) avail = std::min(avail, needU1 ? nu - 1 : nu);
    std::vector<int> acts;
    if(ny < N) acts.push_back(0);
    if(p && nu < N + 1) acts.push_back(1);
    for(int k = t + 1; k <= avail; ++k) acts.push_back(10 + k);
    int a = c.pick(acts);
    if(a == 0)
    {
      bool push = ny > 0 && ny > t ? c.flag() : false;
      c.step([&] { return (push ? "push" : "set") + std::string(" measurement ") + mc::str(ny + 1); });
      if(push)
        filter.pushMeasurement(fx.y[size_t(ny)]);
      else
        filter.setMeasurement(fx.y[size_t(ny)], k0 + ny + 1);
      ++ny;
    }
    else if(a == 1)
    {
      c.step([&] { return "set input " + mc::str(nu); });
      filter.setInput(fx.u[size_t(nu)], k0 + nu);
      ++nu;
    }
    else
    {
      int k = a - 10;
      c.step([&] { return "estimate " + mc::str(k); });
      Vector x = filter.getEstimatedState(k0 + k);
      t = k;
      c.near(x, xs[size_t(k)], 1e-9, "estimate along this schedule");
      c.require(filter.getCurrentTime() == k0 + k, "current time");
      c.near(filter.getCurrentEstimatedState(), xs[size_t(k)], 1e-9, "current estimate");
      c.state(mc::hashM(mc::mix(uint64_t(ny), uint64_t(nu)), x));
    }
  }
  c.near(filter.getStateCovariance(), r.P, 1e-9, "covariance");
  c.outcome(mc::hashM(1, filter.getCurrentEstimatedState()));
}

template<typename F>
void configure(F & f, const Fixture & fx, long k0)
{
  f.setA(fx.kf.A);
  f.setC(fx.kf.C);
  f.setQ(fx.kf.Q);
  f.setR(fx.kf.R);
  f.setStateCovariance(fx.kf.P);
  f.setState(fx.kf.x, k0);
}

MC_SUITE(schedules_linear, 3)
{
  int p = c.choose(2);
  bool d = p ? c.flag() : false;
  long k0 = c.flag() ? 4 : 0;
  Fixture fx(p, d);
  LinearKalmanFilter f(2, 1, p);
  if(p) f.setB(fx.kf.B);
  if(d) f.setD(fx.kf.D);
  configure(f, fx, k0);
  schedules(c, f, fx, p, d, c.t(3, 4), k0);
}

MC_SUITE(schedules_extended, 3)
{
  int p = c.choose(2);
  bool d = p ? c.flag() : false;
  long k0 = c.flag() ? 4 : 0;
  Fixture fx(p, d);
  LinFunctor lf;
  lf.A = fx.kf.A;
  lf.Cm = fx.kf.C;
  lf.B = p ? Matrix(fx.kf.B) : Matrix(2, 0);
  lf.D = d ? Matrix(fx.kf.D) : Matrix(1, 0);
  ExtendedKalmanFilter f(2, 1, p, d, p > 0);
  f.setFunctor(&lf);
  configure(f, fx, k0);
  schedules(c, f, fx, p, d, c.t(3, 4), k0);
}
// inputs are needed only where the configuration uses them: every way of supplying them fully, partly or not at all
template<typename F>
void partialInputs(C & c, F & filter, const Fixture & fx, bool needB, bool needD, int N, long k0)
{
  std::vector<Vector> xs(1, fx.kf.x);
  ref::KF r = fx.kf;
  for(int i = 0; i < N; ++i)
  {
    r.step(fx.y[size_t(i)], fx.u[size_t(i)], fx.u[size_t(i) + 1]);
    xs.push_back(r.x);
  }
  int ny = 0, t = 0;
  int uf = 0, un = 0; // inputs of times uf..un-1 are stored
  while(t < N)
  {
    int avail = t;
    while(avail < ny && (!needB || (avail >= uf && avail < un)) && (!needD || (avail + 1 >= uf && avail + 1 < un))) ++avail;
    std::vector<int> acts;
    if(ny < N) acts.push_back(0);
    if(un > uf)
    {
      if(un < N + 1) acts.push_back(1);
    }
    else
    {
      acts.push_back(2); // from the current time
      acts.push_back(3); // from the next one
    }
    for(int k = t + 1; k <= avail; ++k) acts.push_back(10 + k);
    int a = c.pick(acts);
    if(a == 0)
    {
      c.step([&] { return "set measurement " + mc::str(ny + 1); });
      filter.setMeasurement(fx.y[size_t(ny)], k0 + ny + 1);
      ++ny;
    }
    else if(a < 10)
    {
      if(a > 1) uf = un = t + a - 2;
      c.step([&] { return "set input " + mc::str(un); });
      filter.setInput(fx.u[size_t(un)], k0 + un);
      ++un;
    }
    else
    {
      int k = a - 10;
      c.step([&] { return "estimate " + mc::str(k); });
      Vector x = filter.getEstimatedState(k0 + k);
      t = k;
      uf = std::max(uf, std::min(k, un));
      c.near(x, xs[size_t(k)], 1e-9, "estimate with the inputs that are needed");
      c.require(filter.getCurrentTime() == k0 + k, "current time");
      c.require(filter.getMeasurementsNumber() == ny - k + 1, "number of measurements");
      c.require(filter.getInputsNumber() == un - uf, "number of inputs");
      c.state(mc::hashM(mc::mix(uint64_t(ny), uint64_t(un * 16 + uf)), x));
    }
  }
  c.near(filter.getStateCovariance(), r.P, 1e-9, "covariance");
}
MC_SUITE(partial_inputs_linear, 3)
{
  bool b = c.flag(), d = c.flag();
  long k0 = c.flag() ? 4 : 0;
  Fixture fx(1, true);
  if(!b) fx.kf.B.setZero();
  if(!d) fx.kf.D.setZero();
  LinearKalmanFilter f(2, 1, 1);
  f.setB(fx.kf.B);
  if(d || c.flag()) f.setD(fx.kf.D);
  configure(f, fx, k0);
  partialInputs(c, f, fx, b, d, c.t(3, 4), k0);
}
MC_SUITE(partial_inputs_extended, 3)
{
  bool b = c.flag(), d = c.flag();
  long k0 = c.flag() ? 4 : 0;
  Fixture fx(1, true);
  if(!b) fx.kf.B.setZero();
  if(!d) fx.kf.D.setZero();
  LinFunctor lf;
  lf.A = fx.kf.A;
  lf.Cm = fx.kf.C;
  lf.B = fx.kf.B;
  lf.D = fx.kf.D;
  ExtendedKalmanFilter f(2, 1, 1, d, b);
  f.setFunctor(&lf);
  configure(f, fx, k0);
  partialInputs(c, f, fx, b, d, c.t(3, 4), k0);
}
// long histories
MC_SUITE(long_life, 3)
{
  kflong::explore(c, c.flag(), c.t(150, 400));
}
} // namespace
MC_MAIN()
