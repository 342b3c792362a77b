// C05: the extended Kalman filter never works from a stale prediction.
#include "kflong.hpp"
#include "mc.hpp"
#include "kfref.hpp"
#include <memory>
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
Matrix gen(int r, int q, int seed)
{
  Matrix m(r, q);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < q; ++j) m(i, j) = std::sin(1.7 * i + 2.3 * j + 0.9 * seed + 0.4) * (i == j ? 1.1 : 0.6);
  return m;
}
Matrix spd(int n, int seed, double scale)
{
  Matrix a = gen(n, n, seed);
  return scale * (a * a.transpose() + 0.3 * Matrix::Identity(n, n));
}
Vector vec(int n, int seed)
{
  return gen(n, 1, seed + 31);
}

// smooth nonlinear system with an adjustable parameter; also depends on the time index
struct Sys : DynamicalSystemFunctorBase
{
  int n, m, p;
  double a;
  int resets = 0;
  Sys(int n, int m, int p, double a) : n(n), m(m), p(p), a(a) {}
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    if(u.size() != p) throw std::runtime_error("input of the wrong size given to the model");
    if(x.size() != n) throw std::runtime_error("state of the wrong size given to the model");
    Vector r(n);
    for(int i = 0; i < n; ++i) r(i) = x(i) + 0.3 * std::sin(a * x((i + 1) % n)) + 0.05 * double(k);
    if(p) r(0) += u.sum() + 0.1 * u(0) * x(0);
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    if(u.size() != p) throw std::runtime_error("input of the wrong size given to the model");
    Vector r(m);
    for(int i = 0; i < m; ++i) r(i) = a * x(i % n) + 0.2 * x((i + 1) % n) * x(i % n) + 0.03 * double(k);
    if(p) r(m - 1) += 0.5 * u(p - 1);
    return r;
  }
  Matrix jacA(const Vector & x, const Vector & u)
  {
    Matrix j = Matrix::Identity(n, n);
    for(int i = 0; i < n; ++i) j(i, (i + 1) % n) += 0.3 * a * std::cos(a * x((i + 1) % n));
    if(p) j(0, 0) += 0.1 * u(0);
    return j;
  }
  Matrix jacC(const Vector & x)
  {
    Matrix j = Matrix::Zero(m, n);
    for(int i = 0; i < m; ++i)
    {
      j(i, i % n) += a + 0.2 * x((i + 1) % n);
      j(i, (i + 1) % n) += 0.2 * x(i % n);
    }
    return j;
  }
  void reset() override
  {
    ++resets;
  }
  Index getStateSize() const override
  {
    return n;
  }
  Index getInputSize() const override
  {
    return p;
  }
  Index getMeasurementSize() const override
  {
    return m;
  }
};

// reference extended filter: nothing is ever cached
struct Ref
{
  Sys * f;
  bool dIn, dOut;
  Vector x;
  long k;
  std::map<long, Vector> u;
  Matrix A, Cm, Q, R, P;
  Vector xbar, ybar, innov;
  Vector uState()
  {
    return dIn && f->p ? u.at(k) : Vector(Vector::Zero(f->p));
  }
  Vector uMeas(long t)
  {
    return f->p && u.count(t) ? u.at(t) : Vector(Vector::Zero(f->p));
  }
  Vector predict()
  {
    return f->stateDynamics(x, uState(), k);
  }
  Vector predictMeas()
  {
    return f->measureDynamics(predict(), uMeas(k + 1), k + 1);
  }
  void step(const Vector & y)
  {
    xbar = predict();
    ybar = predictMeas();
    ref::KF r;
    r.A = A;
    r.C = Cm;
    r.Q = Q;
    r.R = R;
    r.P = P;
    r.x = Vector::Zero(x.size());
    r.step(y - ybar, Vector(), Vector()); // tangent problem
    innov = r.innov;
    x = xbar + innov;
    P = r.P;
    ++k;
    while(!u.empty() && u.begin()->first < k) u.erase(u.begin());
  }
};

void configure(ExtendedKalmanFilter & f, const Ref & r)
{
  f.setQ(r.Q);
  f.setR(r.R);
  f.setA(r.A);
  f.setC(r.Cm);
  f.setStateCovariance(r.P);
  f.setState(r.x, r.k);
}

// any history of queries, parameter, state, input and model changes before and between steps
void histories(C & c, int p, int depth)
{
  Sys s1(2, 2, p, 0.7), s2(2, 2, p, 1.3);
  bool dOut = p ? c.flag() : false, dIn = p ? c.flag() : false;
  ExtendedKalmanFilter f(2, 2, p, dOut, dIn);
  Ref r;
  r.f = &s1;
  r.dIn = dIn;
  r.dOut = dOut;
  r.k = 3;
  int id = 0;
  auto initial = [&] {
    r.x = vec(2, 2 + id);
    r.A = gen(2, 2, 3);
    r.Cm = gen(2, 2, 4);
    r.Q = spd(2, 5, 0.5);
    r.R = spd(2, 6, 1);
    r.P = spd(2, 7, 1);
    configure(f, r);
  };
  auto inputs = [&] {
    if(!p) return;
    for(long t = r.k; t <= r.k + 1; ++t)
    {
      r.u[t] = vec(p, id + int(t - r.k) * 17);
      f.setInput(r.u[t], t);
    }
  };
  f.setFunctor(&s1);
  c.require(f.getFunctor() == &s1 && f.functor() == &s1, "functor read back");
  initial();
  inputs();
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(p ? 15 : 12);
    if(op >= 11) op = op == 11 ? 14 : op - 1; // 14: available without inputs
    id += 3;
    switch(op)
    {
      case 0:
      {
        c.step([&] { return "measure and estimate"; });
        Vector y = vec(2, id);
        f.setMeasurement(y, r.k + 1);
        r.step(y);
        Vector x = f.getEstimatedState(r.k);
        c.near(x, r.x, 1e-9, "estimate");
        c.near(f.getLastPrediction(), r.xbar, 1e-9, "prediction used by the step");
        c.near(f.getLastPredictedMeasurement(), r.ybar, 1e-9, "measurement prediction used by the step");
        c.near(f.getInnovation(), r.innov, 1e-9, "innovation");
        inputs();
        break;
      }
      case 1:
        c.step([&] { return "updateStatePrediction"; });
        c.near(f.updateStatePrediction(), r.predict(), 1e-12, "state prediction");
        c.near(f.getLastPrediction(), r.predict(), 1e-12, "last prediction");
        break;
      case 2:
        c.step([&] { return "updateStateAndMeasurementPrediction"; });
        c.near(f.updateStateAndMeasurementPrediction(), r.predictMeas(), 1e-12, "measurement prediction");
        c.near(f.getLastPrediction(), r.predict(), 1e-12, "last prediction");
        c.near(f.getLastPredictedMeasurement(), r.predictMeas(), 1e-12, "last measurement prediction");
        break;
      case 3:
      {
        c.step([&] { return "finite-difference Jacobians"; });
        Vector dx = Vector::Constant(2, 1e-6);
        bool set = c.flag();
        Matrix A = f.getAMatrixFD(dx);
        c.near(A, r.f->jacA(r.x, r.uState()), 1e-5, "state Jacobian");
        Matrix Cm = f.getCMatrixFD(dx);
        c.near(Cm, r.f->jacC(r.predict()), 1e-5, "measurement Jacobian");
        if(set)
        {
          f.setA(A);
          f.setC(Cm);
          r.A = A;
          r.Cm = Cm;
        }
        break;
      }
      case 4:
        c.step([&] { return "setCurrentState"; });
        r.x = vec(2, id);
        f.setCurrentState(r.x);
        break;
      case 5:
        c.step([&] { return "setState at the current time"; });
        r.x = vec(2, id);
        f.setState(r.x, r.k);
        break;
      case 6:
        c.step([&] { return "change of a model parameter"; });
        r.f->a += 0.25;
        break;
      case 7:
        c.step([&] { return "setFunctor(other)"; });
        r.f = r.f == &s1 ? &s2 : &s1;
        f.setFunctor(r.f);
        break;
      case 8:
        c.step([&] { return "new covariances"; });
        r.Q = spd(2, id, 1);
        r.R = spd(2, id + 1, 1);
        r.P = spd(2, id + 2, 1);
        f.setQ(r.Q);
        f.setR(r.R);
        f.setStateCovariance(r.P);
        break;
      case 9:
      {
        c.step([&] { return "reset and start again"; });
        int n0 = r.f->resets;
        f.reset();
        c.require(r.f->resets == n0 + 1, "reset reaches the functor");
        c.require(!f.stateIsSet() && f.getMeasurementsNumber() == 0 && f.getInputsNumber() == 0, "reset clears the data");
        r.u.clear();
        r.k = c.flag() ? r.k : 3;
        initial();
        inputs();
        break;
      }
      case 10:
      {
        c.step([&] { return "simulated measurement of the current state"; });
        if(r.dOut && !r.u.count(r.k)) break;
        Vector y = f.getSimulatedMeasurement(r.k);
        c.near(y, r.f->measureDynamics(r.x, r.uMeas(r.k), r.k), 1e-12, "simulated measurement");
        break;
      }
      case 11:
        c.step([&] { return "replace the inputs"; });
        inputs();
        break;
      case 12:
        c.step([&] { return "setDirectInputStateFeedthrough"; });
        r.dIn = !r.dIn;
        f.setDirectInputStateFeedthrough(r.dIn);
        break;
      case 13:
        c.step([&] { return "setDirectInputOutputFeedthrough"; });
        r.dOut = !r.dOut;
        f.setDirectInputOutputFeedthrough(r.dOut);
        break;
      case 14:
      {
        c.step([&] { return "two measurements, then estimate"; });
        Vector y1 = vec(2, id), y2 = vec(2, id + 5);
        if(p)
          for(long t = r.k; t <= r.k + 2; ++t)
            if(!r.u.count(t) || t == r.k + 2)
            {
              r.u[t] = vec(p, id + int(t - r.k) * 13);
              f.setInput(r.u[t], t);
            }
        f.setMeasurement(y1, r.k + 1);
        f.setMeasurement(y2, r.k + 2);
        r.step(y1);
        r.step(y2);
        Vector x = f.getEstimatedState(r.k);
        c.near(x, r.x, 1e-9, "estimate after two steps");
        c.near(f.getLastPrediction(), r.xbar, 1e-9, "prediction used by the second step");
        c.near(f.getLastPredictedMeasurement(), r.ybar, 1e-9, "measurement prediction used by the second step");
        inputs();
        break;
      }
    }
    c.near(f.getCurrentEstimatedState(), r.x, 1e-9, "current state");
    c.require(f.getCurrentTime() == r.k, "current time");
    c.near(f.getStateCovariance(), r.P, 1e-9, "covariance");
    c.state(mc::hashM(mc::hashM(uint64_t(r.k), r.x), r.P));
  }
  // whatever happened, one more step is the right one
  Vector y = vec(2, 99);
  f.setMeasurement(y, r.k + 1);
  r.step(y);
  c.near(f.getEstimatedState(r.k), r.x, 1e-9, "estimate at the end");
  c.near(f.getStateCovariance(), r.P, 1e-9, "covariance at the end");
  c.outcome(mc::hashM(1, r.x));
}
MC_SUITE(histories_no_input, 2)
{
  histories(c, 0, c.t(6, 7));
}
MC_SUITE(histories_input, 3)
{
  histories(c, 2, c.t(5, 6));
}

// sizes changed during the life of the filter
MC_SUITE(resized, 3)
{
  int n = c.choose(2) + 1, m = c.choose(2) + 1, p = c.choose(3);
  bool dOut = c.flag(), dIn = c.flag();
  ExtendedKalmanFilter f(n, m, p, dOut, dIn);
  std::unique_ptr<Sys> s;
  Ref r;
  r.k = 0;
  int id = 0;
  for(int i = 0; i < c.t(2, 3); ++i)
  {
    s.reset(new Sys(n, m, p, 0.8));
    r.f = s.get();
    if(p == 0)
      dIn = dOut = false;
    else
    {
      f.setDirectInputStateFeedthrough(dIn);
      f.setDirectInputOutputFeedthrough(dOut);
    }
    r.dIn = dIn;
    r.dOut = dOut;
    f.setFunctor(r.f);
    r.x = vec(n, 2 + id);
    r.A = gen(n, n, 3 + id);
    r.Cm = gen(m, n, 4 + id);
    r.Q = spd(n, 5, 0.5);
    r.R = spd(m, 6, 1);
    r.P = spd(n, 7, 1);
    configure(f, r);
    c.require(f.getStateSize() == n && f.getMeasureSize() == m && f.getInputSize() == p, "sizes read back");
    if(c.flag() && !(p && dOut))
    {
      c.step([&] { return "simulated measurement before new inputs are given"; });
      c.near(f.getSimulatedMeasurement(r.k), r.f->measureDynamics(r.x, r.uMeas(r.k), r.k), 1e-12,
             "simulated measurement after a change of size");
    }
    bool giveInputs = p && (dIn || dOut || !r.u.empty() || c.flag());
    if(giveInputs)
      for(long t = r.k; t <= r.k + 1; ++t)
      {
        r.u[t] = vec(p, id + int(t - r.k) * 17);
        f.setInput(r.u[t], t);
      }
    if(c.flag())
    {
      Vector dx = Vector::Constant(n, 1e-6);
      r.A = f.getAMatrixFD(dx);
      c.near(r.A, r.f->jacA(r.x, r.uState()), 1e-5, "state Jacobian after a change of size");
      r.Cm = f.getCMatrixFD(dx);
      c.near(r.Cm, r.f->jacC(r.predict()), 1e-5, "measurement Jacobian after a change of size");
      f.setA(r.A);
      f.setC(r.Cm);
    }
    Vector y = vec(m, id + 9);
    f.setMeasurement(y, r.k + 1);
    c.step([&] { return "step with sizes " + mc::str(n) + " " + mc::str(m) + " " + mc::str(p); });
    r.step(y);
    c.near(f.getEstimatedState(r.k), r.x, 1e-9, "estimate after a change of size");
    c.near(f.getStateCovariance(), r.P, 1e-9, "covariance after a change of size");
    c.near(f.getLastPredictedMeasurement(), r.ybar, 1e-9, "measurement prediction after a change of size");
    c.state(mc::hashM(uint64_t(n * 9 + m * 3 + p), r.x));
    // what changes
    id += 3;
    n = c.choose(2) + 1, m = c.choose(2) + 1;
    int q = c.choose(3);
    if(q != p) r.u.clear(); // inputs of another size are forgotten
    p = q;
    dOut = c.flag(), dIn = c.flag();
    c.step([&] { return "change of sizes"; });
    f.setStateSize(n);
    f.setMeasureSize(m);
    f.setInputSize(p);
  }
}

// inputs are needed only by the feed-throughs that are configured
MC_SUITE(feedthrough, 2)
{
  int p = c.choose(2) + 1;
  bool dOut = c.flag(), dIn = c.flag(), have0 = c.flag(), have1 = c.flag(), ctor = c.flag();
  Sys s(2, 1, p, 0.9);
  ExtendedKalmanFilter f(2, 1, p, ctor ? dOut : !dOut, ctor ? dIn : !dIn);
  if(!ctor)
  {
    f.setDirectInputOutputFeedthrough(dOut);
    f.setDirectInputStateFeedthrough(dIn);
  }
  f.setFunctor(&s);
  Ref r;
  r.f = &s;
  r.dIn = dIn;
  r.dOut = dOut;
  r.k = 0;
  r.x = vec(2, 1);
  r.A = gen(2, 2, 2);
  r.Cm = gen(1, 2, 3);
  r.Q = spd(2, 4, 1);
  r.R = spd(1, 5, 1);
  r.P = spd(2, 6, 1);
  configure(f, r);
  if(!have0 && (dIn || !have1)) throw mc::Prune(); // an input store must not be empty when inputs exist
  if(!have1 && dOut) throw mc::Prune();
  for(long t = 0; t < 2; ++t)
    if(t ? have1 : have0)
    {
      r.u[t] = vec(p, int(t) + 3);
      f.setInput(r.u[t], t);
    }
  Vector y = vec(1, 9);
  f.setMeasurement(y, 1);
  c.step([&] { return "estimate"; });
  r.step(y);
  c.near(f.getEstimatedState(1), r.x, 1e-9, "estimate");
  c.near(f.getLastPredictedMeasurement(), r.ybar, 1e-9, "measurement prediction");
  c.state(mc::hashM(1, r.x));
}

// on linear models the extended filter with finite-difference Jacobians is the linear filter
struct Lin : DynamicalSystemFunctorBase
{
  Matrix A, B, Cm, D;
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = A * x;
    if(B.cols() && u.size()) r += B * u;
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = Cm * x;
    if(D.cols() && u.size()) r += D * u;
    return r;
  }
  Index getStateSize() const override
  {
    return A.rows();
  }
  Index getInputSize() const override
  {
    return B.cols();
  }
  Index getMeasurementSize() const override
  {
    return Cm.rows();
  }
};

MC_SUITE(linear_model, 3)
{
  int n = c.pick(std::vector<int>{1, 2, 3, 5}), m = c.pick(std::vector<int>{1, 2, 4}), p = c.choose(3);
  bool dIn = p ? c.flag() : false, dOut = p ? c.flag() : false;
  double eps = c.pick(std::vector<double>{1e-4, 1.0, -0.5});
  int s = c.choose(3);
  Lin l;
  ref::KF r;
  r.A = l.A = gen(n, n, s);
  r.C = l.Cm = gen(m, n, s + 1);
  l.B = gen(n, p, s + 2);
  l.D = gen(m, p, s + 3);
  if(p) r.D = l.D;
  if(p && dIn) r.B = l.B;
  r.Q = spd(n, s, 1);
  r.R = spd(m, s + 4, 1);
  r.P = spd(n, s + 5, 1);
  r.x = vec(n, s + 6);
  ExtendedKalmanFilter f(n, m, p, dOut, dIn);
  f.setFunctor(&l);
  f.setQ(r.Q);
  f.setR(r.R);
  f.setStateCovariance(r.P);
  f.setState(r.x, 0);
  Vector dx = Vector::Constant(n, eps);
  for(int i = 0; i < n; ++i) dx(i) *= 1 + 0.3 * i;
  for(int k = 0; k < 3; ++k)
  {
    Vector u0 = vec(p, k), u1 = vec(p, k + 1), y = vec(m, k + 7);
    if(p)
    {
      f.setInput(u0, k);
      f.setInput(u1, k + 1);
    }
    Matrix A = f.getAMatrixFD(dx), Cm = f.getCMatrixFD(dx);
    c.near(A, r.A, 1e-9, "state Jacobian");
    c.near(Cm, r.C, 1e-9, "measurement Jacobian");
    f.setA(r.A);
    f.setC(r.C);
    f.setMeasurement(y, k + 1);
    c.step([&] { return "step"; });
    r.step(y, u0, u1);
    c.near(f.getEstimatedState(k + 1), r.x, 1e-9, "estimate");
    c.near(f.getStateCovariance(), r.P, 1e-9, "covariance");
    c.near(f.getLastPrediction(), r.xbar, 1e-9, "prediction");
    c.near(f.getLastPredictedMeasurement(), r.ybar, 1e-9, "measurement prediction");
    c.near(f.getInnovation(), r.innov, 1e-9, "innovation");
    c.near(f.getLastGain(), r.K, 1e-9, "gain");
    c.state(mc::hashM(1, r.x));
  }
}

// state: a unit complex number (heading) and a scalar; measurement: a unit complex number and a scalar
struct Mani : DynamicalSystemFunctorBase, StateVectorArithmetics
{
  double w = 0.3;
  static Vector S(double th, double s)
  {
    Vector v(3);
    v << std::cos(th), std::sin(th), s;
    return v;
  }
  static double ang(const Vector & x)
  {
    return std::atan2(x(1), x(0));
  }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    return S(ang(x) + w + 0.5 * x(2) + (u.size() ? u(0) : 0), 0.9 * x(2));
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    return S(2 * ang(x) + 0.1 * x(2) + (u.size() ? u(0) : 0), 3 * x(2) + 0.5 * std::cos(ang(x)));
  }
  void stateSum(const Vector & x, const Vector & t, Vector & sum) override
  {
    sum = S(ang(x) + t(0), x(2) + t(1));
  }
  static void diff(const Vector & a, const Vector & b, Vector & d)
  {
    double e = ang(a) - ang(b);
    e = std::atan2(std::sin(e), std::cos(e));
    Vector r(2);
    r << e, a(2) - b(2);
    d = r;
  }
  void stateDifference(const Vector & a, const Vector & b, Vector & d) override
  {
    diff(a, b, d);
  }
  void measurementDifference(const Vector & a, const Vector & b, Vector & d) override
  {
    diff(a, b, d);
  }
  Index getStateSize() const override
  {
    return 3;
  }
  Index getInputSize() const override
  {
    return 1;
  }
  Index getMeasurementSize() const override
  {
    return 3;
  }
};
// the same arithmetics given by deriving from the filter
struct OwnArith : ExtendedKalmanFilter
{
  Mani a;
  OwnArith(Index p) : ExtendedKalmanFilter(3, 2, 3, 2, p, p > 0, p > 0) {}
  void stateSum(const Vector & x, const Vector & t, Vector & sum) override
  {
    a.stateSum(x, t, sum);
  }
  void stateDifference(const Vector & x, const Vector & y, Vector & d) override
  {
    a.stateDifference(x, y, d);
  }
  void measurementDifference(const Vector & x, const Vector & y, Vector & d) override
  {
    a.measurementDifference(x, y, d);
  }
};

MC_SUITE(manifold, 3)
{
  Mani s;
  int p = c.choose(2);
  bool own = c.flag(), viaSetter = c.flag();
  double th0 = c.pick(std::vector<double>{0.2, 3.0, -3.1, M_PI});
  double s0 = c.pick(std::vector<double>{0, 0.4});
  ExtendedKalmanFilter e = viaSetter ? ExtendedKalmanFilter(3, 3, p, p > 0, p > 0)
                                     : ExtendedKalmanFilter(3, 2, 3, 2, p, p > 0, p > 0);
  if(viaSetter)
  {
    e.setStateSize(3, 2);
    e.setMeasureSize(3, 2);
  }
  OwnArith o(p);
  ExtendedKalmanFilter & f = own ? static_cast<ExtendedKalmanFilter &>(o) : e;
  if(!own) e.setStateArithmetics(&s);
  f.setFunctor(&s);
  Matrix Q = spd(2, 1, 0.1), R = spd(2, 2, 0.2), P = spd(2, 3, 0.2);
  Vector x = Mani::S(th0, s0);
  c.require(f.getQmatrixZero().rows() == 2 && f.getRmatrixZero().rows() == 2 && f.getCmatrixZero().rows() == 2
                && f.getCmatrixZero().cols() == 2 && f.getPmatrixZero().rows() == 2
                && f.stateTangentVectorZero().size() == 2 && f.measureTangentVectorZero().size() == 2
                && f.stateVectorZero().size() == 3 && f.measureVectorZero().size() == 3,
            "tangent sizes");
  f.setQ(Q);
  f.setR(R);
  f.setStateCovariance(P);
  f.setState(x, 0);
  Vector dx = Vector::Constant(2, 1e-6);
  for(int k = 0; k < 3; ++k)
  {
    Vector u0(p), u1(p);
    if(p)
    {
      u0 << 0.2 * k;
      u1 << 0.2 * (k + 1);
      f.setInput(u0, k);
      f.setInput(u1, k + 1);
    }
    Vector xb = s.stateDynamics(x, u0, k), yb = s.measureDynamics(xb, u1, k + 1);
    Matrix A(2, 2), Cm(2, 2);
    A << 1, 0.5, 0, 0.9;
    Cm << 2, 0.1, -0.5 * std::sin(Mani::ang(xb)), 3;
    c.near(f.getAMatrixFD(dx), A, 1e-5, "state Jacobian on a manifold");
    c.near(f.getCMatrixFD(dx), Cm, 1e-5, "measurement Jacobian on a manifold");
    f.setA(A);
    f.setC(Cm);
    double dth = c.pick(std::vector<double>{0.3, -0.5, 0});
    Vector y = Mani::S(Mani::ang(yb) + dth, yb(2) + 0.2);
    f.setMeasurement(y, k + 1);
    c.step([&] { return "step with angular innovation " + mc::str(dth); });
    ref::KF r;
    r.A = A;
    r.C = Cm;
    r.Q = Q;
    r.R = R;
    r.P = P;
    r.x = Vector::Zero(2);
    Vector z(2);
    z << dth, 0.2;
    r.step(z, Vector(), Vector());
    P = r.P;
    Vector xn;
    s.stateSum(xb, r.innov, xn);
    x = xn;
    c.near(f.getEstimatedState(k + 1), x, 1e-9, "estimate on a manifold");
    c.near(f.getStateCovariance(), P, 1e-9, "covariance on a manifold");
    c.near(f.getInnovation(), r.innov, 1e-9, "innovation on a manifold");
    c.state(mc::hashM(1, x));
  }
}
// long histories
MC_SUITE(long_life, 3)
{
  kflong::explore(c, true, c.t(150, 400));
}
} // namespace
MC_MAIN()
