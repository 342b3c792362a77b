// Long lives of the Kalman filters: many steps, data supplied ahead in batches of every size, large and negative time
// indices, one disturbance anywhere in the history.  Shared by C03, C04 and C05.
#pragma once
#include "kfref.hpp"
#include "mc.hpp"
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>

namespace kflong
{
using namespace stateObservation;
struct Model : DynamicalSystemFunctorBase
{
  Matrix A, B, C, D;
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = A * x;
    if(B.cols() && u.size()) r += B * u;
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = C * x;
    if(D.cols() && u.size()) r += D * u;
    return r;
  }
  Index getStateSize() const override
  {
    return A.rows();
  }
  Index getInputSize() const override
  {
    return B.cols();
  }
  Index getMeasurementSize() const override
  {
    return C.rows();
  }
};
inline Vector measureAt(long i)
{
  return (Vector(2) << std::sin(1.3 * double(i)) + 0.2, std::cos(0.4 * double(i) * double(i % 7))).finished();
}
inline Vector inputAt(long i)
{
  return (Vector(1) << std::cos(0.7 * double(i)) * double(i % 5)).finished();
}
/// F is configured with the matrices of r and its state is set at k0; d: the measurement needs the input of its time
template<class F>
void run(mc::C & c, F & f, ref::KF r, bool p, bool d, long k0, int N)
{
  static const std::vector<int> aheads = {0, 1, 3, 17, 80};
  static const std::vector<int> batches = {1, 2, 5, 33};
  const int ahead = c.pick(aheads), batch = c.pick(batches);
  const int what = c.choose(6), at = what ? c.choose(4) * (N / 4) + 3 : -1;
  const Matrix Q0 = r.Q, R0 = r.R;
  long ny = 0, nu = 0, t = 0; // measurements and inputs supplied, steps done
  auto supply = [&](long to) { // data up to time index to
    for(; ny < to; ++ny) f.setMeasurement(measureAt(ny + 1), k0 + ny + 1);
    if(p)
      for(; nu < (d ? to + 1 : to); ++nu) f.setInput(inputAt(nu), k0 + nu);
  };
  while(t < N)
  {
    long to = std::min<long>(N, t + batch);
    supply(std::min<long>(N, to + ahead));
    Vector x = f.getEstimatedState(k0 + to);
    for(; t < to; ++t) r.step(measureAt(t + 1), inputAt(t), inputAt(t + 1));
    c.step([&] { return "estimate " + mc::str(k0 + t); });
    c.near(x, r.x, 1e-8, "estimate in a long history");
    c.near(f.getStateCovariance(), r.P, 1e-8, "covariance in a long history");
    c.require(f.getCurrentTime() == k0 + t, "current time in a long history");
    if(what && t >= at && t < at + batch)
    {
      c.step([&] { return "disturbance " + mc::str(what); });
      switch(what)
      {
        case 1:
          r.x = (Vector(2) << -3, 0.25).finished();
          f.setState(r.x, k0 + t);
          break;
        case 2:
          r.P = (Matrix(2, 2) << 4, -0.5, -0.5, 3).finished();
          f.setStateCovariance(r.P);
          break;
        case 3:
          r.Q = 3 * Q0;
          f.setQ(r.Q);
          break;
        case 4:
          r.R = 0.25 * R0;
          f.setR(r.R);
          break;
        case 5: // everything supplied and not consumed is dropped and supplied again
          f.clearMeasurements();
          ny = t;
          if(p)
          {
            f.clearInputs();
            nu = t;
          }
          break;
      }
    }
    c.state(mc::hashM(uint64_t(t), x));
  }
}
inline ref::KF system(bool p, bool d)
{
  ref::KF r;
  r.A = (Matrix(2, 2) << 0.98, 0.1, -0.2, 0.9).finished();
  r.C = (Matrix(2, 2) << 1, 0.5, -0.3, 0.8).finished();
  if(p) r.B = (Matrix(2, 1) << 0.3, 1).finished();
  if(p && d) r.D = (Matrix(2, 1) << 0.7, -0.4).finished();
  r.Q = (Matrix(2, 2) << 0.1, 0.02, 0.02, 0.2).finished();
  r.R = (Matrix(2, 2) << 0.5, 0.1, 0.1, 0.3).finished();
  r.P = (Matrix(2, 2) << 1, 0.1, 0.1, 2).finished();
  r.x = (Vector(2) << 0.4, -1).finished();
  return r;
}
inline void explore(mc::C & c, bool extended, int N)
{
  static const std::vector<long> starts = {0, -40, 100000, 2147483640L};
  const bool p = c.flag(), d = p ? c.flag() : false;
  const long k0 = c.pick(starts);
  ref::KF r = system(p, d);
  auto configure = [&](KalmanFilterBase & f) {
    f.setA(r.A);
    f.setC(r.C);
    f.setQ(r.Q);
    f.setR(r.R);
    f.setStateCovariance(r.P);
    f.setState(r.x, k0);
  };
  if(!extended)
  {
    LinearKalmanFilter f(2, 2, p ? 1 : 0);
    if(p) f.setB(r.B);
    if(d) f.setD(r.D);
    configure(f);
    run(c, f, r, p, d, k0, N);
  }
  else
  {
    Model m;
    m.A = r.A;
    m.C = r.C;
    m.B = p ? Matrix(r.B) : Matrix(2, 0);
    m.D = d ? Matrix(r.D) : Matrix(2, 0);
    ExtendedKalmanFilter f(2, 2, p ? 1 : 0, d, p);
    f.setFunctor(&m);
    configure(f);
    run(c, f, r, p, d, k0, N);
  }
}
} // namespace kflong
