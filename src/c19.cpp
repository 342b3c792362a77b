// C19: the tilt estimator implements its complementary filter exactly.
#include "mc.hpp"
#include <state-observation/observer/tilt-estimator.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
Vector3 v3(int s, double a = 1)
{
  return a * Vector3(std::sin(1.3 * s + 0.2), std::cos(2.1 * s), std::sin(0.7 * s - 1));
}
Matrix3 R3(int s)
{
  if(s == 0) return Matrix3::Identity();
  Vector3 w = v3(s, 1.7 * s);
  return AngleAxis(w.norm(), w.normalized()).toRotationMatrix();
}
struct Ref
{
  double a, b, g, dt;
  Vector3 p, v, w, vC;
  Matrix3 R;
  Vector3 x1, x2p, x2;
  void step(const Vector3 & ya, const Vector3 & yg)
  {
    Vector3 vel = R.transpose() * (vC + v) + (yg - R.transpose() * w).cross(R.transpose() * p);
    Vector3 e = vel - x1;
    Vector3 d1 = x1.cross(yg) - cst::gravityConstant * x2p + ya + a * e;
    Vector3 d2p = x2p.cross(yg) - b * e;
    Vector3 d2 = x2.cross(yg - g * x2.cross(x2p));
    x1 += dt * d1;
    x2p += dt * d2p;
    x2 += dt * d2;
    x2.normalize();
  }
  Vector x() const
  {
    Vector r(9);
    r << x1, x2p, x2;
    return r;
  }
};
void push(TiltEstimator & e, const Ref & r)
{
  e.setAlpha(r.a);
  e.setBeta(r.b);
  e.setGamma(r.g);
  e.setSamplingTime(r.dt);
  e.setSensorPositionInC(r.p);
  e.setSensorOrientationInC(r.R);
  e.setSensorLinearVelocityInC(r.v);
  e.setSensorAngularVelocityInC(r.w);
  e.setControlOriginVelocityInW(r.vC);
}
Ref fresh(int s)
{
  Ref r;
  r.a = 5;
  r.b = 1.3;
  r.g = 2;
  r.dt = 0.005; // documented default of the constructor
  r.p = r.v = r.w = r.vC = Vector3::Zero();
  r.R = Matrix3::Identity();
  r.x1 = v3(s, 0.3);
  r.x2p = v3(s + 1).normalized();
  r.x2 = v3(s + 2).normalized();
  return r;
}
void compare(C & c, TiltEstimator & e, const Ref & r)
{
  Vector x = e.getCurrentEstimatedState();
  c.near(x, r.x(), 1e-10, "state");
  c.require(e.getAlpha() == r.a && e.getBeta() == r.b && e.getGamma() == r.g && e.getSamplingTime() == r.dt, "gains");
  c.near(e.getSensorPositionInC(), r.p, 0, "sensor position");
  c.near(e.getSensorOrientationInC(), r.R, 0, "sensor orientation");
  c.near(e.getSensorLinearVelocityInC(), r.v, 0, "sensor linear velocity");
  c.near(e.getSensorAngularVelocityInC(), r.w, 0, "sensor angular velocity");
  c.near(e.getControlOriginVelocityInW(), r.vC, 0, "control velocity");
  c.state(mc::hashM(1, x));
}

// any history of setting changes, state changes, single and batched steps
MC_SUITE(histories, 3)
{
  Ref r = fresh(1);
  TiltEstimator e(r.a, r.b, r.g);
  long k = c.flag() ? 0 : 7;
  e.setState(r.x(), k);
  compare(c, e, r);
  int depth = c.t(5, 6);
  for(int i = 0; i < depth; ++i)
  {
    int s = 3 * i + 2;
    switch(c.choose(12))
    {
      case 0:
      case 1:
      {
        c.step([&] { return "one step"; });
        Vector3 ya = v3(s, 9), yg = v3(s + 1, 0.8);
        e.setMeasurement(ya, yg, ++k);
        r.step(ya, yg);
        c.near(e.getEstimatedState(k), r.x(), 1e-10, "returned state");
        c.require(std::fabs(e.getCurrentEstimatedState().tail(3).norm() - 1) < 1e-12, "tilt of unit norm");
        break;
      }
      case 2:
      {
        c.step([&] { return "three measurements, then the estimate"; });
        for(int q = 0; q < 3; ++q)
        {
          Vector3 ya = v3(s + q, 9), yg = v3(s + q + 1, 0.8);
          e.setMeasurement(ya, yg, k + 1 + q);
          r.step(ya, yg);
        }
        k += 3;
        c.near(e.getEstimatedState(k), r.x(), 1e-10, "returned state");
        break;
      }
      case 3:
        c.step([&] { return "state imposed"; });
        r.x1 = v3(s);
        r.x2p = v3(s + 1).normalized();
        r.x2 = v3(s + 2).normalized();
        e.setState(r.x(), k);
        break;
      case 4:
        c.step([&] { return "gains"; });
        r.a = 1 + 0.3 * s;
        e.setAlpha(r.a);
        break;
      case 5:
        c.step([&] { return "gains"; });
        r.b = 0.4 + 0.3 * s;
        r.g = 2 + 0.2 * s;
        e.setBeta(r.b);
        e.setGamma(r.g);
        break;
      case 6:
        c.step([&] { return "period"; });
        r.dt = 0.02 + 0.001 * s;
        e.setSamplingTime(r.dt);
        break;
      case 7:
        c.step([&] { return "sensor position"; });
        r.p = v3(s, 0.7);
        e.setSensorPositionInC(r.p);
        break;
      case 8:
        c.step([&] { return "sensor orientation"; });
        r.R = R3(s);
        e.setSensorOrientationInC(r.R);
        break;
      case 9:
        c.step([&] { return "sensor linear velocity"; });
        r.v = v3(s, 0.5);
        e.setSensorLinearVelocityInC(r.v);
        break;
      case 10:
        c.step([&] { return "sensor angular velocity"; });
        r.w = v3(s, 0.6);
        e.setSensorAngularVelocityInC(r.w);
        break;
      default:
        c.step([&] { return "control origin velocity"; });
        r.vC = v3(s, 0.9);
        e.setControlOriginVelocityInW(r.vC);
        break;
    }
    compare(c, e, r);
  }
  Vector3 ya = v3(50, 9), yg = v3(51, 0.8);
  e.setMeasurement(ya, yg, ++k);
  r.step(ya, yg);
  e.getEstimatedState(k);
  compare(c, e, r);
  c.outcome(mc::hashM(1, r.x()));
}

// all the settings at once, over value classes, several steps
MC_SUITE(settings, 3)
{
  Ref r = fresh(c.choose(2));
  r.a = c.pick(std::vector<double>{0, 5, 50});
  r.b = c.pick(std::vector<double>{0, 1.5});
  r.g = c.pick(std::vector<double>{0, 3});
  r.dt = c.pick(std::vector<double>{0.001, 0.05});
  r.R = R3(c.choose(3));
  r.p = c.flag() ? v3(4) : Vector3(0, 0, 0);
  r.w = c.flag() ? v3(5) : Vector3(0, 0, 0);
  r.v = c.flag() ? v3(6) : Vector3(0, 0, 0);
  r.vC = c.flag() ? v3(7) : Vector3(0, 0, 0);
  TiltEstimator e(1, 1, 1);
  push(e, r);
  e.setState(r.x(), 0);
  for(int k = 0; k < 3; ++k)
  {
    Vector3 ya = v3(k + 8, 9.5), yg = k == 1 ? Vector3(0, 0, 0) : v3(k + 11, 2);
    e.setMeasurement(ya, yg, k + 1);
    r.step(ya, yg);
    c.step([&] { return "step"; });
    e.getEstimatedState(k + 1);
    compare(c, e, r);
  }
}

// re-expressing everything in a rotated sensor frame rotates the estimate
MC_SUITE(rotated_sensor, 2)
{
  Ref r = fresh(c.choose(3));
  r.R = R3(c.choose(3));
  r.p = v3(4, 0.4);
  r.v = v3(5, 0.3);
  r.w = v3(6, 0.5);
  r.vC = v3(7, 0.7);
  Matrix3 T = R3(1 + c.choose(4)); // new sensor frame in the old one
  TiltEstimator a(1, 1, 1), b(1, 1, 1);
  push(a, r);
  a.setState(r.x(), 0);
  Ref q = r;
  q.R = r.R * T;
  q.x1 = T.transpose() * r.x1;
  q.x2p = T.transpose() * r.x2p;
  q.x2 = T.transpose() * r.x2;
  push(b, q);
  b.setState(q.x(), 0);
  for(int k = 0; k < 5; ++k)
  {
    Vector3 ya = v3(k + 8, 9.5), yg = v3(k + 11, 2);
    c.step([&] { return "step"; });
    a.setMeasurement(ya, yg, k + 1);
    b.setMeasurement(Vector3(T.transpose() * ya), Vector3(T.transpose() * yg), k + 1);
    Vector xa = a.getEstimatedState(k + 1), xb = b.getEstimatedState(k + 1), want(9);
    for(int j = 0; j < 3; ++j) want.segment<3>(3 * j) = T.transpose() * xa.segment<3>(3 * j);
    c.near(xb, want, 1e-10, "rotated estimate");
    c.state(mc::hashM(1, xa));
  }
}

// at rest, with consistent data, the true state is a fixed point whatever the gains; and it attracts wrong tilts
MC_SUITE(rest, 2)
{
  Ref r = fresh(0);
  r.R = R3(c.choose(3));
  r.p = c.flag() ? v3(4) : Vector3(0, 0, 0);
  r.a = c.pick(std::vector<double>{1, 20});
  r.b = c.pick(std::vector<double>{0.5, 4});
  r.g = c.pick(std::vector<double>{1, 10});
  Vector3 tilt = c.pick(std::vector<Vector3>{Vector3(0, 0, 1), Vector3(0.6, 0, 0.8), Vector3(0, -1, 0), Vector3(0.36, 0.48, -0.8)});
  r.x1.setZero();
  r.x2 = r.x2p = tilt;
  TiltEstimator e(1, 1, 1);
  push(e, r);
  e.setState(r.x(), 0);
  for(int k = 0; k < 50; ++k)
  {
    c.step([&] { return "step at rest"; });
    e.setMeasurement(Vector3(cst::gravityConstant * tilt), Vector3(0, 0, 0), k + 1);
    c.near(e.getEstimatedState(k + 1), r.x(), 1e-9, "true tilt is kept at rest");
  }
  // from a wrong tilt
  Vector x = r.x();
  Vector3 wrong = (tilt + Vector3(0.2, 0.1, -0.15)).normalized();
  x << Vector3::Zero(), wrong, wrong;
  e.setAlpha(20);
  e.setBeta(4);
  e.setGamma(10);
  e.setState(x, 50);
  for(int k = 50; k < 3050; ++k)
  {
    e.setMeasurement(Vector3(cst::gravityConstant * tilt), Vector3(0, 0, 0), k + 1);
    e.getEstimatedState(k + 1);
  }
  c.near(Vector3(e.getCurrentEstimatedState().tail(3)), tilt, 1e-3, "wrong tilt corrected at rest");
  c.state(mc::hashM(1, tilt));
}
// a long life under motion, with batches of several sizes and one change anywhere
MC_SUITE(long_life, 3)
{
  static const std::vector<long> starts = {0, -20, 1000000, 2147483640L};
  const long k0 = c.pick(starts);
  const int batch = c.pick(std::vector<int>{1, 2, 30}), what = c.choose(6), N = c.t(150, 400);
  const int at = what ? c.pick(std::vector<int>{3, 60, 140}) : N;
  Ref r = fresh(1);
  r.R = R3(1);
  r.p = v3(4, 0.4);
  r.v = v3(5, 0.1);
  TiltEstimator e(1, 1, 1);
  push(e, r);
  e.setState(r.x(), k0);
  bool done = false;
  for(int k = 0; k < N;)
  {
    int n = std::min(batch, N - k);
    for(int i = 0; i < n; ++i)
    {
      Vector3 ya = v3(k + i, 9), yg = (k + i) % 11 ? v3(k + i + 1, 0.8) : Vector3(0, 0, 0);
      e.setMeasurement(ya, yg, k0 + k + i + 1);
      r.step(ya, yg);
    }
    k += n;
    c.step([&] { return "estimate " + mc::str(k0 + k); });
    c.near(e.getEstimatedState(k0 + k), r.x(), 1e-9, "state in a long history");
    c.require(e.getCurrentTime() == k0 + k, "time in a long history");
    c.require(std::fabs(e.getCurrentEstimatedState().tail(3).norm() - 1) < 1e-12, "tilt of unit norm in a long history");
    c.state(mc::hashM(1, r.x()));
    if(k >= at && !done)
    {
      done = true;
      if(what == 1) e.setAlpha(r.a = 12);
      if(what == 2) e.setSensorOrientationInC(r.R = R3(2));
      if(what == 3) e.setSensorAngularVelocityInC(r.w = v3(6, 0.5));
      if(what == 4) e.setSamplingTime(r.dt = 0.002);
      if(what == 5)
      {
        r.x2 = v3(9).normalized();
        e.setState(r.x(), k0 + k);
      }
    }
  }
}
} // namespace
MC_MAIN()
