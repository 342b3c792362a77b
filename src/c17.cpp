// C17: the elastic flexibility model obeys mechanics and is free of call history.
#include "kinref.hpp"
#include "mc.hpp"
#include <memory>
#include <unordered_map>
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
using namespace stateObservation;
using mc::C;
using kref::expm;
using kref::logm;
typedef flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem Sys;
typedef Sys::contactModel Model;

namespace
{
const Vector3 G(0, 0, 9.8);
struct AddHalf : NoiseBase
{
  Vector getNoisy(const Vector & v) override
  {
    return Vector(v + Vector::Constant(v.size(), 0.5));
  }
};

// ---- reference ----------------------------------------------------------------------------------------------------
struct Cfg
{
  unsigned model = Model::none, n = 0;
  bool force = false, bias = false, abs = false, unm = false;
  Matrix3 Kfe = 40000 * Matrix3::Identity(), Kte = 600 * Matrix3::Identity(), Kfv = 600 * Matrix3::Identity(),
          Ktv = 60 * Matrix3::Identity();
  Matrix3 KfeR = Kfe, KteR = Kte, KfvR = Kfv, KtvR = Ktv;
  double mass = hrp2::m, dt = 0.005;
  Vector3 pe = Vector3::Zero();
  long measure() const
  {
    return 6 + (force ? 6 * n : 0) + (abs ? 6 : 0);
  }
};
struct X // a state
{
  Vector3 p, o, v, w, f[2], t[2], fm, tm, drift;
  Vector2 bias;
  X() {}
  explicit X(const Vector & x)
  {
    p = x.segment(0, 3);
    o = x.segment(3, 3);
    v = x.segment(6, 3);
    w = x.segment(9, 3);
    for(int i = 0; i < 2; ++i)
    {
      f[i] = x.segment(12 + 6 * i, 3);
      t[i] = x.segment(15 + 6 * i, 3);
    }
    fm = x.segment(24, 3);
    tm = x.segment(27, 3);
    bias = x.segment(30, 2);
    drift = x.segment(32, 3);
  }
  Vector vec() const
  {
    Vector x(35);
    x << p, o, v, w, f[0], t[0], f[1], t[1], fm, tm, bias, drift;
    return x;
  }
};
struct U // an input
{
  Vector3 com, vcom, acom, L, dL, pi, oi, vi, wi, ai, fa, ta;
  Vector6 I, dI;
  Vector3 cp[2], co[2], cv[2], cw[2];
  Vector vec(unsigned n) const
  {
    Vector u(48 + 12 * n);
    u.head(48) << com, vcom, acom, I, L, dI, dL, pi, oi, vi, wi, ai, fa, ta;
    for(unsigned i = 0; i < n; ++i) u.segment(48 + 12 * i, 12) << cp[i], co[i], cv[i], cw[i];
    return u;
  }
};
Matrix3 tensor(const Vector6 & i)
{
  Matrix3 m;
  m << i(0), i(3), i(4), i(3), i(1), i(5), i(4), i(5), i(2);
  return m;
}
Matrix3 skew(const Vector3 & v)
{
  Matrix3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
/// resultant of everything but gravity, moment about the origin of the world
void wrench(const Cfg & c, const X & x, const U & u, Vector3 & f, Vector3 & t)
{
  Matrix3 R = expm(x.o);
  f = R * u.fa + x.fm;
  t = R * u.ta + x.p.cross(R * u.fa) + x.tm;
  if(c.model == Model::elasticContact)
    for(unsigned i = 0; i < c.n; ++i)
    {
      Matrix3 Rc = R * expm(u.co[i]);
      f += Rc * x.f[i];
      t += Rc * x.t[i] + (x.p + R * u.cp[i]).cross(Rc * x.f[i]);
    }
  else
  {
    f += x.f[0];
    t += x.t[0];
  }
}
Vector3 comOf(const Cfg & c, const X & x, const U & u)
{
  Vector3 com = u.com;
  if(c.bias) com.head<2>() -= x.bias;
  return com;
}
/// rate of the linear and angular (about the world origin) momenta for given accelerations of the flexibility
void momentaRate(const Cfg & c, const X & x, const U & u, const Vector3 & a, const Vector3 & l, Vector3 & dp, Vector3 & dh)
{
  Matrix3 R = expm(x.o), I = R * tensor(u.I) * R.transpose(), dI = R * tensor(u.dI) * R.transpose();
  Vector3 r = R * comOf(c, x, u);
  Vector3 acom = a + l.cross(r) + x.w.cross(x.w.cross(r)) + 2 * x.w.cross(R * u.vcom) + R * u.acom;
  dp = c.mass * acom;
  dh = I * l + x.w.cross(I * x.w) + dI * x.w + R * u.dL + x.w.cross(R * u.L) + x.p.cross(dp) + c.mass * r.cross(a);
}
/// accelerations from the balance of momenta: six linear equations solved as such
void accelerations(const Cfg & c, const X & x, const U & u, Vector3 & a, Vector3 & l)
{
  Vector3 f, t, dp, dh;
  wrench(c, x, u, f, t);
  Vector3 com = x.p + expm(x.o) * comOf(c, x, u);
  f -= c.mass * G;
  t -= com.cross(c.mass * G);
  Vector3 z = Vector3::Zero();
  momentaRate(c, x, u, z, z, dp, dh);
  Eigen::Matrix<double, 6, 6> M;
  for(int i = 0; i < 6; ++i)
  {
    Vector3 ea = z, el = z, p1, h1;
    if(i < 3)
      ea(i) = 1;
    else
      el(i - 3) = 1;
    momentaRate(c, x, u, ea, el, p1, h1);
    M.col(i) << p1 - dp, h1 - dh;
  }
  Vector6 b;
  b << f - dp, t - dh;
  Vector6 s = M.fullPivLu().solve(b);
  a = s.head(3);
  l = s.tail(3);
}
/// elastic contact wrenches for a pose and a velocity
void contactForces(const Cfg & c, const X & x, const U & u, Vector3 * f, Vector3 * t)
{
  for(int i = 0; i < 2; ++i) f[i].setZero(), t[i].setZero();
  Matrix3 R = expm(x.o);
  if(c.model == Model::elasticContact)
    for(unsigned i = 0; i < c.n; ++i)
    {
      Matrix3 Rc = R * expm(u.co[i]);
      Vector3 rp = R * u.cp[i];
      f[i] = -c.Kfe * Rc.transpose() * (x.p + rp - u.cp[i])
             - c.Kfv * Rc.transpose() * (x.w.cross(rp) + x.v + R * u.cv[i]);
      t[i] = -c.Kte * Rc.transpose() * x.o - c.Ktv * Rc.transpose() * x.w;
    }
  else
  {
    for(unsigned i = 0; i < c.n; ++i)
    {
      Vector3 d = x.p + R * u.cp[i] - c.pe;
      f[0] -= (d.norm() - (u.cp[i] - c.pe).norm()) * (c.KfeR * d.normalized());
    }
    f[0] -= c.KfvR * x.v;
    t[0] = Vector3(0, 0, -c.KteR(2, 2) * x.o(2)) - c.KtvR * x.w;
  }
}
X next(const Cfg & c, const X & x, const U & u)
{
  X n = x;
  Vector3 a, l;
  accelerations(c, x, u, a, l);
  n.p = x.p + c.dt * x.v + c.dt * c.dt / 2 * a;
  n.v = x.v + c.dt * a;
  n.o = logm(expm(c.dt * x.w + c.dt * c.dt / 2 * l) * expm(x.o));
  n.w = x.w + c.dt * l;
  contactForces(c, n, u, n.f, n.t);
  if(c.unm)
  {
    n.fm *= 0.9999;
    n.tm *= 0.9999;
  }
  else
  {
    n.fm.setZero();
    n.tm.setZero();
  }
  return n;
}
Vector measurement(const Cfg & c, const X & x, const U & u)
{
  Vector y(c.measure());
  Vector3 a, l;
  accelerations(c, x, u, a, l);
  Matrix3 R = expm(x.o), Ri = R * expm(u.oi);
  Vector3 rp = R * u.pi;
  Vector3 acc = a + l.cross(rp) + x.w.cross(x.w.cross(rp)) + 2 * x.w.cross(R * u.vi) + R * u.ai;
  y.head(3) = Ri.transpose() * (acc + G);
  y.segment(3, 3) = Ri.transpose() * (x.w + R * u.wi);
  long k = 6;
  if(c.force)
    for(unsigned i = 0; i < c.n; ++i, k += 6) y.segment(k, 6) << x.f[i], x.t[i];
  if(c.abs)
  {
    Matrix3 D = expm(Vector3(0, 0, x.drift(2)));
    y.segment(k, 6) << D * x.p + Vector3(x.drift(0), x.drift(1), 0), logm(D * R);
  }
  return y;
}

// ---- grids --------------------------------------------------------------------------------------------------------
const int nStates = 7, nInputs = 4;
X stateOf(int i)
{
  X x;
  x.p = Vector3(0.01, -0.004 * i, 0.006);
  x.o = Vector3(0.02, -0.05, 0.03);
  x.v = Vector3(0.1, -0.05 * i, 0.07);
  x.w = Vector3(0.4 - i, 0.3, -1.1);
  for(int k = 0; k < 2; ++k)
  {
    x.f[k] = Vector3(20 * k - 5, 7 * i, 290 - 30 * k);
    x.t[k] = Vector3(3, -6 * k, 2 * i - 4);
  }
  x.fm = Vector3(4, -7, 9 * i);
  x.tm = Vector3(-1, 2 * i, 5);
  x.bias = Vector2(0.03, -0.02 * i);
  x.drift = Vector3(0.7, -0.4, 0.2 * i);
  switch(i)
  {
    case 0:
      x = X(Vector::Zero(35));
      break;
    case 1: break;
    case 2: x.o = Vector3(1e-9, 0, -2e-9); break;
    case 3: x.o = Vector3(0.9, -1.6, 1.2); break; // a large flexion
    case 4: // the attitude of 1 with another motion, no unmodelled wrench
      x.fm.setZero();
      x.tm.setZero();
      break;
    case 5: // the attitude of the control of input 1, no force at all
      x.o = Vector3(0.4, -0.8, 0.3);
      for(int k = 0; k < 2; ++k) x.f[k].setZero(), x.t[k].setZero();
      x.w.setZero();
      break;
    default: x.o = Vector3(0.02, -0.05, 0.03 + 1e-7); break; // close to 1
  }
  return x;
}
U inputOf(int i)
{
  U u;
  u.com = Vector3(0.05 - 0.02 * i, -0.01, 0.8);
  u.vcom = Vector3(0.2, -0.3 * i, 0.1);
  u.acom = Vector3(-1, 0.5, 0.6 * i);
  u.I << 100, 110, 70 + i, 2, -3, 1;
  u.dI << 1, -2, 3 * i, 0.5, -0.7, 0.2;
  u.L = Vector3(2, -3, 1.5 * i);
  u.dL = Vector3(-4, 6, 2 - i);
  u.pi = Vector3(-0.1, 0.02 * i, 1.1);
  u.oi = Vector3(0.2, 0.1 * i, -0.5);
  u.vi = Vector3(0.3, -0.6, 0.2 * i);
  u.wi = Vector3(-0.5, 0.4 * i, 0.8);
  u.ai = Vector3(1.2, -0.4, 0.7 * i);
  u.fa = Vector3(8, -3 * i, 11);
  u.ta = Vector3(1, 2, -4 * i);
  for(int k = 0; k < 2; ++k)
  {
    u.cp[k] = Vector3(0.02 * i, k ? -0.09 : 0.09, 0.01 + 0.02 * k);
    u.co[k] = Vector3(0.1 * k, -0.2, 0.3 * i - 0.3 * k);
    u.cv[k] = Vector3(0.05 * i, 0.02, -0.04 * k);
    u.cw[k] = Vector3(0.3, -0.1 * k, 0.2 * i);
  }
  if(i == 0) // at rest
  {
    u.vcom.setZero(), u.acom.setZero(), u.dI.setZero(), u.L.setZero(), u.dL.setZero(), u.oi.setZero(), u.vi.setZero();
    u.wi.setZero(), u.ai.setZero(), u.fa.setZero(), u.ta.setZero();
    for(int k = 0; k < 2; ++k) u.co[k].setZero(), u.cv[k].setZero(), u.cw[k].setZero();
  }
  if(i == 1)
  {
    u.oi = Vector3(0.4, -0.8, 0.3); // the attitude of state 5
    u.co[0] = u.co[1]; // both contacts with one orientation
  }
  if(i == 2) u.co[0] = Vector3(0.02, -0.05, 0.03); // the attitude of states 1 and 4
  return u;
}
const Matrix3 & gain(int which, int i)
{
  static std::vector<Matrix3> g;
  if(g.empty())
    for(int w = 0; w < 8; ++w)
      for(int k = 0; k < 2; ++k)
      {
        double s = w % 4 == 0 ? 3000 : w % 4 == 1 ? 60 : 200;
        Matrix3 m;
        if(k == 0)
          m = (s + w) * Matrix3::Identity();
        else
          m << s, 0.1 * s, 0.05 * s, -0.02 * s, 1.3 * s, 0.07 * s, 0.01 * s, 0.2 * s, 0.7 * s + w;
        g.push_back(m);
      }
  return g[size_t(which * 2 + i)];
}
void setGain(Sys & s, Cfg & c, int which, int i)
{
  const Matrix3 & m = gain(which, i);
  switch(which)
  {
    case 0: s.setKfe(m), c.Kfe = m; break;
    case 1: s.setKte(m), c.Kte = m; break;
    case 2: s.setKfv(m), c.Kfv = m; break;
    case 3: s.setKtv(m), c.Ktv = m; break;
    case 4: s.setKfeRopes(m), c.KfeR = m; break;
    case 5: s.setKteRopes(m), c.KteR = m; break;
    case 6: s.setKfvRopes(m), c.KfvR = m; break;
    default: s.setKtvRopes(m), c.KtvR = m; break;
  }
}
Vector fdStep()
{
  Vector d(35);
  for(int i = 0; i < 35; ++i) d(i) = 1e-6 * (1 + i % 3);
  return d;
}

// ---- comparisons --------------------------------------------------------------------------------------------------
struct Pair // the real model and its configuration
{
  Sys s;
  Cfg c;
  AddHalf pn, mn;
  bool noisy = false, mnoisy = false;
  Pair(double dt = 0.005) : s(dt)
  {
    c.dt = dt;
  }
  void sizes(C & k)
  {
    k.require(s.getStateSize() == 35, "state size");
    k.require(s.getInputSize() == long(48 + 12 * c.n), "input size follows the number of contacts");
    k.require(s.getMeasurementSize() == c.measure(), "measurement size follows the configuration");
    k.require(s.getContactsNumber() == c.n, "number of contacts");
    k.require(s.getWithForceMeasurements() == c.force && s.getWithComBias() == c.bias
                  && s.getWithAbsolutePosition() == c.abs,
              "options");
    k.require(s.getRobotMass() == c.mass, "mass");
    k.require(s.getKfe() == c.Kfe && s.getKfv() == c.Kfv && s.getKte() == c.Kte && s.getKtv() == c.Ktv, "gains");
    k.require(s.getProcessNoise() == (noisy ? &pn : nullptr), "process noise");
    k.require(s.getMeasurementNoise() == (mnoisy ? &mn : nullptr), "measurement noise");
  }
  bool unsetModel() const
  {
    return c.model != Model::elasticContact && c.model != Model::pendulum;
  }
  void compareState(C & k, const Vector & got, const X & w, const char * key)
  {
    k.require(got.size() == 35, "size of the next state");
    X g(got);
    k.near(g.p, w.p, 1e-9, key);
    k.near(expm(g.o), expm(w.o), 1e-9, key);
    k.near(g.v, w.v, 1e-9, key);
    k.near(g.w, w.w, 1e-9, key);
    for(int i = 0; i < 2; ++i)
    {
      k.near(g.f[i], w.f[i], 1e-8, key);
      k.near(g.t[i], w.t[i], 1e-8, key);
    }
    k.near(g.fm, w.fm, 1e-12, key);
    k.near(g.tm, w.tm, 1e-12, key);
    k.near(g.bias, w.bias, 1e-12, key);
    k.near(g.drift, w.drift, 1e-12, key);
    k.state(mc::hashM(7, got));
  }
  void stateDyn(C & k, const X & x, const U & u, TimeIndex t)
  {
    if(unsetModel())
    {
      bool threw = false;
      try
      {
        s.stateDynamics(x.vec(), u.vec(c.n), t);
      }
      catch(const std::invalid_argument &)
      {
        threw = true;
      }
      k.require(threw, "a transition without contact model is refused");
      return;
    }
    Vector r = s.stateDynamics(x.vec(), u.vec(c.n), t);
    if(noisy)
    {
      k.require(r.size() == 35, "size of the next state");
      r -= Vector::Constant(35, 0.5);
    }
    compareState(k, r, next(c, x, u), "next state");
  }
  void compareMeasure(C & k, const Vector & got, const Vector & want)
  {
    k.require(got.size() == want.size(), "size of the measurement");
    long n = c.abs ? got.size() - 3 : got.size();
    k.near(got.head(n), want.head(n), 1e-9, "measurement");
    if(c.abs)
      k.near(expm(Vector3(got.tail(3))), expm(Vector3(want.tail(3))), 1e-9, "absolute orientation");
    k.state(mc::hashM(8, got));
  }
  void measure(C & k, const X & x, const U & u, TimeIndex t)
  {
    Vector r = s.measureDynamics(x.vec(), u.vec(c.n), t);
    Vector w = measurement(c, x, u);
    if(mnoisy)
    {
      k.require(r.size() == w.size(), "size of the measurement");
      r -= Vector::Constant(r.size(), 0.5);
    }
    compareMeasure(k, r, w);
  }
  void forces(C & k, const X & x, const U & u)
  {
    if(unsetModel()) return;
    Vector r = s.getForcesAndMoments(x.vec(), u.vec(c.n));
    Vector3 f[2], t[2];
    contactForces(c, x, u, f, t);
    Vector w(6 * c.n);
    for(unsigned i = 0; i < c.n; ++i) w.segment(6 * i, 6) << f[i], t[i];
    k.near(r, w, 1e-9, "contact wrenches");
    k.near(s.getForcesAndMoments(), w, 1e-9, "last computed contact wrenches");
  }
  void accel(C & k, const X & x, const U & u)
  {
    Vector r = s.computeAccelerations(x.vec(), u.vec(c.n));
    Vector3 a, l;
    accelerations(c, x, u, a, l);
    Vector6 w;
    w << a, l;
    k.near(r, w, 1e-9, "accelerations");
  }
  void momenta(C & k, const X & x, const U & u, bool fromForces)
  {
    Vector r = fromForces ? s.getMomentaDotFromForces(x.vec(), u.vec(c.n)) : s.getMomentaDotFromKinematics(x.vec(), u.vec(c.n));
    Vector3 f, t;
    wrench(c, x, u, f, t);
    Vector3 com = x.p + expm(x.o) * comOf(c, x, u);
    Vector6 w;
    w << f - c.mass * G, t - com.cross(c.mass * G);
    k.near(r, w, 1e-9, fromForces ? "momenta derivative from forces" : "momenta derivative from kinematics");
  }
  uint64_t key(uint64_t h, const X & x, const U & u) const
  {
    h = mc::hashM(mc::hashM(h, x.vec() * 1e4), u.vec(c.n) * 1e4);
    h = mc::mix(h, c.model * 64 + c.n * 16 + c.force + 2 * c.bias + 4 * c.abs + 8 * c.unm);
    for(const Matrix3 * m : {&c.Kfe, &c.Kte, &c.Kfv, &c.Ktv, &c.KfeR, &c.KteR, &c.KfvR, &c.KtvR}) h = mc::hashM(h, *m);
    return mc::hashM(mc::hashD(mc::hashD(h, c.mass), c.dt * 1e4), c.pe);
  }
  /// derivative of the reference model by central differences, remembered per configuration and point
  template<typename F>
  const Matrix & derivative(F f, uint64_t id, const X & x, const U & u)
  {
    static std::unordered_map<uint64_t, Matrix> known;
    Matrix & D = known[key(id, x, u)];
    if(D.size() == 0)
    {
      const double h = 1e-5;
      Vector v = x.vec();
      for(int i = 0; i < 35; ++i)
      {
        Vector a = v, b = v;
        a(i) += h;
        b(i) -= h;
        Vector d = (f(a) - f(b)) / (2 * h);
        if(i == 0) D.resize(d.size(), 35);
        D.col(i) = d;
      }
    }
    return D;
  }
  void jacState(C & k, const X & x, const U & u, bool direct = false)
  {
    Matrix J = direct ? s.stateDynamicsJacobian(x.vec(), u.vec(c.n), 3) : s.stateDynamicsJacobian();
    k.require(J.rows() == 35 && J.cols() == 35, "size of the state Jacobian");
    auto f = [&](const Vector & v) { return next(c, X(v), u).vec(); };
    const Matrix & D = derivative(f, 1, x, u);
    for(int i = 0; i < 35; ++i)
    {
      bool off = (i >= 24 && i < 30 && !c.unm);
      if(off) // disabled: may only act on itself
      {
        Vector col = J.col(i);
        k.require(col(i) == 0 || col(i) == 1, "a disabled component is held or dropped");
        col(i) = 0;
        k.require(col.isZero(0), "a disabled component has no effect in the state Jacobian");
        continue;
      }
      k.near(J.col(i), D.col(i), 2e-4, "state Jacobian");
    }
    k.state(mc::hashM(9, J));
  }
  void jacMeasure(C & k, const X & x, const U & u, bool direct = false)
  {
    Matrix J = direct ? s.measureDynamicsJacobian(x.vec(), u.vec(c.n), 3) : s.measureDynamicsJacobian();
    k.require(J.rows() == c.measure() && J.cols() == 35, "size of the measurement Jacobian");
    auto f = [&](const Vector & v) { return measurement(c, X(v), u); };
    const Matrix & D = derivative(f, 2, x, u);
    for(int i = 0; i < 35; ++i)
    {
      if((i >= 24 && i < 30 && !c.unm) || (i >= 30 && i < 32 && !c.bias) || (i >= 32 && !c.abs))
        k.require(J.col(i).isZero(0), "a disabled component has no effect in the measurement Jacobian");
      else
        k.near(J.col(i), D.col(i), 2e-4, "measurement Jacobian");
    }
    k.state(mc::hashM(10, J));
  }
};

void configure(Pair & p, C & k, bool allGains)
{
  p.c.model = std::vector<unsigned>{Model::elasticContact, Model::pendulum, Model::none}[size_t(k.choose(3))];
  if(p.c.model != Model::none || k.flag()) p.s.setContactModel(p.c.model);
  p.c.n = unsigned(k.choose(3));
  p.s.setContactsNumber(p.c.n);
  int o = k.choose(16);
  p.c.force = o & 1, p.c.bias = o & 2, p.c.abs = o & 4, p.c.unm = o & 8;
  p.s.setWithForceMeasurements(p.c.force);
  p.s.setWithComBias(p.c.bias);
  p.s.setWithAbsolutePosition(p.c.abs);
  p.s.setWithUnmodeledForces(p.c.unm);
  if(allGains)
  {
    int g = k.choose(3);
    if(g)
      for(int i = 0; i < 8; ++i) setGain(p.s, p.c, i, g - 1);
    if(k.flag())
    {
      p.s.setPe(p.c.pe = Vector3(0.1, -0.2, 2.5));
      p.s.setRobotMass(p.c.mass = 41);
    }
  }
  p.s.setFDstep(fdStep());
}
} // namespace

// one call on a fresh model, for every configuration and every pair of state and input
MC_SUITE(single, 2)
{
  Pair p(c.flag() ? 0.005 : 0.02);
  configure(p, c, true);
  p.sizes(c);
  X x = stateOf(c.choose(nStates));
  U u = inputOf(c.choose(nInputs));
  int what = c.choose(6);
  c.step([&] { return "call " + std::to_string(what) + " x=" + mc::str(x.vec()) + " u=" + mc::str(u.vec(p.c.n)); });
  switch(what)
  {
    case 0: p.stateDyn(c, x, u, 0); break;
    case 1: p.measure(c, x, u, 0); break;
    case 2: p.forces(c, x, u); break;
    case 3: p.accel(c, x, u); break;
    case 4: p.momenta(c, x, u, true); break;
    default: p.momenta(c, x, u, false); break;
  }
  p.sizes(c);
}

// Jacobians for every configuration
MC_SUITE(jacobian, 2)
{
  Pair p;
  configure(p, c, false);
  p.s.setPe(p.c.pe = Vector3(0.1, -0.2, 2.5));
  for(int i = 0; i < 8; ++i) setGain(p.s, p.c, i, 1);
  static const std::vector<int> xs = {1, 3, 6};
  X x = stateOf(xs[size_t(c.choose(c.t(2, 3)))]);
  U u = inputOf(1 + c.choose(c.t(1, 3)));
  if(c.flag())
  {
    if(p.unsetModel()) throw mc::Prune();
    bool direct = c.flag();
    if(!direct) p.stateDyn(c, x, u, 0);
    c.step([] { return "state Jacobian"; });
    p.jacState(c, x, u, direct);
    p.jacState(c, x, u); // asking again changes nothing
  }
  else
  {
    bool direct = c.flag();
    if(!direct) p.measure(c, x, u, 0);
    c.step([] { return "measurement Jacobian"; });
    p.jacMeasure(c, x, u, direct);
    p.jacMeasure(c, x, u);
  }
  p.sizes(c);
}

namespace
{
/// one step of a history: configuration or call
void oneOp(C & c, Pair & p, int op, int i, X & xs, U & us, bool & haveS, X & xm, U & um, bool & haveM, int nx, int nu)
{
  auto args = [&](X & x, U & u) {
    x = stateOf(1 + c.choose(nx));
    u = inputOf(1 + c.choose(nu));
    c.note([&] { return "x=" + mc::str(x.vec()) + " u=" + mc::str(u.vec(p.c.n)); });
  };
  X x;
  U u;
  switch(op)
  {
    case 0:
      c.step([] { return "stateDynamics"; });
      args(x, u);
      p.stateDyn(c, x, u, i);
      haveS = !p.unsetModel();
      xs = x, us = u;
      break;
    case 1:
      c.step([] { return "measureDynamics"; });
      args(x, u);
      p.measure(c, x, u, i);
      haveM = true;
      xm = x, um = u;
      break;
    case 2:
      if(!haveS || p.noisy) throw mc::Prune();
      c.step([] { return "stateDynamicsJacobian"; });
      p.jacState(c, xs, us);
      break;
    case 3:
      if(!haveM || p.mnoisy) throw mc::Prune();
      c.step([] { return "measureDynamicsJacobian"; });
      p.jacMeasure(c, xm, um);
      break;
    case 4:
      c.step([] { return "getForcesAndMoments"; });
      args(x, u);
      p.forces(c, x, u);
      break;
    case 5:
      c.step([] { return "computeAccelerations"; });
      args(x, u);
      p.accel(c, x, u);
      break;
    case 6:
      c.step([] { return "getMomentaDotFromForces"; });
      args(x, u);
      p.momenta(c, x, u, true);
      break;
    case 7:
      c.step([] { return "getMomentaDotFromKinematics"; });
      args(x, u);
      p.momenta(c, x, u, false);
      break;
    // configuration; the Jacobians at the last computed value need a computation with the new configuration
    case 8:
      c.step([] { return "setContactsNumber"; });
      p.c.n = (p.c.n + 1 + unsigned(c.choose(2))) % 3;
      p.s.setContactsNumber(p.c.n);
      break;
    case 9:
      c.step([] { return "setContactModel"; });
      p.c.model = p.c.model == Model::elasticContact ? Model::pendulum : Model::elasticContact;
      p.s.setContactModel(p.c.model);
      break;
    case 10:
      c.step([] { return "toggle force measurements"; });
      p.s.setWithForceMeasurements(p.c.force = !p.c.force);
      break;
    case 11:
      c.step([] { return "toggle com bias"; });
      p.s.setWithComBias(p.c.bias = !p.c.bias);
      break;
    case 12:
      c.step([] { return "toggle absolute position"; });
      p.s.setWithAbsolutePosition(p.c.abs = !p.c.abs);
      break;
    case 13:
      c.step([] { return "toggle unmodelled forces"; });
      p.s.setWithUnmodeledForces(p.c.unm = !p.c.unm);
      break;
    case 14:
      c.step([] { return "set a gain"; });
      setGain(p.s, p.c, c.choose(8), i % 2);
      break;
    case 15:
      c.step([] { return "setRobotMass"; });
      p.s.setRobotMass(p.c.mass = 40 + i);
      break;
    case 16:
      c.step([] { return "setSamplingPeriod"; });
      p.s.setSamplingPeriod(p.c.dt = 0.003 + 0.001 * i);
      break;
    case 17:
      c.step([] { return "setPe"; });
      p.s.setPe(p.c.pe = Vector3(0.1 * i, -0.2, 2.5));
      break;
    case 18:
      c.step([] { return "toggle process noise"; });
      p.noisy = !p.noisy;
      if(p.noisy)
        p.s.setProcessNoise(&p.pn);
      else
        p.s.resetProcessNoise();
      break;
    default:
      c.step([] { return "toggle measurement noise"; });
      p.mnoisy = !p.mnoisy;
      if(p.mnoisy)
        p.s.setMeasurementNoise(&p.mn);
      else
        p.s.resetMeasurementNoise();
      break;
  }
  if(op >= 8) haveS = haveM = false;
  p.sizes(c);
}
} // namespace

// every sequence of calls and settings, each call compared with the reference for the arguments and configuration alone
MC_SUITE(history, 2)
{
  Pair p;
  p.s.setFDstep(fdStep());
  int start = c.choose(3);
  if(start)
  {
    p.s.setContactModel(p.c.model = start == 1 ? Model::elasticContact : Model::pendulum);
    p.s.setContactsNumber(p.c.n = 2);
    for(int i = 0; i < 8; ++i) setGain(p.s, p.c, i, 1);
  }
  X xs, xm;
  U us, um;
  bool haveS = false, haveM = false;
  const int depth = 4;
  for(int i = 0; i < depth; ++i)
  {
    bool last = i == depth - 1;
    // every state and input class at the last call, few within
    int op = last ? c.choose(8) : c.choose(20);
    oneOp(c, p, op, i, xs, us, haveS, xm, um, haveM, last ? c.t(3, 6) : c.t(1, 2), last ? c.t(2, 3) : 1);
  }
}

// calls only, deeper: the scratch variables and the rotation caches
MC_SUITE(calls, 2)
{
  Pair p;
  p.s.setFDstep(fdStep());
  p.s.setContactModel(p.c.model = c.flag() ? Model::elasticContact : Model::pendulum);
  p.s.setContactsNumber(p.c.n = 2);
  p.s.setWithForceMeasurements(p.c.force = true);
  p.s.setWithAbsolutePosition(p.c.abs = true);
  p.s.setWithComBias(p.c.bias = true);
  p.s.setWithUnmodeledForces(p.c.unm = true);
  for(int i = 0; i < 8; ++i) setGain(p.s, p.c, i, 1);
  static const std::vector<std::pair<int, int>> grid = {{1, 1}, {4, 2}, {5, 1}, {3, 3}, {1, 2}};
  X xs, xm;
  U us, um;
  bool haveS = false, haveM = false;
  const int depth = c.t(4, 5);
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(10);
    X x;
    U u;
    if(op != 2 && op != 3)
    {
      auto g = grid[size_t(c.choose(2 + (i > 1)))];
      x = stateOf(g.first);
      u = inputOf(g.second);
      c.step([&] { return "call " + std::to_string(op) + " state " + std::to_string(g.first) + " input " + std::to_string(g.second); });
    }
    switch(op)
    {
      case 0:
        p.stateDyn(c, x, u, i);
        xs = x, us = u, haveS = true;
        break;
      case 1:
        p.measure(c, x, u, i);
        xm = x, um = u, haveM = true;
        break;
      case 2:
        if(!haveS) throw mc::Prune();
        c.step([] { return "state Jacobian"; });
        p.jacState(c, xs, us);
        break;
      case 3:
        if(!haveM) throw mc::Prune();
        c.step([] { return "measurement Jacobian"; });
        p.jacMeasure(c, xm, um);
        break;
      case 4: p.forces(c, x, u); break;
      case 5: p.accel(c, x, u); break;
      case 6: p.momenta(c, x, u, true); break;
      case 7: p.momenta(c, x, u, false); break;
      case 8:
        p.jacState(c, x, u, true);
        xs = x, us = u, haveS = true;
        break;
      default:
        p.jacMeasure(c, x, u, true);
        xm = x, um = u, haveM = true;
        break;
    }
  }
}

// the fourth-order integrator follows the same motion as the model
MC_SUITE(integrator, 2)
{
  Pair p;
  p.s.setContactModel(p.c.model = c.flag() ? Model::elasticContact : Model::pendulum);
  p.s.setContactsNumber(p.c.n = unsigned(c.choose(3)));
  for(int i = 0; i < 8; ++i) setGain(p.s, p.c, i, 1);
  X x = stateOf(c.choose(nStates));
  U u = inputOf(c.choose(nInputs));
  // prepares the velocities of the contacts, which the integrators take from the last input
  p.stateDyn(c, x, u, 0);
  IndexedVectorArray cp, co;
  for(unsigned i = 0; i < p.c.n; ++i)
  {
    cp.setValue(u.cp[i], i);
    co.setValue(u.co[i], i);
  }
  Vector3 pos = x.p, v = x.v, o = x.o, w = x.w;
  Vector fc(6), tc(6);
  fc << x.f[0], x.f[1];
  tc << x.t[0], x.t[1];
  const double dt = 1e-3;
  bool rk = c.flag();
  c.step([&] { return rk ? "iterateDynamicsRK4" : "iterateDynamicsEuler"; });
  if(rk)
    p.s.iterateDynamicsRK4(u.com, u.vcom, u.acom, u.L, u.dL, tensor(u.I), tensor(u.dI), cp, co, pos, v, fc, o, w, tc, x.fm,
                           x.tm, u.fa, u.ta, dt);
  else
    p.s.iterateDynamicsEuler(u.com, u.vcom, u.acom, u.L, u.dL, tensor(u.I), tensor(u.dI), cp, co, pos, v, fc, o, w, tc,
                             x.fm, x.tm, u.fa, u.ta, dt);
  // reference: many small steps with the contact wrenches of the state held, extrapolated to infinitely many
  auto steps = [&](int sub) {
    X r = x;
    Cfg cc = p.c;
    cc.dt = dt / sub;
    for(int i = 0; i < sub; ++i)
    {
      X n = next(cc, r, u);
      r.p = n.p, r.o = n.o, r.v = n.v, r.w = n.w;
    }
    return r;
  };
  X r = steps(rk ? 64 : 1);
  if(rk)
  {
    X g = steps(128);
    Matrix3 R = expm(g.o);
    r.o = logm(expm(logm(R * expm(r.o).transpose())) * R);
    r.p = 2 * g.p - r.p;
    r.v = 2 * g.v - r.v;
    r.w = 2 * g.w - r.w;
  }
  double tol = rk ? 1e-8 : 1e-9;
  c.near(pos, r.p, tol, "position after integration");
  c.near(v, r.v, tol, "velocity after integration");
  c.near(expm(o), expm(r.o), tol, "orientation after integration");
  c.near(w, r.w, tol, "angular velocity after integration");
  X g = x;
  g.p = pos, g.v = v, g.o = o, g.w = w;
  Vector3 f[2], t[2];
  contactForces(p.c, g, u, f, t);
  Vector wf(6), wt(6);
  wf << f[0], f[1];
  wt << t[0], t[1];
  c.near(fc, wf, 1e-8, "contact forces after integration");
  c.near(tc, wt, 1e-8, "contact torques after integration");
}
MC_MAIN()
