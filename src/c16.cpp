// C16: IMU, fixed-contact and pendulum models depend only on their arguments and obey kinematics.
#include "kinref.hpp"
#include "mc.hpp"
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
using namespace stateObservation;
using mc::C;
using kref::expm;
using kref::logm;

namespace
{
struct Recorder : NoiseBase
{
  int calls = 0;
  Vector last;
  Vector getNoisy(const Vector & v) override
  {
    ++calls;
    last = v;
    return Vector(v + Vector::Constant(v.size(), 0.5));
  }
};

/// motion of a rigid body: a state of any of the models
struct S
{
  Vector3 p, o, v, w, a, l; // o: rotation vector
};
struct U
{
  Vector3 p, o, v, w, a;
};
S stateOf(int i)
{
  S s;
  s.p = Vector3(0.3 * i, -1, 0.2 + i);
  s.v = Vector3(1, -0.5 * i, 0.7);
  s.w = Vector3(0.4 - i, 0.3, -1.1);
  s.a = Vector3(-0.2, 2 - i, 0.6);
  s.l = Vector3(0.9, -0.1 * i, 1.3);
  switch(i)
  {
    case 0:
      s.o.setZero();
      s.w.setZero();
      s.l.setZero();
      s.a.setZero();
      s.v.setZero();
      break;
    case 1: s.o = Vector3(0.4, -0.8, 0.3); break;
    case 2: s.o = Vector3(1e-9, 0, -2e-9); break;
    case 3: s.o = Vector3(0, M_PI, 0); break;
    case 4: s.o = Vector3(0.4, -0.8, 0.3); break; // same attitude as 1 with another motion
    default: s.o = Vector3(-1.9, 1.2, 2.8); break; // beyond half a turn
  }
  return s;
}
U inputOf(int i)
{
  U u;
  u.p = Vector3(0.5, -0.2 * i, 1);
  u.v = Vector3(-0.3, 0.6, 0.1 * i);
  u.a = Vector3(0.2 * i, 1.5, -0.7);
  u.w = Vector3(0.8, -0.4 * i, 0.5);
  switch(i)
  {
    case 0: u.o.setZero(); break;
    case 1: u.o = Vector3(0.4, -0.8, 0.3); break; // the attitude of states 1 and 4
    default: u.o = Vector3(-0.2, 1.5, 0.9); break;
  }
  return u;
}
const double magY = 28, magZ = -33.7;
Vector imu(const Matrix3 & R, const Vector3 & a, const Vector3 & w, bool mag)
{
  Vector m(mag ? 9 : 6);
  m.head(3) = R.transpose() * (a + 9.8 * Vector3::UnitZ());
  m.segment(3, 3) = R.transpose() * w;
  if(mag) m.tail(3) = R.transpose() * Vector3(0, magY, magZ);
  return m;
}
/// next state as (p, R, v, w, a, l)
struct N
{
  Vector3 p, v, w, a, l;
  Matrix3 R;
};
N integrate(const S & s, const Vector3 & a, const Vector3 & l, double dt)
{
  N n;
  n.p = s.p + dt * s.v + dt * dt / 2 * a;
  n.v = s.v + dt * a;
  n.R = expm(s.w * dt + dt * dt / 2 * l) * expm(s.o);
  n.w = s.w + dt * l;
  return n;
}

// ---- adapters ---------------------------------------------------------------------------------------------------
struct RotVecState
{
  static Vector pack(const S & s)
  {
    Vector x(18);
    x << s.p, s.o, s.v, s.w, s.a, s.l;
    return x;
  }
  static void unpack(const Vector & x, N & n)
  {
    n.p = x.segment(0, 3);
    n.R = expm(Vector3(x.segment(3, 3)));
    n.v = x.segment(6, 3);
    n.w = x.segment(9, 3);
    n.a = x.segment(12, 3);
    n.l = x.segment(15, 3);
  }
  static const int size = 18;
};
struct QuatState
{
  static Vector pack(const S & s)
  {
    Vector x(19);
    Quaternion q(expm(s.o));
    x << s.p, q.coeffs(), s.v, s.w, s.a, s.l;
    return x;
  }
  static void unpack(const Vector & x, N & n)
  {
    n.p = x.segment(0, 3);
    Quaternion q(Vector4(x.segment(3, 4)));
    n.R = q.toRotationMatrix();
    if(std::fabs(q.norm() - 1) > 1e-5) n.R.setConstant(std::nan(""));
    n.v = x.segment(7, 3);
    n.w = x.segment(10, 3);
    n.a = x.segment(13, 3);
    n.l = x.segment(16, 3);
  }
  static const int size = 19;
};
struct Contacts
{
  std::vector<Vector3> v;
};

template<typename M>
struct FreeModel : RotVecState
{
  M m;
  static const bool contacts = false;
  static const int in = 6;
  Vector packU(const U & u)
  {
    Vector r(6);
    r << u.a, u.w;
    return r;
  }
  N next(const S & s, const U & u, double dt)
  {
    N n = integrate(s, s.a, s.l, dt);
    n.a = u.a;
    n.l = u.w;
    return n;
  }
  Vector measure(const S & s, const U &, const Contacts &)
  {
    return imu(expm(s.o), s.a, s.w, false);
  }
  void setContact(C &, Contacts &, int) {}
};
struct Imu : FreeModel<IMUDynamicalSystem>
{
};
struct Mag : FreeModel<IMUMagnetometerDynamicalSystem>
{
  static const int in = 0;
  Vector packU(const U &)
  {
    return Vector(0);
  }
  N next(const S & s, const U &, double dt)
  {
    N n = integrate(s, s.a, s.l, dt);
    n.a.setZero();
    n.l.setZero();
    return n;
  }
  Vector measure(const S & s, const U &, const Contacts &)
  {
    return imu(expm(s.o), s.a, s.w, true);
  }
};
struct Mult : QuatState
{
  IMUMltpctiveDynamicalSystem m;
  static const bool contacts = false;
  static const int in = 6;
  Vector packU(const U & u)
  {
    Vector r(6);
    r << u.a, u.w;
    return r;
  }
  N next(const S & s, const U & u, double dt)
  {
    N n = integrate(s, s.a, s.l, dt);
    n.a = u.a;
    n.l = u.w;
    return n;
  }
  Vector measure(const S & s, const U &, const Contacts &)
  {
    return imu(expm(s.o), s.a, s.w, false);
  }
  void setContact(C &, Contacts &, int) {}
};
template<typename M>
struct ContactModel : RotVecState
{
  M m;
  ContactModel() : m(1) {}
  static const bool contacts = true;
  static const int in = 15;
  Vector packU(const U & u)
  {
    Vector r(15);
    r << u.p, u.o, u.v, u.w, u.a;
    return r;
  }
  Vector measure(const S & s, const U & u, const Contacts & k)
  {
    Matrix3 R = expm(s.o);
    Vector3 Rp = R * u.p;
    Vector3 a = s.a + s.l.cross(Rp) + s.w.cross(s.w.cross(Rp)) + 2 * s.w.cross(R * u.v) + R * u.a;
    Vector y(6 + 3 * Index(k.v.size()));
    y.head(6) = imu(R * expm(u.o), a, s.w + R * u.w, false);
    // contacts stay fixed: displacement of the contact point
    for(size_t i = 0; i < k.v.size(); ++i) y.segment(6 + 3 * Index(i), 3) = s.p + R * k.v[i] - k.v[i];
    return y;
  }
  void setContact(C & c, Contacts & k, int i)
  {
    if(i < 3)
    {
      static const unsigned n[] = {0, 2, 3};
      c.step([&] { return "contacts number " + std::to_string(n[i]); });
      m.setContactsNumber(n[i]);
      k.v.resize(n[i], Vector3::Zero());
    }
    else
    {
      if(k.v.empty()) throw mc::Prune();
      c.step([&] { return "contact position"; });
      size_t j = k.v.size() - 1;
      k.v[j] = Vector3(0.3, -0.5 * double(j), 0.2) * (1 + double(i));
      m.setContactPosition(unsigned(j), k.v[j]);
    }
  }
};
struct Fixed : ContactModel<flexibilityEstimation::IMUFixedContactDynamicalSystem>
{
  N next(const S & s, const U &, double dt)
  {
    N n = integrate(s, s.a, s.l, dt);
    n.a = s.a;
    n.l = s.l;
    return n;
  }
};
struct Stable : ContactModel<flexibilityEstimation::StableIMUFixedContactDynamicalSystem>
{
  N next(const S & s, const U &, double dt)
  {
    // stabilised towards zero: natural frequency 5, damping 0.1
    Vector3 a = -25 * s.p - 2 * 0.1 * 5 * s.v, l = -25 * s.o - 2 * 0.1 * 5 * s.w;
    N n = integrate(s, a, l, dt);
    n.a = a;
    n.l = l;
    return n;
  }
};

template<typename T>
void compareNext(C & c, const Vector & x, const N & n)
{
  c.require(x.size() == T::size, "size of the next state");
  N g;
  T::unpack(x, g);
  c.near(g.p, n.p, 1e-10, "next position");
  c.near(g.v, n.v, 1e-10, "next velocity");
  c.near(g.R, n.R, 1e-7, "next attitude");
  c.near(g.w, n.w, 1e-10, "next angular velocity");
  c.near(g.a, n.a, 1e-10, "next acceleration");
  c.near(g.l, n.l, 1e-10, "next angular acceleration");
}

template<typename T>
void histories(C & c, int depth)
{
  T t;
  double dt = 1;
  Contacts k;
  Recorder np, nm;
  bool pn = false, mn = false;
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(T::contacts ? 8 : 6);
    if(op < 2)
    {
      int si = c.choose(6);
      // the transition of the flexibilities does not use the input
      int ui = c.choose(op == 1 ? (T::contacts ? 3 : 1) : 2);
      S s = stateOf(si);
      U u = inputOf(ui);
      Vector x = t.pack(s), uu = t.packU(u);
      Vector x0 = x, u0 = uu;
      int cp = np.calls, cm = nm.calls;
      if(op == 0)
      {
        c.step([&] { return "transition from state " + std::to_string(si) + " with input " + std::to_string(ui); });
        Vector r = t.m.stateDynamics(x, uu, TimeIndex(i));
        c.require(np.calls == cp + (pn ? 1 : 0) && nm.calls == cm, "process noise drawn once per transition if set");
        if(pn) r -= Vector::Constant(r.size(), 0.5);
        compareNext<T>(c, r, t.next(s, u, dt));
        c.state(mc::hashM(1, r));
      }
      else
      {
        c.step([&] { return "measurement of state " + std::to_string(si) + " with input " + std::to_string(ui); });
        Vector y = t.m.measureDynamics(x, uu, TimeIndex(i));
        c.require(nm.calls == cm + (mn ? 1 : 0) && np.calls == cp, "measurement noise drawn once per measurement if set");
        Vector w = t.measure(s, u, k);
        if(mn) w.head(nm.last.size()) += Vector::Constant(nm.last.size(), 0.5);
        c.near(y, w, 1e-9, "measurement");
        c.state(mc::hashM(2, y));
      }
      c.require(x == x0 && (uu.size() == 0 || uu == u0), "arguments untouched");
    }
    else if(op == 2)
    {
      dt = dt == 1 ? 0.01 : dt == 0.01 ? 0.25 : 1;
      c.step([&] { return "sampling period " + mc::str(dt); });
      t.m.setSamplingPeriod(dt);
    }
    else if(op == 3)
    {
      pn = !pn;
      c.step([&] { return std::string("process noise ") + (pn ? "set" : "removed"); });
      if(pn)
        t.m.setProcessNoise(&np);
      else
        t.m.resetProcessNoise();
    }
    else if(op == 4)
    {
      mn = !mn;
      c.step([&] { return std::string("measurement noise ") + (mn ? "set" : "removed"); });
      if(mn)
        t.m.setMeasurementNoise(&nm);
      else
        t.m.resetMeasurementNoise();
    }
    else if(op == 5)
    {
      c.step([&] { return "reset"; });
      t.m.reset();
    }
    else
      t.setContact(c, k, c.choose(2) + 2 * (op - 6));
    c.require(t.m.getStateSize() == T::size, "state size");
    c.require(t.m.getInputSize() == T::in, "input size");
    c.require(t.m.getMeasurementSize() == t.measure(stateOf(0), inputOf(0), k).size(), "measurement size");
    c.require(t.m.getProcessNoise() == (pn ? &np : nullptr), "process noise");
    c.require(t.m.getMeasurementNoise() == (mn ? &nm : nullptr), "measurement noise");
    c.require(t.m.checkStateVector(Vector::Zero(T::size)) && !t.m.checkStateVector(Vector::Zero(T::size + 1)), "state size test");
    c.require(t.m.checkInputvector(Vector::Zero(T::in)) && !t.m.checkInputvector(Vector::Zero(T::in + 1)), "input size test");
  }
}
MC_SUITE(imu, 3)
{
  histories<Imu>(c, c.t(4, 5));
}
MC_SUITE(imu_magnetometer, 3)
{
  histories<Mag>(c, c.t(4, 5));
}
MC_SUITE(imu_multiplicative, 3)
{
  histories<Mult>(c, c.t(4, 5));
}
MC_SUITE(fixed_contact, 3)
{
  histories<Fixed>(c, c.t(4, 5));
}
MC_SUITE(stable_fixed_contact, 3)
{
  histories<Stable>(c, c.t(4, 5));
}

// one transition and one measurement over a grid of attitudes, rates, accelerations and periods
template<typename T>
void grid(C & c)
{
  static const double ang[] = {0, 1e-10, 1e-4, 0.5, M_PI / 2, M_PI - 1e-6, M_PI, 4, 2 * M_PI + 0.3};
  static const Vector3 vs[] = {Vector3(0, 0, 0), Vector3(1, -2, 3), Vector3(-0.5, 0, 0), Vector3(1e-9, 0, 20)};
  S s = stateOf(1);
  Vector3 ax(c.choose(3) - 1, c.choose(3) - 1, c.choose(3) - 1);
  if(ax.isZero()) ax = Vector3(0.3, 0.5, -0.1);
  s.o = ang[c.choose(9)] * ax.normalized();
  s.w = vs[c.choose(4)];
  s.l = vs[c.choose(3)];
  s.a = vs[c.choose(3)];
  double dt = c.flag() ? 0.005 : 1;
  T t;
  t.m.setSamplingPeriod(dt);
  U u = inputOf(c.choose(2));
  c.step([&] { return "attitude " + mc::str(s.o) + " rate " + mc::str(s.w); });
  compareNext<T>(c, t.m.stateDynamics(t.pack(s), t.packU(u), 0), t.next(s, u, dt));
  Vector y = t.m.measureDynamics(t.pack(s), t.packU(u), 0);
  c.near(y, t.measure(s, u, Contacts()), 1e-9, "measurement");
  c.state(mc::hashM(1, y));
}
MC_SUITE(imu_grid, 4)
{
  grid<Imu>(c);
}
MC_SUITE(imu_magnetometer_grid, 4)
{
  grid<Mag>(c);
}
MC_SUITE(imu_multiplicative_grid, 4)
{
  grid<Mult>(c);
}
MC_SUITE(fixed_contact_grid, 4)
{
  grid<Fixed>(c);
}
MC_SUITE(stable_fixed_contact_grid, 4)
{
  grid<Stable>(c);
}

// multiplicative model: state arithmetics and analytical Jacobians, after any earlier calls
Vector refSum(const Vector & x, const Vector & d)
{
  Vector r(19);
  r.segment(0, 3) = x.segment(0, 3) + d.segment(0, 3);
  Matrix3 R = expm(Vector3(d.segment(3, 3))) * Quaternion(Vector4(x.segment(3, 4))).toRotationMatrix();
  r.segment(3, 4) = Quaternion(R).coeffs();
  r.tail(12) = x.tail(12) + d.tail(12);
  return r;
}
Vector refDiff(const Vector & a, const Vector & b)
{
  Vector r(18);
  r.segment(0, 3) = a.segment(0, 3) - b.segment(0, 3);
  Matrix3 R = Quaternion(Vector4(a.segment(3, 4))).toRotationMatrix()
              * Quaternion(Vector4(b.segment(3, 4))).toRotationMatrix().transpose();
  r.segment(3, 3) = logm(R);
  r.tail(12) = a.tail(12) - b.tail(12);
  return r;
}
Vector near0(int i)
{
  Vector d = Vector::Zero(18);
  switch(i)
  {
    case 0: break;
    case 1: d.segment(3, 3) << 0.3, -0.2, 0.9; break;
    case 2: d.segment(3, 3) << 0, 0, 3.1; break;
    case 3: d.segment(3, 3) << 1e-9, -1e-8, 0; break;
    case 4:
      for(int j = 0; j < 18; ++j) d(j) = 0.1 * (j - 8);
      break;
    default: d << 1, 2, 3, 0, 0, 0, -1, 4, 2, 0.4, 0.3, 0.2, 9, 8, 7, -3, -2, -1; break;
  }
  return d;
}
MC_SUITE(multiplicative_arithmetics, 2)
{
  IMUMltpctiveDynamicalSystem m;
  int si = c.choose(6), di = c.choose(6), sj = c.choose(6);
  bool flip = c.flag();
  Vector x = Mult::pack(stateOf(si)), d = near0(di);
  if(flip) x.segment(3, 4) *= -1; // the other quaternion of the same attitude
  c.step([&] { return "sum and difference " + std::to_string(si) + " " + std::to_string(di); });
  Vector s, e;
  m.stateSum(x, d, s);
  N a, b;
  Mult::unpack(s, a);
  Mult::unpack(refSum(x, d), b);
  c.require(s.size() == 19, "size of a sum");
  c.near(a.R, b.R, 1e-10, "sum: attitude");
  Vector s2 = s, r2 = refSum(x, d);
  s2.segment(3, 4).setZero();
  r2.segment(3, 4).setZero();
  c.near(s2, r2, 1e-12, "sum");
  m.stateDifference(s, x, e);
  c.near(e, d, 1e-7, "difference of a sum");
  Vector y = Mult::pack(stateOf(sj)), back;
  m.stateDifference(y, x, e);
  c.near(Matrix3(expm(Vector3(e.segment(3, 3)))), Matrix3(expm(Vector3(refDiff(y, x).segment(3, 3)))), 1e-7, "difference: attitude");
  c.require(e.segment(3, 3).norm() < M_PI + 1e-6, "difference: at most half a turn");
  m.stateSum(x, e, back);
  Mult::unpack(back, a);
  Mult::unpack(y, b);
  c.near(a.R, b.R, 1e-7, "sum of a difference: attitude");
  back.segment(3, 4).setZero();
  y.segment(3, 4).setZero();
  c.near(back, y, 1e-12, "sum of a difference");
  // destinations that already have a content or are one of the operands' neighbours
  Vector dirty = Vector::Constant(3, 7.);
  m.stateSum(x, d, dirty);
  c.near(dirty, s, 0, "sum in a used vector");
  dirty = Vector::Constant(30, 7.);
  m.stateDifference(s, x, dirty);
  m.stateDifference(s, x, e);
  c.near(dirty, e, 0, "difference in a used vector");
  c.state(mc::hashM(mc::hashM(1, s), e));
}
Matrix numA(const Vector & x, const Vector & u, double dt)
{
  IMUMltpctiveDynamicalSystem m;
  m.setSamplingPeriod(dt);
  Matrix A(18, 18);
  const double h = 1e-5;
  for(int i = 0; i < 18; ++i)
  {
    Vector d = Vector::Zero(18);
    d(i) = h;
    Vector p = m.stateDynamics(refSum(x, d), u, 0), q = m.stateDynamics(refSum(x, -d), u, 0);
    A.col(i) = refDiff(p, q) / (2 * h);
  }
  return A;
}
Matrix numC(const Vector & x)
{
  IMUMltpctiveDynamicalSystem m;
  Matrix A(6, 18);
  const double h = 1e-5;
  for(int i = 0; i < 18; ++i)
  {
    Vector d = Vector::Zero(18);
    d(i) = h;
    A.col(i) = (m.measureDynamics(refSum(x, d), Vector::Zero(6), 0) - m.measureDynamics(refSum(x, -d), Vector::Zero(6), 0)) / (2 * h);
  }
  return A;
}
const Matrix & cachedA(int s, int dti, double dt)
{
  static std::map<int, Matrix> m;
  Matrix & r = m[s * 10 + dti];
  if(r.size() == 0) r = numA(Mult::pack(stateOf(s)), Mult(). packU(inputOf(1)), dt);
  return r;
}
const Matrix & cachedC(int s)
{
  static std::map<int, Matrix> m;
  Matrix & r = m[s];
  if(r.size() == 0) r = numC(Mult::pack(stateOf(s)));
  return r;
}
MC_SUITE(multiplicative_jacobians, 3)
{
  IMUMltpctiveDynamicalSystem m;
  const double dts[] = {1, 0.01, 0.3};
  int dti = 0;
  for(int i = 0; i < c.t(4, 5); ++i)
  {
    int op = c.choose(4);
    if(op == 3)
    {
      dti = (dti + 1) % 3;
      c.step([&] { return "sampling period " + mc::str(dts[dti]); });
      m.setSamplingPeriod(dts[dti]);
      continue;
    }
    int si = c.choose(6);
    Vector x = Mult::pack(stateOf(si));
    if(op == 0)
    {
      c.step([&] { return "state Jacobian at " + std::to_string(si); });
      Matrix A = m.getAMatrix(x);
      c.near(A, cachedA(si, dti, dts[dti]), 1e-6, "state Jacobian");
      c.state(mc::hashM(1, A));
    }
    else if(op == 1)
    {
      c.step([&] { return "measurement Jacobian at " + std::to_string(si); });
      Matrix A = m.getCMatrix(x);
      c.near(A, cachedC(si), 1e-6, "measurement Jacobian");
      c.state(mc::hashM(2, A));
    }
    else
    {
      c.step([&] { return "transition and measurement of " + std::to_string(si); });
      m.stateDynamics(x, Vector::Constant(6, 0.3), 0);
      m.measureDynamics(x, Vector::Constant(6, 0.3), 0);
    }
  }
}
// Jacobians over the grid of attitudes and rates
MC_SUITE(multiplicative_jacobians_grid, 3)
{
  static const double ang[] = {0, 1e-7, 0.5, 2, M_PI};
  static const Vector3 vs[] = {Vector3(0, 0, 0), Vector3(1, -2, 2), Vector3(-0.5, 0, 0), Vector3(1e-9, 1e-8, 0)};
  S s = stateOf(1);
  Vector3 ax(c.choose(3) - 1, c.choose(3) - 1, c.choose(3) - 1);
  if(ax.isZero()) ax = Vector3(0.3, 0.5, -0.1);
  s.o = ang[c.choose(5)] * ax.normalized();
  s.w = vs[c.choose(4)];
  s.l = vs[c.choose(3)];
  double dt = c.flag() ? 0.005 : 0.5;
  IMUMltpctiveDynamicalSystem m;
  m.setSamplingPeriod(dt);
  Vector x = Mult::pack(s);
  c.step([&] { return "Jacobians at " + mc::str(x); });
  c.near(m.getAMatrix(x), numA(x, Vector::Zero(6), dt), 1e-6, "state Jacobian");
  c.near(m.getCMatrix(x), numC(x), 1e-6, "measurement Jacobian");
  c.state(mc::hashM(1, x));
}

// elastic inverted pendulum: explicit Euler step of m(p^2+h^2) th'' = -k th - m g (p cos th - h sin th) + m(h p'' - 2 p p' th')
MC_SUITE(pendulum, 2)
{
  BidimElasticInvPendulum m;
  double dt = 1, ma = 1, h = 1, k = 0;
  Recorder np;
  bool pn = false, kset = false;
  const int last = c.t(4, 5);
  for(int i = 0; i <= last; ++i)
  {
    int op = i == last ? 5 : c.choose(6);
    switch(op)
    {
      case 0:
        c.step([&] { return "height"; });
        m.setHeight(h = 0.7 + i);
        break;
      case 1:
        c.step([&] { return "mass"; });
        m.setMass(ma = 3 + i);
        break;
      case 2:
        c.step([&] { return "elasticity"; });
        m.setElasticity(k = 40 + i);
        kset = true;
        break;
      case 3:
        c.step([&] { return "sampling period"; });
        m.setSamplingPeriod(dt = dt == 1 ? 0.01 : 1);
        break;
      case 4:
        c.step([&] { return "process noise"; });
        pn = !pn;
        if(pn)
          m.setProcessNoise(&np);
        else
          m.resetProcessNoise();
        break;
      default:
      {
        static const double ps[] = {0, 0.3, -1.2};
        // all the classes of states at the end of the history, one state within
        bool all = i == last;
        double p = ps[all ? c.choose(3) : 1], th = ps[all ? c.choose(3) : 2], pd = ps[all ? c.choose(3) : 1],
               thd = ps[all ? c.choose(3) : 2];
        double u = all && c.flag() ? 0.8 : 0;
        if(!kset) throw mc::Prune(); // the elasticity has to be given
        Vector x(4), uu(1);
        x << p, th, pd, thd;
        uu << u;
        c.step([&] { return "transition from " + mc::str(x); });
        Vector r = m.stateDynamics(x, uu, i);
        if(pn) r -= Vector::Constant(4, 0.5);
        double acc = (-k * th - ma * 9.8 * (p * std::cos(th) - h * std::sin(th)) + ma * (h * u - 2 * p * pd * thd)) / (ma * (p * p + h * h));
        Vector w(4);
        w << p + dt * pd, th + dt * thd, pd + dt * u, thd + dt * acc;
        c.near(r, w, 1e-10, "next state of the pendulum");
        c.state(mc::hashM(1, r));
      }
    }
    c.require(m.getStateSize() == 4 && m.getInputSize() == 1 && m.getMeasurementSize() == 0, "sizes");
    c.require(m.measureDynamics(Vector::Zero(4), Vector::Zero(1), 0).size() == 0, "no measurement");
    c.require(m.getProcessNoise() == (pn ? &np : nullptr), "process noise");
  }
}
} // namespace
MC_MAIN()
