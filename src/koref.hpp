// Reference for the kinetics observer: bookkeeping of contacts and sensors, rigid-body dynamics, sensor model and the
// filter step, written from the mechanics and the documented interface; and a pair that drives both in lock-step.
#pragma once
#include "kinref.hpp"
#include "mc.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
namespace koref
{
using namespace stateObservation;
using kref::expm;
using kref::logm;
using mc::C;
typedef kref::K Kin;

inline Matrix diagOf(std::initializer_list<double> blocksOf3)
{
  Matrix m = Matrix::Zero(3 * long(blocksOf3.size()), 3 * long(blocksOf3.size()));
  int k = 0;
  for(double d : blocksOf3)
    for(int i = 0; i < 3; ++i, ++k) m(k, k) = d;
  return m;
}
/// a symmetric positive matrix that is not diagonal
inline Matrix full(Matrix m, double rho)
{
  for(int i = 0; i + 1 < m.rows(); ++i) m(i, i + 1) = m(i + 1, i) = rho * std::sqrt(m(i, i) * m(i + 1, i + 1));
  return m;
}
inline void setBlock(Matrix & P, long at, const Matrix & b)
{
  P.middleRows(at, b.rows()).setZero();
  P.middleCols(at, b.rows()).setZero();
  P.block(at, at, b.rows(), b.rows()) = b;
}
inline Vector4 quatOf(const Matrix3 & R)
{
  Quaternion q(R);
  return q.coeffs();
}
inline Matrix3 rotOf(const Vector & x, long at)
{
  Quaternion q(x(at + 3), x(at), x(at + 1), x(at + 2));
  return q.normalized().toRotationMatrix();
}

struct Con
{
  bool set = false, sensor = false, hasLocal = false, discarded = false;
  long time = 0;
  Kin local;
  Matrix3 kp, kd, rp, rd;
  Vector6 wrench;
  Matrix cov;
};
struct Imu
{
  long time = 0;
  bool ever = false, discarded = false;
  Kin k;
  Vector6 y;
  Matrix cov;
};
struct Timed3
{
  Vector3 v = Vector3::Zero();
  long t = 0;
};
struct TimedM
{
  Matrix3 v = Matrix3::Zero();
  long t = 0;
};

/// kinematics of a sensor or contact after new values; what is not given comes from finite differences
inline void advance(Kin & k, const Kin & n, double dt, bool acc)
{
  Kin o = k;
  k = n;
  if(!n.has(kref::V)) k.v = (n.p - o.p) / dt;
  if(!n.has(kref::W)) k.w = logm(n.R * o.R.transpose()) / dt;
  if(acc && !n.has(kref::A)) k.a = n.has(kref::V) ? Vector3((n.v - o.v) / dt) : Vector3(((n.p - o.p) / dt - o.v) / dt);
  k.f |= kref::V | kref::W | (acc ? kref::A : 0);
}

struct Ref
{
  unsigned nc, ni;
  std::vector<Con> con;
  std::vector<Imu> imu;
  bool bias = true, unm = false, acc = false;
  double mass = 50, dt = 1e-6;
  Timed3 com, comd, comdd, sigma, sigmad;
  TimedM I, Id;
  Vector3 addF = Vector3::Zero(), addM = Vector3::Zero();
  long kEst = 0, kData = 0;
  bool pose = false;
  Kin poseK;
  Matrix poseCov;
  Matrix defImu, defWrench, defPose;
  Matrix initKine, initBias, initUnm, initCon, procKine, procBias, procUnm, procCon;
  Vector x;
  Matrix P, Q;
  Vector xbar, ybar, fd; // steps of the finite differences (empty: default)
  Ref(unsigned c, unsigned i) : nc(c), ni(i), con(c), imu(i)
  {
    I.v.setIdentity();
    x = Vector::Zero(sx());
    x(6) = 1;
    P = Q = Matrix::Zero(st(), st());
  }
  // layout
  long sx() const
  {
    return 13 + 3 * long(ni) + 6 + 13 * long(nc);
  }
  long st() const
  {
    return 12 + 3 * long(ni) + 6 + 12 * long(nc);
  }
  long xb(unsigned i) const
  {
    return 13 + 3 * long(i);
  }
  long tb(unsigned i) const
  {
    return 12 + 3 * long(i);
  }
  long xu() const
  {
    return xb(ni);
  }
  long tu() const
  {
    return tb(ni);
  }
  long xc(unsigned i) const
  {
    return xu() + 6 + 13 * long(i);
  }
  long tc(unsigned i) const
  {
    return tu() + 6 + 12 * long(i);
  }
  // arithmetic
  Vector sum(const Vector & a, const Vector & d) const
  {
    Vector r = a;
    r.head(3) += d.head(3);
    r.segment(3, 4) = quatOf(expm(Vector3(d.segment(3, 3))) * rotOf(a, 3));
    r.segment(7, 6) += d.segment(6, 6);
    if(bias) r.segment(13, 3 * ni) += d.segment(12, 3 * ni);
    if(unm) r.segment(xu(), 6) += d.segment(tu(), 6);
    for(unsigned i = 0; i < nc; ++i)
      if(con[i].set)
      {
        r.segment(xc(i), 3) += d.segment(tc(i), 3);
        r.segment(xc(i) + 3, 4) = quatOf(expm(Vector3(d.segment(tc(i) + 3, 3))) * rotOf(a, xc(i) + 3));
        r.segment(xc(i) + 7, 6) += d.segment(tc(i) + 6, 6);
      }
    return r;
  }
  Vector diff(const Vector & a, const Vector & b) const
  {
    Vector d = Vector::Zero(st());
    d.head(3) = a.head(3) - b.head(3);
    d.segment(3, 3) = logm(rotOf(a, 3) * rotOf(b, 3).transpose());
    d.segment(6, 6) = a.segment(7, 6) - b.segment(7, 6);
    if(bias) d.segment(12, 3 * ni) = a.segment(13, 3 * ni) - b.segment(13, 3 * ni);
    if(unm) d.segment(tu(), 6) = a.segment(xu(), 6) - b.segment(xu(), 6);
    for(unsigned i = 0; i < nc; ++i)
      if(con[i].set)
      {
        d.segment(tc(i), 3) = a.segment(xc(i), 3) - b.segment(xc(i), 3);
        d.segment(tc(i) + 3, 3) = logm(rotOf(a, xc(i) + 3) * rotOf(b, xc(i) + 3).transpose());
        d.segment(tc(i) + 6, 6) = a.segment(xc(i) + 7, 6) - b.segment(xc(i) + 7, 6);
      }
    return d;
  }
  // mechanics
  Kin kinOf(const Vector & s) const
  {
    Kin k;
    k.f = kref::P | kref::O | kref::V | kref::W;
    k.p = s.head(3);
    k.R = rotOf(s, 3);
    k.v = s.segment(7, 3);
    k.w = s.segment(10, 3);
    return k;
  }
  /// kinematics of the local frame with its accelerations: momentum balance about the origin of the local frame
  Kin motion(const Vector & s) const
  {
    Kin k = kinOf(s);
    Vector3 F = addF + Vector3(s.segment(xu(), 3)), M = addM + Vector3(s.segment(xu() + 3, 3));
    for(unsigned i = 0; i < nc; ++i)
      if(con[i].set)
      {
        Vector3 f = con[i].local.R * Vector3(s.segment(xc(i) + 7, 3));
        F += f;
        M += con[i].local.R * Vector3(s.segment(xc(i) + 10, 3)) + con[i].local.p.cross(f);
      }
    // unknowns: acceleration of the origin (minus gravity, local) and angular acceleration (local)
    Vector3 w = k.R.transpose() * k.w, c = com.v;
    Vector3 rel = comdd.v + 2 * w.cross(comd.v) + w.cross(w.cross(c));
    Eigen::Matrix<double, 6, 6> A;
    Eigen::Matrix<double, 6, 1> b;
    Matrix3 S;
    S << 0, -c(2), c(1), c(2), 0, -c(0), -c(1), c(0), 0;
    A.topLeftCorner(3, 3) = mass * Matrix3::Identity(); // m (a0 + alpha x c + rel) = F
    A.topRightCorner(3, 3) = -mass * S;
    b.head(3) = F - mass * rel;
    A.bottomLeftCorner(3, 3) = mass * S; // d/dt(I w + sigma) + m c x a0 = M
    A.bottomRightCorner(3, 3) = I.v;
    b.tail(3) = M - Id.v * w - sigmad.v - w.cross(I.v * w + sigma.v);
    Eigen::Matrix<double, 6, 1> u = A.fullPivLu().solve(b);
    k.a = k.R * u.head(3) - Vector3(0, 0, 9.8);
    k.l = k.R * u.tail(3);
    k.f |= kref::A | kref::L;
    return k;
  }
  Vector dynamics(const Vector & s) const
  {
    Vector r = s;
    Kin k = motion(s);
    k.p += k.v * dt + k.a * dt * dt / 2;
    k.R = expm(k.w * dt + k.l * dt * dt / 2) * k.R;
    k.v += k.a * dt;
    k.w += k.l * dt;
    r.head(3) = k.p;
    r.segment(3, 4) = quatOf(k.R);
    r.segment(7, 3) = k.v;
    r.segment(10, 3) = k.w;
    for(unsigned i = 0; i < nc; ++i)
      if(con[i].set)
      {
        Kin g = kref::product(k, con[i].local);
        Quaternion d(Matrix3(g.R * rotOf(s, xc(i) + 3).transpose()));
        if(d.w() < 0) d.coeffs() *= -1;
        r.segment(xc(i) + 7, 3) = g.R.transpose() * (con[i].kp * (Vector3(s.segment(xc(i), 3)) - g.p) - con[i].kd * g.v);
        r.segment(xc(i) + 10, 3) = g.R.transpose() * (-0.5 * con[i].rp * d.vec() - con[i].rd * g.w);
      }
    return r;
  }
  bool fresh(const Con & k) const
  {
    return k.set && k.sensor && k.time == kData;
  }
  long measureSize() const
  {
    if(kEst == kData) return 0;
    long n = pose ? 7 : 0;
    for(auto & i : imu)
      if(i.time == kData) n += 6;
    for(auto & k : con)
      if(fresh(k)) n += 6;
    return n;
  }
  Vector measurement() const
  {
    Vector y(measureSize());
    long n = 0;
    if(kEst == kData) return y;
    for(auto & i : imu)
      if(i.time == kData) y.segment(n, 6) = i.y, n += 6;
    for(auto & k : con)
      if(fresh(k)) y.segment(n, 6) = k.wrench, n += 6;
    if(pose) y.segment(n, 3) = poseK.p, y.segment(n + 3, 4) = quatOf(poseK.R);
    return y;
  }
  Matrix R() const
  {
    long n = measureSize() - (pose ? 1 : 0), at = 0;
    Matrix r = Matrix::Zero(n, n);
    for(auto & i : imu)
      if(i.time == kData) r.block(at, at, 6, 6) = i.cov, at += 6;
    for(auto & k : con)
      if(fresh(k)) r.block(at, at, 6, 6) = k.cov, at += 6;
    if(pose) r.block(at, at, 6, 6) = poseCov;
    return r;
  }
  Vector sense(const Vector & s) const
  {
    Vector y(measureSize());
    long n = 0;
    Kin k = motion(s);
    for(unsigned i = 0; i < ni; ++i)
      if(imu[i].time == kData)
      {
        Kin g = kref::product(k, imu[i].k);
        y.segment(n, 3) = g.R.transpose() * (g.a + Vector3(0, 0, 9.8));
        y.segment(n + 3, 3) = g.R.transpose() * g.w;
        if(bias) y.segment(n + 3, 3) += s.segment(xb(i), 3);
        n += 6;
      }
    for(unsigned i = 0; i < nc; ++i)
      if(fresh(con[i])) y.segment(n, 6) = s.segment(xc(i) + 7, 6), n += 6;
    if(pose) y.segment(n, 3) = k.p, y.segment(n + 3, 4) = quatOf(k.R);
    return y;
  }
  Vector mdiff(const Vector & a, const Vector & b) const
  {
    long n = measureSize() - (pose ? 7 : 0);
    Vector d(measureSize() - (pose ? 1 : 0));
    d.head(n) = a.head(n) - b.head(n);
    if(pose)
    {
      d.segment(n, 3) = a.segment(n, 3) - b.segment(n, 3);
      d.segment(n + 3, 3) = logm(rotOf(a, n + 3) * rotOf(b, n + 3).transpose());
    }
    return d;
  }
  Vector sd; // standard deviations of the prediction
  void update()
  {
    if(kEst == kData) return;
    xbar = dynamics(x);
    ybar = sense(xbar);
    const long n = st(), m = ybar.size() - (pose ? 1 : 0);
    Matrix A(n, n), Cm(m, n);
    for(long i = 0; i < n; ++i)
    {
      Vector d = Vector::Zero(n);
      const double h = fd.size() ? fd(i) : 1e-6;
      d(i) = h;
      A.col(i) = diff(dynamics(sum(x, d)), xbar) / h;
      Cm.col(i) = mdiff(sense(sum(xbar, d)), ybar) / h;
    }
    Matrix Pb = A * P * A.transpose() + Q;
    sd = Pb.diagonal().cwiseAbs().cwiseSqrt();
    if(m)
    {
      Matrix S = Cm * Pb * Cm.transpose() + R();
      Matrix K = S.ldlt().solve(Cm * Pb.transpose()).transpose();
      x = sum(xbar, K * mdiff(measurement(), ybar));
      Matrix Pn = (Matrix::Identity(n, n) - K * Cm) * Pb;
      P = (Pn + Pn.transpose()) / 2;
    }
    else
    {
      x = xbar;
      P = Pb;
    }
    ++kEst;
    pose = false;
  }
  // iteration protocol
  void start()
  {
    if(kEst == kData)
    {
      ++kData;
      for(auto & k : con) k.sensor = false;
    }
  }
};

inline Matrix defaultProcCon()
{
  typedef KineticsObserver O;
  return diagOf({O::contactPositionProcessVarianceDefault, O::contactOrientationProcessVarianceDefault,
                 O::contactForceProcessVarianceDefault, O::contactTorqueProcessVarianceDefault});
}
inline Matrix defaultProcKine()
{
  typedef KineticsObserver O;
  return diagOf({O::statePoseProcessVarianceDefault, O::stateOriProcessVarianceDefault, O::stateLinVelProcessVarianceDefault,
                 O::stateAngVelProcessVarianceDefault});
}

struct Pair
{
  KineticsObserver o;
  Ref r;
  bool accSet = false; // accelerations are part of the kinematics
  Pair(unsigned nc, unsigned ni) : o(nc, ni), r(nc, ni) {}
  /// finite covariances for everything (the defaults of 1e100 exceed what double precision can filter)
  void setup(double dt, double mass)
  {
    o.setSamplingTime(r.dt = dt);
    o.setMass(r.mass = mass);
    r.initKine = full(diagOf({1e-4, 1e-4, 1e-3, 2e-3}), 0.1);
    r.procKine = full(diagOf({1e-7, 2e-7, 1e-5, 2e-5}), 0.1);
    r.initBias = full(diagOf({1e-4}), 0.2);
    r.procBias = full(diagOf({1e-8}), 0.2);
    r.initUnm = full(diagOf({9, 1}), 0.1);
    r.procUnm = full(diagOf({1e-1, 1e-2}), 0.1);
    r.initCon = full(diagOf({1e-6, 1e-5, 50, 2}), 0.1);
    r.procCon = full(diagOf({1e-9, 1e-8, 4, 0.3}), 0.1);
    o.setKinematicsInitCovarianceDefault(r.initKine);
    o.setGyroBiasInitCovarianceDefault(r.initBias);
    o.setUnmodeledWrenchInitCovMatDefault(r.initUnm);
    o.setContactInitCovMatDefault(r.initCon);
    r.P.setZero();
    setBlock(r.P, 0, r.initKine);
    for(unsigned i = 0; i < r.ni; ++i) setBlock(r.P, r.tb(i), r.initBias);
    setBlock(r.P, r.tu(), r.initUnm);
    o.setStateCovarianceMat(r.P);
    r.Q.setZero();
    setBlock(r.Q, 0, r.procKine);
    for(unsigned i = 0; i < r.ni; ++i) setBlock(r.Q, r.tb(i), r.procBias);
    setBlock(r.Q, r.tu(), r.procUnm);
    o.setProcessNoiseCovarianceMat(r.Q);
    r.defImu = full(diagOf({1e-2, 1e-4}), 0);
    r.defWrench = full(diagOf({2, 0.05}), 0.1);
    r.defPose = full(diagOf({1e-4, 3e-4}), 0.1);
    o.setIMUDefaultCovarianceMatrix(r.defImu.topLeftCorner(3, 3), r.defImu.bottomRightCorner(3, 3));
    o.setContactWrenchSensorDefaultCovarianceMatrix(r.defWrench);
    o.setAbsolutePoseSensorDefaultCovarianceMatrix(r.defPose);
  }
  /// steps that are large enough not to be dominated by rounding; the reference uses the same
  void steps()
  {
    r.fd = Vector::Zero(r.st());
    for(long i = 0; i < r.st(); ++i) r.fd(i) = 1e-4 * double(1 + i % 3);
    o.setFiniteDifferenceStep(r.fd);
  }
  void options(bool bias, bool unm, bool acc)
  {
    o.setWithGyroBias(r.bias = bias);
    o.setWithUnmodeledWrench(r.unm = unm);
    o.setWithAccelerationEstimation(r.acc = acc);
  }
  // ---- inputs
  void inertia(const Matrix3 & I, const Matrix3 & Id)
  {
    o.setInertiaMatrix(I, Id);
    r.start();
    r.I = {I, r.kData};
    r.Id = {Id, r.kData};
  }
  static Vector6 packed(const Matrix3 & m)
  {
    Vector6 v;
    v << m.diagonal(), m(1, 0), m(2, 0), m(2, 1);
    return v;
  }
  void inertia(const Matrix3 & I, int form)
  {
    if(form == 0)
      o.setInertiaMatrix(I);
    else
      o.setInertiaMatrix(packed(I));
    r.start();
    if(r.I.t < r.kData) r.Id = {Matrix3((I - r.I.v) / (r.dt * double(r.kData - r.I.t))), r.kData};
    r.I = {I, r.kData};
  }
  void com(const Vector3 & a, const Vector3 & b, const Vector3 & d)
  {
    o.setCenterOfMass(a, b, d);
    r.start();
    r.com = {a, r.kData}, r.comd = {b, r.kData}, r.comdd = {d, r.kData};
  }
  void com(const Vector3 & a, const Vector3 & b)
  {
    o.setCenterOfMass(a, b);
    r.start();
    if(r.comd.t < r.kData) r.comdd = {Vector3((b - r.comd.v) / (r.dt * double(r.kData - r.comd.t))), r.kData};
    r.com = {a, r.kData}, r.comd = {b, r.kData};
  }
  void com(const Vector3 & a)
  {
    o.setCenterOfMass(a);
    r.start();
    if(r.com.t < r.kData)
    {
      double h = r.dt * double(r.kData - r.com.t);
      Vector3 d = (a - r.com.v) / h;
      r.comdd = {Vector3((d - r.comd.v) / h), r.kData};
      r.comd = {d, r.kData};
    }
    r.com = {a, r.kData};
  }
  void momentum(const Vector3 & a, const Vector3 & b)
  {
    o.setAngularMomentum(a, b);
    r.start();
    r.sigma = {a, r.kData}, r.sigmad = {b, r.kData};
  }
  void momentum(const Vector3 & a)
  {
    o.setAngularMomentum(a);
    r.start();
    if(r.sigma.t < r.kData) r.sigmad = {Vector3((a - r.sigma.v) / (r.dt * double(r.kData - r.sigma.t))), r.kData};
    r.sigma = {a, r.kData};
  }
  void wrench(const Vector3 & f, const Vector3 & m)
  {
    o.setAdditionalWrench(f, m);
    r.addF = f, r.addM = m;
  }
  // ---- sensors; returns the number given by the observer
  int imu(const Vector3 & a, const Vector3 & g, const Kin & k, int num, const Matrix * cov, int rep = 0)
  {
    int n;
    if(cov)
      n = o.setIMU(a, g, Matrix3(cov->topLeftCorner(3, 3)), Matrix3(cov->bottomRightCorner(3, 3)), kref::make(k, rep), num);
    else
      n = o.setIMU(a, g, kref::make(k, rep), num);
    r.start();
    int e = num;
    if(num < 0)
      for(e = 0; e < int(r.ni) && r.imu[size_t(e)].time == r.kData;) ++e;
    Imu & i = r.imu[size_t(e)];
    i.y << a, g;
    i.cov = cov ? *cov : r.defImu;
    if(!i.ever)
    {
      i.k = k;
      if(!k.has(kref::V)) i.k.v.setZero();
      if(!k.has(kref::W)) i.k.w.setZero();
      if(!k.has(kref::A)) i.k.a.setZero();
      i.k.f |= kref::V | kref::W | kref::A;
    }
    else
      advance(i.k, k, r.dt * double(r.kData - i.time), true);
    i.ever = true;
    i.discarded = false;
    i.time = r.kData;
    return n - e;
  }
  void pose(const Kin & k, const Matrix * cov, int rep = 0)
  {
    if(cov)
      o.setAbsolutePoseSensor(kref::make(k, rep), Matrix6(*cov));
    else
      o.setAbsolutePoseSensor(kref::make(k, rep));
    r.start();
    r.pose = true;
    r.poseK = k;
    r.poseCov = cov ? *cov : r.defPose;
  }
  // ---- contacts
  /// stiffness: bit mask of the matrices that are given
  int add(const Kin & k, int num, unsigned stiff, const Matrix * init, const Matrix * proc, int rep = 0)
  {
    Matrix3 z = Matrix3::Zero(), kp = z, kd = z, rp = z, rd = z;
    if(stiff & 1) kp = full(diagOf({30000}), 0.1);
    if(stiff & 2) kd = full(diagOf({200}), 0.1);
    if(stiff & 4) rp = full(diagOf({700}), 0.1);
    if(stiff & 8) rd = full(diagOf({25}), 0.1);
    int n;
    if(init)
      n = o.addContact(kref::make(k, rep), Matrix12(*init), Matrix12(*proc), num, kp, kd, rp, rd);
    else
      n = o.addContact(kref::make(k, rep), num, kp, kd, rp, rd);
    int e = num;
    if(num < 0)
      for(e = 0; e < int(r.nc) && r.con[size_t(e)].set;) ++e;
    Con & c = r.con[size_t(e)];
    c = Con();
    c.set = true;
    c.kp = stiff & 1 ? kp : Matrix3(Matrix3::Identity() * KineticsObserver::linearStiffnessDefault);
    c.kd = stiff & 2 ? kd : Matrix3(Matrix3::Identity() * KineticsObserver::linearDampingDefault);
    c.rp = stiff & 4 ? rp : Matrix3(Matrix3::Identity() * KineticsObserver::angularStiffnessDefault);
    c.rd = stiff & 8 ? rd : Matrix3(Matrix3::Identity() * KineticsObserver::angularDampingDefault);
    c.time = -1;
    r.x.segment(r.xc(unsigned(e)), 3) = k.p;
    r.x.segment(r.xc(unsigned(e)) + 3, 4) = quatOf(k.R);
    r.x.segment(r.xc(unsigned(e)) + 7, 6).setZero();
    setBlock(r.P, r.tc(unsigned(e)), init ? *init : r.initCon);
    setBlock(r.Q, r.tc(unsigned(e)), init ? *proc : defaultProcCon());
    return n - e;
  }
  void remove(int n)
  {
    o.removeContact(n);
    r.con[size_t(n)].set = r.con[size_t(n)].sensor = false;
  }
  void clear()
  {
    o.clearContacts();
    for(auto & k : r.con) k.set = k.sensor = false;
  }
  void contact(unsigned n, const Kin & k, const Vector6 * w, const Matrix * cov, int rep = 0)
  {
    if(!w)
      o.updateContactWithNoSensor(kref::make(k, rep), n);
    else if(cov)
      o.updateContactWithWrenchSensor(*w, Matrix6(*cov), kref::make(k, rep), n);
    else
      o.updateContactWithWrenchSensor(*w, kref::make(k, rep), n);
    r.start();
    Con & c = r.con[n];
    if(c.hasLocal && c.time == r.kData - 1)
      advance(c.local, k, r.dt, false);
    else
    {
      c.local = k;
      if(!k.has(kref::V)) c.local.v.setZero();
      if(!k.has(kref::W)) c.local.w.setZero();
      c.local.f |= kref::V | kref::W;
    }
    c.hasLocal = true;
    c.discarded = false;
    c.time = r.kData;
    c.sensor = w != nullptr;
    if(w) c.wrench = *w;
    if(w) c.cov = cov ? *cov : r.defWrench;
  }
  bool ready() const
  {
    for(auto & k : r.con)
      if(k.set && k.time != r.kData) return false;
    return true;
  }
  void resetInputs()
  {
    o.resetInputs();
    for(auto & i : r.imu)
      if(i.time == r.kData) i.time = r.kEst, i.discarded = true;
    for(auto & k : r.con)
      if(k.time == r.kData) k.time = r.kEst, k.discarded = true;
    r.pose = false;
    r.kData = r.kEst;
  }
  // ---- comparisons
  /// relative to the standard deviations of the prediction, if there are any
  void sameState(C & c, const Vector & g, const Vector & w, double tol, const char * key)
  {
    c.require(g.size() == w.size(), "size of the state");
    c.require(!g.hasNaN(), "the state stays finite");
    auto tl = [&](long at) { return tol * (1 + (r.sd.size() ? r.sd.segment(at, 3).maxCoeff() : 0)); };
    auto lin = [&](long x, long t) { c.near(g.segment(x, 3), w.segment(x, 3), tl(t), key); };
    auto rot = [&](long x, long t) {
      c.near(rotOf(g, x), rotOf(w, x), tl(t), key);
      c.near(g.segment(x, 4).norm(), 1, 1e-6, "unit quaternion");
    };
    lin(0, 0), rot(3, 3), lin(7, 6), lin(10, 9);
    for(unsigned i = 0; i < r.ni; ++i) lin(r.xb(i), r.tb(i));
    lin(r.xu(), r.tu()), lin(r.xu() + 3, r.tu() + 3);
    for(unsigned i = 0; i < r.nc; ++i)
      if(r.con[i].set)
      {
        long x = r.xc(i), t = r.tc(i);
        lin(x, t), rot(x + 3, t + 3), lin(x + 7, t + 6), lin(x + 10, t + 9);
      }
  }
  void filterAgrees(C & c)
  {
    c.near(o.getEKF().getCurrentEstimatedState(), o.getCurrentStateVector(), 1e-12, "the filter holds the current state");
    c.require(long(o.getStateVectorTimeIndex()) == r.kEst, "time index of the state");
  }
};
} // namespace koref
