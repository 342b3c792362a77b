// C18: the flexibility estimators stay consistent under any configuration order.
#include "kinref.hpp"
#include "mc.hpp"
#include <memory>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using mc::C;
using kref::expm;
using kref::logm;
typedef IMUElasticLocalFrameDynamicalSystem Sys;
typedef ModelBaseEKFFlexEstimatorIMU Est;
typedef FixedContactEKFFlexEstimatorIMU Fix;

namespace
{
const double nanv = std::numeric_limits<double>::quiet_NaN();

/// extended Kalman filter step: predicted state, Jacobians, predicted measurement -> new state and covariance
void ekfStep(const Vector & xbar,
             const Matrix & A,
             const Vector & ybar,
             const Matrix & Cm,
             const Matrix & Q,
             const Matrix & R,
             const Vector & y,
             Vector & x,
             Matrix & P,
             Vector & inno,
             double & scale)
{
  Matrix Pb = A * P * A.transpose() + Q;
  scale = Pb.hasNaN() ? 0 : Pb.cwiseAbs().maxCoeff();
  Matrix S = Cm * Pb * Cm.transpose() + R;
  Matrix K = S.ldlt().solve(Cm * Pb.transpose()).transpose();
  inno = K * (y - ybar);
  x = xbar + inno;
  Matrix Pn = (Matrix::Identity(P.rows(), P.cols()) - K * Cm) * Pb;
  P = (Pn + Pn.transpose()) / 2;
}
Matrix diag(std::initializer_list<std::pair<int, double>> blocks)
{
  int n = 0;
  for(auto & b : blocks) n += b.first;
  Matrix m = Matrix::Zero(n, n);
  int k = 0;
  for(auto & b : blocks)
    for(int i = 0; i < b.first; ++i, ++k) m(k, k) = b.second;
  return m;
}
bool sameMatrix(const Matrix & a, const Matrix & b, double tol = 1e-9)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && !a.hasNaN() && (a - b).cwiseAbs().maxCoeff() <= tol * (1e-12 + b.cwiseAbs().maxCoeff());
}
/// inputs by time, as the estimators keep them
struct Inputs
{
  std::map<long, Vector> u;
  void set(const Vector & v, long k)
  {
    u[k] = v;
  }
  bool has(long k) const
  {
    return u.count(k) > 0;
  }
  void upTo(long k)
  {
    while(!u.empty() && u.begin()->first < k) u.erase(u.begin());
  }
};

// ---- model based estimator ------------------------------------------------------------------------------------------
struct Ref
{
  Sys s; // the model itself is decided by another property
  unsigned n = 0;
  bool ft = false, abs = false, bias = false, unm = false, on = true, limits = true;
  Matrix imu = Matrix::Identity(6, 6) * 1e-6, force = Matrix::Identity(6, 6) * 1e-4;
  double absVar = 1e-4;
  Matrix F[2], Ab; // blocks in use
  Matrix Q, P;
  Vector x, last, xbar, ybar, inno;
  Vector3 fmax, tmax;
  Inputs u;
  bool hasY = false, estimated = false;
  Vector y;
  long k = 0;
  double scale = 0; // magnitude of the predicted covariance: what rounding is relative to
  explicit Ref(double dt) : s(dt)
  {
    Vector dx = Vector::Constant(35, 1e-8);
    dx.segment(3, 3).setConstant(1e-4);
    dx.segment(9, 3).setConstant(1e-4);
    s.setFDstep(dx);
    Q = defaultQ();
    P = Q;
    x = last = Vector::Zero(35);
    fmax = 9.8 * hrp2::m * Vector3(100, 100, 1000);
    tmax = 9.8 * hrp2::m * Vector3(10, 10, 100);
  }
  Matrix defaultQ() const
  {
    return diag({{12, 1e-8}, {12, 1e-4}, {6, unm ? 1e-2 : 0}, {2, bias ? 2.5e-10 : 0}, {3, abs ? 1e-8 : 0}});
  }
  long measure() const
  {
    return 6 + (ft ? 6 * n : 0) + (abs ? 6 : 0);
  }
  Matrix R() const
  {
    Matrix r = Matrix::Zero(measure(), measure());
    r.topLeftCorner(6, 6) = imu;
    long k = 6;
    if(ft)
      for(unsigned i = 0; i < n; ++i, k += 6) r.block(k, k, 6, 6) = F[i];
    if(abs) r.block(k, k, 6, 6) = Ab;
    return r;
  }
  void fillForce()
  {
    for(auto & f : F) f = force;
  }
  void fillAbs()
  {
    Ab = Matrix::Identity(6, 6) * absVar;
  }
  /// a change of the size of the measurement drops the pending one
  template<typename G>
  void resize(G g)
  {
    long m = measure();
    g();
    if(measure() != m) hasY = false;
  }
  void resetAll()
  {
    imu = Matrix::Identity(6, 6) * 1e-6;
    fillForce();
    fillAbs();
    Q = defaultQ();
    P = Q;
  }
  const Vector & estimate()
  {
    if(!on)
    {
      last.setZero();
      x = last;
      if(hasY)
      {
        hasY = false;
        u.u.clear();
        P = Q;
      }
      return last;
    }
    if(hasY)
    {
      xbar = s.stateDynamics(x, u.u.at(k), k);
      ybar = s.measureDynamics(xbar, u.u.at(k + 1), k + 1);
      Matrix A = s.stateDynamicsJacobian(), Cm = s.measureDynamicsJacobian();
      Vector xn;
      Matrix Pn = P;
      ekfStep(xbar, A, ybar, Cm, Q, R(), y, xn, Pn, inno, scale);
      ++k;
      hasY = false;
      u.upTo(k);
      P = Pn;
      estimated = true;
      if(xn.hasNaN())
      {
        x = last;
        if(k > 1) resetAll();
      }
      else
      {
        last = xn;
        last.segment(3, 3) = kine::regulateOrientationVector(Vector3(last.segment(3, 3)));
        if(limits)
          for(int c = 0; c < 2; ++c)
            for(int i = 0; i < 3; ++i)
            {
              double & f = last(12 + 6 * c + i);
              f = std::max(-fmax(i), std::min(fmax(i), f));
              double & t = last(15 + 6 * c + i);
              t = std::max(-tmax(i), std::min(tmax(i), t));
            }
        x = last;
      }
    }
    return last;
  }
};
struct Pair
{
  Est e;
  Ref r;
  explicit Pair(double dt = 0.005) : e(dt), r(dt)
  {
    r.fillForce();
    r.fillAbs();
  }
  void contacts(unsigned n)
  {
    e.setContactsNumber(n);
    bool ch = n != r.n;
    r.resize([&] {
      for(unsigned i = r.n; i < n && i < 2; ++i) r.F[i] = r.force; // new contacts
      if(r.ft && ch) r.fillAbs();
      r.n = n;
    });
    r.s.setContactsNumber(n);
    if(ch) r.u.u.clear();
  }
  void ft(bool b)
  {
    e.setWithForcesMeasurements(b);
    r.resize([&] {
      if(b != r.ft) r.fillForce(), r.fillAbs();
      r.ft = b;
    });
    r.s.setWithForceMeasurements(b);
  }
  void abs(bool b)
  {
    e.setWithAbsolutePos(b);
    r.resize([&] {
      if(b && !r.abs) r.fillAbs();
      r.abs = b;
    });
    r.s.setWithAbsolutePosition(b);
  }
  void unm(bool b)
  {
    e.setWithUnmodeledForces(b);
    r.unm = b;
    r.s.setWithUnmodeledForces(b);
  }
  void bias(bool b)
  {
    e.setWithComBias(b);
    r.bias = b;
    r.s.setWithComBias(b);
  }
  void check(C & c)
  {
    c.require(e.getStateSize() == 35, "state size");
    c.require(e.getMeasurementSize() == r.measure(), "measurement size follows the configuration");
    c.require(e.getEKF().getMeasureSize() == r.measure(), "the filter has the measurement size of the configuration");
    c.require(e.getInputSize() == long(48 + 12 * r.n), "input size follows the configuration");
    c.require(e.getContactsNumber() == r.n, "contacts number");
    c.require(e.getWithForcesMeasurements() == r.ft && e.getWithAbsolutePos() == r.abs && e.getWithComBias() == r.bias
                  && e.getWithUnmodeledForces() == r.unm && e.getLimitOn() == r.limits,
              "options");
    c.require(e.getForcesLimit() == r.fmax && e.getTorquesLimit() == r.tmax, "limits");
    Matrix R = r.R();
    c.require(sameMatrix(e.getMeasurementNoiseCovariance(), R), "measurement noise follows the configuration",
              [&] { return "measurement noise: got " + mc::str(e.getMeasurementNoiseCovariance()) + " expected " + mc::str(R); });
    c.require(sameMatrix(e.getEKF().getR(), R), "the filter uses the measurement noise of the configuration");
    c.require(sameMatrix(e.getProcessNoiseCovariance(), r.Q), "process noise follows the configuration",
              [&] { return "process noise: got " + mc::str(e.getProcessNoiseCovariance().diagonal()) + " expected " + mc::str(r.Q.diagonal()); });
    c.require(sameMatrix(e.getEKF().getQ(), r.Q), "the filter uses the process noise of the configuration");
    Matrix P = e.getFlexibilityCovariance();
    c.require(P.rows() == 35 && P.cols() == 35, "covariance size");
    c.require(Vector(P.diagonal()).isApprox(e.getStateCovariance()) || P.hasNaN(), "covariance diagonal");
    if(!r.P.hasNaN())
    {
      c.near(P, r.P, 1e-6 + 1e-7 * r.scale, "covariance of the flexibility");
      c.near(P.block(0, 0, 12, 12) * 1e7, r.P.block(0, 0, 12, 12) * 1e7, 1e-4, "covariance of the pose");
      r.P = P; // every step is judged from where the real one starts: finite differences amplify rounding
    }
  }
  void compareState(C & c, const Vector & got, const Vector & w, const char * key)
  {
    c.require(got.size() == 35, "size of the flexibility");
    c.require(!got.hasNaN(), "the estimate stays finite");
    c.near(got.head(3), w.head(3), 1e-6, key);
    c.near(expm(Vector3(got.segment(3, 3))), expm(Vector3(w.segment(3, 3))), 1e-6, key);
    c.near(got.segment(6, 6), w.segment(6, 6), 1e-5, key);
    c.near(got.segment(12, 12), w.segment(12, 12), 1e-4, key);
    c.near(got.tail(11), w.tail(11), 1e-4, key);
    c.state(mc::hashM(3, got));
  }
  void estimate(C & c)
  {
    if(r.on && r.hasY && !(r.u.has(r.k) && r.u.has(r.k + 1))) throw mc::Prune(); // the inputs have to be given
    Vector got = e.getFlexibilityVector();
    const Vector w = r.estimate();
    compareState(c, got, w, "estimate");
    r.x = r.last = got;
    c.require(Vector3(got.segment(3, 3)).norm() <= 1.5 * M_PI + 1e-9, "the orientation is regulated");
    c.require(long(e.getEKF().getCurrentTime()) == r.k, "one step per measurement");
    Matrix4 M = e.getFlexibility();
    c.near(M.block(0, 0, 3, 3), expm(Vector3(w.segment(3, 3))), 1e-6, "homogeneous matrix");
    c.near(M.block(0, 3, 3, 1), w.head(3), 1e-6, "homogeneous matrix");
    c.near(M.row(3), Eigen::RowVector4d(0, 0, 0, 1), 0, "homogeneous matrix");
    c.near(e.getForcesAndMoments(), w.segment(12, 6 * r.n), 1e-5, "contact wrenches of the estimate");
    if(!r.on) c.require(got.isZero(0) && e.getEKF().getMeasurementsNumber() == 0, "switched off");
  }
};

// data near the rest position of a robot standing on its contacts
Vector inputOf(int i, unsigned n)
{
  Vector u = Vector::Zero(48 + 12 * n);
  u.segment(0, 3) << 0.01 * i, -0.005, 0.8; // com
  u.segment(3, 3) << 0.02, -0.01 * i, 0;
  u.segment(6, 3) << 0.1 * i, 0, -0.1;
  u.segment(9, 6) << 100, 110, 70 + i, 1, -2, 0.5;
  u.segment(15, 3) << 0.2 * i, 0.1, 0;
  u.segment(24, 3) << 0.3, -0.2 * i, 0.1;
  u.segment(27, 3) << -0.1, 0, 1.1;
  u.segment(30, 3) << 0, 0.1 * i, 0.2;
  u.segment(36, 3) << 0.05 * i, 0, -0.02;
  u.segment(39, 3) << 0, 0.2 * i, 0.1;
  u.segment(42, 3) << 3.0 * i, 0, -1;
  for(unsigned k = 0; k < n; ++k)
  {
    u.segment(48 + 12 * k, 3) << 0.01 * i, k ? -0.09 : 0.09, 0;
    u.segment(51 + 12 * k, 3) << 0, 0.02 * i, 0.1 * k;
  }
  return u;
}
Vector guessOf(int i, unsigned n)
{
  Vector x = Vector::Zero(35);
  x.segment(0, 3) << 0.001 * i, -0.001, -0.0005;
  x.segment(3, 3) << 0.004, -0.003 * i, 0.002;
  x.segment(6, 3) << 0.01, 0, -0.02 * i;
  x.segment(9, 3) << 0.03 * i, -0.02, 0;
  for(unsigned k = 0; k < n; ++k) x.segment(12 + 6 * k, 6) << 4, -3 * i, 500. / n, 2, 1 - i, 0.5;
  x.segment(30, 2) << 0.01 * i, -0.02;
  x.segment(32, 3) << 0.2, 0.1 * i, 0.05;
  return x;
}
Vector measureOf(const Ref & r, int i)
{
  Vector y = Vector::Zero(r.measure());
  y.head(6) << 0.3 * i, -0.2, 9.7, 0.02, -0.01 * i, 0.03;
  long k = 6;
  if(r.ft)
    for(unsigned j = 0; j < r.n; ++j, k += 6) y.segment(k, 6) << 3, -2 * i, 480. / r.n, 1, 2, -i;
  if(r.abs) y.segment(k, 6) << 0.2, 0.1 * i, 0.001, 0.002, -0.001, 0.05;
  if(i == 3) y(1) = nanv;
  return y;
}
Matrix userR(const Ref & r, bool full)
{
  Matrix m = full ? r.R() : r.imu;
  m.topLeftCorner(6, 6) = diag({{3, 2e-4}, {3, 3e-5}});
  m(0, 1) = m(1, 0) = 1e-5;
  if(full && r.ft)
    for(unsigned i = 0; i < r.n; ++i) m.block(6 + 6 * i, 6 + 6 * i, 6, 6) = diag({{3, 7e-2 + i}, {3, 5e-3}});
  return m;
}

const int nConf = 24;
/// one configuration operation; i distinguishes the values
void config(C & c, Pair & p, int op, int i)
{
  Ref & r = p.r;
  switch(op)
  {
    case 0:
      c.step([] { return "contacts +1"; });
      p.contacts((r.n + 1) % 3);
      break;
    case 1:
      c.step([] { return "contacts +2"; });
      p.contacts((r.n + 2) % 3);
      break;
    case 2:
      c.step([] { return "toggle force measurements"; });
      p.ft(!r.ft);
      break;
    case 3:
      c.step([] { return "toggle absolute position"; });
      p.abs(!r.abs);
      break;
    case 4:
      c.step([] { return "toggle unmodelled forces"; });
      p.unm(!r.unm);
      break;
    case 5:
      c.step([] { return "toggle com bias"; });
      p.bias(!r.bias);
      break;
    case 6:
      c.step([] { return "setForceVariance(scalar)"; });
      p.e.setForceVariance(1e-2 * (i + 1));
      r.force = Matrix::Identity(6, 6) * 1e-2 * (i + 1);
      r.fillForce();
      break;
    case 7:
    {
      c.step([] { return "setForceVariance(3x3)"; });
      Matrix3 v;
      v << 2, 0.1, 0, 0.1, 3 + i, 0.2, 0, 0.2, 1;
      v *= 1e-3;
      p.e.setForceVariance(v);
      r.force.setZero();
      r.force.topLeftCorner(3, 3) = v;
      r.force.bottomRightCorner(3, 3) = v;
      r.fillForce();
      break;
    }
    case 8:
      c.step([] { return "setAbsolutePosVariance"; });
      p.e.setAbsolutePosVariance(r.absVar = 1e-3 * (i + 2));
      r.fillAbs();
      break;
    case 9:
      c.step([] { return "setMeasurementNoiseCovariance (inertial part)"; });
      {
        Matrix m = userR(r, false);
        p.e.setMeasurementNoiseCovariance(m);
        r.imu = m;
        r.fillForce();
        r.fillAbs();
      }
      break;
    case 10:
      c.step([] { return "setMeasurementNoiseCovariance (all)"; });
      {
        Matrix m = userR(r, true);
        p.e.setMeasurementNoiseCovariance(m);
        r.imu = m.topLeftCorner(6, 6);
        if(r.ft)
          for(unsigned k = 0; k < r.n; ++k) r.F[k] = m.block(6 + 6 * k, 6 + 6 * k, 6, 6);
      }
      break;
    case 11:
      c.step([] { return "setProcessNoiseCovariance"; });
      r.Q = diag({{12, 2e-8 * (i + 1)}, {12, 3e-3}, {6, 1e-5}, {2, 1e-9}, {3, 1e-7}});
      p.e.setProcessNoiseCovariance(r.Q);
      break;
    case 12:
      c.step([] { return "resetCovarianceMatrices"; });
      p.e.resetCovarianceMatrices();
      r.resetAll();
      break;
    case 13:
      c.step([] { return "resetStateCovarianceMatrix"; });
      p.e.resetStateCovarianceMatrix();
      r.P = r.Q;
      break;
    case 14:
    case 22:
      c.step([&] { return op == 14 ? "setUnmodeledForceVariance" : "setUnmodeledForceVariance(0)"; });
      p.e.setUnmodeledForceVariance(op == 14 ? 1e-3 * (i + 1) : 0);
      r.P.diagonal().segment(24, 6).setConstant(op == 14 ? 1e-3 * (i + 1) : 0);
      if(op == 14)
      {
        r.unm = true;
        r.s.setWithUnmodeledForces(true);
      }
      break;
    case 15:
    case 23:
      c.step([&] { return op == 15 ? "setUnmodeledForceProcessVariance" : "setUnmodeledForceProcessVariance(0)"; });
      p.e.setUnmodeledForceProcessVariance(op == 15 ? 2e-4 * (i + 1) : 0);
      r.Q.diagonal().segment(24, 6).setConstant(op == 15 ? 2e-4 * (i + 1) : 0);
      if(op == 15)
      {
        r.unm = true;
        r.s.setWithUnmodeledForces(true);
      }
      break;
    case 16:
      c.step([] { return "setFlexibilityCovariance"; });
      r.P = diag({{12, 3e-7 * (i + 1)}, {12, 1e-2}, {6, 1e-4}, {2, 1e-6}, {3, 1e-3}});
      p.e.setFlexibilityCovariance(r.P);
      break;
    case 17:
      c.step([] { return "setSamplingPeriod"; });
      p.e.setSamplingPeriod(0.002 * (i + 1));
      r.s.setSamplingPeriod(0.002 * (i + 1));
      break;
    case 18:
      c.step([] { return "mechanical parameters"; });
      p.e.setRobotMass(50 + i);
      r.s.setRobotMass(50 + i);
      p.e.setKfe(3e4 * Matrix3::Identity()), r.s.setKfe(3e4 * Matrix3::Identity());
      p.e.setKte(500 * Matrix3::Identity()), r.s.setKte(500 * Matrix3::Identity());
      p.e.setKfv(400 * Matrix3::Identity()), r.s.setKfv(400 * Matrix3::Identity());
      p.e.setKtv(30 * Matrix3::Identity()), r.s.setKtv(30 * Matrix3::Identity());
      c.require(p.e.getRobotMass() == 50 + i && p.e.getKfe() == r.s.getKfe() && p.e.getKte() == r.s.getKte()
                    && p.e.getKfv() == r.s.getKfv() && p.e.getKtv() == r.s.getKtv(),
                "mechanical parameters");
      break;
    case 19:
      c.step([] { return "rope parameters, pendulum"; });
      p.e.setContactModel(Est::contactModel::pendulum + 0), r.s.setContactModel(Sys::contactModel::pendulum + 0);
      p.e.setPe(Vector3(0.1, 0, 2.5)), r.s.setPe(Vector3(0.1, 0, 2.5));
      p.e.setKfeRopes(2e4 * Matrix3::Identity()), r.s.setKfeRopes(2e4 * Matrix3::Identity());
      p.e.setKteRopes(500 * Matrix3::Identity()), r.s.setKteRopes(500 * Matrix3::Identity());
      p.e.setKfvRopes(400 * Matrix3::Identity()), r.s.setKfvRopes(400 * Matrix3::Identity());
      p.e.setKtvRopes(30 * Matrix3::Identity()), r.s.setKtvRopes(30 * Matrix3::Identity());
      break;
    case 20:
      c.step([] { return "limits"; });
      p.e.setForcesLimit(r.fmax = Vector3(3, 4 + i, 100)), p.e.setTorquesLimit(r.tmax = Vector3(1, 0.5, 0.25));
      break;
    default:
      c.step([] { return "limits toggled"; });
      p.e.setLimitOn(r.limits = !r.limits);
      break;
  }
}
/// one measurement with its inputs and the estimation
void cycle(C & c, Pair & p, int i)
{
  Ref & r = p.r;
  Vector u = inputOf(i, r.n), y = measureOf(r, i);
  if(r.u.u.empty()) r.u.set(u, r.k);
  p.e.setMeasurementInput(u);
  r.u.set(u, r.k + 1);
  p.e.setMeasurement(y);
  r.y = y, r.hasY = true;
  c.step([&] { return "measurement " + mc::str(y) + " and estimation"; });
  p.estimate(c);
  p.check(c);
}
} // namespace

// every order of configuration operations, then estimation
MC_SUITE(configurations, 2)
{
  Pair p(c.flag() ? 0.005 : 0.003);
  p.e.setContactModel(Est::contactModel::elasticContact + 0);
  p.r.s.setContactModel(Sys::contactModel::elasticContact + 0);
  p.check(c);
  const int depth = c.t(3, 4);
  for(int i = 0; i < depth; ++i)
  {
    config(c, p, c.choose(nConf), i);
    p.check(c);
  }
  if(c.flag())
  {
    Vector g = guessOf(1, p.r.n);
    p.e.setFlexibilityGuess(g);
    p.r.x = p.r.last = g;
  }
  cycle(c, p, 1);
  p.check(c);
  cycle(c, p, 2);
  p.check(c);
}

// the options that lay out the measurement, deeper
MC_SUITE(layout, 2)
{
  Pair p;
  p.e.setContactModel(Est::contactModel::elasticContact + 0);
  p.r.s.setContactModel(Sys::contactModel::elasticContact + 0);
  static const std::vector<int> ops = {0, 1, 2, 3, 6, 7, 8, 9, 10, 12};
  const int depth = c.t(5, 6);
  for(int i = 0; i < depth; ++i)
  {
    config(c, p, c.pick(ops), i);
    p.check(c);
  }
}

// histories of data, guesses, settings and queries
MC_SUITE(histories, 2)
{
  Pair p;
  Ref & r = p.r;
  p.e.setContactModel(Est::contactModel::elasticContact + 0);
  r.s.setContactModel(Sys::contactModel::elasticContact + 0);
  int start = c.choose(3);
  p.contacts(start == 0 ? 2 : 1);
  if(start > 0) p.ft(true);
  if(start == 2) p.abs(true), p.bias(true), p.unm(true), p.e.resetCovarianceMatrices(), r.resetAll();
  const int depth = c.t(4, 5);
  for(int i = 0; i < depth; ++i)
  {
    switch(i == depth - 1 ? c.choose(4) : c.choose(20))
    {
      case 0: cycle(c, p, 1); break;
      case 1: cycle(c, p, 2); break;
      case 2: cycle(c, p, 3); break; // a measurement with a NaN
      case 3:
        c.step([] { return "estimate"; });
        p.estimate(c);
        break;
      case 4:
        c.step([] { return "measurement only"; });
        r.y = measureOf(r, 1), r.hasY = true;
        p.e.setMeasurement(r.y);
        c.near(p.e.getMeasurement(), r.y, 0, "pending measurement");
        break;
      case 5:
      {
        c.step([] { return "input only"; });
        Vector u = inputOf(2, r.n);
        p.e.setInput(u);
        r.u.set(u, r.k);
        c.near(p.e.getInput(), u, 0, "input");
        break;
      }
      case 6:
      {
        c.step([] { return "measurement input only"; });
        Vector u = inputOf(2, r.n);
        p.e.setMeasurementInput(u);
        if(r.u.u.empty()) r.u.set(u, r.k);
        r.u.set(u, r.k + 1);
        c.near(p.e.getMeasurementInput(), u, 0, "measurement input");
        break;
      }
      case 7:
      {
        c.step([] { return "guess of the whole state"; });
        Vector g = guessOf(1, r.n);
        p.e.setFlexibilityGuess(g);
        r.x = r.last = g;
        break;
      }
      case 8:
      case 9:
      {
        c.step([] { return "guess of the pose"; });
        Vector6 g;
        g << 0.001, -0.002, 0.0005, 0.003, 0.002, -0.004;
        if(c.flag())
          p.e.setFlexibilityGuess(g);
        else
        {
          Matrix4 m = Matrix4::Identity();
          m.block(0, 0, 3, 3) = expm(Vector3(g.tail(3)));
          m.block(0, 3, 3, 1) = g.head(3);
          p.e.setFlexibilityGuess(m);
          g = kine::homogeneousMatrixToVector6(m); // finite differences amplify the last bits
        }
        r.x = Vector::Zero(35);
        r.x.head(6) = g;
        r.last = r.x;
        break;
      }
      case 10:
        c.step([] { return "guess of the com bias"; });
        p.e.setComBiasGuess(Vector2(0.02, -0.01));
        r.last.segment(30, 2) << 0.02, -0.01;
        r.x = r.last;
        break;
      case 11:
      {
        c.step([] { return "toggle on"; });
        r.on = !r.on;
        bool b = r.on;
        p.e.setOn(b);
        break;
      }
      case 12: config(c, p, 20, 0); break; // limits
      case 13: config(c, p, 2, i); break;
      case 14: config(c, p, 0, i); break;
      case 15: config(c, p, 3, i); break;
      case 16: config(c, p, 17, i); break; // sampling period
      case 17: config(c, p, 12, i); break; // reset of the covariances
      case 18: // queries
        c.step([] { return "queries"; });
        if(!r.u.has(r.k) || !r.u.has(r.k + 1) || !r.on) throw mc::Prune();
        p.compareState(c, p.e.getPrediction(), r.s.stateDynamics(r.x, r.u.u[r.k], r.k), "prediction");
        c.near(p.e.getPredictedMeasurement(), r.s.measureDynamics(r.s.stateDynamics(r.x, r.u.u[r.k], r.k), r.u.u[r.k + 1], r.k + 1), 1e-6,
               "predicted measurement");
        {
          Vector a = p.e.computeAccelerations(), f = p.e.getMomentaDotFromForces(), m = p.e.getMomentaDotFromKinematics(),
                 y = p.e.getSimulatedMeasurement();
          Vector w = r.estimate(), u = r.u.u.at(r.k);
          c.near(a, r.s.computeAccelerations(w, u), 1e-6, "accelerations");
          c.near(f, r.s.getMomentaDotFromForces(w, u), 1e-6, "momenta rate");
          c.near(m, r.s.getMomentaDotFromKinematics(w, u), 1e-6, "momenta rate");
          c.near(y, r.s.measureDynamics(w, u, r.k), 1e-6, "simulated measurement");
          p.estimate(c);
        }
        break;
      default:
        c.step([] { return "last innovation and predictions"; });
        if(!r.estimated || r.inno.hasNaN()) throw mc::Prune();
        c.near(p.e.getInnovation(), r.inno, 1e-5, "innovation");
        p.compareState(c, p.e.getLastPrediction(), r.xbar, "last prediction");
        c.near(p.e.getLastPredictedMeasurement(), r.ybar, 1e-6, "last predicted measurement");
        {
          Matrix a = p.e.getEKF().getA(), h = p.e.getEKF().getC();
          if(h.rows() == p.e.getMeasurementSize() && h.cols() == a.rows() && a.rows() == p.e.getStateSize())
          {
            Matrix o = p.e.computeLocalObservationMatrix(), w(2 * h.rows(), h.cols());
            w << h, h * a;
            c.near(o, w, 1e-9, "local observation matrix");
          }
        }
    }
    p.check(c);
  }
}

// a long life: many steps, with a disturbance at every position
MC_SUITE(longRun, 1)
{
  Pair p;
  Ref & r = p.r;
  p.e.setContactModel(Est::contactModel::elasticContact + 0);
  r.s.setContactModel(Sys::contactModel::elasticContact + 0);
  p.contacts(2);
  p.ft(c.flag());
  const int steps = c.t(30, 80), at = c.choose(steps), what = c.choose(7);
  for(int i = 0; i < steps; ++i)
  {
    int y = 1 + (i * i + i / 3) % 2;
    if(i == at)
      switch(what)
      {
        case 0: break;
        case 1: y = 3; break;
        case 2: p.ft(!r.ft); break;
        case 3: p.contacts(1); break;
        case 4:
        {
          r.on = false;
          bool b = false;
          p.e.setOn(b);
          break;
        }
        case 5:
        {
          Vector g = guessOf(2, 2);
          p.e.setFlexibilityGuess(g);
          r.x = r.last = g;
          break;
        }
        default: p.e.resetCovarianceMatrices(), r.resetAll(); break;
      }
    if(i == at + 2 && what == 4)
    {
      r.on = true;
      bool b = true;
      p.e.setOn(b);
    }
    cycle(c, p, y);
  }
  p.check(c);
}

// orientations beyond half a turn and forces beyond their limits are brought back
MC_SUITE(bounds, 1)
{
  Pair p;
  Ref & r = p.r;
  p.e.setContactModel(Est::contactModel::elasticContact + 0);
  r.s.setContactModel(Sys::contactModel::elasticContact + 0);
  p.contacts(2);
  p.ft(true);
  r.P = diag({{12, 1e-8}, {12, 1}, {11, 0}});
  p.e.setFlexibilityCovariance(r.P);
  config(c, p, 20, 0);
  if(c.flag()) config(c, p, 21, 0);
  int s = c.choose(64);
  Vector y = measureOf(r, 1);
  for(int i = 0; i < 12; ++i) y(6 + i) = (s >> (i % 6) & 1 ? -1 : 1) * (i % 3 == 1 ? 0.1 : 700) * (i < 6 ? 1 : 0.7);
  Vector u = inputOf(1, 2);
  p.e.setMeasurementInput(u);
  r.u.set(u, 0), r.u.set(u, 1);
  p.e.setMeasurement(y);
  r.y = y, r.hasY = true;
  c.step([&] { return "measurement " + mc::str(y); });
  p.estimate(c);
  p.check(c);
  if(r.limits)
    for(int k = 0; k < 2; ++k)
      for(int i = 0; i < 3; ++i)
        c.require(std::fabs(p.e.getForcesAndMoments()(6 * k + i)) <= r.fmax(i) && std::fabs(p.e.getForcesAndMoments()(6 * k + 3 + i)) <= r.tmax(i),
                  "limits of forces and torques");
  cycle(c, p, 2);
}
namespace
{
// ---- fixed contact estimator ----------------------------------------------------------------------------------------
struct FRef
{
  IMUFixedContactDynamicalSystem s;
  unsigned n = 0;
  double virt = 1e-10;
  Matrix imu, Q, P;
  Vector x, last, dx, inno, xbar, ybar;
  Inputs u;
  bool hasY = false, estimated = false;
  Vector y;
  long k = 0;
  double scale = 0; // magnitude of the predicted covariance: what rounding is relative to
  explicit FRef(double dt) : s(dt)
  {
    reset();
    x = last = Vector::Zero(18);
    P = Q;
    dx = Vector::Constant(18, 1e-8);
    dx.segment(3, 3).setConstant(1e-4);
    dx.segment(9, 3).setConstant(1e-4);
  }
  void reset()
  {
    imu = Matrix::Identity(6, 6) * 1e-6;
    Q = diag({{6, 1e-8}, {6, 1e-4}, {6, 1e-2}});
    P = Matrix::Identity(18, 18) * 1e-2;
  }
  Matrix R() const
  {
    Matrix r = Matrix::Zero(6 + 3 * n, 6 + 3 * n);
    r.topLeftCorner(6, 6) = imu;
    for(unsigned i = 6; i < 6 + 3 * n; ++i) r(i, i) = virt;
    return r;
  }
  const Vector & estimate()
  {
    if(hasY)
    {
      Vector z = Vector::Zero(15), um = u.has(k + 1) ? u.u[k + 1] : z;
      xbar = s.stateDynamics(x, z, k);
      ybar = s.measureDynamics(xbar, um, k + 1);
      Matrix A(18, 18), Cm(6 + 3 * n, 18);
      for(int i = 0; i < 18; ++i)
      {
        Vector d = x;
        d(i) += dx(i);
        A.col(i) = (s.stateDynamics(d, z, k) - xbar) / dx(i);
        d = xbar;
        d(i) += dx(i);
        Cm.col(i) = (s.measureDynamics(d, um, k + 1) - ybar) / dx(i);
      }
      Vector xn, y2 = Vector::Zero(6 + 3 * n);
      y2.head(6) = y;
      ekfStep(xbar, A, ybar, Cm, Q, R(), y2, xn, P, inno, scale);
      ++k;
      hasY = false;
      estimated = true;
      u.upTo(k);
      if(xn.hasNaN())
      {
        if(k > 1) reset();
      }
      else
        last = xn;
      last.segment(3, 3) = kine::regulateOrientationVector(Vector3(last.segment(3, 3)));
      x = last;
    }
    return last;
  }
};
struct FPair
{
  Fix e;
  FRef r;
  explicit FPair(double dt = 0.005) : e(dt), r(dt) {}
  void check(C & c)
  {
    c.require(e.getStateSize() == 18 && e.getMeasurementSize() == 6 && e.getInputSize() == 15, "sizes");
    c.require(e.getEKF().getMeasureSize() == 6 + 3 * long(r.n), "the filter measures the contacts");
    c.require(sameMatrix(e.getMeasurementNoiseCovariance(), r.imu), "measurement noise");
    c.require(sameMatrix(e.getEKF().getR(), r.R()), "the filter uses the measurement noise of the configuration",
              [&] { return "noise of the filter: got " + mc::str(e.getEKF().getR()) + " expected " + mc::str(r.R()); });
    c.require(sameMatrix(e.getProcessNoiseCovariance(), r.Q) && sameMatrix(e.getEKF().getQ(), r.Q), "process noise");
    c.require(e.getVirtualMeasurementsCovariance() == r.virt, "virtual covariance");
    if(!r.P.hasNaN())
    {
      c.near(e.getFlexibilityCovariance(), r.P, 1e-6, "covariance of the flexibility");
      r.P = e.getFlexibilityCovariance();
    }
  }
  void compare(C & c, const Vector & g, const Vector & w, const char * key)
  {
    c.require(g.size() == 18 && !g.hasNaN(), "the estimate stays finite");
    // the default covariance of the virtual measurements makes the filter badly conditioned
    double tol = r.virt < 1e-7 ? 1e-3 : 1e-6;
    c.near(g.head(3), w.head(3), tol, key);
    c.near(expm(Vector3(g.segment(3, 3))), expm(Vector3(w.segment(3, 3))), tol, key);
    c.near(g.tail(12), w.tail(12), tol, key);
    c.state(mc::hashM(5, g));
  }
  void estimate(C & c)
  {
    const bool fresh = r.hasY;
    Vector g = e.getFlexibilityVector();
    const Vector w = r.estimate();
    compare(c, g, w, "estimate");
    r.x = r.last = g;
    c.require(!fresh || Vector3(g.segment(3, 3)).norm() <= 1.5 * M_PI + 1e-9, "the orientation is regulated");
    c.require(long(e.getEKF().getCurrentTime()) == r.k, "one step per measurement");
    Matrix4 M = e.getFlexibility();
    c.near(M.block(0, 0, 3, 3), expm(Vector3(g.segment(3, 3))), 1e-9, "homogeneous matrix");
    c.near(M.block(0, 3, 3, 1), g.head(3), 1e-9, "homogeneous matrix");
  }
  void data(C & c, int i)
  {
    Vector u(15), y(6);
    u << 0.1, 0, 1.1, 0.02 * i, 0.1, 0, 0.1, 0, 0.02 * i, 0, 0.03, 0, 0.2 * i, 0, 0.1;
    y << 0.2, -0.3 * i, 9.7, 0.02, -0.03, 0.04 * i;
    if(i == 3) y(4) = nanv;
    if(r.u.u.empty()) r.u.set(u, r.k);
    e.setMeasurementInput(u);
    r.u.set(u, r.k + 1);
    e.setMeasurement(y);
    r.y = y, r.hasY = true;
    c.step([&] { return "measurement " + mc::str(y); });
  }
  void cycle(C & c, int i)
  {
    data(c, i);
    c.step([&] { return "estimation"; });
    estimate(c);
    check(c);
  }
};
} // namespace

MC_SUITE(fixedContact, 2)
{
  FPair p;
  FRef & r = p.r;
  if(c.flag()) p.e.setVirtualMeasurementsCovariance(r.virt = 1e-5);
  const int depth = c.t(5, 6);
  for(int i = 0; i < depth; ++i)
  {
    switch(i == depth - 1 ? c.choose(3) : c.choose(17))
    {
      case 0: p.cycle(c, 1); break;
      case 1: p.cycle(c, 2); break;
      case 2: p.cycle(c, 3); break;
      case 15:
        p.data(c, 1);
        break;
      case 16:
      {
        c.step([] { return "guess of the state, more than half a turn"; });
        Vector g = Vector::Zero(18);
        g << 0.01, 0, -0.02, 0.2, 5, 0, 0.1, 0, 0, 0, 0.1, 0, 0.2, 0, 0, 0, 0, 0.3;
        p.e.setFlexibilityGuess(g);
        r.x = r.last = g;
        break;
      }
      case 3:
      case 4:
      {
        const unsigned ns[] = {0, 1, 2, 5};
        unsigned at = r.n == 5 ? 3 : r.n, n = ns[(at + 1 + unsigned(c.choose(3))) % 4];
        c.step([&] { return "contacts " + std::to_string(n); });
        p.e.setContactsNumber(n);
        r.s.setContactsNumber(n);
        for(unsigned k = 0; k < n; ++k)
        {
          Vector3 cp(0.01 * i, k % 2 ? -0.1 : 0.1, 0.02 * k);
          p.e.setContactPosition(k, cp);
          r.s.setContactPosition(k, cp);
        }
        if(n != r.n) r.hasY = false;
        r.n = n;
        break;
      }
      case 5:
        c.step([] { return "virtual measurement covariance"; });
        p.e.setVirtualMeasurementsCovariance(r.virt = 1e-6 * (i + 1));
        break;
      case 6:
        c.step([] { return "measurement noise"; });
        r.imu = diag({{3, 1e-4 * (i + 1)}, {3, 1e-5}});
        p.e.setMeasurementNoiseCovariance(r.imu);
        break;
      case 7:
        c.step([] { return "process noise"; });
        r.Q = diag({{6, 1e-7 * (i + 1)}, {6, 1e-5}, {6, 1e-3}});
        p.e.setProcessNoiseCovariance(r.Q);
        break;
      case 8:
        c.step([] { return "reset covariances"; });
        p.e.resetCovarianceMatrices();
        r.reset();
        break;
      case 9:
        c.step([] { return "covariance of the flexibility"; });
        r.P = diag({{6, 1e-4 * (i + 1)}, {6, 1e-3}, {6, 1e-2}});
        p.e.setFlexibilityCovariance(r.P);
        break;
      case 10:
      {
        c.step([] { return "guess of the state"; });
        Vector g = Vector::Zero(18);
        g << 0.01, 0, -0.02, 0.02, 0.05 * i, 0, 0.1, 0, 0, 0, 0.1, 0, 0.2, 0, 0, 0, 0, 0.3;
        p.e.setFlexibilityGuess(g);
        r.x = r.last = g;
        break;
      }
      case 11:
      {
        c.step([] { return "guess of the pose"; });
        Vector6 g;
        g << 0.001, -0.002, 0.0005, 0.003, 0.002, -0.004;
        if(c.flag())
          p.e.setFlexibilityGuess(g);
        else
        {
          Matrix4 m = Matrix4::Identity();
          m.block(0, 0, 3, 3) = expm(Vector3(g.tail(3)));
          m.block(0, 3, 3, 1) = g.head(3);
          p.e.setFlexibilityGuess(m);
          g = kine::homogeneousMatrixToVector6(m); // finite differences amplify the last bits
        }
        r.x = Vector::Zero(18);
        r.x.head(6) = g;
        r.last = r.x;
        break;
      }
      case 12:
        c.step([] { return "sampling period"; });
        p.e.setSamplingPeriod(0.002 * (i + 1));
        r.s.setSamplingPeriod(0.002 * (i + 1));
        break;
      case 13:
        c.step([] { return "estimate again"; });
        p.estimate(c);
        break;
      default:
        c.step([] { return "queries"; });
        p.compare(c, p.e.getPrediction(), r.s.stateDynamics(r.x, Vector::Zero(15), r.k), "prediction");
        if(r.estimated && !r.inno.hasNaN()) c.near(p.e.getInnovation(), r.inno, r.virt < 1e-7 ? 1e-3 : 1e-5, "innovation");
    }
    p.check(c);
  }
}
MC_MAIN()
