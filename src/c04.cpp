// C04: the linear Kalman filter is the textbook minimum-variance filter.
#include "kflong.hpp"
#include "mc.hpp"
#include "kfref.hpp"
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
Matrix gen(int r, int q, int seed)
{
  Matrix m(r, q);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < q; ++j) m(i, j) = std::sin(1.7 * i + 2.3 * j + 0.9 * seed + 0.4) * (i == j ? 1.1 : 0.6);
  return m;
}
Matrix spd(int n, int seed, double scale)
{
  Matrix a = gen(n, n, seed);
  return scale * (a * a.transpose() + 0.3 * Matrix::Identity(n, n));
}
Vector vec(int n, int seed)
{
  return gen(n, 1, seed + 31) * (1 + seed % 3);
}

struct Pair
{
  int n, m, p;
  LinearKalmanFilter f;
  ref::KF r;
  double scale = 1; // of the covariances

  Pair(int n, int m, int p) : n(n), m(m), p(p), f(n, m, p) {}
};

void healthy(C & c, const Matrix & P)
{
  c.near(P, Matrix(P.transpose()), 0, "covariance symmetric");
  double e = ref::minEig(P);
  c.require(e >= -1e-9 * (1 + P.norm()), "covariance positive semi-definite",
            [&] { return "smallest eigenvalue " + mc::str(e) + " of " + mc::str(P); });
}

void compare(C & c, Pair & q, double tol = 1e-9)
{
  c.near(q.f.getCurrentEstimatedState(), q.r.x, tol, "estimate");
  c.require(q.f.getCurrentTime() == q.r.k, "time");
  c.near(Matrix(q.f.getStateCovariance() / q.scale), Matrix(q.r.P / q.scale), tol, "covariance");
  healthy(c, Matrix(q.f.getStateCovariance() / q.scale));
  c.state(mc::hashM(mc::hashM(5, q.r.x), q.r.P));
}
void compareStep(C & c, Pair & q, double tol = 1e-9)
{
  compare(c, q, tol);
  c.near(q.f.getLastPrediction(), q.r.xbar, tol, "predicted state");
  c.near(q.f.getLastPredictedMeasurement(), q.r.ybar, tol, "predicted measurement");
  c.near(q.f.getInnovation(), q.r.innov, tol, "innovation");
  c.near(q.f.getLastGain(), q.r.K, tol, "gain");
}

// every combination of system, covariance, feed-through and measurement classes
MC_SUITE(textbook, 4)
{
  int n = c.pick(std::vector<int>{1, 2, 3, 6});
  int m = c.pick(std::vector<int>{1, 2, 4});
  int p = c.pick(std::vector<int>{0, 1, 2});
  Pair q(n, m, p);
  switch(c.choose(4))
  {
    case 0:
      q.r.A = Matrix::Identity(n, n);
      break;
    case 1:
      q.r.A = gen(n, n, 1);
      break;
    case 2: // singular
      q.r.A = Matrix::Zero(n, n);
      if(n > 1) q.r.A(0, n - 1) = 1;
      break;
    default: // unstable
      q.r.A = 1.5 * Matrix::Identity(n, n) + 0.1 * gen(n, n, 2);
  }
  switch(c.choose(4))
  {
    case 0:
      q.r.C = gen(m, n, 3);
      break;
    case 1:
      q.r.C = Matrix::Zero(m, n);
      break;
    case 2:
      q.r.C = Matrix::Zero(m, n);
      q.r.C(m - 1, n - 1) = 2;
      break;
    default:
      q.r.C = Matrix::Ones(m, n);
  }
  switch(c.choose(3))
  {
    case 0:
      q.r.Q = spd(n, 4, 0.2);
      break;
    case 1:
      q.r.Q = Matrix::Zero(n, n);
      break;
    default:
      q.r.Q = Matrix::Zero(n, n);
      q.r.Q(0, 0) = 10;
  }
  switch(c.choose(3))
  {
    case 0:
      q.r.R = spd(m, 5, 2);
      break;
    case 1:
      q.r.R = 0.05 * Matrix::Identity(m, m);
      break;
    default: // perfect sensors
      q.r.R = Matrix::Zero(m, m);
  }
  switch(c.choose(3))
  {
    case 0:
      q.r.P = spd(n, 6, 1);
      break;
    case 1:
      q.r.P = Matrix::Zero(n, n);
      break;
    default:
      q.r.P = 100 * Matrix::Identity(n, n);
  }
  if(q.r.R.isZero(0))
  {
    // perfect sensors need innovations that are uncertain in every direction
    if(m > n || q.r.Q.isZero(0) || q.r.Q(0, 0) == 10) throw mc::Prune();
    if(ref::minEig(q.r.C * q.r.Q * q.r.C.transpose()) < 1e-3) throw mc::Prune();
  }
  q.scale = c.pick(std::vector<double>{1, 1e-7, 1e7});
  q.r.Q *= q.scale;
  q.r.R *= q.scale;
  q.r.P *= q.scale;
  q.r.x = vec(n, 7);
  q.r.k = c.flag() ? 0 : 5;
  if(p)
  {
    int b = c.choose(3);
    Matrix B = b ? Matrix(gen(n, p, 8)) : Matrix(Matrix::Zero(n, p));
    if(b == 2) // one entry only
    {
      B.setZero();
      B(n - 1, p - 1) = 0.25;
    }
    q.f.setB(B);
    if(b) q.r.B = B;
    int d = c.choose(4);
    if(d)
    {
      Matrix D = d == 2 ? Matrix(gen(m, p, 9)) : Matrix(Matrix::Zero(m, p));
      if(d == 3) D(m - 1, p - 1) = -3;
      q.f.setD(D);
      if(d >= 2) q.r.D = D;
    }
  }
  q.f.setA(q.r.A);
  q.f.setC(q.r.C);
  q.f.setQ(q.r.Q);
  q.f.setR(q.r.R);
  q.f.setStateCovariance(q.r.P);
  q.f.setState(q.r.x, q.r.k);
  c.near(q.f.getA(), q.r.A, 0, "A read back");
  c.near(q.f.getC(), q.r.C, 0, "C read back");
  c.near(q.f.getQ(), q.r.Q, 0, "Q read back");
  c.near(q.f.getR(), q.r.R, 0, "R read back");
  c.near(q.f.getProcessCovariance(), q.r.Q, 0, "Q read back");
  c.near(q.f.getMeasurementCovariance(), q.r.R, 0, "R read back");
  compare(c, q);
  for(int i = 0; i < 3; ++i)
  {
    Vector y = i == 1 ? Vector(Vector::Zero(m)) : vec(m, 10 + i);
    Vector u0 = i == 0 ? vec(p, 20) : Vector(-vec(p, 20 + i)), u1 = -vec(p, 21 + i);
    if(p)
    {
      q.f.setInput(u0, q.r.k);
      q.f.setInput(u1, q.r.k + 1);
    }
    q.f.setMeasurement(y, q.r.k + 1);
    c.step([&] { return "step " + mc::str(i); });
    q.r.step(y, u0, u1);
    Vector x = q.f.getEstimatedState(q.r.k);
    c.near(x, q.r.x, 1e-5, "returned estimate");
    compareStep(c, q, 1e-5);
    Vector ys = q.r.C * q.r.x;
    if(q.r.D.size()) ys += q.r.D * u1;
    c.near(q.f.getSimulatedMeasurement(q.r.k), ys, 1e-5, "simulated measurement");
    compareStep(c, q, 1e-5); // a query changes nothing
  }
  c.outcome(mc::hashM(0, q.r.x));
}

// time-varying systems: any interleaving of parameter changes, queries, state changes and steps
MC_SUITE(time_varying, 3)
{
  int p = 1;
  Pair q(2, 1, p);
  int id = 1;
  q.r.A = gen(2, 2, 1);
  q.r.C = gen(1, 2, 2);
  q.r.B = gen(2, 1, 3);
  q.r.Q = spd(2, 4, 0.5);
  q.r.R = spd(1, 5, 1);
  q.r.P = spd(2, 6, 1);
  q.r.x = vec(2, 7);
  q.r.k = 3;
  q.f.setA(q.r.A);
  q.f.setB(q.r.B);
  q.f.setC(q.r.C);
  q.f.setQ(q.r.Q);
  q.f.setR(q.r.R);
  q.f.setStateCovariance(q.r.P);
  q.f.setState(q.r.x, q.r.k);
  Vector u0 = vec(1, 8), u1 = vec(1, 9);
  q.f.setInput(u0, 3);
  q.f.setInput(u1, 4);
  int depth = c.t(6, 7), steps = 0;
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(13);
    ++id;
    switch(op)
    {
      case 0:
      {
        Vector y = vec(1, id);
        c.step([&] { return "measure and estimate"; });
        q.f.setMeasurement(y, q.r.k + 1);
        q.r.step(y, u0, u1);
        Vector x = q.f.getEstimatedState(q.r.k);
        c.near(x, q.r.x, 1e-8, "returned estimate");
        compareStep(c, q, 1e-8);
        u0 = u1;
        u1 = vec(1, id + 40);
        q.f.setInput(u1, q.r.k + 1);
        ++steps;
        break;
      }
      case 1:
        c.step([&] { return "setA"; });
        q.r.A = gen(2, 2, id);
        q.f.setA(q.r.A);
        break;
      case 2:
        c.step([&] { return "setB"; });
        q.r.B = c.flag() ? Matrix(gen(2, 1, id)) : Matrix(Matrix::Zero(2, 1));
        q.f.setB(q.r.B);
        break;
      case 3:
        c.step([&] { return "setC"; });
        q.r.C = gen(1, 2, id);
        q.f.setC(q.r.C);
        break;
      case 4:
        c.step([&] { return "setD"; });
        q.r.D = gen(1, 1, id);
        q.f.setD(q.r.D);
        break;
      case 5:
        c.step([&] { return "clearD"; });
        q.r.D.resize(0, 0);
        q.f.clearD();
        break;
      case 6:
        c.step([&] { return "setQ"; });
        q.r.Q = spd(2, id, 1);
        q.f.setQ(q.r.Q);
        break;
      case 7:
        c.step([&] { return "setR"; });
        q.r.R = spd(1, id, 1);
        q.f.setR(q.r.R);
        break;
      case 8:
        c.step([&] { return "setStateCovariance"; });
        q.r.P = spd(2, id, 1);
        q.f.setStateCovariance(q.r.P);
        break;
      case 9:
        c.step([&] { return "setCurrentState"; });
        q.r.x = vec(2, id);
        q.f.setCurrentState(q.r.x);
        break;
      case 10:
        c.step([&] { return "setState at the current time"; });
        q.r.x = vec(2, id);
        q.f.setState(q.r.x, q.r.k);
        break;
      case 11:
        c.step([&] { return "replace both inputs"; });
        u0 = vec(1, id);
        u1 = vec(1, id + 60);
        q.f.setInput(u0, q.r.k);
        q.f.setInput(u1, q.r.k + 1);
        break;
      default:
      {
        c.step([&] { return "queries"; });
        Vector xb = q.r.A * q.r.x + q.r.B * u0, yb = q.r.C * xb, ys = q.r.C * q.r.x;
        if(q.r.D.size()) yb += q.r.D * u1, ys += q.r.D * u0;
        c.near(q.f.updateStatePrediction(), xb, 1e-9, "state prediction");
        c.near(q.f.getSimulatedMeasurement(q.r.k), ys, 1e-9, "simulated measurement");
        c.near(q.f.updateStateAndMeasurementPrediction(), yb, 1e-9, "measurement prediction");
        c.near(q.f.getLastPrediction(), xb, 1e-9, "last prediction");
        c.near(q.f.getLastPredictedMeasurement(), yb, 1e-9, "last measurement prediction");
        break;
      }
    }
    compare(c, q, 1e-8);
  }
  c.outcome(mc::hashM(uint64_t(steps), q.r.x));
}

// the estimate minimises the weighted squares of all the history
MC_SUITE(least_squares, 3)
{
  int n = c.pick(std::vector<int>{1, 2, 3});
  int m = c.pick(std::vector<int>{1, 2});
  int p = c.choose(2);
  int T = c.pick(std::vector<int>{1, 2, 3, 6});
  int sys = c.choose(4);
  Matrix A = gen(n, n, sys), Cm = gen(m, n, sys + 5), Q = spd(n, sys + 9, 0.3), R = spd(m, sys + 13, 1.0 + sys),
         P = spd(n, sys + 17, sys == 2 ? 50 : 2), B = gen(n, 1, sys + 20), D = gen(m, 1, sys + 21);
  bool batch = c.flag();
  LinearKalmanFilter f(n, m, p);
  f.setA(A);
  f.setC(Cm);
  f.setQ(Q);
  f.setR(R);
  f.setStateCovariance(P);
  Vector x0 = vec(n, sys + 3);
  f.setState(x0, 0);
  if(p)
  {
    f.setB(B);
    f.setD(D);
  }
  // unknowns x_0..x_T
  int N = n * (T + 1);
  Matrix H = Matrix::Zero(N, N);
  Vector g = Vector::Zero(N);
  auto add = [&](const Matrix & J, const Vector & b, const Matrix & W) {
    H += J.transpose() * W * J;
    g += J.transpose() * W * b;
  };
  Matrix J = Matrix::Zero(n, N);
  J.leftCols(n).setIdentity();
  add(J, x0, P.inverse());
  for(int k = 0; k < T; ++k)
  {
    Vector u0 = vec(1, k), u1 = vec(1, k + 1), y = vec(m, 3 * k + sys);
    J.setZero();
    J.block(0, n * k, n, n) = -A;
    J.block(0, n * (k + 1), n, n).setIdentity();
    add(J, p ? Vector(B * u0) : Vector(Vector::Zero(n)), Q.inverse());
    Matrix Jm = Matrix::Zero(m, N);
    Jm.block(0, n * (k + 1), m, n) = Cm;
    add(Jm, p ? Vector(y - D * u1) : y, R.inverse());
    if(p)
    {
      f.setInput(u0, k);
      f.setInput(u1, k + 1);
    }
    f.setMeasurement(y, k + 1);
    c.step([&] { return "measurement " + mc::str(k + 1); });
    if(!batch) f.getEstimatedState(k + 1);
  }
  Vector x = f.getEstimatedState(T);
  Matrix Hi = H.fullPivLu().inverse();
  Vector z = Hi * g;
  c.near(x, Vector(z.tail(n)), 1e-6, "least-squares estimate");
  c.near(f.getStateCovariance(), Matrix(Hi.bottomRightCorner(n, n)), 1e-6, "least-squares covariance");
  healthy(c, f.getStateCovariance());
  c.state(mc::hashM(1, x));
}

template<typename F>
bool refuses(F && f)
{
  try
  {
    f();
  }
  catch(const mcmon::AssertFailure &)
  {
    return true;
  }
  return false;
}

// changing a size clears exactly what depends on it
// what was cleared, directly or by changing a size there and back, is not used any more
MC_SUITE(cleared, 2)
{
  const int n = 2, m = 1, p = 1;
  LinearKalmanFilter f(n, m, p);
  ref::KF r;
  r.A = gen(n, n, 1);
  r.B = gen(n, p, 2);
  r.C = gen(m, n, 3);
  r.D = gen(m, p, 4);
  r.Q = spd(n, 5, 1);
  r.R = spd(m, 6, 1);
  r.P = spd(n, 7, 1);
  r.x = vec(n, 8);
  enum { fA = 1, fB = 2, fC = 4, fQ = 8, fR = 16, fP = 32, fX = 64, fD = 128, fU = 256, fY = 512 };
  int have = 0;
  long k = 0;
  auto give = [&](int w) {
    if(w & fA) f.setA(r.A);
    if(w & fB) f.setB(r.B);
    if(w & fC) f.setC(r.C);
    if(w & fD) f.setD(r.D);
    if(w & fQ) f.setQ(r.Q);
    if(w & fR) f.setR(r.R);
    if(w & fP) f.setStateCovariance(r.P);
    if(w & fX) f.setState(r.x, k);
    if(w & fU)
    {
      f.setInput(vec(p, 9), k);
      f.setInput(vec(p, 10), k + 1);
    }
    if(w & fY) f.setMeasurement(vec(m, 11), k + 1);
    have |= w;
  };
  const int all = fA | fB | fC | fQ | fR | fP | fX | fD | fU | fY, needed = all & ~fD;
  give(fX);
  give(all & ~fX & ~(c.flag() ? fD : 0));
  const int depth = c.t(3, 4);
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(12);
    c.step([&] { return "operation " + mc::str(op); });
    switch(op)
    {
      case 0: f.clearA(); have &= ~fA; break;
      case 1: f.clearB(); have &= ~fB; break;
      case 2: f.clearC(); have &= ~fC; break;
      case 3: f.clearD(); have &= ~fD; break;
      case 4: f.clearQ(); have &= ~fQ; break;
      case 5: f.clearR(); have &= ~fR; break;
      case 6: f.clearStateCovariance(); have &= ~fP; break;
      case 7: f.clearStates(); have &= ~(fX | fP); break; // documented to clear the covariance too
      case 8:
        f.setStateSize(n + 1);
        f.setStateSize(n);
        have &= ~(fA | fB | fC | fQ | fP | fX);
        break;
      case 9:
        f.setMeasureSize(m + 1);
        f.setMeasureSize(m);
        have &= ~(fC | fR | fD | fY);
        break;
      case 10:
        f.setInputSize(c.flag() ? p + 1 : 0);
        f.setInputSize(p);
        have &= ~(fB | fD | fU);
        break;
      default:
        f.reset();
        have &= ~(fP | fX | fU | fY);
    }
    c.require(f.stateIsSet() == bool(have & fX), "state is set");
    c.near(f.getA(), have & fA ? r.A : Matrix(), 0, "A");
    c.near(f.getC(), have & fC ? r.C : Matrix(), 0, "C");
    c.near(f.getQ(), have & fQ ? r.Q : Matrix(), 0, "Q");
    c.near(f.getR(), have & fR ? r.R : Matrix(), 0, "R");
    c.near(f.getStateCovariance(), have & fP ? r.P : Matrix(), 0, "P");
    c.require(f.getMeasurementsNumber() == (have & fY ? 1 : 0), "number of measurements");
    c.require(f.getInputsNumber() == (have & fU ? 2 : 0), "number of inputs");
    int missing = needed & ~have;
    // an estimate is refused while something it needs is missing
    if(missing && (have & fX)) c.require(refuses([&] { f.getEstimatedState(k + 1); }), "estimate without all it needs is refused");
    // everything but the feed-through is given again, some of it only at the end
    int later = i + 1 < depth ? missing & (c.flag() ? fA | fB | fP : 0) : 0;
    give(missing & ~later & fX);
    give(missing & ~later & ~fX);
    c.state(mc::mix(uint64_t(have), uint64_t(op)));
  }
  if(!(have & fX)) give(fX);
  give(needed & ~have);
  ref::KF q = r;
  if(!(have & fD)) q.D.resize(0, 0);
  q.step(vec(m, 11), vec(p, 9), vec(p, 10));
  c.near(f.getEstimatedState(k + 1), q.x, 1e-9, "estimate after clearing");
  c.near(f.getStateCovariance(), q.P, 1e-9, "covariance after clearing");
}

// helper matrices have the right size and content
MC_SUITE(sizes, 2)
{
  int n = c.pick(std::vector<int>{1, 2, 3}), m = c.pick(std::vector<int>{1, 2}), p = c.choose(3);
  bool def = c.flag();
  LinearKalmanFilter f = def ? LinearKalmanFilter() : LinearKalmanFilter(n, m, p);
  if(def)
  {
    int o = c.choose(2);
    if(o)
    {
      f.setStateSize(n);
      f.setInputSize(p);
      f.setMeasureSize(m);
    }
    else
    {
      f.setMeasureSize(m);
      f.setStateSize(n);
      f.setInputSize(p);
    }
  }
  for(int i = 0; i < 3; ++i)
  {
    c.step([&] { return "check sizes"; });
    c.require(f.getStateSize() == n && f.getMeasureSize() == m && f.getInputSize() == p, "reported sizes");
    c.near(f.getAmatrixIdentity(), Matrix(Matrix::Identity(n, n)), 0, "A identity");
    c.near(f.getAmatrixZero(), Matrix(Matrix::Zero(n, n)), 0, "A zero");
    c.near(f.getAmatrixConstant(2.5), Matrix(Matrix::Constant(n, n, 2.5)), 0, "A constant");
    c.near(f.getBmatrixZero(), Matrix(Matrix::Zero(n, p)), 0, "B zero");
    c.near(f.getBmatrixConstant(2.5), Matrix(Matrix::Constant(n, p, 2.5)), 0, "B constant");
    c.near(f.getCmatrixZero(), Matrix(Matrix::Zero(m, n)), 0, "C zero");
    c.near(f.getCmatrixConstant(2.5), Matrix(Matrix::Constant(m, n, 2.5)), 0, "C constant");
    c.near(f.getDmatrixZero(), Matrix(Matrix::Zero(m, p)), 0, "D zero");
    c.near(f.getDmatrixConstant(2.5), Matrix(Matrix::Constant(m, p, 2.5)), 0, "D constant");
    c.near(f.getQmatrixIdentity(), Matrix(Matrix::Identity(n, n)), 0, "Q identity");
    c.near(f.getQmatrixZero(), Matrix(Matrix::Zero(n, n)), 0, "Q zero");
    c.near(f.getQmatrixConstant(2.5), Matrix(Matrix::Constant(n, n, 2.5)), 0, "Q constant");
    c.near(f.getRmatrixIdentity(), Matrix(Matrix::Identity(m, m)), 0, "R identity");
    c.near(f.getRmatrixZero(), Matrix(Matrix::Zero(m, m)), 0, "R zero");
    c.near(f.getRmatrixConstant(2.5), Matrix(Matrix::Constant(m, m, 2.5)), 0, "R constant");
    c.near(f.getPmatrixIdentity(), Matrix(Matrix::Identity(n, n)), 0, "P identity");
    c.near(f.getPmatrixZero(), Matrix(Matrix::Zero(n, n)), 0, "P zero");
    c.near(f.getPmatrixConstant(2.5), Matrix(Matrix::Constant(n, n, 2.5)), 0, "P constant");
    c.near(f.stateVectorZero(), Vector(Vector::Zero(n)), 0, "state zero");
    c.near(f.stateVectorConstant(1.5), Vector(Vector::Constant(n, 1.5)), 0, "state constant");
    c.near(f.measureVectorZero(), Vector(Vector::Zero(m)), 0, "measure zero");
    c.near(f.measureVectorConstant(1.5), Vector(Vector::Constant(m, 1.5)), 0, "measure constant");
    c.near(f.inputVectorZero(), Vector(Vector::Zero(p)), 0, "input zero");
    c.near(f.inputVectorConstant(1.5), Vector(Vector::Constant(p, 1.5)), 0, "input constant");
    c.near(f.stateTangentVectorZero(), Vector(Vector::Zero(n)), 0, "tangent zero");
    c.near(f.measureTangentVectorConstant(2), Vector(Vector::Constant(m, 2)), 0, "measure tangent constant");
    for(int r = 0; r <= 4; ++r)
      for(int s = 0; s <= 4; ++s)
      {
        Matrix t = Matrix::Zero(r, s);
        c.require(f.checkAmatrix(t) == (r == n && s == n), "checkAmatrix");
        c.require(f.checkBmatrix(t) == (r == n && s == p), "checkBmatrix");
        c.require(f.checkCmatrix(t) == (r == m && s == n), "checkCmatrix");
        c.require(f.checkDmatrix(t) == (r == m && s == p), "checkDmatrix");
        c.require(f.checkQmatrix(t) == (r == n && s == n), "checkQmatrix");
        c.require(f.checkRmatrix(t) == (r == m && s == m), "checkRmatrix");
        c.require(f.checkPmatrix(t) == (r == n && s == n), "checkPmatrix");
      }
    for(int r = 0; r <= 4; ++r)
    {
      Vector t = Vector::Zero(r);
      c.require(f.checkStateVector(t) == (r == n), "checkStateVector");
      c.require(f.checkMeasureVector(t) == (r == m), "checkMeasureVector");
      c.require(f.checkInputVector(t) == (r == p), "checkInputVector");
    }
    // a full step works after any resizing provided that the cleared data are given again
    ref::KF r;
    int id = n * 7 + m * 3 + p + i;
    r.A = gen(n, n, id);
    r.C = gen(m, n, id + 1);
    r.Q = spd(n, id + 2, 1);
    r.R = spd(m, id + 3, 1);
    r.P = spd(n, id + 4, 1);
    r.x = vec(n, id + 5);
    f.reset();
    f.setA(r.A);
    f.setC(r.C);
    f.setQ(r.Q);
    f.setR(r.R);
    f.setStateCovariance(r.P);
    f.setState(r.x, 0);
    if(p)
    {
      r.B = gen(n, p, id + 6);
      r.D = gen(m, p, id + 7);
      f.setB(r.B);
      f.setD(r.D);
      f.setInput(vec(p, id + 8), 0);
      f.setInput(vec(p, id + 9), 1);
    }
    f.setMeasurement(vec(m, id), 1);
    r.step(vec(m, id), vec(p, id + 8), vec(p, id + 9));
    c.near(f.getEstimatedState(1), r.x, 1e-8, "estimate after resizing");
    c.near(f.getStateCovariance(), r.P, 1e-8, "covariance after resizing");
    c.state(mc::hashM(2, r.x));
    switch(c.choose(3))
    {
      case 0:
      {
        int o = n;
        n = c.pick(std::vector<int>{1, 2, 3, 4});
        f.setStateSize(n);
        if(n != o)
        {
          c.require(!f.stateIsSet(), "state cleared by a size change");
          c.require(f.getA().size() == 0 && f.getC().size() == 0 && f.getQ().size() == 0
                        && f.getStateCovariance().size() == 0,
                    "matrices cleared by a state size change");
          c.near(f.getR(), r.R, 0, "R kept by a state size change");
        }
        else
        {
          c.near(f.getA(), r.A, 0, "A kept when the size does not change");
          c.near(f.getStateCovariance(), r.P, 1e-8, "P kept when the size does not change");
        }
        break;
      }
      case 1:
      {
        int o = m;
        m = c.pick(std::vector<int>{1, 2, 3, 4});
        f.setMeasureSize(m);
        c.near(f.getA(), r.A, 0, "A kept by a measurement size change");
        c.near(f.getStateCovariance(), r.P, 1e-8, "P kept by a measurement size change");
        if(m != o)
        {
          c.require(f.getMeasurementsNumber() == 0, "measurements cleared by a size change");
          c.require(f.getC().size() == 0 && f.getR().size() == 0, "matrices cleared by a measurement size change");
        }
        break;
      }
      default:
      {
        int o = p;
        p = c.choose(4);
        f.setInputSize(p);
        c.near(f.getA(), r.A, 0, "A kept by an input size change");
        if(p != o) c.require(f.getInputsNumber() == 0, "inputs cleared by a size change");
        break;
      }
    }
  }
}
// long histories
MC_SUITE(long_life, 3)
{
  kflong::explore(c, false, c.t(150, 400));
}
} // namespace
MC_MAIN()
