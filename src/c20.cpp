// C20: elementary numeric helpers obey their contracts on every input class.
#include "mc.hpp"
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
const std::vector<double> G = {0,    1,     -1,    0.5,   -0.5,  2,    -2,    3,     -7.25, 1e-3,  -1e-3, 1e-8,   -1e-8,
                               1e-12, -1e-15, 1e-17, 10,   -10,  1e5,  -1e5,  1e9,   1e-30, -1e30, 1e100, -1e-100, 9.8};
bool same(double a, double b)
{
  return a == b;
}
MC_SUITE(scalars, 2)
{
  double x = c.pick(G), a = c.pick(G), b = c.pick(G);
  c.step([&] { return "x=" + mc::str(x) + " a=" + mc::str(a) + " b=" + mc::str(b); });
  // clamping
  double hi = std::max(a, b), lo = std::min(a, b);
  double r = tools::clampScalar(x, hi, lo);
  c.require(same(r, std::min(std::max(x, lo), hi)), "clamp between bounds");
  double l = std::fabs(a);
  c.require(same(tools::clampScalar(x, l), std::min(std::max(x, -l), l)), "clamp by magnitude");
  int ix = int(std::max(-20., std::min(20., x * 4))), il = int(std::min(20., l));
  c.require(tools::clampScalar(ix, il) == std::min(std::max(ix, -il), il), "clamp of integers");
  // sign
  int s = x > 0 ? 1 : (x < 0 ? -1 : 0);
  c.require(tools::signum(x) == s, "sign");
  c.require(tools::signum(ix) == (ix > 0) - (ix < 0), "sign of an integer");
  c.require(tools::signum(unsigned(std::abs(ix))) == (ix != 0), "sign of an unsigned integer");
  // square, derivative
  c.require(same(tools::square(x), x * x), "square");
  c.require(tools::square(ix) == ix * ix, "square of an integer");
  if(std::fabs(b) > 1e-20 && std::fabs(b) < 1e50)
  {
    double d = tools::derivate(x, a, b), e = (a - x) / b;
    c.require(std::fabs(d - e) <= 1e-14 * std::fabs(e), "finite difference");
  }
  // comparisons
  double p = std::fabs(b);
  bool lt = std::fabs(x - a) < p, gt = std::fabs(x - a) > p;
  if(lt || gt) c.require(isApproxAbs(x, a, p) == lt, "absolute comparison");
  c.require(isApproxAbs(x, x), "a value is close to itself");
  c.require(isApproxAbs(x, a, p) == isApproxAbs(a, x, p), "absolute comparison is symmetric");
  double q = std::min(p, 0.5);
  bool rl = std::fabs(x - a) < std::fabs(x + a) * q, rg = std::fabs(x - a) > std::fabs(x + a) * q;
  if(rl || rg) c.require(isApprox(x, a, q) == rl, "relative comparison");
  c.require(isApprox(x, x), "a value is relatively close to itself");
  c.require(isApprox(x, a, q) == isApprox(a, x, q), "relative comparison is symmetric");
  if(x != 0) c.require(!isApprox(x, -x, q), "opposite values are not close");
  c.state(mc::hashD(mc::hashD(mc::hashD(1, x), a), b));
}
MC_SUITE(square_roots, 1)
{
  // constexpr square root on a dense enumeration
  int hi = c.choose(64);
  int n = c.t(2000, 20000);
  c.step([&] { return "square roots, block " + std::to_string(hi); });
  for(int i = 0; i < n; ++i)
  {
    double x;
    if(hi < 16)
      x = double(hi) * n + i; // integers
    else if(hi < 32)
      x = (double(hi - 16) * n + i) * 0.001;
    else if(hi < 48)
      x = std::ldexp(1.0 + double(i) / n, 2 * (hi - 40) + 1);
    else
      x = std::pow(10., double(hi - 56) * 3) * (1 + double(i) * 9. / n);
    double r = tools::sqrt(x);
    c.require(std::fabs(r - std::sqrt(x)) <= 4e-16 * std::sqrt(x), "square root",
              [&] { return "sqrt(" + mc::str(x) + ") gives " + mc::str(r); });
  }
  c.require(std::isnan(tools::sqrt(-1. - hi)), "square root of a negative number is not a number");
  c.require(std::isnan(tools::sqrt(std::numeric_limits<double>::infinity())), "square root of infinity");
  c.require(std::isnan(tools::sqrt(std::numeric_limits<double>::quiet_NaN())), "square root of NaN");
  static_assert(tools::sqrt(4.) == 2., "constexpr");
  c.state(uint64_t(hi));
}
const std::vector<double> H = {0, 1, -1, 0.5, 3, -1e-9, 1e-4, -100};
Vector3 pickV(C & c)
{
  double a = c.pick(H), b = c.pick(H), d = c.pick(H);
  return Vector3(a, b, d);
}
MC_SUITE(vectors, 2)
{
  Vector3 v = pickV(c);
  c.step([&] { return "v=" + mc::str(v); });
  double n = v.norm();
  double sq = -1;
  bool isN = tools::checkIfNormalized(v, sq);
  c.near(sq, v.squaredNorm(), 1e-15, "squared norm");
  c.require(isN == tools::checkIfNormalized(v), "normalisation tests agree");
  if(std::fabs(n - 1) > 1e-12) c.require(!isN, "a vector of another norm is not normalised");
  if(n > 0)
  {
    Vector3 u = tools::normalizedLazy(v);
    c.near(u, Vector3(v / n), 1e-14, "normalised vector");
    Vector3 w = tools::normalizedLazy(u);
    c.near(w, u, 1e-14, "normalising twice");
    c.require(std::fabs(u.norm() - 1) < 1e-14, "unit norm");
  }
  Vector3 e(1, 0, 0);
  c.require(tools::checkIfNormalized(e) && tools::normalizedLazy(e) == e, "a normalised vector is left as it is");
  // skew operators
  Matrix3 S = kine::skewSymmetric(v), S2 = kine::skewSymmetric2(v), T, T2;
  T.setConstant(42);
  T2.setConstant(-3);
  Matrix3 Tr = kine::skewSymmetric(v, T), T2r = kine::skewSymmetric2(v, T2);
  c.require(T == S && Tr == S && T2 == S2 && T2r == S2, "in-place and returned skew matrices agree");
  for(int i = 0; i < 8; ++i)
  {
    Vector3 x(H[i], H[(i + 3) % 8], H[(i + 5) % 8]);
    c.near(S * x, v.cross(x), 1e-14, "skew matrix is the cross product");
    double sc = 1 + v.squaredNorm() * x.norm();
    c.near(Vector3(S2 * x / sc), Vector3(v.cross(v.cross(x)) / sc), 1e-13, "squared skew matrix");
    Vector3 dd = tools::derivate(v, x, 0.25);
    c.near(dd, Vector3(4 * (x - v)), 1e-14, "vector finite difference");
  }
  c.require(S == -S.transpose(), "skew symmetry");
  c.near(tools::square(S), S * S, 1e-15, "square of a matrix");
  c.state(mc::hashM(1, v));
}
// rotation about a fixed point
MC_SUITE(fixed_point, 3)
{
  static const Vector3 ax[] = {Vector3(1, 0, 0), Vector3(0, 1, 0), Vector3(0, 0, -1), Vector3(1, 1, 1), Vector3(-1, 2, 0.5)};
  static const double an[] = {0, 1e-7, 0.4, M_PI / 2, M_PI, 3.8};
  Matrix3 R = AngleAxis(an[c.choose(6)], ax[c.choose(5)].normalized()).toRotationMatrix();
  Vector3 w = ax[c.choose(5)] * (c.flag() ? 2.5 : 0), wd = ax[c.choose(5)] * (c.flag() ? -1.5 : 0);
  Vector3 f = pickV(c);
  if(f(2) > 2 || f(1) == 0.5) throw mc::Prune();
  Vector3 t, v, a;
  t = v = a = Vector3::Constant(99);
  c.step([&] { return "fixed point " + mc::str(f); });
  kine::fixedPointRotationToTranslation(R, w, wd, f, t, v, a);
  Vector3 l = R * f;
  c.near(Vector3(R * f + t), f, 1e-13, "the fixed point does not move");
  c.near(Vector3(w.cross(l) + v), Vector3::Zero(), 1e-11, "velocity at the fixed point");
  c.near(Vector3(wd.cross(l) + w.cross(w.cross(l)) + a), Vector3::Zero(), 1e-10, "acceleration at the fixed point");
  c.state(mc::hashM(mc::hashM(1, t), a));
}
// finite-time control law: y = xd - kp*sign(x)*sqrt|x| must be driven to zero, d|y|/dt = kv*sqrt|y| < 0
MC_SUITE(finite_time, 2)
{
  static const std::vector<double> X = {0, 1, -1, 0.04, -0.25, 9, -100, 1e-6};
  static const std::vector<double> K = {-1, -0.5, -3};
  double kp = c.pick(K), kv = c.pick(K);
  int n = 1 + c.choose(3);
  Vector x(n), xd(n);
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(n == 3 ? 4 : 8);
    x(i) = X[size_t((k + 2 * i) % 8)];
    xd(i) = X[size_t(c.choose(n == 3 ? 4 : 8))] * 0.7;
  }
  c.step([&] { return "x=" + mc::str(x) + " xd=" + mc::str(xd); });
  Vector a = tools::finiteTimeAccControl(x, xd, kp, kv);
  c.require(a.size() == n, "size");
  for(int i = 0; i < n; ++i)
  {
    double ai = tools::finiteTimeAccControl(x(i), xd(i), kp, kv);
    c.require(std::isfinite(ai), "finite control");
    c.require(a(i) == ai, "vector version acts on every component");
    if(x(i) == 0 && xd(i) == 0) c.require(ai == 0, "no control at the equilibrium");
    if(x(i) != 0)
    {
      double sx = x(i) > 0 ? 1 : -1;
      double y = xd(i) - kp * sx * std::sqrt(std::fabs(x(i)));
      double rd = kp * xd(i) / (2 * std::sqrt(std::fabs(x(i)))); // time derivative of the reference velocity
      double yd = kv * (y > 0 ? 1 : (y < 0 ? -1 : 0)) * std::sqrt(std::fabs(y));
      c.near(ai - rd, yd, 1e-10 * (1 + std::fabs(rd)), "the deviation from the reference velocity decreases");
    }
    if(kp == -1 && kv == -1)
      c.require(tools::finiteTimeAccControl(x(i), xd(i)) == ai, "default gains");
  }
  c.state(mc::hashM(mc::hashM(1, x), a));
}
} // namespace
MC_MAIN()
