// Independent reference for rigid-body kinematics with partially known fields.
#pragma once
#include "mc.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
namespace kref
{
using namespace stateObservation;
typedef Eigen::Matrix<long double, 3, 3> M3l;
typedef Eigen::Matrix<long double, 3, 1> V3l;
inline Matrix3 expm(const Vector3 & w)
{
  V3l x = w.cast<long double>();
  long double t = x.norm();
  M3l S;
  S << 0, -x(2), x(1), x(2), 0, -x(0), -x(1), x(0), 0;
  long double a = t < 1e-5L ? 1 - t * t / 6 : std::sin(t) / t;
  long double s2 = std::sin(t / 2);
  long double b = t < 1e-5L ? 0.5L - t * t / 24 : 2 * s2 * s2 / (t * t);
  M3l R = M3l::Identity() + a * S + b * S * S;
  return R.cast<double>();
}
/// rotation vector with norm in [0,pi]
inline Vector3 logm(const Matrix3 & R)
{
  Quaternion q(R);
  if(q.w() < 0) q.coeffs() *= -1;
  double n = q.vec().norm();
  if(n == 0) return Vector3::Zero();
  return q.vec() / n * (2 * std::atan2(n, q.w()));
}
enum
{
  P = 1,
  O = 2,
  V = 4,
  W = 8,
  A = 16,
  L = 32
};
struct K
{
  unsigned f = 0;
  Matrix3 R = Matrix3::Identity();
  Vector3 p = Vector3::Zero(), v = Vector3::Zero(), w = Vector3::Zero(), a = Vector3::Zero(), l = Vector3::Zero();
  bool has(unsigned b) const
  {
    return (f & b) == b;
  }
};
inline K product(const K & x, const K & y)
{
  K r;
  Vector3 Rp = x.R * y.p, Rv = x.R * y.v;
  r.R = x.R * y.R;
  r.p = x.p + Rp;
  r.v = x.v + x.w.cross(Rp) + Rv;
  r.w = x.w + x.R * y.w;
  r.a = x.a + x.l.cross(Rp) + x.w.cross(x.w.cross(Rp)) + 2 * x.w.cross(Rv) + x.R * y.a;
  r.l = x.l + x.w.cross(x.R * y.w) + x.R * y.l;
  if(x.has(P) && y.has(P)) r.f |= P;
  if(r.has(P) && x.has(V | W) && y.has(V)) r.f |= V;
  if(r.has(V) && x.has(A | L) && y.has(A)) r.f |= A;
  if(y.has(O)) r.f |= O;
  if(r.has(O) && x.has(W) && y.has(W)) r.f |= W;
  if(r.has(W) && x.has(L) && y.has(L)) r.f |= L;
  return r;
}
inline K inverse(const K & x)
{
  K r;
  Matrix3 Rt = x.R.transpose();
  r.R = Rt;
  r.p = -(Rt * x.p);
  r.v = Rt * (x.w.cross(x.p) - x.v);
  r.w = -(Rt * x.w);
  r.l = -(Rt * x.l);
  r.a = Rt * (2 * x.w.cross(x.v) - x.w.cross(x.w.cross(x.p)) - x.a + x.l.cross(x.p));
  r.f = O;
  if(x.has(W)) r.f |= W;
  if(x.has(W | L)) r.f |= L;
  if(x.has(P)) r.f |= P;
  if(x.has(P | V | W)) r.f |= V;
  if(r.has(V) && x.has(A | L)) r.f |= A;
  return r;
}
/// rep: 0 quaternion, 1 matrix, 2 both
inline kine::Kinematics make(const K & x, int rep)
{
  kine::Kinematics k;
  if(x.has(P)) k.position = x.p;
  if(x.has(O))
  {
    if(rep == 0)
      k.orientation = Quaternion(x.R);
    else if(rep == 1)
      k.orientation = x.R;
    else
      k.orientation.setValue(Quaternion(x.R), x.R);
  }
  if(x.has(V)) k.linVel = x.v;
  if(x.has(W)) k.angVel = x.w;
  if(x.has(A)) k.linAcc = x.a;
  if(x.has(L)) k.angAcc = x.l;
  return k;
}
inline bool sameQ(const Quaternion & a, const Quaternion & b, double tol)
{
  return (a.coeffs() - b.coeffs()).norm() < tol || (a.coeffs() + b.coeffs()).norm() < tol;
}
inline unsigned flagsOf(const kine::Kinematics & k)
{
  return (k.position.isSet() ? P : 0) | (k.orientation.isSet() ? O : 0) | (k.linVel.isSet() ? V : 0)
         | (k.angVel.isSet() ? W : 0) | (k.linAcc.isSet() ? A : 0) | (k.angAcc.isSet() ? L : 0);
}
inline void check(mc::C & c, kine::Kinematics & k, const K & x, double tol, const char * what)
{
  unsigned g = flagsOf(k);
  if(g != x.f)
    c.fail(std::string(what) + ": available fields",
           std::string(what) + ": fields available " + std::to_string(g) + " expected " + std::to_string(x.f)
               + " (1 position, 2 orientation, 4 linVel, 8 angVel, 16 linAcc, 32 angAcc)");
  std::string s(what);
  if(x.has(P)) c.near(k.position(), x.p, tol, (s + ": position").c_str());
  if(x.has(O))
  {
    kine::Orientation & o = k.orientation;
    if(o.isMatrixSet()) c.near(o.getMatrixRefUnsafe()(), x.R, tol, (s + ": orientation matrix").c_str());
    if(o.isQuaternionSet())
      c.require(sameQ(o.getQuaternionRefUnsafe()(), Quaternion(x.R), 1e-7), (s + ": orientation quaternion").c_str());
    kine::Orientation q = o;
    c.near(q.toMatrix3(), x.R, tol, (s + ": orientation").c_str());
  }
  if(x.has(V)) c.near(k.linVel(), x.v, tol, (s + ": linear velocity").c_str());
  if(x.has(W)) c.near(k.angVel(), x.w, tol, (s + ": angular velocity").c_str());
  if(x.has(A)) c.near(k.linAcc(), x.a, tol, (s + ": linear acceleration").c_str());
  if(x.has(L)) c.near(k.angAcc(), x.l, tol, (s + ": angular acceleration").c_str());
}
inline uint64_t hash(const K & x)
{
  uint64_t h = x.f;
  if(x.has(P)) h = mc::hashM(h, x.p);
  if(x.has(O)) h = mc::hashM(h, x.R);
  if(x.has(V)) h = mc::hashM(h, x.v);
  if(x.has(W)) h = mc::hashM(h, x.w);
  if(x.has(A)) h = mc::hashM(h, x.a);
  if(x.has(L)) h = mc::hashM(h, x.l);
  return h;
}
inline K sample(int i, unsigned f)
{
  static const double ang[] = {0.9, 0, M_PI, 1e-9, 2.4, M_PI / 2, M_PI - 1e-7, 4.2};
  static const Vector3 ax[] = {Vector3(1, 2, -0.5), Vector3(0, 0, 1), Vector3(0, 1, 0),  Vector3(1, 0, 0),
                               Vector3(-1, 1, 1),   Vector3(1, 0, 0), Vector3(1, -1, 0), Vector3(0.2, -1, 3)};
  K k;
  k.f = f;
  k.R = expm(ang[i % 8] * ax[i % 8].normalized());
  double s = i + 1;
  k.p = Vector3(0.3 * s, -1 + 0.2 * s, std::sin(s));
  k.v = Vector3(std::cos(2 * s), 0.5 * s, -0.7);
  k.w = Vector3(-0.4 * s, std::sin(3 * s), 1.1);
  k.a = Vector3(2 * std::sin(s + 1), -s, 0.3);
  k.l = Vector3(0.6, std::cos(s), -0.2 * s);
  if(i % 8 == 1) // at rest
    k.v = k.w = k.a = k.l = Vector3::Zero();
  return k;
}
} // namespace kref
