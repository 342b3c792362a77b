// C07: rigid-body kinematics compose, invert and store like rigid motions.
#include "kinref.hpp"
#include "orihist.hpp"
using namespace kref;
using kine::Kinematics;
using mc::C;

namespace
{
const double tol = 1e-12;
// every pair of field subsets, representations and motions
MC_SUITE(products, 2)
{
  unsigned fx = unsigned(c.choose(32)), fy = unsigned(c.choose(64));
  fx = ((fx & 30u) << 1) | (fx & 1u) | O; // the first operand needs an orientation
  if(!(fy & (P | O))) throw mc::Prune();
  int n = c.t(4, 8);
  K x = sample(c.choose(n), fx), y = sample(4 + c.choose(n), fy);
  int rx = c.choose(3), ry = (fy & O) ? c.choose(3) : 0;
  Kinematics a = make(x, rx), b = make(y, ry);
  K e = product(x, y);
  c.step([&] { return "product of fields " + std::to_string(fx) + " and " + std::to_string(fy); });
  Kinematics r = a * b;
  check(c, r, e, tol, "product");
  check(c, a, x, tol, "left operand");
  check(c, b, y, tol, "right operand");
  // into an object that already holds other data
  Kinematics t = make(sample(3, 63), 2);
  Kinematics ret = t.setToProductNoAlias(a, b);
  check(c, t, e, tol, "product over previous content");
  check(c, ret, e, tol, "returned product");
  Kinematics u(a, b);
  check(c, u, e, tol, "constructed product");
  // the result assigned to an operand
  Kinematics a2 = a;
  a2 = a2 * b;
  check(c, a2, e, tol, "product assigned to its left operand");
  Kinematics b2 = b;
  b2 = a * b2;
  check(c, b2, e, tol, "product assigned to its right operand");
  c.state(hash(e));
}
MC_SUITE(squares, 2)
{
  unsigned fx = unsigned(c.choose(32));
  fx = ((fx & 30u) << 1) | (fx & 1u) | O;
  K x = sample(c.choose(8), fx);
  Kinematics a = make(x, c.choose(3));
  c.step([&] { return "product with itself"; });
  K e = product(x, x);
  Kinematics r = a * a;
  check(c, r, e, tol, "square");
  a = a * a;
  check(c, a, e, tol, "square in place");
  c.state(hash(e));
}
MC_SUITE(inverses, 2)
{
  unsigned fx = unsigned(c.choose(32));
  fx = ((fx & 30u) << 1) | (fx & 1u) | O;
  K x = sample(c.choose(8), fx);
  Kinematics a = make(x, c.choose(3));
  c.step([&] { return "inverse of fields " + std::to_string(fx); });
  K i = inverse(x);
  Kinematics b = a.getInverse();
  check(c, b, i, tol, "inverse");
  check(c, a, x, tol, "operand of the inverse");
  Kinematics bb = b.getInverse();
  K ii = inverse(i);
  check(c, bb, ii, tol, "inverse of the inverse");
  // identity motion
  K id;
  id.f = product(x, i).f;
  Kinematics r = a * b, l = b * a;
  check(c, r, id, 1e-11, "motion times its inverse");
  id.f = product(i, x).f;
  check(c, l, id, 1e-11, "inverse times the motion");
  // the 18-vector version
  if((fx & 63u) == 63u)
  {
    Vector s(18), e(18);
    s << x.p, logm(x.R), x.v, x.w, x.a, x.l;
    Vector o = kine::invertState(s);
    c.near(Vector3(o.segment(0, 3)), i.p, tol, "inverted state position");
    c.near(expm(o.segment(3, 3)), i.R, 1e-9, "inverted state orientation");
    c.near(Vector3(o.segment(6, 3)), i.v, tol, "inverted state linear velocity");
    c.near(Vector3(o.segment(9, 3)), i.w, tol, "inverted state angular velocity");
    c.near(Vector3(o.segment(12, 3)), i.a, tol, "inverted state linear acceleration");
    c.near(Vector3(o.segment(15, 3)), i.l, tol, "inverted state angular acceleration");
  }
  c.state(hash(i));
}
MC_SUITE(associativity, 2)
{
  // subsets along the natural hierarchy plus arbitrary ones
  auto pickF = [&](bool first) {
    static const std::vector<unsigned> fs = {63, O, P | O, P | O | V | W, O | W, O | W | L, P | O | V, P | O | V | W | A};
    return first ? fs[size_t(c.choose(8))] : fs[size_t(c.choose(8))];
  };
  K x = sample(c.choose(4), pickF(true)), y = sample(2 + c.choose(4), pickF(true)), z = sample(4 + c.choose(4), pickF(false));
  int rep = c.choose(3);
  Kinematics a = make(x, rep), b = make(y, (rep + 1) % 3), d = make(z, (rep * 2) % 3);
  c.step([&] { return "triple product"; });
  Kinematics l = (a * b) * d, r = a * (b * d);
  K e = product(product(x, y), z), e2 = product(x, product(y, z));
  check(c, l, e, 1e-11, "left-associated product");
  check(c, r, e2, 1e-11, "right-associated product");
  // relative kinematics invert composition
  Kinematics rel = a.getInverse() * (a * b);
  K er = product(inverse(x), product(x, y));
  check(c, rel, er, 1e-11, "relative kinematics");
  if(er.has(P)) c.near(rel.position(), y.p, 1e-11, "relative position");
  if(er.has(O)) c.near(rel.orientation.toMatrix3(), y.R, 1e-11, "relative orientation");
  if(er.has(V)) c.near(rel.linVel(), y.v, 1e-11, "relative velocity");
  if(er.has(W)) c.near(rel.angVel(), y.w, 1e-11, "relative angular velocity");
  if(er.has(A)) c.near(rel.linAcc(), y.a, 1e-10, "relative acceleration");
  if(er.has(L)) c.near(rel.angAcc(), y.l, 1e-10, "relative angular acceleration");
  c.state(hash(e));
}
// composition is the derivative-consistent composition of motions: compare with numerical differentiation of poses
MC_SUITE(derivatives, 2)
{
  K x = sample(c.choose(8), 63), y = sample(c.choose(8), 63);
  c.step([&] { return "velocities and accelerations against derivatives of the composed pose"; });
  Kinematics r = make(x, 0) * make(y, 1);
  auto at = [](const K & k, double t) {
    K q = k;
    q.p = k.p + t * k.v + 0.5 * t * t * k.a;
    // orientation with velocity w and acceleration l at t = 0: exp(l t^2/2) exp(w t) R
    q.R = expm(0.5 * t * t * k.l) * expm(t * k.w) * k.R;
    return q;
  };
  const double h = 1e-4;
  auto pose = [&](double t) {
    K a = at(x, t), b = at(y, t), o;
    o.p = a.p + a.R * b.p;
    o.R = a.R * b.R;
    return o;
  };
  K m = pose(-h), z = pose(0), q = pose(h);
  c.near(r.linVel(), Vector3((q.p - m.p) / (2 * h)), 1e-5, "velocity is the derivative of the position");
  c.near(r.linAcc(), Vector3((q.p - 2 * z.p + m.p) / (h * h)), 1e-5, "acceleration is the derivative of the velocity");
  Vector3 wp = logm(q.R * z.R.transpose()), wm = logm(z.R * m.R.transpose());
  c.near(r.angVel(), Vector3((wp + wm) / (2 * h)), 1e-5, "angular velocity is the derivative of the orientation");
  c.near(r.angAcc(), Vector3((wp - wm) / (h * h)), 1e-5, "angular acceleration is the derivative of the angular velocity");
  c.state(mc::hashM(1, r.linAcc()));
}
// storage in vectors
Vector packed(const K & x, unsigned f)
{
  std::vector<double> v;
  auto add = [&](const Vector3 & q) {
    for(int i = 0; i < 3; ++i) v.push_back(q(i));
  };
  if(f & P) add(x.p);
  if(f & O)
  {
    Quaternion q(x.R);
    for(int i = 0; i < 4; ++i) v.push_back(q.coeffs()(i));
  }
  if(f & V) add(x.v);
  if(f & W) add(x.w);
  if(f & A) add(x.a);
  if(f & L) add(x.l);
  return Eigen::Map<Vector>(v.data(), Index(v.size()));
}
MC_SUITE(storage, 2)
{
  unsigned fx = unsigned(c.choose(64)), fl = unsigned(c.choose(64)), fo = unsigned(c.choose(c.t(8, 64)));
  if(fl & ~fx) throw mc::Prune(); // only fields that are available can be written
  if(!c.thorough()) fo = fo * 9; // subsets of the previous content
  K x = sample(c.choose(8), fx);
  int rep = (fx & O) ? c.choose(3) : 0;
  Kinematics a = make(x, rep);
  c.step([&] { return "stored with flags " + std::to_string(fl); });
  auto nearV = [&](const Vector & g, const Vector & e, const char * k, unsigned f) {
    Vector m = e;
    // both signs of the quaternion are the same orientation
    if((f & O) && g.size() == e.size())
    {
      int o = (f & P) ? 3 : 0;
      if((g.segment(o, 4) - e.segment(o, 4)).norm() > 1) m.segment(o, 4) *= -1;
    }
    c.near(g, m, tol, k);
  };
  Vector v = a.toVector(Kinematics::Flags::Byte(fl));
  nearV(v, packed(x, fl), "vector of the flagged fields", fl);
  nearV(a.toVector(), packed(x, fx), "vector of the available fields", fx);
  check(c, a, x, tol, "stored kinematics");
  // read back in an object with other content: exactly the flagged fields change
  K y = sample(5, fo);
  Kinematics b = make(y, 2);
  b.fromVector(v, Kinematics::Flags::Byte(fl));
  K e = y;
  e.f = fo | fl;
  if(fl & P) e.p = x.p;
  if(fl & O) e.R = x.R;
  if(fl & V) e.v = x.v;
  if(fl & W) e.w = x.w;
  if(fl & A) e.a = x.a;
  if(fl & L) e.l = x.l;
  check(c, b, e, tol, "read back");
  Kinematics d(v, Kinematics::Flags::Byte(fl));
  e = x;
  e.f = fl;
  check(c, d, e, tol, "constructed from the vector");
  // zeroing exactly the flagged fields
  Kinematics z = a;
  if(rep == 1)
    z.setZero<Matrix3>(Kinematics::Flags::Byte(fl));
  else
    z.setZero(Kinematics::Flags::Byte(fl));
  e = x;
  e.f = fx | fl;
  if(fl & P) e.p.setZero();
  if(fl & O) e.R.setIdentity();
  if(fl & V) e.v.setZero();
  if(fl & W) e.w.setZero();
  if(fl & A) e.a.setZero();
  if(fl & L) e.l.setZero();
  check(c, z, e, tol, "zeroed");
  Kinematics s;
  c.require(flagsOf(s) == 0, "a default kinematics has no field");
  s.setZero(Kinematics::Flags::Byte(fo));
  c.require(flagsOf(s) == fo, "zeroed fields are available");
  a.reset();
  c.require(flagsOf(a) == 0, "a reset kinematics has no field");
  c.state(hash(e));
}
// the representations held by the orientation of kinematics never disagree, whatever its history
MC_SUITE(orientations, 2)
{
  Kinematics a = make(sample(3, 63 & ~unsigned(O)), 0);
  orihist::explore(c, a.orientation, c.t(4, 5), [](const Vector3 & w) { return Matrix3(expm(w)); });
  K e = sample(3, 63 & ~unsigned(O));
  if(a.orientation.isSet())
  {
    e.f |= O;
    e.R = a.orientation.toMatrix3();
  }
  check(c, a, e, tol, "kinematics after its orientation changed");
}
} // namespace
MC_MAIN()
