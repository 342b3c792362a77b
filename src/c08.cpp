// C08: kinematics integrate and update consistently with their derivatives.
#include "kinref.hpp"
using namespace kref;
using kine::Kinematics;
using mc::C;

namespace
{
const double tol = 1e-10;
const std::vector<double> DT = {0.005, 0.5, 1, 0.01};

K integrated(const K & x, double dt)
{
  K r = x;
  if(x.has(W))
  {
    Vector3 d = x.w * dt;
    if(x.has(L))
    {
      d += x.l * dt * dt / 2;
      r.w = x.w + x.l * dt;
    }
    if(x.has(O)) r.R = expm(d) * x.R;
  }
  if(x.has(V))
  {
    Vector3 d = x.v * dt;
    if(x.has(A))
    {
      d += x.a * dt * dt / 2;
      r.v = x.v + x.a * dt;
    }
    if(x.has(P)) r.p = x.p + d;
  }
  return r;
}
MC_SUITE(integration, 2)
{
  unsigned f = unsigned(c.choose(64));
  K x = sample(c.choose(8), f);
  int rep = (f & O) ? c.choose(3) : 0;
  double dt = c.pick(DT);
  Kinematics k = make(x, rep);
  int n = 1 + c.choose(3);
  for(int i = 0; i < n; ++i)
  {
    c.step([&] { return "integrate fields " + std::to_string(f) + " over " + mc::str(dt); });
    const Kinematics & r = k.integrate(dt);
    c.require(&r == &k, "integration returns the object");
    x = integrated(x, dt);
    check(c, k, x, tol, "integration");
    c.state(hash(x));
  }
}
MC_SUITE(free_integration, 2)
{
  K x = sample(c.choose(8), 63);
  double dt = c.pick(DT);
  c.step([&] { return "integrateKinematics over " + mc::str(dt); });
  K e = integrated(x, dt);
  K y = x;
  y.f = P | O | V | W;
  K e1 = integrated(y, dt);
  {
    Vector3 p = x.p;
    kine::integrateKinematics(p, x.v, dt);
    c.near(p, e1.p, tol, "position from velocity");
    Vector3 v = x.v;
    p = x.p;
    kine::integrateKinematics(p, v, x.a, dt);
    c.near(p, e.p, tol, "position from velocity and acceleration");
    c.near(v, e.v, tol, "velocity from acceleration");
  }
  {
    Matrix3 R = x.R;
    kine::integrateKinematics(R, x.w, dt);
    c.near(R, e1.R, tol, "matrix from angular velocity");
    R = x.R;
    Vector3 w = x.w;
    kine::integrateKinematics(R, w, x.l, dt);
    c.near(R, e.R, tol, "matrix from angular velocity and acceleration");
    c.near(w, e.w, tol, "angular velocity");
    Quaternion q(x.R);
    kine::integrateKinematics(q, x.w, dt);
    c.near(q.toRotationMatrix(), e1.R, tol, "quaternion from angular velocity");
    q = Quaternion(x.R);
    w = x.w;
    kine::integrateKinematics(q, w, x.l, dt);
    c.near(q.toRotationMatrix(), e.R, tol, "quaternion from angular velocity and acceleration");
    c.near(w, e.w, tol, "angular velocity");
  }
  {
    Vector3 p = x.p, v = x.v, w = x.w;
    Matrix3 R = x.R;
    kine::integrateKinematics(p, v, x.a, R, w, x.l, dt);
    c.near(p, e.p, tol, "full position");
    c.near(v, e.v, tol, "full velocity");
    c.near(R, e.R, tol, "full orientation");
    c.near(w, e.w, tol, "full angular velocity");
    p = x.p, v = x.v, w = x.w;
    Quaternion q(x.R);
    kine::integrateKinematics(p, v, x.a, q, w, x.l, dt);
    c.near(p, e.p, tol, "full position");
    c.near(v, e.v, tol, "full velocity");
    c.near(q.toRotationMatrix(), e.R, tol, "full orientation");
    c.near(w, e.w, tol, "full angular velocity");
    p = x.p;
    R = x.R;
    kine::integrateKinematics(p, x.v, R, x.w, dt);
    c.near(p, e1.p, tol, "pose position");
    c.near(R, e1.R, tol, "pose orientation");
    p = x.p;
    q = Quaternion(x.R);
    kine::integrateKinematics(p, x.v, q, x.w, dt);
    c.near(p, e1.p, tol, "pose position");
    c.near(q.toRotationMatrix(), e1.R, tol, "pose orientation");
  }
  // with a zero acceleration the acceleration version is the velocity version, and steps add up
  Vector3 p = x.p, v = x.v;
  kine::integrateKinematics(p, v, Vector3::Zero(), dt);
  c.near(p, e1.p, tol, "zero acceleration");
  Vector3 p1 = x.p, v1 = x.v;
  kine::integrateKinematics(p1, v1, x.a, dt / 2);
  kine::integrateKinematics(p1, v1, x.a, dt / 2);
  c.near(p1, e.p, tol, "two half steps");
  c.near(v1, e.v, tol, "two half steps");
  c.state(hash(e));
}

/// One chain (value, velocity, acceleration) updated from new data; diff(new, old) and plus(old, d)
struct Chain
{
  bool s[3]; // set
};
template<typename Diff, typename Plus, typename X>
bool updateChain(bool sx, bool sv, bool sa, X & x, Vector3 & v, Vector3 & a, bool nx, bool nv, bool na, const X & X1,
                 const Vector3 & V1, const Vector3 & A1, double dt, bool fx, bool fv, bool fa, Diff diff, Plus plus,
                 bool & ox, bool & ov, bool & oa)
{
  X x0 = x;
  Vector3 v0 = v, a0 = a;
  ox = fx, ov = fv, oa = fa;
  // preconditions: a requested field must be obtainable
  bool fdx = sx && nx;
  if(fx && !nx && !sx) return false;
  if(fv && !nv && !fdx && !sv) return false;
  if(fa && !na && !(sv && nv) && !fdx && !sa) return false;
  // the acceleration over the elapsed period, as far as the data tell
  if(fa)
  {
    if(na)
      a = A1;
    else if(sv && nv)
      a = (V1 - v0) / dt;
    else if(sv && fdx)
      a = (diff(X1, x0) / dt - v0) / dt;
    else if(fdx)
      a = 2 * diff(X1, x0) / (dt * dt);
  }
  // the acceleration to integrate with: the one before the update, replaced by the measured change of velocity
  Vector3 ai = a0;
  if(fa && !na) ai = a;
  if(fv)
  {
    if(nv)
      v = V1;
    else if(fdx)
      v = diff(X1, x0) / dt;
    else if(sa)
      v = v0 + a0 * dt;
  }
  if(fx)
  {
    if(nx)
      x = X1;
    else
    {
      Vector3 d = Vector3::Zero();
      if(sv) d += v0 * dt;
      if(sa) d += ai * dt * dt / 2;
      x = plus(x0, d);
    }
  }
  return true;
}
bool updated(K & x, const K & n, double dt, unsigned f)
{
  bool o[6];
  auto dl = [](const Vector3 & b, const Vector3 & a) -> Vector3 { return b - a; };
  auto pl = [](const Vector3 & a, const Vector3 & d) -> Vector3 { return a + d; };
  auto dr = [](const Matrix3 & b, const Matrix3 & a) -> Vector3 { return logm(b * a.transpose()); };
  auto pr = [](const Matrix3 & a, const Vector3 & d) -> Matrix3 { return expm(d) * a; };
  if(!updateChain(x.has(P), x.has(V), x.has(A), x.p, x.v, x.a, n.has(P), n.has(V), n.has(A), n.p, n.v, n.a, dt,
                  (f & P) != 0, (f & V) != 0, (f & A) != 0, dl, pl, o[0], o[1], o[2]))
    return false;
  if(!updateChain(x.has(O), x.has(W), x.has(L), x.R, x.w, x.l, n.has(O), n.has(W), n.has(L), n.R, n.w, n.l, dt,
                  (f & O) != 0, (f & W) != 0, (f & L) != 0, dr, pr, o[3], o[4], o[5]))
    return false;
  x.f = f;
  return true;
}
// linear and angular chains: every subset of old content, new content and requested fields
void updates(C & c, bool linear)
{
  static const unsigned lin[3] = {P, V, A}, ang[3] = {O, W, L};
  const unsigned * b = linear ? lin : ang;
  auto sub = [&](int m) { return (m & 1 ? b[0] : 0) | (m & 2 ? b[1] : 0) | (m & 4 ? b[2] : 0); };
  unsigned fo = sub(c.choose(8)), fn = sub(c.choose(8)), fr = sub(c.choose(8));
  // the other chain: absent, or fully set and updated from full data
  bool other = c.flag();
  unsigned rest = linear ? (O | W | L) : (P | V | A);
  int i = c.choose(8), j = c.choose(8);
  K x = sample(i, fo | (other ? rest : 0)), n = sample(j, fn | (other ? rest : 0));
  // keep the rotation between both away from a half turn, where its direction is ambiguous
  if(logm(n.R * x.R.transpose()).norm() > M_PI - 0.05) throw mc::Prune();
  unsigned f = fr | (other ? rest : 0);
  double dt = c.pick(DT);
  int ro = (x.f & O) ? c.choose(3) : 0;
  K e = x;
  if(!updated(e, n, dt, f)) throw mc::Prune();
  c.step([&] {
    return "update of fields " + std::to_string(x.f) + " with " + std::to_string(n.f) + " requesting " + std::to_string(f);
  });
  Kinematics k = make(x, ro), nk = make(n, (ro + 1) % 3);
  const Kinematics & r = k.update(nk, dt, Kinematics::Flags::Byte(f));
  c.require(&r == &k, "update returns the object");
  // fields requested that nothing determines keep their value or stay unset
  e.f = f;
  if((f & b[0]) && !(fo & b[0]) && !(fn & b[0])) e.f &= ~b[0];
  check(c, k, e, 1e-8, "update");
  check(c, nk, n, tol, "new data");
  c.state(hash(e));
}
MC_SUITE(linear_updates, 3)
{
  updates(c, true);
}
MC_SUITE(angular_updates, 3)
{
  updates(c, false);
}
// sequences of updates with changing subsets
MC_SUITE(update_histories, 3)
{
  K x = sample(0, 63);
  Kinematics k = make(x, c.choose(3));
  int depth = c.t(3, 4);
  static const unsigned fs[] = {63, P | O, V | W, A | L, P | O | V | W, P | V | A, O | W | L, 0, P | A | O | L};
  for(int i = 0; i < depth; ++i)
  {
    unsigned fn = fs[c.choose(9)], fr = fs[c.choose(9)];
    K n = sample(i + 3, fn);
    n.R = expm(Vector3(0.3 * i, -0.2, 0.5)) * x.R; // stays close
    K e = x;
    if(!updated(e, n, 0.1, fr)) throw mc::Prune();
    c.step([&] { return "update with " + std::to_string(fn) + " requesting " + std::to_string(fr); });
    Kinematics nk = make(n, i % 3);
    k.update(nk, 0.1, Kinematics::Flags::Byte(fr));
    check(c, k, e, 1e-8, "update");
    x = e;
    c.state(hash(x));
  }
}
// reconstruction of velocities and accelerations from positions and orientations
MC_SUITE(reconstruction, 2)
{
  int n = 1 + c.choose(5);
  long k0 = c.choose(3) * 5 - 5;
  double dt = c.pick(DT);
  IndexedVectorArray a;
  std::vector<K> ks;
  for(int i = 0; i < n; ++i)
  {
    K k = sample(i == 0 ? 0 : 4, 63);
    k.p = Vector3(0.1 * i * i, std::sin(1.0 * i), -i);
    k.R = expm(Vector3(0.2 * i, 0.1, -0.3 * i * (c.choose(2))));
    ks.push_back(k);
    Vector v(6);
    v << k.p, logm(k.R);
    a.setValue(v, k0 + i);
  }
  c.step([&] { return "reconstruction of " + std::to_string(n) + " poses"; });
  IndexedVectorArray r = kine::reconstructStateTrajectory(a, dt);
  c.require(r.size() == n && r.getFirstIndex() == k0, "same time indices");
  for(int i = 0; i < n; ++i)
  {
    Vector s = r[k0 + i];
    c.require(s.size() == 18, "size");
    c.near(s.head(3), ks[size_t(i)].p, 0, "position");
    c.near(expm(s.segment(3, 3)), ks[size_t(i)].R, 1e-12, "orientation");
    auto vel = [&](int q) -> Vector3 { return (ks[size_t(q) + 1].p - ks[size_t(q)].p) / dt; };
    auto om = [&](int q) -> Vector3 { return logm(ks[size_t(q) + 1].R * ks[size_t(q)].R.transpose()) / dt; };
    Vector3 z = Vector3::Zero();
    c.near(s.segment(6, 3), i + 1 < n ? vel(i) : z, 1e-9, "velocity");
    c.near(s.segment(9, 3), i + 1 < n ? om(i) : z, 1e-9, "angular velocity");
    c.near(Vector3(s.segment(12, 3) * dt), i + 2 < n ? Vector3(vel(i + 1) - vel(i)) : z, 1e-9, "acceleration");
    c.near(Vector3(s.segment(15, 3) * dt), i + 2 < n ? Vector3(om(i + 1) - om(i)) : z, 1e-9, "angular acceleration");
  }
  c.state(uint64_t(n) * 10 + uint64_t(k0 + 5));
}
} // namespace
MC_MAIN()
