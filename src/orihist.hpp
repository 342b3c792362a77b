// The orientation class: every history of assignments, conversions, products, inversions, integrations and resets.
// Shared by C07 (as held in kinematics) and C09. X is an exponential map.
#pragma once
#include "mc.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>

namespace orihist
{
using namespace stateObservation;
using namespace stateObservation::kine;
inline bool same(const Quaternion & a, const Quaternion & b, double t)
{
  return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()) < t;
}
template<class Exp>
void explore(mc::C & c, Orientation & o, int depth, Exp X)
{
  Matrix3 R = Matrix3::Zero();
  bool set = false;
  c.require(!o.isSet(), "a default orientation is not set");
  auto W = [](int k) { return Vector3(0.7 * k - 1.5, std::sin(2.2 * k), 0.4 - 0.9 * k); };
  for(int k = 0; k < depth; ++k)
  {
    Vector3 w = W(k + 1);
    if(k == 1) w = Vector3(0, M_PI, 0);
    Matrix3 Rw = X(w);
    int op = c.choose(23);
    if(!set && op >= 9 && op != 20) throw mc::Prune();
    switch(op)
    {
      case 0: o = w; R = Rw; break;
      case 1: o = rotationVectorToQuaternion(w); R = Rw; break;
      case 2: o = Rw; R = Rw; break;
      case 3: o = AngleAxis(w.norm(), w.normalized()); R = Rw; break;
      case 4: o.setValue(rotationVectorToQuaternion(w), Rw); R = Rw; break;
      case 5: o.fromVector4(rotationVectorToQuaternion(w).coeffs()); R = Rw; break;
      case 6: o.setZeroRotation(); R.setIdentity(); break;
      case 7: o.setZeroRotation<Matrix3>(); R.setIdentity(); break;
      case 8:
        o = k % 2 ? Orientation(0.3, -0.4, 1.1) : Orientation::zeroRotation();
        R = k % 2 ? Matrix3((AngleAxis(1.1, Vector3::UnitZ()) * AngleAxis(-0.4, Vector3::UnitY())
                             * AngleAxis(0.3, Vector3::UnitX()))
                                .toRotationMatrix())
                  : Matrix3(Matrix3::Identity());
        break;
      case 9: o = o * Orientation(w); R = R * Rw; break;
      case 10: o = o * Orientation(Rw); R = R * Rw; break;
      case 11: o = Orientation(rotationVectorToQuaternion(w), Rw) * o; R = Rw * R; break;
      case 12: o = Orientation(Rw) * o; R = Rw * R; break;
      case 13: o = o.inverse(); R = R.transpose().eval(); break;
      case 14: o.integrate(w); R = Rw * R; break;
      case 15: o.synchronize(); c.require(o.isMatrixSet() && o.isQuaternionSet(), "synchronised"); break;
      case 16: c.near(o.toMatrix3(), R, 1e-12, "matrix"); break;
      case 17: c.require(same(o.toQuaternion(), Quaternion(R), 1e-10), "quaternion"); break;
      case 18:
      {
        Orientation t;
        t.setToProductNoAlias(o, o);
        o = t;
        R = R * R;
        break;
      }
      case 19: o = o * o; R = R * R; break;
      case 20:
        o.reset();
        set = false;
        break;
      case 21:
      {
        Orientation t(Rw), u(o, t);
        c.near(u.toMatrix3(), R * Rw, 1e-12, "constructed product");
        c.near(X(o.differentiate(t)) * R, Rw, 1e-6, "difference");
        c.near(Vector3(o * w), Vector3(R * w), 1e-12, "rotated vector");
        const Matrix3 & m = o;
        c.near(m, R, 1e-12, "conversion operator to matrix");
        break;
      }
      case 22:
      {
        const Quaternion & q = o;
        c.require(same(q, Quaternion(R), 1e-10), "conversion operator to quaternion");
        c.near(X(o.toRotationVector()), R, 1e-7, "rotation vector");
        break;
      }
    }
    if(op < 9) set = true;
    c.step([&] { return "operation " + std::to_string(op); });
    c.require(o.isSet() == set, "set state");
    c.require(o.isSet() == (o.isMatrixSet() || o.isQuaternionSet()), "set state and representations");
    // every representation that is held must denote the rotation
    if(o.isMatrixSet()) c.near(o.getMatrixRefUnsafe()(), R, 1e-12, "stored matrix");
    if(o.isQuaternionSet()) c.require(same(o.getQuaternionRefUnsafe()(), Quaternion(R), 1e-10), "stored quaternion");
    c.state(mc::hashM(uint64_t(o.isMatrixSet()) + 2 * o.isQuaternionSet(), R));
  }
  if(set)
  {
    Orientation f = o; // read everything from a copy, in one of two orders
    if(c.flag()) f.synchronize();
    c.near(f.toAngleAxis().toRotationMatrix(), R, 1e-10, "angle-axis");
    c.near(X(f.toRotationVector()), R, 1e-7, "rotation vector");
    Vector3 rpy = f.toRollPitchYaw();
    if(std::fabs(R(2, 0)) < 1 - 1e-6) c.near(rollPitchYawToRotationMatrix(rpy), R, 1e-9, "roll, pitch and yaw");
    c.near(f.toMatrix3(), R, 1e-12, "matrix");
    c.require(same(f.toQuaternion(), Quaternion(R), 1e-10), "quaternion");
    Vector4 v4 = f.toVector4();
    c.require(same(Quaternion(v4), Quaternion(R), 1e-10), "quaternion as a vector");
  }
}
} // namespace orihist
