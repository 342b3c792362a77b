// C09: rotation representations convert consistently and merges respect both inputs.
#include "orihist.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using namespace stateObservation::kine;
using mc::C;

namespace
{
// independent reference: Rodrigues' formula with series for tiny angles, in long double
typedef Eigen::Matrix<long double, 3, 3> M3l;
typedef Eigen::Matrix<long double, 3, 1> V3l;
Matrix3 refExp(const Vector3 & w)
{
  V3l x = w.cast<long double>();
  long double t = x.norm();
  M3l S;
  S << 0, -x(2), x(1), x(2), 0, -x(0), -x(1), x(0), 0;
  long double a = t < 1e-5L ? 1 - t * t / 6 : std::sin(t) / t;
  long double s2 = std::sin(t / 2);
  long double b = t < 1e-5L ? 0.5L - t * t / 24 : 2 * s2 * s2 / (t * t);
  M3l R = M3l::Identity() + a * S + b * S * S;
  return R.cast<double>();
}
const std::vector<double> & angles(bool full)
{
  static const std::vector<double> f = {0,    1e-17, 1e-12, 1e-8,        1e-5,     1e-3, 0.1,      0.7, 1.0,
                                        M_PI / 2, 2.0,  2.9,   M_PI - 1e-4, M_PI - 1e-8, M_PI, M_PI + 1e-3, 3.9, 4.6};
  static const std::vector<double> q = {0, 1e-9, 0.4, M_PI / 2, 2.5, M_PI - 1e-6, M_PI, 4};
  return full ? f : q;
}
Vector3 pickAxis(C & c)
{
  static const std::vector<Vector3> ax = [] {
    std::vector<Vector3> v;
    for(int a = -1; a < 2; ++a)
      for(int b = -1; b < 2; ++b)
        for(int d = -1; d < 2; ++d)
          if(a || b || d) v.push_back(Vector3(a, b, d).normalized());
    v.push_back(Vector3(0.3, -0.8, 0.1).normalized());
    v.push_back(Vector3(-1e-6, 1, 2e-7).normalized());
    return v;
  }();
  return c.pick(ax);
}
Vector3 pickRot(C & c, bool full)
{
  Vector3 a = pickAxis(c);
  return c.pick(angles(full)) * a;
}
bool sameQ(const Quaternion & a, const Quaternion & b, double tol)
{
  return (a.coeffs() - b.coeffs()).norm() < tol || (a.coeffs() + b.coeffs()).norm() < tol;
}
/// rotation vector equivalent to w with norm within [0,pi]
Vector3 canonical(const Vector3 & w)
{
  double n = w.norm();
  if(n <= M_PI) return w;
  double k = std::ceil((n - M_PI) / (2 * M_PI));
  return w / n * (n - 2 * M_PI * k);
}
void nearVec(C & c, const Vector3 & got, const Vector3 & w, double tol, const char * key)
{
  // at a half turn both signs represent the same rotation
  Vector3 e = canonical(w);
  c.require(got.allFinite() && got.norm() <= M_PI + 1e-9, key);
  if((got - e).norm() <= tol) return;
  if(std::fabs(e.norm() - M_PI) < 1e-6 && (got + e).norm() < 2e-6 + tol) return;
  c.fail(key, std::string(key) + ": got " + mc::str(got) + " expected " + mc::str(e));
}
bool isRot(const Matrix3 & R, double tol = 1e-9)
{
  return R.allFinite() && (R * R.transpose() - Matrix3::Identity()).norm() < tol && std::fabs(R.determinant() - 1) < tol;
}

MC_SUITE(conversions, 2)
{
  Vector3 w = pickRot(c, true);
  Matrix3 R = refExp(w);
  const double tol = 1e-14;
  c.step([&] { return "rotation vector " + mc::str(w); });
  AngleAxis aa = rotationVectorToAngleAxis(w);
  c.near(aa.toRotationMatrix(), R, tol, "rotation vector to angle-axis");
  c.near(Vector3(aa.angle() * aa.axis()), w, 1e-15, "angle times axis is the rotation vector");
  c.near(rotationVectorToRotationMatrix(w), R, tol, "rotation vector to matrix");
  Quaternion q = rotationVectorToQuaternion(w);
  c.require(std::fabs(q.norm() - 1) < tol, "unit quaternion");
  c.near(q.toRotationMatrix(), R, tol, "rotation vector to quaternion");
  const double vt = 3e-8 + 1e-8 * w.norm(); // the logarithm of a matrix is accurate to sqrt(eps) near a half turn
  bool nearPi = std::fabs(canonical(w).norm() - M_PI) < 1e-3;
  nearVec(c, quaternionToRotationVector(q), w, 1e-14 * (1 + w.norm()) + 1e-14, "quaternion to rotation vector");
  nearVec(c, quaternionToRotationVector(Quaternion(Vector4(-q.coeffs()))), w, 1e-14 * (1 + w.norm()) + 1e-14,
          "opposite quaternion to rotation vector");
  Vector4 qv = q.coeffs();
  nearVec(c, quaternionToRotationVector(qv), w, 1e-14 * (1 + w.norm()) + 1e-14, "quaternion coefficients to rotation vector");
  nearVec(c, rotationMatrixToRotationVector(R), w, nearPi ? vt : 1e-13, "matrix to rotation vector");
  c.require(scalarComponent(q) == q.w() && vectorComponent(q) == Vector3(q.x(), q.y(), q.z()), "quaternion components");
  // homogeneous matrices and six-vectors
  Vector6 v6;
  v6 << 0.5, -2, 7, w;
  Matrix4 M = vector6ToHomogeneousMatrix(v6);
  c.near(M.block(0, 0, 3, 3), R, tol, "rotation of a six-vector");
  c.near(M.block(0, 3, 3, 1), v6.head(3), 0, "translation of a six-vector");
  c.require(M.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row of a homogeneous matrix");
  Vector6 b6 = homogeneousMatrixToVector6(M);
  c.near(b6.head(3), v6.head(3), 0, "translation back");
  nearVec(c, b6.tail(3), w, nearPi ? vt : 1e-13, "rotation back");
  Matrix4 Mi = invertHomoMatrix(M);
  c.near(Mi * M, Matrix4::Identity(), 1e-13, "inverse of a homogeneous matrix");
  c.near(M * Mi, Matrix4::Identity(), 1e-13, "inverse of a homogeneous matrix");
  // roll, pitch, yaw
  Vector3 rpy = rotationMatrixToRollPitchYaw(R), rpy2;
  Vector3 rpy3 = rotationMatrixToRollPitchYaw(R, rpy2);
  c.require(rpy == rpy2 && rpy == rpy3, "both roll-pitch-yaw extractions agree");
  c.require(std::fabs(rpy(0)) <= M_PI && std::fabs(rpy(1)) <= M_PI / 2 + 1e-12 && std::fabs(rpy(2)) <= M_PI,
            "range of roll, pitch and yaw");
  bool gimbal = std::fabs(std::fabs(R(2, 0)) - 1) < 1e-9;
  if(!gimbal)
  {
    c.near(rollPitchYawToRotationMatrix(rpy), R, 1e-12, "roll-pitch-yaw back to matrix");
    c.near(rollPitchYawToRotationMatrix(rpy(0), rpy(1), rpy(2)), R, 1e-12, "roll-pitch-yaw back to matrix");
    c.near(rollPitchYawToQuaternion(rpy).toRotationMatrix(), R, 1e-12, "roll-pitch-yaw to quaternion");
    c.near(rollPitchYawToQuaternion(rpy(0), rpy(1), rpy(2)).toRotationMatrix(), R, 1e-12, "roll-pitch-yaw to quaternion");
  }
  // matrices that are rotations up to rounding, on either side (traces above three, sines above one)
  for(int k = -1; k <= 1; k += 2)
  {
    Matrix3 Rr = (1 + k * 4 * std::numeric_limits<double>::epsilon()) * R;
    nearVec(c, rotationMatrixToRotationVector(Rr), w, 2e-7 + 1e-7 * w.norm(), "rounded matrix to rotation vector");
    nearVec(c, Orientation(Rr).toRotationVector(), w, 2e-7 + 1e-7 * w.norm(), "orientation from a rounded matrix");
    Matrix4 Mr = M;
    Mr.block(0, 0, 3, 3) = Rr;
    nearVec(c, Vector3(homogeneousMatrixToVector6(Mr).tail(3)), w, 2e-7 + 1e-7 * w.norm(), "rounded homogeneous matrix");
    Vector3 e = rotationMatrixToRollPitchYaw(Rr);
    c.require(e.allFinite(), "roll, pitch and yaw of a rounded matrix are numbers");
    if(!gimbal) c.near(rollPitchYawToRotationMatrix(e), R, 1e-7, "roll-pitch-yaw of a rounded matrix");
    c.require(std::isfinite(rotationMatrixToYawAxisAgnostic(Rr)), "yaw of a rounded matrix is a number");
  }
  // tests and projection
  c.require(isRotationMatrix(R, 1e-10), "a rotation matrix is recognised");
  Matrix3 F = R;
  F.col(int(std::fabs(w(0)) * 10) % 3) *= -1;
  c.require(!isRotationMatrix(F, 1e-10), "a reflection is not a rotation");
  c.require(!isRotationMatrix(Matrix3(1.01 * R), 1e-10), "a scaled rotation is not a rotation");
  Matrix3 sh = R;
  sh(0, 1) += 0.01;
  c.require(!isRotationMatrix(sh, 1e-10), "a sheared rotation is not a rotation");
  c.near(orthogonalizeRotationMatrix(R), R, 1e-12, "projection leaves a rotation in place");
  Matrix3 sym;
  sym << 1.02, 0.01, -0.02, 0.01, 0.97, 0.03, -0.02, 0.03, 1.05;
  c.near(orthogonalizeRotationMatrix(R * sym), R, 1e-12, "projection gives the closest rotation");
  c.require(isRot(orthogonalizeRotationMatrix(F * sym)), "projection always gives a rotation");
  // regulation
  for(int k = 0; k < 4; ++k)
  {
    double n = w.norm();
    Vector3 big = n > 0 ? Vector3(w / n * (n + 2 * M_PI * k)) : w;
    if(n < 1e-9) big = w;
    Vector3 r = regulateRotationVector(big);
    c.near(refExp(r), refExp(big), 1e-12, "regulation keeps the rotation");
    c.require(r.norm() <= 1.5 * M_PI + 1e-12, "regulation bounds the norm");
    if(big.norm() > 1.5 * M_PI) c.require(r.norm() <= M_PI + 1e-12, "regulation brings the norm below a half turn");
    if(big.norm() <= M_PI) c.near(r, big, 0, "regulation leaves small rotations");
    Vector3 r2 = regulateOrientationVector(big);
    c.near(r2, r, 0, "both regulations agree");
  }
  c.state(mc::hashM(1, R));
}

// composition of pairs through every representation, differences, Jacobians
MC_SUITE(pairs, 2)
{
  Vector3 w1 = pickRot(c, true), w2 = pickRot(c, true);
  Matrix3 R1 = refExp(w1), R2 = refExp(w2);
  c.step([&] { return "pair " + mc::str(w1) + " , " + mc::str(w2); });
  Matrix3 P = R1 * R2;
  Quaternion q1 = rotationVectorToQuaternion(w1), q2 = rotationVectorToQuaternion(w2);
  c.near((q1 * q2).toRotationMatrix(), P, 1e-14, "product");
  Orientation o1(w1), o2(R2);
  c.near((o1 * o2).toMatrix3(), P, 1e-13, "product of orientations");
  // finite difference: exp(dt*omega) * first = second
  double dt = 0.1;
  Vector3 d1 = derivateRotationFD(q1, q2, dt), d2 = derivateRotationFD(w1, w2, dt);
  c.near(refExp(dt * d1) * R1, R2, 1e-7, "finite difference of quaternions");
  c.near(refExp(dt * d2) * R1, R2, 1e-7, "finite difference of rotation vectors");
  c.require(d1.norm() * dt <= M_PI + 1e-7, "finite difference is the shortest rotation");
  Vector6 a, b;
  a << 1, 2, 3, w1;
  b << -1, 0.5, 3, w2;
  Vector6 e = derivatePoseThetaUFD(a, b, dt);
  c.near(e.head(3), Vector3(-20, -15, 0), 1e-13, "finite difference of positions");
  c.near(refExp(dt * e.tail(3)) * R1, R2, 1e-7, "finite difference of poses");
  Vector6 h = derivateHomogeneousMatrixFD(vector6ToHomogeneousMatrix(a), vector6ToHomogeneousMatrix(b), dt);
  c.near(h.head(3), Vector3(-20, -15, 0), 1e-13, "finite difference of homogeneous positions");
  c.near(refExp(dt * h.tail(3)) * R1, R2, 1e-7, "finite difference of homogeneous matrices");
  Vector3 df = Orientation(q1).differentiate(Orientation(q2));
  c.near(refExp(df) * R1, R2, 1e-7, "difference of orientations");
  Orientation o(q1);
  o.integrate(df);
  c.near(o.toMatrix3(), R2, 1e-7, "integrating the difference gives the second orientation");
  c.state(mc::hashM(1, P));
}
MC_SUITE(jacobians, 2)
{
  Vector3 w = pickRot(c, true);
  c.step([&] { return "Jacobians at " + mc::str(w); });
  Matrix3 R = refExp(w), A, B;
  A.setConstant(5);
  B.setConstant(5);
  derivateRotationMultiplicative(w, A, B);
  // R(dR, deltaR) = exp(deltaR) * orientation ; left multiplicative variations
  Matrix3 An, Bn;
  const double h = 1e-6;
  for(int i = 0; i < 3; ++i)
  {
    Vector3 e = h * Vector3::Unit(i);
    Matrix3 Rp = R * refExp(e) * R.transpose(), Rm = R * refExp(-e) * R.transpose();
    An.col(i) = Vector3(Rp(2, 1) - Rp(1, 2) - Rm(2, 1) + Rm(1, 2), Rp(0, 2) - Rp(2, 0) - Rm(0, 2) + Rm(2, 0),
                        Rp(1, 0) - Rp(0, 1) - Rm(1, 0) + Rm(0, 1))
                / (4 * h);
    Rp = refExp(w + e) * R.transpose();
    Rm = refExp(w - e) * R.transpose();
    Bn.col(i) = Vector3(Rp(2, 1) - Rp(1, 2) - Rm(2, 1) + Rm(1, 2), Rp(0, 2) - Rp(2, 0) - Rm(0, 2) + Rm(2, 0),
                        Rp(1, 0) - Rp(0, 1) - Rm(1, 0) + Rm(0, 1))
                / (4 * h);
  }
  c.near(A, An, 1e-6, "Jacobian of a product with respect to the orientation");
  c.near(B, Bn, 1e-6, "Jacobian of a product with respect to the increment");
  static const Vector3 vs[] = {Vector3(0, 0, 9.8), Vector3(1, -2, 3), Vector3(0, 0, 0), Vector3(-5, 0, 0)};
  for(const Vector3 & v : vs)
  {
    // magnitude: the derivative of R^T v along any rotation d of the frame is +-R^T (v x d)
    Matrix3 D = derivateRtvMultiplicative(R, v);
    Matrix3 Dn;
    for(int i = 0; i < 3; ++i)
    {
      Vector3 e = h * Vector3::Unit(i);
      Dn.col(i) = ((refExp(e) * R).transpose() * v - (refExp(-e) * R).transpose() * v) / (2 * h);
    }
    c.near(D, Dn, 1e-6, "Jacobian of a vector expressed in a rotating frame");
  }
  c.state(mc::hashM(1, B));
}

// tilt and yaw merges
double yawOf(const Matrix3 & R)
{
  return std::atan2(R(1, 0), R(0, 0));
}
double wrap(double a)
{
  return std::remainder(a, 2 * M_PI);
}
MC_SUITE(merges, 2)
{
  Vector3 w1 = pickRot(c, true), w2 = pickRot(c, true);
  Matrix3 R1 = refExp(w1), R2 = refExp(w2);
  c.step([&] { return "merge tilt of " + mc::str(w1) + " with yaw of " + mc::str(w2); });
  Vector3 tilt = (R1.transpose() * Vector3::UnitZ()).normalized();
  // axis agnostic
  Matrix3 A = mergeTiltWithYawAxisAgnostic(tilt, R2);
  c.require(isRot(A), "the axis-agnostic merge is a rotation");
  c.near(Vector3(A.transpose() * Vector3::UnitZ()), tilt, 1e-9, "the axis-agnostic merge has the tilt of the first");
  Matrix3 A2 = mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R2);
  Vector3 h = R2 * tilt;
  double hh = h.head(2).norm();
  if(hh > 1e-6) c.near(A2, A, 1e-6, "both axis-agnostic merges agree");
  // it is R2 followed by the smallest rotation bringing the tilt in place
  if(hh > 1e-6)
  {
    Vector3 m(h(1), -h(0), 0);
    m.normalize();
    c.near(Vector3(A * (R2.transpose() * m)), m, 1e-7, "the axis-agnostic merge keeps the common horizontal direction");
  }
  else if(h(2) > 0)
    c.near(A, R2, 1e-5, "merging an orientation's own tilt leaves it in place");
  // reference-axis versions
  double psi = c.choose(4) * 0.8;
  Vector3 m(std::cos(psi), std::sin(psi), 0);
  double sing = (R2.transpose() * m).cross(tilt).norm();
  if(sing > 1e-6)
  {
    Matrix3 B = c.path.back() == 0 ? mergeTiltWithYaw(tilt, R2) : mergeTiltWithYaw(tilt, R2, m);
    c.require(isRot(B), "the merge is a rotation");
    c.near(Vector3(B.transpose() * Vector3::UnitZ()), tilt, 1e-9, "the merge has the tilt of the first");
    Matrix3 B2 = c.path.back() == 0 ? mergeRoll1Pitch1WithYaw2(R1, R2) : mergeRoll1Pitch1WithYaw2(R1, R2, m);
    c.near(B2, B, 1e-6, "both merges agree");
    // the deviation of m is minimised: m_local of B is the projection of R2^T m on the plane orthogonal to the tilt
    Vector3 ml = R2.transpose() * m;
    Vector3 pr = (ml - ml.dot(tilt) * tilt).normalized();
    c.near(Vector3(B * pr), m, 1e-7, "the merge has the yaw of the second for the reference axis");
    if(sing > 0.05)
    {
      // turning the second orientation about the vertical turns the result likewise
      Matrix3 Y = AngleAxis(0.9, Vector3::UnitZ()).toRotationMatrix();
      Matrix3 B3 = mergeTiltWithYaw(tilt, Y * R2, Y * m);
      c.near(B3, Y * B, 1e-9, "yaw of the second turns the result");
    }
  }
  else if(sing < 1e-18)
  {
    bool thrown = false;
    try
    {
      mergeTiltWithYaw(tilt, R2, m);
    }
    catch(const std::invalid_argument &)
    {
      thrown = true;
    }
    c.require(thrown, "a singular merge is refused");
  }
  c.state(mc::hashM(1, A));
}
MC_SUITE(yaw, 2)
{
  Vector3 w = pickRot(c, true);
  Matrix3 R = refExp(w);
  double psi = -3 + c.choose(7);
  c.step([&] { return "yaw of " + mc::str(w); });
  Matrix3 Y = AngleAxis(psi, Vector3::UnitZ()).toRotationMatrix();
  // pure yaw
  c.require(isPureYaw(Y), "a rotation about the vertical is a pure yaw");
  bool tilted = R.block(2, 0, 1, 2).norm() > 1e-12;
  if(tilted) c.require(!isPureYaw(R), "a tilted rotation is not a pure yaw");
  c.near(rotationMatrixToYaw(Y), psi, 1e-14, "yaw of a pure yaw");
  c.near(rotationMatrixToYawAxisAgnostic(Y), psi, 1e-14, "axis-agnostic yaw of a pure yaw");
  for(int i = 0; i < 5; ++i)
  {
    double a = 1.3 * i;
    Vector2 v(std::cos(a), std::sin(a));
    Vector3 v3(v(0), v(1), 0);
    c.near(rotationMatrixToYaw(Y, v), psi, 1e-14, "yaw of a pure yaw seen from any horizontal vector");
    c.near(rotationMatrixToAngle(Y, Vector3::UnitZ(), v3), psi, 1e-13, "angle about the vertical");
    Vector3 rv = R * v3;
    if(rv.head(2).norm() > 1e-6)
    {
      double e = std::atan2(rv(1), rv(0)) - a;
      c.require(std::fabs(wrap(rotationMatrixToYaw(R, v) - e)) < 1e-8, "yaw is the angle turned by the vector's projection");
      c.require(std::fabs(wrap(rotationMatrixToAngle(R, Vector3::UnitZ(), v3) - e)) < 1e-8, "angle about the vertical axis");
    }
  }
  c.require(std::fabs(wrap(rotationMatrixToYaw(R) - yawOf(R))) < 1e-14, "yaw");
  // the yaw ignores what is rotated before about the reference axis, adds what is rotated after about the vertical
  if(R.block(0, 0, 2, 1).norm() > 1e-6)
  {
    Matrix3 X = AngleAxis(0.6, Vector3::UnitX()).toRotationMatrix();
    c.require(std::fabs(wrap(rotationMatrixToYaw(R * X) - rotationMatrixToYaw(R))) < 1e-8, "yaw ignores roll");
    c.require(std::fabs(wrap(rotationMatrixToYaw(Y * R) - rotationMatrixToYaw(R) - psi)) < 1e-8, "yaw adds up");
  }
  // axis agnostic: there is a horizontal vector that stays horizontal and turns by that angle
  double ag = rotationMatrixToYawAxisAgnostic(R);
  Vector3 hv = getInvariantHorizontalVector(R);
  c.require(hv(2) == 0 && hv.norm() > 0, "the invariant vector is horizontal");
  Vector3 u = hv.normalized(), ru = R * u;
  c.require(std::fabs(ru(2)) < 1e-9, "the invariant vector stays horizontal");
  if(tilted || std::fabs(R(2, 2) - 1) < 1e-9)
    c.require(std::fabs(wrap(std::atan2(ru(1), ru(0)) - std::atan2(u(1), u(0)) - ag)) < 1e-6, "axis-agnostic yaw");
  if(R.block(2, 0, 1, 2).norm() > 1e-6)
    c.require(std::fabs(wrap(rotationMatrixToYawAxisAgnostic(Y * R) - ag - psi)) < 1e-8, "axis-agnostic yaw adds up");
  // generalised invariant vector
  Vector3 tl = refExp(Vector3(0.3 * psi, -0.4, 0.2)).transpose() * Vector3::UnitZ();
  Vector3 go = getInvariantOrthogonalVector(R, tl);
  c.require(go(2) == 0 && go.norm() > 0, "the orthogonal vector is horizontal");
  c.require(std::fabs((R.transpose() * go.normalized()).dot(tl)) < 1e-9, "the orthogonal vector is orthogonal to the tilt");
  // general axis
  Vector3 ax = Vector3(0.2, psi, 1).normalized();
  Vector3 orth = ax.unitOrthogonal();
  Matrix3 Q = AngleAxis(0.3 * psi, ax).toRotationMatrix();
  c.near(rotationMatrixToAngle(Q, ax, orth), 0.3 * psi, 1e-13, "angle about any axis");
  c.state(mc::hashM(mc::hashD(1, ag), R));
}
MC_SUITE(two_vectors, 2)
{
  Vector3 a = pickAxis(c), b = pickAxis(c);
  int k = c.choose(3);
  if(k == 1) b = (refExp(1e-5 * b) * a).normalized(); // nearly parallel
  if(k == 2) b = -(refExp(1e-5 * b) * a).normalized(); // nearly opposite
  c.step([&] { return "rotation from " + mc::str(a) + " to " + mc::str(b); });
  if((a + b).norm() < 1e-10)
  {
    if((a + b).norm() == 0)
    {
      bool thrown = false;
      try
      {
        twoVectorsToRotationMatrix(a, b);
      }
      catch(const std::invalid_argument &)
      {
        thrown = true;
      }
      c.require(thrown, "opposite vectors are refused");
    }
  }
  else
  {
    Matrix3 R = twoVectorsToRotationMatrix(a, b);
    c.require(isRot(R, 1e-7), "result is a rotation");
    c.near(Vector3(R * a), b, 1e-7, "first vector brought on the second");
    Vector3 n = a.cross(b);
    if(n.norm() > 1e-3) c.near(Vector3(R * n), n, 1e-9, "the rotation axis is orthogonal to both");
    double cosA = (R.trace() - 1) / 2;
    c.require(std::fabs(cosA - a.dot(b)) < 1e-7, "the angle is the smallest");
  }
  c.state(mc::hashM(mc::hashM(1, a), b));
}

// the orientation class: every history of assignments, conversions, products, inversions, integrations
MC_SUITE(orientation_histories, 2)
{
  Orientation o;
  orihist::explore(c, o, c.t(5, 6), refExp);
}
MC_SUITE(random_rotations, 1)
{
  int n = c.choose(8);
  c.step([&] { return "random rotations are rotations"; });
  for(int i = 0; i < 50 + n; ++i)
  {
    Quaternion q = randomRotationQuaternion();
    c.require(std::fabs(q.norm() - 1) < 1e-12, "unit quaternion");
    double a = randomAngle();
    c.require(a >= -M_PI && a <= M_PI, "range of a random angle");
    c.require(isRot(Orientation::randomRotation().toMatrix3()), "random orientation");
  }
  c.near(zeroRotationQuaternion().coeffs(), Vector4(0, 0, 0, 1), 0, "identity quaternion");
  c.state(1);
}
} // namespace
MC_MAIN()
