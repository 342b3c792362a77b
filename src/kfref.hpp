// Reference Kalman filter (textbook form) and small exact linear models shared by the filter harnesses.
#pragma once
#include <Eigen/Dense>
#include <map>
namespace ref
{
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
struct KF
{
  M A, B, C, D, Q, R, P;
  V x;
  long k = 0;
  V xbar, ybar, innov;
  M K;
  // u0: input of the current step (state), u1: input of the measured step
  void step(const V & y, const V & u0, const V & u1)
  {
    xbar = A * x;
    if(B.size()) xbar += B * u0;
    M Pb = A * P * A.transpose() + Q;
    ybar = C * xbar;
    if(D.size()) ybar += D * u1;
    M S = C * Pb * C.transpose() + R;
    K = Pb * C.transpose() * S.fullPivLu().inverse();
    innov = K * (y - ybar);
    x = xbar + innov;
    M I = M::Identity(P.rows(), P.cols());
    P = (I - K * C) * Pb * (I - K * C).transpose() + K * R * K.transpose(); // Joseph form
    ++k;
  }
};
inline double minEig(const M & m)
{
  return Eigen::SelfAdjointEigenSolver<M>(0.5 * (m + m.transpose())).eigenvalues().minCoeff();
}
} // namespace ref
