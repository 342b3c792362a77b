// C14: DCM bias estimators follow their documented filter, clamp and frames.
#include "mc.hpp"
#include "kfref.hpp"
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
Matrix2 rot(double a)
{
  Matrix2 r;
  r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  return r;
}
Vector2 v2(double a, double b)
{
  return Vector2(a, b);
}

// reference estimator: state (dcm, bias) in the world frame
struct Ref
{
  double w, dt, drift, dcmStd, zmpStd;
  Vector2 limit;
  Eigen::VectorXd x = Eigen::VectorXd::Zero(4);
  Eigen::MatrixXd P;
  Vector2 zmp;
  double th = 0;
  bool pending = false;
  Vector2 y, u;
  double dth = 0;
  void setInputs(const Vector2 & dcm, const Vector2 & z, double yaw)
  {
    if(pending) update();
    y = dcm;
    u = zmp;
    zmp = z;
    dth = yaw - th;
    th = yaw;
    pending = true;
  }
  void update()
  {
    if(pending)
    {
      ref::KF k;
      k.A = Eigen::MatrixXd::Zero(4, 4);
      k.A.topLeftCorner(2, 2) = (1 + w * dt) * Matrix2::Identity();
      k.A.bottomRightCorner(2, 2) = rot(dth);
      k.B = Eigen::MatrixXd::Zero(4, 2);
      k.B.topRows(2) = -w * dt * Matrix2::Identity();
      k.C = Eigen::MatrixXd::Zero(2, 4);
      k.C << 1, 0, 1, 0, 0, 1, 0, 1;
      Vector4 q;
      q << Vector2::Constant(std::pow(w * dt * zmpStd, 2)), Vector2::Constant(std::pow(drift * dt, 2));
      k.Q = q.asDiagonal();
      k.R = dcmStd * dcmStd * Matrix2::Identity();
      k.P = P;
      k.x = x;
      k.step(y, u, Vector());
      x = k.x;
      P = k.P;
      pending = false;
    }
    Vector2 b = rot(-th) * Vector2(x.tail(2)), cl = b;
    for(int i = 0; i < 2; ++i)
      if(limit(i) > 0) cl(i) = std::max(-limit(i), std::min(limit(i), b(i)));
    Vector2 d = rot(th) * (b - cl);
    x.head(2) += d;
    x.tail(2) -= d;
  }
  void reset(const Vector2 & dcm, const Vector2 & z, double yaw, bool withBias, const Vector2 & b, const Vector2 & unc)
  {
    zmp = z;
    th = yaw;
    pending = false;
    x.tail(2) = b;
    x.head(2) = dcm;
    if(withBias) x.head(2) -= b;
    Eigen::MatrixXd B = Vector2(unc.array().square()).asDiagonal(), R = dcmStd * dcmStd * Matrix2::Identity();
    P = Eigen::MatrixXd::Zero(4, 4);
    P.bottomRightCorner(2, 2) = B;
    P.topLeftCorner(2, 2) = R;
    if(withBias)
    {
      P.topLeftCorner(2, 2) += B;
      P.topRightCorner(2, 2) = -B;
      P.bottomLeftCorner(2, 2) = -B;
    }
  }
};

void compare(C & c, const LipmDcmEstimator & e, const Ref & r, bool estimated)
{
  c.near(e.getUnbiasedDCM(), Vector2(r.x.head(2)), 1e-8, "unbiased DCM");
  c.near(e.getBias(), Vector2(r.x.tail(2)), 1e-8, "bias");
  c.near(e.getLocalBias(), Vector2(rot(-r.th) * Vector2(r.x.tail(2))), 1e-8, "local bias");
  c.near(e.getFilter().getStateCovariance(), r.P, 1e-8, "covariance");
  c.require(e.getLipmNaturalFrequency() == r.w, "natural frequency");
  if(estimated)
  {
    Vector2 b = e.getLocalBias();
    for(int i = 0; i < 2; ++i)
      if(r.limit(i) > 0) c.require(std::fabs(b(i)) <= r.limit(i) * (1 + 1e-9), "bias within its limit");
  }
  c.state(mc::hashM(mc::hashM(mc::hashD(1, r.th), r.x), r.P));
}

const std::vector<double> yaws{0.4, -1.1, 2.9};

void planar(C & c, int depth)
{
  Ref r;
  r.w = 3.1;
  r.dt = 0.02;
  r.drift = 0.5;
  r.dcmStd = 0.02;
  r.zmpStd = 0.3;
  r.limit = c.pick(std::vector<Vector2>{v2(0, 0), v2(0.03, 0), v2(0, 0.02), v2(0.025, 0.015)});
  r.zmp = v2(0.1, -0.05);
  r.x << 0.2, 0.1, 0.01, -0.02;
  Vector4 p;
  p << 0.01, 0.02, 0.03, 0.04;
  r.P = Vector4(p.array().square()).asDiagonal();
  LipmDcmEstimator e(r.dt, r.w, r.drift, r.dcmStd, r.zmpStd, r.limit, r.zmp, r.x.head<2>(), r.x.tail<2>(), p.head<2>(),
                     p.tail<2>());
  compare(c, e, r, false);
  int id = 0;
  Vector2 lastD = r.x.head(2), lastZ = r.zmp;
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(12);
    ++id;
    bool est = false;
    switch(op)
    {
      case 0: // one regular iteration
      case 1: // inputs only
      {
        // generic data, or coincidences: ZMP under the DCM, everything null, the very same data as before
        int kind = c.choose(int(yaws.size()) + 3);
        double yaw = kind < int(yaws.size()) ? yaws[size_t(kind)] : kind == int(yaws.size()) ? yaws[0] : r.th;
        kind -= int(yaws.size()) - 1;
        Vector2 d = v2(0.15 + 0.05 * id, 0.3 - 0.11 * id), z = v2(0.05 * id, -0.02 * id);
        if(kind == 1) z = d;
        if(kind == 2) d = z = v2(0, 0);
        if(kind == 3)
        {
          d = lastD;
          z = lastZ;
        }
        lastD = d;
        lastZ = z;
        c.step([&] { return "setInputs yaw " + mc::str(yaw) + (op ? "" : " and update"); });
        if(id % 3 == 0)
          e.setInputs(d, z, rot(yaw));
        else if(id % 3 == 1)
          e.setInputs(d, z, yaw);
        else
        {
          Matrix3 R3 = Matrix3::Identity();
          R3.topLeftCorner<2, 2>() = rot(yaw);
          e.setInputs(d, z, R3);
        }
        r.setInputs(d, z, yaw);
        if(op == 0)
        {
          e.update();
          r.update();
          est = true;
        }
        break;
      }
      case 2:
        c.step([&] { return "update"; });
        e.update();
        r.update();
        est = true;
        break;
      case 3:
        c.step([&] { return "setLipmNaturalFrequency"; });
        r.w += 0.4;
        e.setLipmNaturalFrequency(r.w);
        break;
      case 4:
        c.step([&] { return "setSamplingTime"; });
        r.dt += 0.03;
        e.setSamplingTime(r.dt);
        break;
      case 5:
      {
        bool u = c.flag();
        c.step([&] { return "setBias"; });
        Vector2 b = v2(0.04, -0.03 * id), un = v2(0.05, 0.06);
        r.x.tail(2) = b;
        if(u)
        {
          r.P.topRightCorner(2, 2).setZero();
          r.P.bottomLeftCorner(2, 2).setZero();
          r.P.bottomRightCorner(2, 2) = Vector2(un.array().square()).asDiagonal();
          e.setBias(b, un);
        }
        else
          e.setBias(b);
        break;
      }
      case 6:
      {
        bool u = c.flag();
        c.step([&] { return "setUnbiasedDCM"; });
        Vector2 b = v2(0.4, -0.1 * id), un = v2(0.07, 0.02);
        r.x.head(2) = b;
        if(u)
        {
          r.P.topRightCorner(2, 2).setZero();
          r.P.bottomLeftCorner(2, 2).setZero();
          r.P.topLeftCorner(2, 2) = Vector2(un.array().square()).asDiagonal();
          e.setUnbiasedDCM(b, un);
        }
        else
          e.setUnbiasedDCM(b);
        break;
      }
      case 7:
        c.step([&] { return "setBiasDriftPerSecond"; });
        r.drift += 0.7;
        e.setBiasDriftPerSecond(r.drift);
        break;
      case 8:
        c.step([&] { return "setBiasLimit"; });
        r.limit = c.pick(std::vector<Vector2>{v2(0, 0), v2(0.01, 0), v2(0, 0.012)});
        e.setBiasLimit(r.limit);
        break;
      case 9:
        c.step([&] { return "setZmpMeasureErrorStd"; });
        r.zmpStd += 0.2;
        e.setZmpMeasureErrorStd(r.zmpStd);
        break;
      case 10:
        c.step([&] { return "setDcmMeasureErrorStd"; });
        r.dcmStd += 0.03;
        e.setDcmMeasureErrorStd(r.dcmStd);
        break;
      default:
      {
        bool wb = c.flag();
        int o = c.choose(3);
        double yaw = yaws[size_t(o)];
        Vector2 d = v2(0.3, 0.1 * id), z = v2(-0.1, 0.05), b = v2(0.02, -0.01 * id), un = v2(0.05, 0.01);
        c.step([&] { return std::string("resetWithMeasurements ") + (wb ? "with bias" : "without bias"); });
        if(o == 0)
          e.resetWithMeasurements(d, z, rot(yaw), wb, b, un);
        else if(o == 1)
          e.resetWithMeasurements(d, z, yaw, wb, b, un);
        else
        {
          Matrix3 R3 = Matrix3::Identity();
          R3.topLeftCorner<2, 2>() = rot(yaw);
          e.resetWithMeasurements(d, z, R3, wb, b, un);
        }
        r.reset(d, z, yaw, wb, b, un);
        break;
      }
    }
    compare(c, e, r, est);
  }
  // two ordinary iterations from wherever the history led
  for(int k = 0; k < 2; ++k)
  {
    Vector2 d = v2(0.5 - k, 0.2), z = v2(0.3 * k, 0.1);
    e.setInputs(d, z, 1.3 * k);
    r.setInputs(d, z, 1.3 * k);
    e.update();
    r.update();
    compare(c, e, r, true);
  }
  c.outcome(mc::hashM(1, r.x));
}
MC_SUITE(planar_histories, 3)
{
  planar(c, c.t(4, 5));
}

// one-dimensional estimator
struct Ref1
{
  double w, dt, drift, dcmStd, zmpStd, zmp;
  ref::V x = ref::V::Zero(2);
  ref::M P;
  std::vector<std::pair<double, double>> pending; // (dcm, previous zmp)
  void setInputs(double d, double z)
  {
    pending.push_back({d, zmp});
    zmp = z;
  }
  void update()
  {
    for(auto & e : pending)
    {
      ref::KF k;
      k.A = ref::M::Identity(2, 2);
      k.A(0, 0) = 1 + w * dt;
      k.B = ref::M::Zero(2, 1);
      k.B(0, 0) = -w * dt;
      k.C = ref::M::Ones(1, 2);
      k.Q = ref::M::Zero(2, 2);
      k.Q(0, 0) = std::pow(w * dt * zmpStd, 2);
      k.Q(1, 1) = std::pow(drift * dt, 2);
      k.R = ref::M::Constant(1, 1, dcmStd * dcmStd);
      k.P = P;
      k.x = x;
      k.step(ref::V::Constant(1, e.first), ref::V::Constant(1, e.second), ref::V());
      x = k.x;
      P = k.P;
    }
    pending.clear();
  }
};
void compare1(C & c, const UnidimLipmDcmEstimator & e, const Ref1 & r)
{
  c.near(e.getUnbiasedDCM(), r.x(0), 1e-8, "unbiased DCM");
  c.near(e.getBias(), r.x(1), 1e-8, "bias");
  c.near(e.getFilter().getStateCovariance(), r.P, 1e-8, "covariance");
  c.state(mc::hashM(mc::hashM(9, r.x), r.P));
}
MC_SUITE(unidim_histories, 3)
{
  Ref1 r;
  r.w = 3.1;
  r.dt = 0.02;
  r.drift = 0.5;
  r.dcmStd = 0.02;
  r.zmpStd = 0.3;
  r.zmp = -0.05;
  r.x << 0.2, 0.01;
  r.P = ref::M::Zero(2, 2);
  r.P(0, 0) = 0.03 * 0.03;
  r.P(1, 1) = 0.04 * 0.04;
  UnidimLipmDcmEstimator e(r.dt, r.w, r.drift, r.x(0), r.zmp, r.x(1), r.dcmStd, r.zmpStd, 0.03, 0.04);
  compare1(c, e, r);
  int depth = c.t(5, 6);
  bool any = false;
  for(int i = 0; i < depth; ++i)
  {
    int op = c.choose(11), id = i + 1;
    switch(op)
    {
      case 0:
      case 1:
        c.step([&] { return std::string("setInputs") + (op ? "" : " and update"); });
        e.setInputs(0.15 + 0.2 * id, -0.02 * id);
        r.setInputs(0.15 + 0.2 * id, -0.02 * id);
        any = true;
        if(op == 0)
        {
          r.update();
          c.near(e.update(), Vector2(r.x), 1e-8, "returned estimate");
        }
        break;
      case 2:
        if(!any) throw mc::Prune();
        c.step([&] { return "update"; });
        r.update();
        c.near(e.update(), Vector2(r.x), 1e-8, "returned estimate");
        break;
      case 3:
        c.step([&] { return "setLipmNaturalFrequency"; });
        r.w += 0.4;
        e.setLipmNaturalFrequency(r.w);
        break;
      case 4:
        c.step([&] { return "setSamplingTime"; });
        r.dt += 0.03;
        e.setSamplingTime(r.dt);
        break;
      case 5:
      {
        bool u = c.flag();
        c.step([&] { return "setBias"; });
        r.x(1) = -0.03 * id;
        if(u)
        {
          r.P(0, 1) = r.P(1, 0) = 0;
          r.P(1, 1) = 0.06 * 0.06;
          e.setBias(r.x(1), 0.06);
        }
        else
          e.setBias(r.x(1));
        break;
      }
      case 6:
      {
        bool u = c.flag();
        c.step([&] { return "setUnbiasedDCM"; });
        r.x(0) = 0.1 * id;
        if(u)
        {
          r.P(0, 1) = r.P(1, 0) = 0;
          r.P(0, 0) = 0.07 * 0.07;
          e.setUnbiasedDCM(r.x(0), 0.07);
        }
        else
          e.setUnbiasedDCM(r.x(0));
        break;
      }
      case 7:
        c.step([&] { return "setBiasDriftPerSecond"; });
        r.drift += 0.7;
        e.setBiasDriftPerSecond(r.drift);
        break;
      case 8:
        c.step([&] { return "setZmpMeasureErrorStd"; });
        r.zmpStd += 0.2;
        e.setZmpMeasureErrorStd(r.zmpStd);
        break;
      case 9:
        c.step([&] { return "setDcmMeasureErrorStd"; });
        r.dcmStd += 0.03;
        e.setDcmMeasureErrorStd(r.dcmStd);
        break;
      default:
      {
        bool wb = c.flag();
        c.step([&] { return std::string("resetWithInputs ") + (wb ? "with bias" : "without bias"); });
        r.drift = 0.3;
        r.dcmStd = 0.05;
        r.zmpStd = 0.1;
        r.zmp = 0.3;
        e.resetWithInputs(0.4, 0.3, wb, r.drift, r.dcmStd, r.zmpStd, 0.02, 0.03);
        r.pending.clear();
        any = false;
        r.x << 0.4 - (wb ? 0.02 : 0), 0.02;
        double b = 0.03 * 0.03, m = 0.05 * 0.05;
        r.P(0, 0) = m + (wb ? b : 0);
        r.P(1, 1) = b;
        r.P(0, 1) = r.P(1, 0) = wb ? -b : 0;
        break;
      }
    }
    compare1(c, e, r);
  }
  for(int k = 0; k < 2; ++k)
  {
    e.setInputs(0.5 - k, 0.3 * k);
    r.setInputs(0.5 - k, 0.3 * k);
    r.update();
    e.update();
    compare1(c, e, r);
  }
  c.outcome(mc::hashM(1, r.x));
}

// frame equivariance: the same motion seen in a rotated world gives the rotated estimate
MC_SUITE(rotated_world, 3)
{
  double th = c.pick(std::vector<double>{0.7, M_PI / 2, -2.5});
  Vector2 lim = c.pick(std::vector<Vector2>{v2(0, 0), v2(0.02, 0), v2(0, 0.02), v2(0.01, 0.03)});
  Matrix2 W = rot(th);
  Vector2 z = v2(0.1, -0.2), d = v2(0.15, 0.05), b = v2(0.03, -0.04), u = Vector2::Constant(0.03);
  LipmDcmEstimator a(0.01, 3, 0.1, 0.02, 0.1, lim), e(0.01, 3, 0.1, 0.02, 0.1, lim);
  bool wb = c.flag();
  double y0 = c.pick(yaws);
  a.resetWithMeasurements(d, z, y0, wb, b, u);
  e.resetWithMeasurements(Vector2(W * d), Vector2(W * z), y0 + th, wb, Vector2(W * b), u);
  for(int k = 0; k < c.t(3, 4); ++k)
  {
    double yaw = c.pick(yaws);
    Vector2 dk = v2(0.15 + 0.1 * k, 0.1 - 0.2 * k), zk = v2(0.1 * k, 0.05 * k);
    c.step([&] { return "iteration with yaw " + mc::str(yaw); });
    a.setInputs(dk, zk, yaw);
    e.setInputs(Vector2(W * dk), Vector2(W * zk), yaw + th);
    a.update();
    e.update();
    c.near(e.getUnbiasedDCM(), Vector2(W * a.getUnbiasedDCM()), 1e-9, "rotated DCM");
    c.near(e.getBias(), Vector2(W * a.getBias()), 1e-9, "rotated bias");
    c.near(e.getLocalBias(), a.getLocalBias(), 1e-9, "local bias independent of the world frame");
    c.state(mc::hashM(1, a.getUnbiasedDCM()));
  }
}

// with a constant heading the planar estimator is two independent one-dimensional ones; with no information on the
// bias the local bias stays constant under any rotation
MC_SUITE(planar_versus_unidim, 2)
{
  double dt = c.pick(std::vector<double>{0.005, 0.1}), w = c.pick(std::vector<double>{2, 3.5}),
         dr = c.pick(std::vector<double>{0, 0.4}), ds = c.pick(std::vector<double>{0.01, 0.3}),
         zs = c.pick(std::vector<double>{0.01, 0.3});
  LipmDcmEstimator p(dt, w, dr, ds, zs, Vector2::Zero(), v2(0.1, 0.2), v2(0.3, -0.1), v2(0.01, 0.02), v2(0.03, 0.04),
                     v2(0.05, 0.06));
  UnidimLipmDcmEstimator x(dt, w, dr, 0.3, 0.1, 0.01, ds, zs, 0.03, 0.05), y(dt, w, dr, -0.1, 0.2, 0.02, ds, zs, 0.04, 0.06);
  for(int k = 0; k < 4; ++k)
  {
    Vector2 d = v2(0.2 + 0.1 * k, -0.1 * k * k), z = v2(0.1 - 0.03 * k, 0.02 * k);
    c.step([&] { return "iteration"; });
    p.setInputs(d, z);
    p.update();
    x.setInputs(d.x(), z.x());
    x.update();
    y.setInputs(d.y(), z.y());
    y.update();
    c.near(p.getUnbiasedDCM(), v2(x.getUnbiasedDCM(), y.getUnbiasedDCM()), 1e-9, "planar DCM");
    c.near(p.getBias(), v2(x.getBias(), y.getBias()), 1e-9, "planar bias");
    c.state(mc::hashM(1, p.getUnbiasedDCM()));
  }
}
MC_SUITE(local_bias_constant, 2)
{
  Vector2 b = v2(0.02, -0.05);
  // the bias is certain and does not drift: only the rotation of the robot moves it in the world
  LipmDcmEstimator p(0.01, 3, 0, 0.02, 0.1);
  double y0 = c.pick(yaws);
  p.resetWithMeasurements(v2(0.3, 0.2), v2(0, 0), y0, c.flag(), Vector2(rot(y0) * b), v2(0, 0));
  for(int k = 0; k < 4; ++k)
  {
    double yaw = c.pick(yaws);
    c.step([&] { return "iteration with yaw " + mc::str(yaw); });
    p.setInputs(v2(0.2 * k, 0.1), v2(0, 0.1 * k), yaw);
    p.update();
    c.near(p.getLocalBias(), b, 1e-10, "bias constant in the robot frame");
    c.near(p.getBias(), Vector2(rot(yaw) * b), 1e-10, "bias rotates with the robot");
    c.state(mc::hashM(1, p.getBias()));
  }
}
// long histories with a turning robot (many turns), sparse updates and one change anywhere
MC_SUITE(long_life, 3)
{
  Ref r;
  r.w = 3.1;
  r.dt = 0.005;
  r.drift = 0.5;
  r.dcmStd = 0.02;
  r.zmpStd = 0.3;
  r.limit = c.pick(std::vector<Vector2>{v2(0, 0), v2(0.03, 0), v2(0.025, 0.015)});
  r.zmp = v2(0.1, -0.05);
  r.x << 0.2, 0.1, 0.01, -0.02;
  Vector4 p;
  p << 0.01, 0.02, 0.03, 0.04;
  r.P = Vector4(p.array().square()).asDiagonal();
  LipmDcmEstimator e(r.dt, r.w, r.drift, r.dcmStd, r.zmpStd, r.limit, r.zmp, r.x.head<2>(), r.x.tail<2>(), p.head<2>(),
                     p.tail<2>());
  Ref1 q;
  q.w = 3.1;
  q.dt = 0.005;
  q.drift = 0.5;
  q.dcmStd = 0.02;
  q.zmpStd = 0.3;
  q.zmp = 0.1;
  q.x << 0.2, 0.01;
  q.P = ref::M::Zero(2, 2);
  q.P(0, 0) = 0.0009;
  q.P(1, 1) = 0.0016;
  UnidimLipmDcmEstimator g(q.dt, q.w, q.drift, q.x(0), q.zmp, q.x(1), q.dcmStd, q.zmpStd, 0.03, 0.04);
  const double turn = c.pick(std::vector<double>{0, 0.11, -0.9, 3.0});
  const int skip = c.pick(std::vector<int>{1, 2, 40}), what = c.choose(5), N = c.t(150, 400);
  const int at = what ? c.pick(std::vector<int>{5, 70, 140}) : -1;
  for(int k = 0; k < N; ++k)
  {
    double yaw = turn * k;
    Vector2 d = v2(0.2 + 0.1 * std::sin(0.05 * k), 0.1 * std::cos(0.03 * k)), z = v2(0.2 + 0.15 * std::sin(0.07 * k), 0.02);
    if(skip == 40 && k >= 60 && k < 100) // a pause
    {
      e.update();
      r.update();
      g.update();
      q.update();
      continue;
    }
    e.setInputs(d, z, yaw);
    r.setInputs(d, z, yaw);
    g.setInputs(d.x(), z.x());
    q.setInputs(d.x(), z.x());
    if(k == at)
    {
      if(what == 1)
      {
        e.setBias(v2(0.05, -0.04), v2(0.01, 0.02));
        r.x.tail(2) = v2(0.05, -0.04);
        r.P.topRightCorner(2, 2).setZero();
        r.P.bottomLeftCorner(2, 2).setZero();
        r.P.bottomRightCorner(2, 2) = Vector2(v2(0.01, 0.02).array().square()).asDiagonal();
      }
      if(what == 2)
      {
        e.setLipmNaturalFrequency(r.w = 2.7);
        g.setLipmNaturalFrequency(q.w = 2.7);
      }
      if(what == 3)
      {
        e.setSamplingTime(r.dt = 0.01);
        g.setSamplingTime(q.dt = 0.01);
      }
      if(what == 4)
      {
        e.resetWithMeasurements(d, z, yaw, true, v2(0.01, 0.01), v2(0.03, 0.05));
        r.reset(d, z, yaw, true, v2(0.01, 0.01), v2(0.03, 0.05));
      }
    }
    if(k % std::min(skip, 2) == 0)
    {
      c.step([&] { return "update " + mc::str(k); });
      e.update();
      r.update();
      g.update();
      q.update();
      compare(c, e, r, true);
      compare1(c, g, q);
    }
  }
}
} // namespace
MC_MAIN()
