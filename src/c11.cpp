// C11: every iteration of the kinetics observer uses that iteration's data, consistently.
#include "koref.hpp"
using namespace koref;

namespace
{
// ---- data -----------------------------------------------------------------------------------------------------------
Kin stateKin(int i)
{
  Kin k;
  k.f = kref::P | kref::O | kref::V | kref::W;
  k.p = Vector3(0.05 + 0.001 * i, -0.02, 0.03);
  k.R = expm(Vector3(0.1, -0.2 + 0.01 * i, 0.3));
  k.v = Vector3(0.1, -0.05 * i, 0.02);
  k.w = Vector3(0.2, 0.3, -0.4 + 0.1 * i);
  return k;
}
/// what: 0 pose only, 1 with velocities, 2 with everything
Kin imuKin(int n, int t, int what)
{
  Kin k;
  k.f = kref::P | kref::O;
  if(what > 0) k.f |= kref::V | kref::W;
  if(what > 1) k.f |= kref::A;
  k.p = Vector3(0.1 * n - 0.05, 0.02 + 0.0004 * t, 0.4 - 0.0003 * t * t);
  k.R = expm(Vector3(0.3 * n, 0.002 * t, -0.1 + 0.001 * t * t));
  k.v = Vector3(0.04, -0.02 * t, 0.01);
  k.w = Vector3(0.05 * t, 0.1, -0.03);
  k.a = Vector3(0.3, -0.1 * t, 0.2);
  return k;
}
Kin contactKin(int n, int t, int what)
{
  Kin k;
  k.f = kref::P | kref::O;
  if(what > 0) k.f |= kref::V | kref::W;
  k.p = Vector3(0.02 + 0.0003 * t, n ? -0.1 : 0.1, -0.7 + 0.0002 * t * t);
  k.R = expm(Vector3(0.02 * t, 0.1 * n, -0.05 + 0.001 * t));
  k.v = Vector3(0.02, 0.01 * t, -0.03);
  k.w = Vector3(-0.04 * t, 0.02, 0.05);
  return k;
}
/// rest pose: near where the contact is when the robot is at its first state
Kin restKin(int n, int i)
{
  Kin k = kref::product(stateKin(0), contactKin(n, 0, 0));
  k.f = kref::P | kref::O;
  k.p += Vector3(0.0005, -0.0008, 0.002 + 0.0005 * i);
  k.R = expm(Vector3(0.01, -0.02, 0.015 * (i + 1))) * k.R;
  return k;
}
Vector3 comAt(int t)
{
  return Vector3(0.02 + 0.0002 * t, -0.03, 0.1 - 0.0001 * t * t);
}
Matrix3 inertiaAt(int t)
{
  Matrix3 m;
  m << 9 + 0.001 * t, 0.3, -0.2, 0.3, 8, 0.1, -0.2, 0.1, 5 - 0.002 * t * t;
  return m;
}
Vector3 momentumAt(int t)
{
  return Vector3(0.5 - 0.003 * t, 0.2 + 0.001 * t * t, -0.1);
}
Vector6 wrenchAt(int n, int t)
{
  Vector6 w;
  w << 10 + t, -5 * n, 250 - 3 * t, 1, -2 + n, 0.3 * t;
  return w;
}
Vector3 accAt(int n, int t)
{
  return Vector3(0.3 * t - 2, 0.5 * n, 9.2 + 0.1 * t);
}
Vector3 gyroAt(int n, int t)
{
  return Vector3(0.25, 0.3 - 0.02 * t, -0.35 + 0.05 * n);
}
Kin poseAt(int t)
{
  Kin k = stateKin(t % 3);
  k.f = kref::P | kref::O;
  k.p += Vector3(0.001, 0.002 * t, -0.001);
  k.R = expm(Vector3(0.004, 0, -0.003 * t)) * k.R;
  return k;
}
const Matrix & otherImuCov()
{
  static const Matrix m = [] {
    Matrix a = Matrix::Zero(6, 6);
    a.topLeftCorner(3, 3) = full(diagOf({3e-2}), 0.2);
    a.bottomRightCorner(3, 3) = full(diagOf({5e-4}), -0.2);
    return a;
  }();
  return m;
}
const Matrix & otherWrenchCov()
{
  static const Matrix m = full(diagOf({20, 0.4}), 0.2);
  return m;
}
const Matrix & otherPoseCov()
{
  static const Matrix m = full(diagOf({2e-3, 7e-4}), -0.1);
  return m;
}

struct Run : Pair
{
  C & c;
  int t = 0; // iteration, for the data
  Run(C & cc, unsigned nc, unsigned ni, bool defaultSteps = false) : Pair(nc, ni), c(cc)
  {
    setup(0.005, 60);
    if(!defaultSteps) steps();
  }
  void begin()
  {
    o.setStateKinematics(kref::make(stateKin(0), 0));
    Kin k = stateKin(0);
    r.x.head(3) = k.p;
    r.x.segment(3, 4) = quatOf(k.R);
    r.x.segment(7, 3) = k.v;
    r.x.segment(10, 3) = k.w;
    com(comAt(0), Vector3(0.04, -0.01, 0.02), Vector3(0.1, 0.2, -0.3));
    inertia(inertiaAt(0), Matrix3(0.1 * inertiaAt(1) - 0.05 * Matrix3::Identity()));
    momentum(momentumAt(0), Vector3(0.2, -0.1, 0.3));
    wrench(Vector3(3, -2, 350), Vector3(0.5, 1, -0.4));
  }
  void addTwo(unsigned n)
  {
    Matrix init = full(diagOf({4e-6, 1e-5, 30, 1}), 0.15), proc = full(diagOf({1e-9, 2e-8, 3, 0.2}), 0.1);
    if(n > 0) c.require(add(restKin(0, 0), -1, 0, &init, &proc) == 0, "contact number");
    if(n > 1)
    {
      c.require(add(restKin(1, 1), -1, 15, nullptr, nullptr) == 0, "contact number");
      o.setContactProcessCovMat(1, r.procCon);
      setBlock(r.Q, r.tc(1), r.procCon);
    }
  }
  void giveImu(int n, int what = 2, bool cov = false, int num = -2, int rep = 0)
  {
    if(r.imu[size_t(n)].discarded) what = 2; // no derivative from discarded data
    c.require(imu(accAt(n, t), gyroAt(n, t), imuKin(n, t, what), num == -2 ? n : num, cov ? &otherImuCov() : nullptr, rep) == 0,
              "number of the IMU");
  }
  void giveContact(int n, bool sensor, int what = 1, bool cov = false, int rep = 0)
  {
    if(r.con[size_t(n)].discarded) what = 1;
    Vector6 w = wrenchAt(n, t);
    contact(unsigned(n), contactKin(n, t, what), sensor ? &w : nullptr, cov ? &otherWrenchCov() : nullptr, rep);
  }
  void givePose(bool cov = false, int rep = 0)
  {
    pose(poseAt(t), cov ? &otherPoseCov() : nullptr, rep);
  }
  void kinematics(bool withAcc, const char * key)
  {
    Kin k = withAcc ? r.motion(r.x) : r.kinOf(r.x);
    kine::Kinematics g = o.getKinematics();
    kref::check(c, g, k, 1e-7, key);
    Kin l = kref::sample(2, 31);
    if(!withAcc) l.f = 15;
    kine::Kinematics of = o.getKinematicsOf(kref::make(l, 0));
    Kin w = kref::product(k, l);
    kref::check(c, of, w, 1e-6, "kinematics of a local frame");
  }
  /// one update, compared and then continued from the real result
  void step()
  {
    if(!ready()) throw mc::Prune();
    const bool iterates = r.kEst != r.kData;
    if(iterates)
    {
      c.require(o.getMeasurementSize() == r.measureSize(), "measurement size");
      Vector y = o.getMeasurementVector(), w = r.measurement();
      c.near(y.head(y.size() - (r.pose ? 4 : 0)), w.head(w.size() - (r.pose ? 4 : 0)), 1e-12, "measurement vector");
      if(r.pose) c.near(rotOf(y, y.size() - 4), rotOf(w, w.size() - 4), 1e-9, "measured orientation");
    }
    Vector before = o.getCurrentStateVector();
    Matrix Rm = iterates ? r.R() : Matrix();
    Vector got = o.update();
    c.step([&] { return "update -> " + mc::str(got); });
    if(!iterates)
    {
      c.near(got, before, 0, "an update without data changes nothing");
      filterAgrees(c);
      return;
    }
    r.update();
    sameState(c, got, r.x, r.fd.size() ? 1e-6 : 5e-5, "estimate");
    c.require(o.getMeasurementSize() == 0, "the data are used once");
    c.near(o.getEKF().getR(), Rm, 1e-12, "measurement noise of the iteration");
    Matrix P = o.getStateCovarianceMat();
    for(unsigned i = 0; i < r.nc; ++i)
      if(!r.con[i].set) // nothing is claimed about the room of a contact that does not exist
        P.middleRows(r.tc(i), 12) = r.P.middleRows(r.tc(i), 12), P.middleCols(r.tc(i), 12) = r.P.middleCols(r.tc(i), 12);
    compareCov(P);
    filterAgrees(c);
    r.x = got;
    r.P = o.getStateCovarianceMat();
    accSet = r.acc;
    kinematics(accSet, "kinematics");
    c.state(mc::hashM(1, got));
    ++t;
  }
  /// relative to the standard deviations
  void compareCov(const Matrix & P)
  {
    Vector s = r.P.diagonal().cwiseAbs().cwiseSqrt().cwiseMax(1e-2 * r.sd).cwiseMax(1e-5);
    Vector d = s.cwiseInverse();
    Matrix g = d.asDiagonal() * P * d.asDiagonal(), w = d.asDiagonal() * r.P * d.asDiagonal(), t = P.transpose();
    c.near(g, w, r.fd.size() ? 1e-5 : 2e-4, "covariance");
    c.near(P, t, 1e-9, "the covariance is symmetric");
  }
};
} // namespace

// which sensors are given in each iteration
MC_SUITE(subsets, 3)
{
  const int conf = c.choose(3); // numbers of contacts and IMUs
  const unsigned nc = conf == 0 ? 0 : conf == 1 ? 1 : 2, ni = conf == 1 ? 1 : 2;
  Run p(c, nc, ni, true);
  p.options(c.flag(), c.flag(), c.flag());
  p.begin();
  p.addTwo(nc);
  const int iterations = c.t(2, 3);
  for(int k = 0; k < iterations; ++k)
  {
    std::string what;
    for(unsigned i = 0; i < ni; ++i)
      if(c.flag()) p.giveImu(int(i)), what += " imu" + std::to_string(i);
    for(unsigned i = 0; i < nc; ++i)
    {
      bool s = c.flag();
      p.giveContact(int(i), s);
      if(s) what += " wrench" + std::to_string(i);
    }
    if(c.flag()) p.givePose(), what += " pose";
    if(p.r.measureSize() == 0) throw mc::Prune(); // an iteration has a measurement
    c.note([&] { return "given:" + what; });
    p.step();
    if(k == 0) p.step(); // again, without data
  }
}

// in which order the data of an iteration are given
MC_SUITE(orders, 2)
{
  Run p(c, 2, 2);
  p.options(true, c.flag(), false);
  p.begin();
  p.addTwo(2);
  for(int k = 0; k < 2; ++k)
  {
    std::vector<int> left = {0, 1, 2, 3, 4, 5};
    if(k == 0) left = {0, 2, 3};
    if(c.thorough() && k == 1) left.push_back(6);
    const bool all = k == 1;
    while(!left.empty())
    {
      int at = all ? c.choose(int(left.size())) : 0, op = left[size_t(at)];
      left.erase(left.begin() + at);
      c.note([&] { return "datum " + std::to_string(op); });
      switch(op)
      {
        case 0: p.giveImu(0, 0); break;
        case 1: p.giveImu(1, 1); break;
        case 2: p.giveContact(0, true, 0); break;
        case 3: p.giveContact(1, false, 0); break;
        case 4: p.givePose(); break;
        case 5: p.com(comAt(p.t)); break;
        default: p.momentum(momentumAt(p.t));
      }
    }
    p.step();
  }
}

// kinematics of the sensors and contacts given more or less completely, with iterations left out
MC_SUITE(completeness, 3)
{
  Run p(c, 1, 1);
  p.options(true, false, false);
  p.begin();
  p.addTwo(1);
  const int rep = c.choose(3);
  for(int k = 0; k < c.t(3, 4); ++k)
  {
    int i = c.choose(4); // 3: no IMU
    int f = c.choose(2);
    c.note([&] { return "imu kinematics " + std::to_string(i) + ", contact kinematics " + std::to_string(f); });
    if(i < 3) p.giveImu(0, i, k == 1, k % 2 ? -1 : 0, rep);
    p.giveContact(0, true, f, k == 1, rep);
    p.step();
  }
}

// covariances given with the measurement, or not, and defaults changed
MC_SUITE(noise, 3)
{
  Run p(c, 1, 1);
  p.options(false, false, false);
  p.begin();
  p.addTwo(1);
  for(int k = 0; k < c.t(3, 4); ++k)
  {
    int d = c.choose(3);
    if(d == 1)
    {
      p.r.defImu = full(diagOf({1e-2 * (k + 2), 2e-4}), 0);
      p.o.setIMUDefaultCovarianceMatrix(p.r.defImu.topLeftCorner(3, 3), p.r.defImu.bottomRightCorner(3, 3));
      p.o.setContactWrenchSensorDefaultCovarianceMatrix(p.r.defWrench = full(diagOf({3. + k, 0.2}), 0.1));
      p.o.setAbsolutePoseSensorDefaultCovarianceMatrix(p.r.defPose = full(diagOf({2e-4 * (k + 1), 1e-4}), 0.1));
    }
    else if(d == 2)
    {
      typedef KineticsObserver O;
      p.o.resetSensorsDefaultCovMat();
      p.r.defImu = diagOf({O::acceleroVarianceDefault, O::gyroVarianceDefault});
      p.r.defWrench = diagOf({O::forceSensorVarianceDefault, O::torqueSensorVarianceDefault});
      p.r.defPose = diagOf({O::positionSensorVarianceDefault, O::orientationSensorVarianceDefault});
    }
    unsigned m = unsigned(c.choose(8));
    c.note([&] { return "defaults " + std::to_string(d) + ", given covariances " + std::to_string(m); });
    p.giveImu(0, 2, m & 1);
    p.giveContact(0, true, 1, m & 2);
    p.givePose(m & 4, k % 3);
    p.step();
  }
}

// inputs: center of mass, inertia, angular momentum and additional wrench, given in every form, or not
MC_SUITE(inputs, 3)
{
  Run p(c, 1, 1);
  p.options(true, true, true);
  p.begin();
  p.addTwo(1);
  p.giveImu(0), p.giveContact(0, true);
  p.step();
  for(int k = 0; k < c.t(2, 3); ++k)
  {
    int a = c.choose(4), b = c.choose(5), d = c.choose(3), e = c.choose(3);
    c.note([&] { return "com " + std::to_string(a) + ", inertia " + std::to_string(b) + ", momentum " + std::to_string(d) + ", wrench " + std::to_string(e); });
    if(a == 1) p.com(comAt(p.t));
    if(a == 2) p.com(comAt(p.t), Vector3(0.1, -0.05 * p.t, 0.03));
    if(a == 3) p.com(comAt(p.t), Vector3(0.1, -0.05 * p.t, 0.03), Vector3(0.2, 0.3, -0.1 * p.t));
    if(b == 1) p.inertia(inertiaAt(p.t), 0);
    if(b == 2) p.inertia(inertiaAt(p.t), 1);
    if(b == 3) p.inertia(inertiaAt(p.t), Matrix3(0.05 * inertiaAt(2)));
    if(b == 4)
    {
      Matrix3 m = inertiaAt(p.t + 1), md = 0.02 * inertiaAt(3);
      p.o.setInertiaMatrix(Pair::packed(m), Pair::packed(md));
      p.r.start();
      p.r.I = {m, p.r.kData}, p.r.Id = {md, p.r.kData};
    }
    if(d == 1) p.momentum(momentumAt(p.t));
    if(d == 2) p.momentum(momentumAt(p.t), Vector3(0.1, 0.2 * p.t, -0.3));
    if(e == 1) p.wrench(Vector3(20, -10 * p.t, 100), Vector3(1, 2, 3));
    if(e == 2) p.wrench(Vector3::Zero(), Vector3::Zero());
    p.giveImu(0), p.giveContact(0, true);
    p.step();
    kine::Kinematics g = p.o.estimateAccelerations();
    kref::check(c, g, p.r.motion(p.r.x), 1e-7, "estimated accelerations");
  }
}

// measurements that are exactly what the model predicts
MC_SUITE(consistent, 3)
{
  const unsigned nc = unsigned(c.choose(3)), ni = 1 + unsigned(c.choose(2));
  Run p(c, nc, ni);
  p.options(c.flag(), c.flag(), false);
  const bool withPose = c.flag();
  p.begin();
  p.addTwo(nc);
  p.o.setGyroBias(Vector3(0.01, -0.02, 0.03), ni - 1);
  p.r.x.segment(p.r.xb(ni - 1), 3) = Vector3(0.01, -0.02, 0.03);
  if(p.r.bias) setBlock(p.r.P, p.r.tb(ni - 1), p.r.initBias);
  Vector6 uw;
  uw << 5, -4, 3, 0.5, 0.4, -0.3;
  p.o.setStateUnmodeledWrench(uw);
  p.r.x.segment(p.r.xu(), 6) = uw;
  setBlock(p.r.P, p.r.tu(), p.r.initUnm);
  for(int k = 0; k < c.t(4, 12); ++k)
  {
    // the same data are first given to the reference to know what they should be
    Ref q = p.r;
    q.start();
    for(unsigned i = 0; i < ni; ++i)
    {
      Kin n = imuKin(int(i), p.t, 2);
      q.imu[i].k = n;
      q.imu[i].time = q.kData;
    }
    for(unsigned i = 0; i < nc; ++i)
    {
      q.con[i].local = contactKin(int(i), p.t, 1);
      q.con[i].sensor = true;
      q.con[i].time = q.kData;
    }
    q.pose = withPose;
    Vector xb = q.dynamics(q.x), y = q.sense(xb);
    for(unsigned i = 0; i < ni; ++i)
      c.require(p.imu(y.segment(6 * i, 3), y.segment(6 * i + 3, 3), imuKin(int(i), p.t, 2), int(i), nullptr) == 0, "number of the IMU");
    for(unsigned i = 0; i < nc; ++i)
    {
      Vector6 w = y.segment(6 * (ni + i), 6);
      p.contact(i, contactKin(int(i), p.t, 1), &w, nullptr);
    }
    if(withPose)
    {
      Kin pk;
      pk.f = kref::P | kref::O;
      pk.p = y.segment(y.size() - 7, 3);
      pk.R = rotOf(y, y.size() - 4);
      p.pose(pk, nullptr);
    }
    p.step();
    p.sameState(c, p.o.getCurrentStateVector(), xb, 1e-6, "measurements as predicted leave the prediction");
  }
}

// attitudes all around, with the quaternions of every sign
MC_SUITE(attitudes, 3)
{
  Run p(c, 1, 1);
  p.options(true, false, true);
  p.begin();
  static const std::vector<Vector3> rots = {Vector3(0, 0, 0),      Vector3(0, 0, M_PI),   Vector3(0, 0, M_PI - 0.01), Vector3(0, 0, -M_PI + 0.01),
                                            Vector3(0, 3.1, 0.2),  Vector3(-3, 0.5, 0.4), Vector3(1.5, -2, 0.7),      Vector3(0, 0, 2.5)};
  Vector3 w = c.pick(rots);
  Kin s = stateKin(0);
  s.R = expm(w);
  bool neg = c.flag(), negRest = c.flag();
  kine::Kinematics k = kref::make(s, 0);
  Quaternion q(s.R);
  if(neg) q.coeffs() *= -1;
  k.orientation = q;
  p.o.setStateKinematics(k);
  p.r.x.segment(3, 4) = q.coeffs();
  Kin rest = kref::product(s, contactKin(0, 0, 0));
  rest.f = kref::P | kref::O;
  rest.p += Vector3(0.0005, -0.0008, 0.002);
  rest.R = expm(Vector3(0.01, -0.02, 0.03)) * rest.R;
  Matrix init = full(diagOf({4e-6, 1e-5, 30, 1}), 0.15), proc = full(diagOf({1e-9, 2e-8, 3, 0.2}), 0.1);
  c.require(p.add(rest, -1, unsigned(c.choose(16)), &init, &proc, negRest ? 1 : 0) == 0, "contact number");
  const int rep = c.choose(2);
  c.note([&] { return "orientation " + mc::str(w); });
  for(int i = 0; i < c.t(2, 4); ++i)
  {
    p.giveImu(0, 2, false, -2, rep);
    p.giveContact(0, true, i % 2, false, rep);
    Kin pk = s;
    pk.f = kref::P | kref::O;
    pk.R = expm(Vector3(0.003, 0.002 * i, -0.004)) * s.R;
    p.pose(pk, nullptr, rep);
    p.step();
  }
}

// histories: contacts come and go, state parts are set, data are discarded, between the iterations
MC_SUITE(histories, 3)
{
  Run p(c, 2, 2);
  Ref & r = p.r;
  p.options(true, c.flag(), false);
  p.begin();
  p.addTwo(1);
  const int depth = c.t(4, 5);
  for(int k = 0; k < depth; ++k)
  {
    int op = k == depth - 1 ? c.choose(3) : c.choose(14);
    auto give = [&](bool sensors, bool pose) {
      p.giveImu(0, 1, false, -1);
      if(sensors) p.giveImu(1, 0, false, -1);
      for(unsigned i = 0; i < r.nc; ++i)
        if(r.con[i].set) p.giveContact(int(i), sensors || i == 1, (i || !sensors) ? 0 : 1);
      if(pose) p.givePose();
    };
    switch(op)
    {
      case 0:
        c.note([] { return "iteration with all sensors"; });
        give(true, true);
        p.step();
        break;
      case 1:
        c.note([] { return "iteration with few sensors"; });
        give(false, false);
        p.step();
        break;
      case 2:
        c.note([] { return "iteration with the pose"; });
        for(unsigned i = 0; i < r.nc; ++i)
          if(r.con[i].set) p.giveContact(int(i), false);
        p.givePose(true);
        p.step();
        break;
      case 3:
      case 4:
      {
        unsigned n = op == 3 ? 0 : 1;
        if(r.con[n].set)
        {
          c.note([] { return "contact removed"; });
          p.remove(int(n));
        }
        else
        {
          c.note([] { return "contact added"; });
          Matrix init = full(diagOf({4e-6, 1e-5, 30, 1}), 0.15), proc = full(diagOf({1e-9, 2e-8, 3, 0.2}), 0.1);
          c.require(p.add(restKin(int(n), k), int(n), unsigned(k), &init, &proc) == 0, "contact number");
        }
        break;
      }
      case 5:
        c.note([] { return "contacts cleared"; });
        p.clear();
        break;
      case 6:
      {
        const bool f = c.flag();
        c.note([] { return "state kinematics set"; });
        p.o.setStateKinematics(kref::make(stateKin(k + 1), 0), f, true);
        Kin s = stateKin(k + 1);
        r.x.head(3) = s.p;
        r.x.segment(3, 4) = quatOf(s.R);
        r.x.segment(7, 3) = s.v;
        r.x.segment(10, 3) = s.w;
        setBlock(r.P, 0, r.initKine);
        if(f)
          for(unsigned i = 0; i < r.nc; ++i)
            if(r.con[i].set) r.x.segment(r.xc(i) + 7, 6).setZero(), setBlock(r.P, r.tc(i), r.initCon);
        p.kinematics(false, "kinematics that were set");
        break;
      }
      case 7:
        c.note([] { return "gyro bias set"; });
        p.o.setGyroBias(Vector3(0.01, 0.02, -0.01 * k), 1, false);
        r.x.segment(r.xb(1), 3) = Vector3(0.01, 0.02, -0.01 * k);
        break;
      case 8:
        c.note([] { return "state set"; });
        r.x.segment(0, 3) += Vector3(0.001, 0.002, -0.001);
        r.x.segment(7, 6) *= 0.9;
        p.o.setStateVector(r.x, false);
        break;
      case 9:
        c.note([] { return "data discarded"; });
        give(true, true);
        p.resetInputs();
        p.step();
        break;
      case 10:
        c.note([] { return "options changed"; });
        p.options(!r.bias, r.unm, !r.acc);
        break;
      case 11:
        c.note([] { return "sampling time and mass changed"; });
        p.o.setSamplingTime(r.dt = 0.004);
        p.o.setMass(r.mass = 70);
        break;
      case 12:
        c.note([] { return "covariances reset"; });
        p.o.resetStateCovarianceMat();
        setBlock(r.P, 0, r.initKine);
        for(unsigned i = 0; i < r.ni; ++i) setBlock(r.P, r.tb(i), r.initBias);
        setBlock(r.P, r.tu(), r.initUnm);
        for(unsigned i = 0; i < r.nc; ++i)
          if(r.con[i].set) setBlock(r.P, r.tc(i), r.initCon);
        break;
      default:
        c.note([] { return "update without data"; });
        p.step();
    }
    p.filterAgrees(c);
  }
}

// a long life
MC_SUITE(longRun, 3)
{
  Run p(c, 2, 1);
  p.options(true, false, c.flag());
  p.begin();
  p.addTwo(2);
  const int steps = c.t(40, 120), at = c.choose(steps), what = c.choose(4);
  for(int i = 0; i < steps; ++i)
  {
    p.t = i % 4;
    if(i == at)
    {
      if(what == 1) p.remove(1);
      if(what == 2) p.options(false, true, true);
      if(what == 3) p.clear();
    }
    p.giveImu(0, 2);
    for(unsigned k = 0; k < 2; ++k)
      if(p.r.con[k].set) p.giveContact(int(k), (i + int(k)) % 3 != 0);
    if(i % 2) p.givePose();
    p.step();
  }
}
// noise models set on the observer: they disturb its own predictions by exactly their value, once, until removed
namespace
{
struct Shift : NoiseBase
{
  Vector by;
  Vector getNoisy(const Vector & v) override
  {
    Vector r = v;
    for(Index i = 0; i < v.size() && i < by.size(); ++i) r(i) += by(i);
    return r;
  }
};
// the noise models are for derived observers
struct Disturbed : KineticsObserver
{
  using KineticsObserver::KineticsObserver;
  using KineticsObserver::getMeasurementNoise;
  using KineticsObserver::getProcessNoise;
  using KineticsObserver::resetMeasurementNoise;
  using KineticsObserver::resetProcessNoise;
  using KineticsObserver::setMeasurementNoise;
  using KineticsObserver::setProcessNoise;
};
} // namespace
MC_SUITE(disturbed, 3)
{
  typedef stateObservation::kine::Kinematics LKin;
  auto kin = [](double z) {
    LKin k;
    k.position = Vector3(0.05, -0.1, z);
    k.orientation = Vector3(0.1, 0.05, -0.1);
    k.linVel = Vector3(0.05, 0.01, 0);
    k.angVel = Vector3(0.1, 0, 0.05);
    k.linAcc = Vector3(0, 0.1, 0);
    return k;
  };
  bool contact = c.flag(), analytic = c.flag();
  // the one with noise models, and the one without
  Disturbed a(1, 1), b(1, 1);
  for(Disturbed * f : {&a, &b})
  {
    f->setSamplingTime(0.005);
    f->setMass(50);
    f->setWithUnmodeledWrench(false);
    f->setWithGyroBias(true);
    f->setCenterOfMass(Vector3(0.01, 0.02, 0.1), Vector3::Zero(), Vector3::Zero());
    f->setInertiaMatrix(Matrix3(Vector3(8, 7, 5).asDiagonal()), Matrix3(Matrix3::Zero()));
    f->setAngularMomentum(Vector3(0.1, 0, 0.2), Vector3::Zero());
    f->setStateKinematics(kin(0.9), true, true);
    // (well-conditioned updates: rounding in the finite differences is not amplified)
    f->setIMUDefaultCovarianceMatrix(Matrix3(0.01 * Matrix3::Identity()), Matrix3(1e-5 * Matrix3::Identity()));
    f->setContactWrenchSensorDefaultCovarianceMatrix(Matrix6(Matrix6::Identity()));
    if(analytic) f->useFiniteDifferencesJacobians(false);
    if(contact)
    {
      Matrix12 ci = 1e-4 * Matrix12::Identity();
      ci.bottomRightCorner<6, 6>() *= 1e4;
      LKin k;
      k.position = Vector3(0.1, -0.1, 0.02);
      k.orientation = Vector3(0.05, 0, 0.2);
      f->addContact(k, ci, Matrix12(1e-8 * Matrix12::Identity()), 0);
    }
  }
  Shift onState, onMeasure;
  onState.by = Vector3(0.01, -0.02, 0.03);
  Vector3 drift = Vector3::Zero();
  bool st = false, me = false;
  int n = c.t(4, 5);
  for(int k = 0; k < n; ++k)
  {
    switch(c.choose(5))
    {
      case 0: break;
      case 1:
        c.step([] { return "measurement noise set"; });
        a.setMeasurementNoise(&onMeasure);
        me = true;
        break;
      case 2:
        c.step([] { return "measurement noise removed"; });
        a.resetMeasurementNoise();
        me = false;
        break;
      case 3:
        if(contact) throw mc::Prune(); // (the position of the robot has no influence on anything without a contact)
        c.step([] { return "process noise set"; });
        a.setProcessNoise(&onState);
        st = true;
        break;
      default:
        if(contact) throw mc::Prune();
        c.step([] { return "process noise removed"; });
        a.resetProcessNoise();
        st = false;
    }
    c.require(a.getMeasurementNoise() == (me ? &onMeasure : nullptr) && a.getProcessNoise() == (st ? &onState : nullptr),
              "the noise models are not those set last");
    Vector s(12);
    for(Index i = 0; i < 12; ++i) s(i) = 0.02 * double(1 + (i * 5 + k) % 7);
    onMeasure.by = s;
    c.step([] { return "iteration"; });
    for(Disturbed * f : {&a, &b})
    {
      Vector6 y, w;
      y << 0.1, 0.2 + k, 9.8, 0.02, 0.1, 0.05;
      w << 1, -2 - k, 200, 3, 1, 0.5;
      if(f == &b && me) y -= s.head<6>(), w -= s.tail<6>();
      f->setIMU(y.head<3>(), y.tail<3>(), kin(0.3), 0);
      if(contact) f->updateContactWithWrenchSensor(w, kin(-0.88), 0);
      f->update();
    }
    if(st) drift += onState.by;
    Vector want = b.getCurrentStateVector();
    want.head<3>() += drift;
    c.near(a.getCurrentStateVector(), want, 1e-5, "a noise model does not disturb the predictions by its value");
    c.state(mc::hashM(k, want));
  }
}
MC_MAIN()
