// C12: state arithmetic and covariance settings of the kinetics observer are block-exact.
#include "koref.hpp"
using namespace koref;

namespace
{
Kin poseOf(int n, int i)
{
  Kin k;
  k.f = kref::P | kref::O;
  k.p = Vector3(0.1 * n + 0.001 * i, 0.2 - 0.003 * i, -0.7 + 0.05 * n);
  k.R = expm(Vector3(0.02 * n - 0.02, 0.01 * i, 0.04 - 0.007 * i));
  return k;
}
/// a state with distinct values everywhere; kind 1..: orientations close to and beyond half a turn, negated quaternions
Vector stateOf(const Ref & r, int kind)
{
  static const Vector3 rots[] = {Vector3(0.1, -0.2, 0.3), Vector3(0, 0, 3.1), Vector3(-3, 0.4, 0.5), Vector3(0, 0, 0), Vector3(1, 1, -2)};
  Vector x(r.sx());
  for(long i = 0; i < x.size(); ++i) x(i) = 0.1 * double(kind + 1) - 0.013 * double(i);
  auto ori = [&](long at, int j) {
    x.segment(at, 4) = quatOf(expm(rots[j % 5]));
    if(j % 2) x.segment(at, 4) *= -1;
  };
  ori(3, kind);
  for(unsigned i = 0; i < r.nc; ++i)
  {
    if(r.con[i].set)
      ori(r.xc(i) + 3, kind + 1 + int(i));
    else
      x.segment(r.xc(i), 13).setZero();
  }
  return x;
}
Matrix someCov(long n, int i)
{
  Matrix m = Matrix::Zero(n, n);
  for(long k = 0; k < n; ++k) m(k, k) = 1e-3 * double(1 + (k + i) % 5);
  return full(m, 0.1 + 0.05 * (i % 3));
}
/// every pair of components correlated
Matrix denseCov(long n, int i)
{
  Matrix v(n, 1);
  for(long k = 0; k < n; ++k) v(k) = 1e-2 * double(1 + (3 * k + i) % 4);
  return someCov(n, i) + v * v.transpose() * 0.1;
}

struct Run : Pair
{
  C & c;
  int n = 0;
  Run(C & cc, unsigned nc, unsigned ni) : Pair(nc, ni), c(cc) {}
  Matrix masked(Matrix m) const
  {
    for(unsigned i = 0; i < r.nc; ++i)
      if(!r.con[i].set) m.middleRows(r.tc(i), 12).setZero(), m.middleCols(r.tc(i), 12).setZero();
    return m;
  }
  void look()
  {
    r.sd.resize(0);
    sameState(c, o.getCurrentStateVector(), r.x, 1e-12, "state");
    c.near(masked(o.getStateCovarianceMat()), masked(r.P), 1e-14, "state covariance");
    c.near(masked(o.getEKF().getProcessCovariance()), masked(r.Q), 1e-14, "process noise");
    kine::Kinematics kin = o.getKinematics();
    kref::check(c, kin, r.kinOf(r.x), 1e-9, "kinematics");
    filterAgrees(c);
    c.state(mc::hashM(mc::hashM(mc::hashM(5, r.x), masked(r.P)), masked(r.Q)));
  }
  /// one iteration, to see that what was set is what the filter uses
  void iteration()
  {
    Kin k;
    k.f = kref::P | kref::O | kref::V | kref::W | kref::A;
    k.p = Vector3(0.1, 0.02, 0.4);
    for(unsigned i = 0; i < r.ni; ++i)
      c.require(imu(Vector3(0.1, -0.2, 9.7), Vector3(0.2, 0.1, -0.3 + 0.1 * i), k, int(i), nullptr) == 0, "number of the IMU");
    for(unsigned i = 0; i < r.nc; ++i)
      if(r.con[i].set)
      {
        Kin l = poseOf(int(i), 1);
        l.f |= kref::V | kref::W;
        l.p = Vector3(0.05, 0.1 * i, -0.6);
        l.v.setZero(), l.w.setZero();
        Vector6 w;
        w << 10, -5, 250, 1, -2, 0.3;
        contact(i, l, i == 0 ? &w : nullptr, nullptr);
      }
    Kin pk;
    pk.f = kref::P | kref::O;
    pk.p = r.x.head(3) + Vector3(0.001, 0.002, -0.003);
    pk.R = expm(Vector3(0.003, 0.002, 0.001)) * rotOf(r.x, 3);
    pose(pk, nullptr);
    Vector got = o.update();
    c.step([&] { return "update -> " + mc::str(got); });
    r.update();
    sameState(c, got, r.x, 1e-4, "estimate after the settings");
    r.x = got;
    Matrix P = masked(o.getStateCovarianceMat());
    Vector d = r.P.diagonal().cwiseAbs().cwiseSqrt().cwiseMax(1e-2 * r.sd).cwiseMax(1e-5).cwiseInverse();
    Matrix g = d.asDiagonal() * P * d.asDiagonal(), w = d.asDiagonal() * masked(r.P) * d.asDiagonal();
    c.near(g, w, 1e-4, "covariance after the settings");
    r.P = o.getStateCovarianceMat();
    look2();
  }
  void look2()
  {
    c.near(masked(o.getEKF().getProcessCovariance()), masked(r.Q), 1e-14, "process noise");
    filterAgrees(c);
  }
  void resetP()
  {
    setBlock(r.P, 0, r.initKine);
    for(unsigned i = 0; i < r.ni; ++i) setBlock(r.P, r.tb(i), r.initBias);
    setBlock(r.P, r.tu(), r.initUnm);
    for(unsigned i = 0; i < r.nc; ++i)
      if(r.con[i].set) setBlock(r.P, r.tc(i), r.initCon);
  }
  static constexpr int operations = 40;
  const char * op(int k)
  {
    typedef KineticsObserver O;
    const int i = ++n;
    static const std::set<int> ofImu = {6, 7, 14, 16, 27, 33};
    const unsigned im = ofImu.count(k) ? unsigned(c.choose(int(r.ni))) : 0; // any IMU
    unsigned ct = r.nc; // any contact
    auto needContact = [&] {
      std::vector<unsigned> have;
      for(unsigned j = 0; j < r.nc; ++j)
        if(r.con[j].set) have.push_back(j);
      if(have.empty()) throw mc::Prune();
      ct = c.pick(have);
    };
    switch(k)
    {
      case 0:
      case 1:
        r.x = stateOf(r, i % 5);
        o.setStateVector(r.x, k == 1);
        if(k == 1) resetP();
        return "setStateVector";
      case 2:
      case 3:
      case 4:
      case 5:
      {
        Kin s;
        s.f = 15;
        s.p = Vector3(0.3, 0.01 * i, 0.2);
        s.R = expm(Vector3(0.1 * i, 0.2, -1));
        s.v = Vector3(0.1, 0.2, 0.3 * i);
        s.w = Vector3(-0.1 * i, 0.4, 0.1);
        bool forces = k & 1, cov = k > 3;
        o.setStateKinematics(kref::make(s, i % 3), forces, cov);
        r.x.head(3) = s.p;
        r.x.segment(3, 4) = quatOf(s.R);
        r.x.segment(7, 3) = s.v;
        r.x.segment(10, 3) = s.w;
        if(cov) setBlock(r.P, 0, r.initKine);
        if(forces)
          for(unsigned j = 0; j < r.nc; ++j)
            if(r.con[j].set)
            {
              r.x.segment(r.xc(j) + 7, 6).setZero();
              if(cov) setBlock(r.P, r.tc(j), r.initCon);
            }
        return "setStateKinematics";
      }
      case 6:
      case 7:
      {
        Vector3 b(0.01, 0.02 * i, -0.03);
        o.setGyroBias(b, im, k == 7);
        r.x.segment(r.xb(im), 3) = b;
        if(k == 7) setBlock(r.P, r.tb(im), r.initBias);
        return "setGyroBias";
      }
      case 8:
      {
        Vector3 b(0.03, 0.01 * i, 0.01);
        o.setGyroBias(b);
        r.x.segment(r.xb(0), 3) = b;
        setBlock(r.P, r.tb(0), r.initBias);
        return "setGyroBias of the only or first IMU";
      }
      case 9:
      case 10:
      {
        Vector6 w;
        w << 3, i, -2, 0.1, 0.2 * i, 0.3;
        o.setStateUnmodeledWrench(w, k == 10);
        r.x.segment(r.xu(), 6) = w;
        if(k == 10) setBlock(r.P, r.tu(), r.initUnm);
        return "setStateUnmodeledWrench";
      }
      case 11: o.setKinematicsStateCovariance(someCov(12, i)); setBlock(r.P, 0, someCov(12, i)); return "setKinematicsStateCovariance";
      case 12: o.setKinematicsInitCovarianceDefault(r.initKine = someCov(12, i)); return "setKinematicsInitCovarianceDefault";
      case 13: o.setKinematicsProcessCovariance(someCov(12, i)); setBlock(r.Q, 0, someCov(12, i)); return "setKinematicsProcessCovariance";
      case 14: o.setGyroBiasStateCovariance(someCov(3, i), im); setBlock(r.P, r.tb(im), someCov(3, i)); return "setGyroBiasStateCovariance";
      case 15: o.setGyroBiasInitCovarianceDefault(r.initBias = someCov(3, i)); return "setGyroBiasInitCovarianceDefault";
      case 16: o.setGyroBiasProcessCovariance(someCov(3, i), im); setBlock(r.Q, r.tb(im), someCov(3, i)); return "setGyroBiasProcessCovariance";
      case 17: o.setUnmodeledWrenchStateCovMat(someCov(6, i)); setBlock(r.P, r.tu(), someCov(6, i)); return "setUnmodeledWrenchStateCovMat";
      case 18: o.setUnmodeledWrenchInitCovMatDefault(r.initUnm = someCov(6, i)); return "setUnmodeledWrenchInitCovMatDefault";
      case 19: o.setUnmodeledWrenchProcessCovMat(someCov(6, i)); setBlock(r.Q, r.tu(), someCov(6, i)); return "setUnmodeledWrenchProcessCovMat";
      case 20: needContact(); o.setContactStateCovMat(int(ct), someCov(12, i)); setBlock(r.P, r.tc(ct), someCov(12, i)); return "setContactStateCovMat";
      case 21: o.setContactInitCovMatDefault(r.initCon = someCov(12, i)); return "setContactInitCovMatDefault";
      case 22: needContact(); o.setContactProcessCovMat(int(ct), someCov(12, i)); setBlock(r.Q, r.tc(ct), someCov(12, i)); return "setContactProcessCovMat";
      case 23: o.setStateCovarianceMat(r.P = denseCov(r.st(), i)); return "setStateCovarianceMat";
      case 24: o.setProcessNoiseCovarianceMat(r.Q = denseCov(r.st(), i)); return "setProcessNoiseCovarianceMat";
      case 25: o.resetStateCovarianceMat(); resetP(); return "resetStateCovarianceMat";
      case 26: o.resetStateKinematicsCovMat(); setBlock(r.P, 0, r.initKine); return "resetStateKinematicsCovMat";
      case 27: o.resetStateGyroBiasCovMat(im); setBlock(r.P, r.tb(im), r.initBias); return "resetStateGyroBiasCovMat";
      case 28: o.resetStateUnmodeledWrenchCovMat(); setBlock(r.P, r.tu(), r.initUnm); return "resetStateUnmodeledWrenchCovMat";
      case 29:
        o.resetStateContactsCovMat();
        for(unsigned j = 0; j < r.nc; ++j)
          if(r.con[j].set) setBlock(r.P, r.tc(j), r.initCon);
        return "resetStateContactsCovMat";
      case 30: needContact(); o.resetStateContactCovMat(ct); setBlock(r.P, r.tc(ct), r.initCon); return "resetStateContactCovMat";
      case 31:
      case 36:
        o.resetProcessContactsCovMat();
        for(unsigned j = 0; j < r.nc; ++j)
          if(r.con[j].set) setBlock(r.Q, r.tc(j), defaultProcCon());
        if(k == 31) return "resetProcessContactsCovMat";
        o.resetProcessCovarianceMat();
        setBlock(r.Q, 0, defaultProcKine());
        for(unsigned j = 0; j < r.ni; ++j) setBlock(r.Q, r.tb(j), diagOf({O::gyroBiasProcessVarianceDefault}));
        setBlock(r.Q, r.tu(), diagOf({O::unmodeledWrenchProcessVarianceDefault, O::unmodeledWrenchProcessVarianceDefault}));
        return "resetProcessCovarianceMat";
      case 32: o.resetProcessKinematicsCovMat(); setBlock(r.Q, 0, defaultProcKine()); return "resetProcessKinematicsCovMat";
      case 33: o.resetProcessGyroBiasCovMat(im); setBlock(r.Q, r.tb(im), diagOf({O::gyroBiasProcessVarianceDefault})); return "resetProcessGyroBiasCovMat";
      case 34:
        o.resetProcessUnmodeledWrenchCovMat();
        setBlock(r.Q, r.tu(), diagOf({O::unmodeledWrenchProcessVarianceDefault, O::unmodeledWrenchProcessVarianceDefault}));
        return "resetProcessUnmodeledWrenchCovMat";
      case 35: needContact(); o.resetProcessContactCovMat(ct); setBlock(r.Q, r.tc(ct), defaultProcCon()); return "resetProcessContactCovMat";
      case 37:
        for(unsigned j = 0;; ++j)
        {
          if(j == r.nc) throw mc::Prune();
          if(r.con[j].set) continue;
          Matrix a = someCov(12, i), b = someCov(12, i + 1);
          bool own = i % 2;
          c.require(add(poseOf(int(j), i), own ? int(j) : -1, 0, own ? &a : nullptr, own ? &b : nullptr) == 0, "number of the contact");
          return "addContact";
        }
      case 38: needContact(); remove(int(ct)); return "removeContact";
      default: options(!r.bias, i % 2 ? r.unm : !r.unm, r.acc); return "options changed";
    }
  }
};
} // namespace

// increments of every component and of pairs of components
MC_SUITE(increments, 4)
{
  const unsigned nc = unsigned(c.choose(3)), ni = unsigned(c.choose(3));
  Run p(c, nc, ni);
  Ref & r = p.r;
  p.setup(0.005, 60);
  p.options(c.flag(), c.flag(), false);
  const int set = c.choose(1 << nc);
  for(unsigned i = 0; i < nc; ++i)
    if(set >> i & 1) c.require(p.add(poseOf(int(i), 0), int(i), 0, nullptr, nullptr) == 0, "contact number");
  Vector x = stateOf(r, c.choose(5));
  // one or two components, or all of them
  const long m = r.st();
  static const double size[] = {1e-3, -0.4, 1.7};
  const double a = size[c.choose(3)];
  for(long i = -1; i < m; ++i)
    for(long j = i; j < m; ++j)
    {
      if(i < 0 && j >= 0) break;
      if(!c.thorough() && i >= 0 && j != i && j != i + 1 && j != m - 1 - i) continue;
      Vector d = Vector::Zero(m);
      if(i >= 0)
        d(i) += a, d(j) += j == i ? 0 : -0.3 * a;
      else
        for(long k = 0; k < m; ++k) d(k) = a * (0.5 - 0.1 * double(k % 7));
      Vector g = p.o.stateSum(x, d), w = r.sum(x, d);
      p.sameState(c, g, w, 1e-9, "sum");
      for(unsigned k = 0; k < nc; ++k)
        if(!r.con[k].set) c.near(g.segment(r.xc(k), 13), x.segment(r.xc(k), 13), 0, "a component that does not exist does not change");
      Vector e = p.o.stateDifference(g, x), want = d;
      if(!r.bias) want.segment(12, 3 * ni).setZero();
      if(!r.unm) want.segment(r.tu(), 6).setZero();
      for(unsigned k = 0; k < nc; ++k)
        if(!r.con[k].set) want.segment(r.tc(k), 12).setZero();
      c.near(e, want, 1e-8, "the difference gives the increment back");
      Vector f = Vector::Constant(3, 7), sum;
      p.o.stateDifference(g, x, f); // a vector of another size that was used before
      c.near(f, want, 1e-8, "the difference gives the increment back");
      p.o.stateSum(x, d, sum);
      c.near(sum, g, 0, "both forms agree");
    }
  c.step([&] { return "state " + mc::str(x); });
  c.near(p.o.stateDifference(x, x), Vector::Zero(m), 1e-12, "difference to itself");
  p.sameState(c, p.o.stateSum(x, Vector::Zero(m)), x, 1e-12, "sum with zero");
  c.state(mc::hashM(3, x) + uint64_t(set) * 17 + uint64_t(r.bias) * 3 + uint64_t(r.unm));
}

// differences of pairs of states
MC_SUITE(pairs, 4)
{
  const unsigned nc = unsigned(c.choose(3)), ni = 1;
  Run p(c, nc, ni);
  Ref & r = p.r;
  p.setup(0.005, 60);
  p.options(c.flag(), c.flag(), false);
  const int set = c.choose(1 << nc);
  for(unsigned i = 0; i < nc; ++i)
    if(set >> i & 1) c.require(p.add(poseOf(int(i), 0), int(i), 0, nullptr, nullptr) == 0, "contact number");
  Vector x = stateOf(r, c.choose(5)), y = stateOf(r, c.choose(5));
  Vector d = p.o.stateDifference(x, y);
  c.step([&] { return "difference " + mc::str(d); });
  c.near(d, r.diff(x, y), 1e-8, "difference");
  Vector back = p.o.stateSum(y, d), want = x;
  if(!r.bias) want.segment(13, 3 * ni) = y.segment(13, 3 * ni);
  if(!r.unm) want.segment(r.xu(), 6) = y.segment(r.xu(), 6);
  p.sameState(c, back, want, 1e-9, "adding the difference gives the first state");
  c.state(mc::hashM(3, d));
}

// sequences of settings, then one iteration
MC_SUITE(settings, 3)
{
  const unsigned nc = 2, ni = 1 + unsigned(c.choose(2));
  Run p(c, nc, ni);
  p.setup(0.005, 60);
  p.steps();
  p.options(true, c.flag(), false);
  const int set = c.choose(4);
  Vector3 com(0.02, -0.03, 0.1);
  if(set & 1) c.require(p.add(poseOf(0, 0), 0, 0, nullptr, nullptr) == 0, "contact number");
  if(set & 2) c.require(p.add(poseOf(1, 0), 1, 0, nullptr, nullptr) == 0, "contact number");
  p.r.x = stateOf(p.r, 0);
  p.o.setStateVector(p.r.x, false);
  p.o.setStateCovarianceMat(p.r.P = denseCov(p.r.st(), 0));
  p.o.setProcessNoiseCovarianceMat(p.r.Q = denseCov(p.r.st(), 1));
  p.com(com, Vector3::Zero(), Vector3::Zero());
  p.inertia(Matrix3(8 * Matrix3::Identity()), Matrix3(Matrix3::Zero()));
  p.look();
  for(int k = 0; k < c.t(2, 3); ++k)
  {
    int op = c.choose(Run::operations);
    const char * name = p.op(op);
    c.step([&] { return std::string(name); });
    p.look();
  }
  p.iteration();
}

// what holds before anything is set
MC_SUITE(defaults, 2)
{
  typedef KineticsObserver O;
  const unsigned nc = unsigned(c.choose(4)), ni = unsigned(c.choose(4));
  Run p(c, nc, ni);
  Ref & r = p.r;
  c.step([] { return "a new observer"; });
  Matrix P = p.o.getStateCovarianceMat(), Q = p.o.getEKF().getProcessCovariance();
  r.P.setZero(), r.Q.setZero();
  setBlock(r.P, 0, diagOf({O::statePoseInitVarianceDefault, O::stateOriInitVarianceDefault, O::stateLinVelInitVarianceDefault, O::stateAngVelInitVarianceDefault}));
  setBlock(r.Q, 0, defaultProcKine());
  for(unsigned i = 0; i < ni; ++i)
  {
    setBlock(r.P, r.tb(i), diagOf({O::gyroBiasInitVarianceDefault}));
    setBlock(r.Q, r.tb(i), diagOf({O::gyroBiasProcessVarianceDefault}));
  }
  setBlock(r.P, r.tu(), diagOf({O::unmodeledWrenchInitVarianceDefault, O::unmodeledWrenchInitVarianceDefault}));
  setBlock(r.Q, r.tu(), diagOf({O::unmodeledWrenchProcessVarianceDefault, O::unmodeledWrenchProcessVarianceDefault}));
  const int set = c.choose(1 << nc);
  for(unsigned i = 0; i < nc; ++i)
    if(set >> i & 1)
    {
      c.require(p.o.addContact(kref::make(poseOf(int(i), 0), 0), int(i)) == int(i), "contact number");
      r.con[i].set = true;
      setBlock(r.Q, r.tc(i), defaultProcCon());
    }
  P = p.o.getStateCovarianceMat(), Q = p.o.getEKF().getProcessCovariance();
  c.near(p.masked(Q), p.masked(r.Q), 1e-20, "default process noise");
  for(unsigned i = 0; i < nc; ++i)
    if(r.con[i].set)
    {
      c.near(P.block(r.tc(i) + 6, r.tc(i) + 6, 6, 6), diagOf({O::contactForceInitVarianceDefault, O::contactTorqueInitVarianceDefault}), 1, "default initial variance of a contact wrench");
      setBlock(r.P, r.tc(i), P.block(r.tc(i), r.tc(i), 12, 12));
    }
  Matrix g = p.masked(P), w = p.masked(r.P);
  for(long i = 0; i < g.rows(); ++i)
    for(long j = 0; j < g.cols(); ++j)
      c.require(std::abs(g(i, j) - w(i, j)) <= 1e-12 * std::abs(w(i, j)), "default initial covariance");
  Vector x = Vector::Zero(r.sx());
  x(6) = 1;
  c.near(p.o.getCurrentStateVector().head(r.xu() + 6), x.head(r.xu() + 6), 0, "initial state");
  p.filterAgrees(c);
  c.state(uint64_t(nc * 100 + ni * 10) + uint64_t(set) * 1000);
}
MC_MAIN()
