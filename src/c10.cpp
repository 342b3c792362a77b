// C10: contact and sensor bookkeeping of the kinetics observer.
#include "koref.hpp"
#include <set>
using namespace koref;

namespace
{
Kin poseOf(int n, int i)
{
  Kin k;
  k.f = kref::P | kref::O;
  k.p = Vector3(0.1 * n + 0.01 * i, 0.2 - 0.03 * i, -0.7 + 0.05 * n);
  k.R = expm(Vector3(0.3 * n - 0.2, 0.1 * i, 0.4 - 0.07 * i));
  return k;
}
Kin localKin(int n, int i)
{
  Kin k = poseOf(n, 0);
  k.f |= kref::V | kref::W;
  k.p = Vector3(0.1 * n, 0.1, -0.6);
  k.R = expm(Vector3(0.02 * i, 0.1, -0.05 * n));
  k.v = Vector3(0.02, 0.01 * i, -0.03);
  k.w = Vector3(-0.04 * i, 0.02, 0.05);
  return k;
}
Kin imuKin(int n)
{
  Kin k;
  k.f = kref::P | kref::O | kref::V | kref::W | kref::A;
  k.p = Vector3(0.1 * n, 0.02, 0.4);
  k.R = expm(Vector3(0.3 * n, 0.2, -0.1));
  return k;
}
Vector6 wrenchOf(int n, int i)
{
  Vector6 w;
  w << 10 + i, -5 * n, 250 - 3 * i, 1, -2 + n, 0.3 * i;
  return w;
}
Matrix initOf(int i)
{
  return full(diagOf({4e-6, 1e-5 * (1 + i), 30, 1}), 0.15);
}
Matrix procOf(int i)
{
  return full(diagOf({1e-9, 2e-8, 3, 0.2 + 0.01 * i}), 0.1);
}

struct Run : Pair
{
  C & c;
  int n = 0; // operations so far, for the values
  Run(C & cc, unsigned nc, unsigned ni) : Pair(nc, ni), c(cc)
  {
    setup(0.005, 60);
    // distinct values everywhere
    for(long i = 0; i < 3; ++i) r.x(i) = 0.01 * double(i + 1), r.x(7 + i) = 0.1 * double(i), r.x(10 + i) = -0.1 * double(i + 1);
    r.x.segment(3, 4) = quatOf(expm(Vector3(0.1, -0.2, 0.3)));
    for(unsigned k = 0; k < ni; ++k) r.x.segment(r.xb(k), 3) = Vector3(0.01, 0.02 * (k + 1), -0.03);
    r.x.segment(r.xu(), 6) << 1, 2, 3, 0.1, 0.2, 0.3;
    o.setStateVector(r.x, false);
    Vector3 com0(0.02, -0.03, 0.1);
    com(com0, Vector3::Zero(), Vector3::Zero());
    inertia(Matrix3(8 * Matrix3::Identity()), Matrix3(Matrix3::Zero()));
  }
  Matrix masked(Matrix m) const
  {
    for(unsigned i = 0; i < r.nc; ++i)
      if(!r.con[i].set) m.middleRows(r.tc(i), 12).setZero(), m.middleCols(r.tc(i), 12).setZero();
    return m;
  }
  /// everything the observer reports about its contacts and sensors
  void look()
  {
    std::vector<int> want;
    for(unsigned i = 0; i < r.nc; ++i)
      if(r.con[i].set) want.push_back(int(i));
    std::vector<int> got = o.getListOfContacts();
    std::sort(got.begin(), got.end());
    c.require(got == want, "list of contacts");
    c.require(o.getNumberOfContacts() == Index(want.size()), "number of contacts");
    c.require(o.getStateSize() == r.sx(), "size of the state");
    for(int i : want)
    {
      kine::Kinematics g = o.getContactPosition(i);
      Kin w;
      w.f = kref::P | kref::O;
      w.p = r.x.segment(r.xc(unsigned(i)), 3);
      w.R = rotOf(r.x, r.xc(unsigned(i)) + 3);
      kref::check(c, g, w, 1e-12, "pose of a contact");
      c.near(o.getContactWrench(i), r.x.segment(r.xc(unsigned(i)) + 7, 6), 1e-12, "wrench of a contact");
    }
    c.near(o.getUnmodeledWrench(), r.x.segment(r.xu(), 6), 1e-12, "unmodeled wrench");
    r.sd.resize(0);
    sameState(c, o.getCurrentStateVector(), r.x, 1e-12, "state");
    c.near(masked(o.getStateCovarianceMat()), masked(r.P), 1e-14, "state covariance");
    c.near(masked(o.getEKF().getProcessCovariance()), masked(r.Q), 1e-14, "process noise");
    c.require(o.getMeasurementSize() == r.measureSize(), "measurement size");
    Vector y = o.getMeasurementVector(), w = r.measurement();
    c.require(y.size() == w.size(), "size of the measurement vector");
    long m = y.size() - (r.pose && y.size() ? 4 : 0);
    c.near(y.head(m), w.head(m), 1e-12, "measurement vector");
    if(m < y.size()) c.near(rotOf(y, m), rotOf(w, m), 1e-12, "measured orientation");
    filterAgrees(c);
    uint64_t h = mc::hashM(2, r.x);
    for(auto & k : r.con) h = h * 1315423911u + unsigned(k.set) * 4 + unsigned(k.sensor) * 2 + unsigned(k.time == r.kData);
    for(auto & k : r.imu) h = h * 1315423911u + unsigned(k.time == r.kData);
    c.state(h);
  }
  void add(int num, bool own)
  {
    int free = 0;
    for(auto & k : r.con) free += !k.set;
    if(!free) throw mc::Prune();
    int i = ++n;
    c.step([&] { return "add contact " + std::to_string(num); });
    Matrix a = initOf(i % 4), b = procOf(i % 4);
    c.require(Pair::add(poseOf(i % 5, i % 3), num, unsigned(i) % 16, own ? &a : nullptr, own ? &b : nullptr, i % 3) == 0, "number of the added contact");
  }
  void toggle(int k)
  {
    if(r.con[size_t(k)].set)
    {
      c.step([&] { return "remove contact " + std::to_string(k); });
      remove(k);
    }
    else
      add(k, k % 2);
  }
  void give(int k, bool sensor)
  {
    if(!r.con[size_t(k)].set) throw mc::Prune();
    int i = ++n;
    c.step([&] { return (sensor ? "wrench of contact " : "no sensor for contact ") + std::to_string(k); });
    Vector6 w = wrenchOf(k, i);
    Matrix cv = full(diagOf({3, 0.1}), 0.1);
    contact(unsigned(k), localKin(k, i), sensor ? &w : nullptr, i % 2 ? &cv : nullptr, i % 3);
  }
  void giveImu(int num)
  {
    if(num >= 0 ? r.kData != r.kEst && r.imu[size_t(num)].time == r.kData : fullImu()) throw mc::Prune();
    int i = ++n;
    c.step([&] { return "IMU " + std::to_string(num); });
    c.require(imu(Vector3(0.1 * i, 0, 9.8), Vector3(0.2, -0.01 * i, 0), imuKin(std::max(num, 0)), num, nullptr, i % 3) == 0, "number of the IMU");
  }
  bool fullImu() const
  {
    if(r.kData == r.kEst) return false;
    for(auto & i : r.imu)
      if(i.time != r.kData) return false;
    return true;
  }
  void givePose()
  {
    int i = ++n;
    c.step([] { return "pose"; });
    Kin k;
    k.f = kref::P | kref::O;
    k.p = Vector3(0.011, 0.02, 0.03 + 0.001 * (i % 4));
    k.R = expm(Vector3(0.1, -0.2, 0.3 + 0.01 * (i % 4)));
    pose(k, nullptr, i % 3);
  }
  /// the estimate itself is C11's matter: continued from the real one
  void update()
  {
    if(!ready() || (r.kEst != r.kData && !r.measureSize())) throw mc::Prune();
    bool it = r.kEst != r.kData;
    Vector got = o.update();
    c.step([&] { return "update -> " + mc::str(got); });
    if(!it) return;
    c.require(got.size() == r.sx() && !got.hasNaN(), "the state stays finite");
    Vector before = r.x;
    r.x = got;
    r.P = o.getStateCovarianceMat();
    ++r.kEst;
    r.pose = false;
    if(!r.bias)
      for(unsigned i = 0; i < r.ni; ++i) c.near(got.segment(r.xb(i), 3), before.segment(r.xb(i), 3), 1e-12, "a component that is not estimated does not change");
    if(!r.unm) c.near(got.segment(r.xu(), 6), before.segment(r.xu(), 6), 1e-12, "a component that is not estimated does not change");
    c.require(o.getMeasurementSize() == 0, "the data are used once");
  }
};
} // namespace

// contacts come and go, without filtering
MC_SUITE(lifecycle, 3)
{
  const unsigned nc = 1 + unsigned(c.choose(c.t(3, 4)));
  Run p(c, nc, 1);
  p.look();
  for(int d = 0; d < c.t(7, 8); ++d)
  {
    int op = c.choose(int(nc) + 2);
    if(op < int(nc))
      p.toggle(op);
    else if(op == int(nc))
      p.add(-1, d % 2);
    else
    {
      c.step([] { return "clear contacts"; });
      p.clear();
    }
    p.look();
  }
}

// all operations
MC_SUITE(histories, 3)
{
  const int conf = c.choose(c.t(2, 3)); // numbers of contacts and IMUs
  const unsigned nc = conf == 0 ? 1 : conf == 1 ? 2 : 3, ni = conf == 0 ? 2 : 1;
  Run p(c, nc, ni);
  bool b = c.flag();
  p.options(b, !b, b);
  if(c.flag()) p.add(-1, true);
  p.look();
  const int alphabet = int(3 * nc + ni) + 6;
  for(int d = 0; d < c.t(5, 6) - (nc == 3 ? 1 : 0); ++d)
  {
    int op = c.choose(alphabet), k = op;
    if(k < int(3 * nc))
    {
      int w = k / 3;
      if(k % 3 == 0) p.toggle(w);
      if(k % 3 == 1) p.give(w, true);
      if(k % 3 == 2) p.give(w, false);
    }
    else if((k -= int(3 * nc)) < int(ni))
      p.giveImu(k);
    else
    {
      switch(k - int(ni))
      {
        case 0: p.giveImu(-1); break;
        case 1: p.givePose(); break;
        case 2: p.update(); break;
        case 3: p.add(-1, false); break;
        case 4:
          c.step([] { return "clear contacts"; });
          p.clear();
          break;
        default:
          c.step([] { return "discard the data"; });
          p.resetInputs();
      }
    }
    p.look();
  }
}

// iterations: which contacts and sensors there are in each of them
MC_SUITE(iterations, 3)
{
  const unsigned nc = 2, ni = 2;
  Run p(c, nc, ni);
  p.options(c.flag(), c.flag(), false);
  for(int d = 0; d < c.t(2, 3); ++d)
  {
    int set = c.choose(4); // which contacts exist
    for(int k = 0; k < 2; ++k)
      if(p.r.con[size_t(k)].set != bool(set >> k & 1)) p.toggle(k);
    p.look();
    for(int k = 0; k < 2; ++k)
      if(set >> k & 1)
      {
        int how = c.choose(3); // 2: first with, then without a sensor
        if(how == 2) p.give(k, true), p.look();
        p.give(k, how == 0);
        p.look();
      }
    int im = c.choose(3);
    for(int k = 0; k < im; ++k) p.giveImu(-1), p.look();
    if(!p.r.measureSize()) p.givePose(), p.look();
    p.update();
    p.look();
  }
}

// every periodic history of period up to three (four), over a long life with many contacts
MC_SUITE(periodic, 3)
{
  const unsigned nc = c.flag() ? 4 : 6, ni = nc == 4 ? 2 : 4;
  const int period = 1 + c.choose(c.t(3, 4));
  int word[4];
  for(int k = 0; k < period; ++k) word[k] = c.choose(7);
  Run p(c, nc, ni);
  p.options(true, true, false);
  auto some = [&](int which) { // lowest, highest, middle contact
    std::vector<int> on;
    for(unsigned i = 0; i < nc; ++i)
      if(p.r.con[i].set) on.push_back(int(i));
    return on.empty() ? -1 : which == 0 ? on.front() : which == 1 ? on.back() : on[on.size() / 2];
  };
  const int n = c.t(40, 60);
  for(int d = 0; d < n; ++d)
  {
    int op = word[d % period], k = op < 4 ? some(op - 1) : -1;
    switch(op)
    {
      case 0:
        try
        {
          p.add(-1, d % 2);
        }
        catch(const mc::Prune &)
        {
        } // no free place
        break;
      case 1:
      case 2:
      case 3:
        if(k >= 0) p.toggle(k);
        break;
      case 4: // the highest place
        if(!p.r.con[nc - 1].set) p.add(int(nc) - 1, true);
        break;
      case 5:
        for(unsigned i = 0; i < nc; ++i)
          if(p.r.con[i].set) p.give(int(i), (i + unsigned(d)) % 2);
        for(unsigned i = 0; i < ni; ++i) p.giveImu(d % 2 ? -1 : int(ni - 1 - i));
        p.look();
        p.update();
        break;
      default:
        c.step([] { return "clear contacts"; });
        p.clear();
    }
    p.look();
  }
}

// the layout
MC_SUITE(layout, 2)
{
  const unsigned nc = unsigned(c.choose(7)), ni = unsigned(c.choose(5));
  KineticsObserver o(nc, ni);
  const unsigned set = unsigned(c.choose(1 << nc));
  const bool down = c.flag();
  for(unsigned k = 0; k < nc; ++k)
  {
    unsigned i = down ? nc - 1 - k : k;
    if(set >> i & 1) c.require(o.addContact(kref::make(poseOf(int(i), 1), 0), int(i)) == int(i), "number of the added contact");
  }
  c.step([&] { return "layout of " + std::to_string(nc) + " contacts, " + std::to_string(ni) + " IMUs"; });
  std::vector<std::pair<unsigned, unsigned>> x, t;
  auto both = [&](unsigned a, unsigned na, unsigned b, unsigned nb) {
    x.push_back({a, na});
    t.push_back({b, nb});
  };
  both(o.posIndex(), 3, o.posIndexTangent(), 3);
  both(o.oriIndex(), 4, o.oriIndexTangent(), 3);
  both(o.linVelIndex(), 3, o.linVelIndexTangent(), 3);
  both(o.angVelIndex(), 3, o.angVelIndexTangent(), 3);
  for(unsigned i = 0; i < ni; ++i) both(o.gyroBiasIndex(i), 3, o.gyroBiasIndexTangent(i), 3);
  both(o.unmodeledForceIndex(), 3, o.unmodeledForceIndexTangent(), 3);
  both(o.unmodeledTorqueIndex(), 3, o.unmodeledTorqueIndexTangent(), 3);
  c.require(o.unmodeledWrenchIndex() == o.unmodeledForceIndex() && o.unmodeledWrenchIndexTangent() == o.unmodeledForceIndexTangent(), "wrench starts with the force");
  c.require(o.kineIndex() == o.posIndex() && o.kineIndexTangent() == o.posIndexTangent(), "kinematics start with the position");
  for(unsigned i = 0; i < nc; ++i)
    if(set >> i & 1)
    {
      both(o.contactPosIndex(i), 3, o.contactPosIndexTangent(i), 3);
      both(o.contactOriIndex(i), 4, o.contactOriIndexTangent(i), 3);
      both(o.contactForceIndex(i), 3, o.contactForceIndexTangent(i), 3);
      both(o.contactTorqueIndex(i), 3, o.contactTorqueIndexTangent(i), 3);
      c.require(o.contactWrenchIndex(i) == o.contactForceIndex(i) && o.contactWrenchIndexTangent(i) == o.contactForceIndexTangent(i), "wrench starts with the force");
      c.require(o.contactIndex(i) == o.contactPosIndex(i) && o.contactIndexTangent(i) == o.contactPosIndexTangent(i), "contact starts with the position");
      c.require(o.contactKineIndex(i) == o.contactPosIndex(i) && o.contactKineIndexTangent(i) == o.contactPosIndexTangent(i), "contact starts with the position");
      c.require(o.contactsIndex() <= o.contactIndex(i) && o.contactsIndexTangent() <= o.contactIndexTangent(i), "contacts are together");
    }
  auto apart = [&](const std::vector<std::pair<unsigned, unsigned>> & v, long size, const char * key) {
    std::set<unsigned> used;
    for(auto & e : v)
      for(unsigned k = 0; k < e.second; ++k)
      {
        c.require(long(e.first + k) < size, "components are inside the vector");
        c.require(used.insert(e.first + k).second, key);
      }
    if(set == (1u << nc) - 1) c.require(long(used.size()) == size, "all of the vector is used");
  };
  const long sx = 13 + 3 * long(ni) + 6 + 13 * long(nc), st = sx - 1 - long(nc);
  c.require(o.getStateSize() == sx && o.getCurrentStateVector().size() == sx, "size of the state");
  c.require(o.getStateCovarianceMat().rows() == st && o.getStateCovarianceMat().cols() == st, "size of the covariance");
  c.require(o.getEKF().getStateSize() == sx, "size of the state of the filter");
  apart(x, sx, "components of the state do not overlap");
  apart(t, st, "components of the tangent vector do not overlap");
  c.near(o.getCurrentStateVector().segment(o.oriIndex(), 4), Vector4(0, 0, 0, 1), 0, "the initial orientation is the identity");
  c.state(mc::hashM(3, o.getCurrentStateVector()));
}
MC_MAIN()
