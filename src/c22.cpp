// C22: arguments left out take their documented defaults, and the alternative forms of a call are equivalent.
#include "indep.hpp"
#include "kinref.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/logger.hpp>
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <sys/stat.h>
#include <tuple>
#include <unistd.h>
using namespace stateObservation;
using namespace indep;
typedef kine::Kinematics Kin;

namespace
{
Vector one(double x)
{
  return Vector::Constant(1, x);
}
// ---- f with the first k arguments of v (the others left out) against f with all of them, the others being the defaults d
template<typename F, typename V, size_t... I>
Vector apply(F & f, const V & v, std::index_sequence<I...>)
{
  return f(std::get<I>(v)...);
}
template<size_t K, size_t N, typename F, typename V>
Vector prefix(size_t k, F & f, const V & v)
{
  if constexpr(K < N)
  {
    if(k != K) return prefix<K + 1, N>(k, f, v);
  }
  return apply(f, v, std::make_index_sequence<K>());
}
template<typename V, size_t... I>
V merged(size_t k, const V & v, const V & d, std::index_sequence<I...>)
{
  return V(I < k ? std::get<I>(v) : std::get<I>(d)...);
}
// every entry relative to itself: a large one hides no other
void each(C & c, const Vector & got, const Vector & want, double tol, const char * key)
{
  c.near(one(double(got.size())), one(double(want.size())), 0, key);
  if(getenv("MC_SHOW_SCALE") && want.size()) std::cerr << "scale " << want.lpNorm<Eigen::Infinity>() << " " << key << std::endl;
  for(Index i = 0; i < want.size(); ++i) c.near(got(i), want(i), tol, key);
}
template<size_t Min, typename F, typename V>
void omitted(C & c, const char * what, F f, const V & v, const V & d)
{
  constexpr size_t N = std::tuple_size<V>::value;
  size_t k = Min + size_t(c.choose(int(N - Min)));
  c.step([&] { return std::string(what) + ": only the first " + std::to_string(k) + " arguments are given"; });
  Vector want = prefix<Min, N>(N, f, merged(k, v, d, std::make_index_sequence<N>()));
  Vector got = prefix<Min, N>(k, f, v);
  each(c, got, want, 1e-13, "an argument left out is not its documented default");
  c.state(mc::hashM(k, want));
}
void same(C & c, const Vector & got, const Vector & want, const char * key, double tol = 1e-14)
{
  each(c, got, want, tol, key);
  c.state(mc::hashM(3, want));
}
Vector2 v2(double a, double b)
{
  return Vector2(a, b);
}

// ---- DCM estimators
Vector life(LipmDcmEstimator & e, bool first = true)
{
  Vector r(0);
  for(int i = 0; i < 4; ++i)
  {
    if(i == 2) e.setBias(v2(3, -4), v2(1e-4, 1e-3)); // (beyond every limit)
    if(first || i) e.setInputs(v2(0.1 + 0.02 * i, -0.05 * i), v2(0.03 * i, 0.01), 0.1 * i);
    if(first || i) e.update();
    r = cat({r, Vector(e.getUnbiasedDCM()), Vector(e.getBias()), Vector(e.getLocalBias())});
  }
  return cat({r, one(e.getLipmNaturalFrequency())});
}
Vector life(UnidimLipmDcmEstimator & e)
{
  Vector r(0);
  for(int i = 0; i < 4; ++i)
  {
    e.setInputs(0.1 + 0.02 * i, 0.03 * i);
    e.update();
    r = cat({r, one(e.getUnbiasedDCM()), one(e.getBias())});
  }
  return r;
}
const double omega = std::sqrt(9.8);
typedef std::tuple<double, double, double, double, double, Vector2, Vector2, Vector2, Vector2, Vector2, Vector2> DcmArgs;
typedef std::tuple<double, double, double, double, double, double, double, double, double, double> DcmArgs1;
} // namespace
MC_SUITE(dcm, 2)
{
  const DcmArgs d(0.005, omega, 0.002, 0.01, 0.005, v2(0, 0), v2(0, 0), v2(0, 0), v2(0, 0), v2(0.01, 0.01), v2(0.01, 0.01));
  const DcmArgs v(0.01, 2.9, 0.1, 0.03, 0.02, v2(0.02, 0.03), v2(0.1, 0.2), v2(0.2, -0.1), v2(0.01, 0.015), v2(0.1, 0.2), v2(0.2, 0.1));
  const DcmArgs1 d1(0.005, omega, 0.002, 0, 0, 0, 0.01, 0.005, 0.01, 0.01);
  const DcmArgs1 w1(0.01, 2.9, 0.1, 0.3, 0.2, 0.02, 0.03, 0.02, 0.1, 0.2);
  switch(c.choose(7))
  {
    case 0:
      omitted<0>(c, "constructor", [](auto... a) {
        LipmDcmEstimator e(a...);
        return life(e);
      }, v, d);
      break;
    case 1:
      omitted<0>(c, "one-dimensional constructor", [](auto... a) {
        UnidimLipmDcmEstimator e(a...);
        return life(e);
      }, w1, d1);
      break;
    case 2:
    {
      typedef std::tuple<bool, double, double, double, double, double> T;
      omitted<0>(c, "one-dimensional reset", [](auto... a) {
        UnidimLipmDcmEstimator e;
        e.resetWithInputs(0.4, 0.1, a...);
        return life(e);
      }, T(false, 0.1, 0.03, 0.02, 0.05, 0.2), T(true, 0.002, 0.01, 0.005, 0, 0.01));
      break;
    }
    case 3:
    {
      typedef std::tuple<bool, Vector2, Vector2> T;
      int form = c.choose(3);
      omitted<0>(c, "reset", [form](auto... a) {
        LipmDcmEstimator e;
        if(form == 0) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), 0.3, a...);
        if(form == 1) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), Matrix2(Eigen::Rotation2Dd(0.3)), a...);
        if(form == 2) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), Matrix3(Eigen::AngleAxisd(0.3, Vector3::UnitZ())), a...);
        return life(e, false);
      }, T(false, v2(0.05, 0.02), v2(0.2, 0.3)), T(true, v2(0, 0), v2(0.01, 0.01)));
      break;
    }
    case 4:
    {
      // the forms of the orientation
      double y0 = c.pick<double>({0, 0.3, -2}), y1 = c.pick<double>({0.1, -0.4});
      bool bias = c.flag();
      int r = c.choose(3), s = c.choose(3);
      auto run = [&](int r, int s) {
        LipmDcmEstimator e(0.01, 3, 0.1, 0.02, 0.05, v2(0.02, 0.02));
        auto R2 = [](double a) { return Matrix2(Eigen::Rotation2Dd(a)); };
        auto R3 = [](double a) { return Matrix3(Eigen::AngleAxisd(a, Vector3::UnitZ())); };
        if(r == 0) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), y0, bias, v2(0.01, 0.02), v2(0.1, 0.2));
        if(r == 1) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), R2(y0), bias, v2(0.01, 0.02), v2(0.1, 0.2));
        if(r == 2) e.resetWithMeasurements(v2(0.4, 0.1), v2(0.1, 0.2), R3(y0), bias, v2(0.01, 0.02), v2(0.1, 0.2));
        if(s == 0) e.setInputs(v2(0.42, 0.11), v2(0.2, 0.1), y0 + y1);
        if(s == 1) e.setInputs(v2(0.42, 0.11), v2(0.2, 0.1), R2(y0 + y1));
        if(s == 2) e.setInputs(v2(0.42, 0.11), v2(0.2, 0.1), R3(y0 + y1));
        e.update();
        return cat({Vector(e.getUnbiasedDCM()), Vector(e.getBias()), Vector(e.getLocalBias())});
      };
      c.step([&] { return "orientation given as form " + std::to_string(r) + " then " + std::to_string(s); });
      same(c, run(r, s), run(0, 0), "the forms of the orientation are not equivalent", 1e-12);
      break;
    }
    case 5:
    {
      // a value given without its uncertainty keeps the uncertainty: two calls with the same value differ by it only
      bool bias = c.flag();
      auto run = [&](bool twice) {
        LipmDcmEstimator e(0.01, 3, 0.1, 0.02, 0.05);
        if(bias)
          e.setBias(v2(0.02, 0.03), v2(0.2, 0.1));
        else
          e.setUnbiasedDCM(v2(0.2, 0.3), v2(0.2, 0.1));
        if(twice)
        {
          if(bias)
            e.setBias(v2(0.02, 0.03));
          else
            e.setUnbiasedDCM(v2(0.2, 0.3));
        }
        return life(e);
      };
      c.step([&] { return "value alone after value with uncertainty"; });
      same(c, run(true), run(false), "setting a value alone changes its uncertainty");
      break;
    }
    default:
    {
      bool bias = c.flag();
      auto run = [&](bool twice) {
        UnidimLipmDcmEstimator e(0.01, 3, 0.1, 0.02, 0.05);
        if(bias)
          e.setBias(0.03, 0.2);
        else
          e.setUnbiasedDCM(0.2, 0.3);
        if(twice)
        {
          if(bias)
            e.setBias(0.03);
          else
            e.setUnbiasedDCM(0.2);
        }
        return life(e);
      };
      c.step([&] { return "value alone after value with uncertainty"; });
      same(c, run(true), run(false), "setting a value alone changes its uncertainty");
    }
  }
}

namespace
{
// ---- kinetics observer
Kin pose(double a)
{
  Kin k;
  k.position = Vector3(0.1 + a, -0.1, 0.02);
  k.orientation = Vector3(0.05, 0.1 * a, 0.2);
  return k;
}
Kin local(double z)
{
  Kin k;
  k.position = Vector3(0.05, -0.1, z);
  k.orientation = Vector3(0.1, 0.05, -0.1);
  k.linVel = Vector3(0.05, 0.01, 0);
  k.angVel = Vector3(0.1, 0, 0.05);
  k.linAcc = Vector3(0, 0.1, 0);
  return k;
}

// what the observer does from here on: iterations with everything that is in place
Vector follow(KineticsObserver & f, bool imu = true)
{
  Vector r(0);
  for(int i = 0; i < 2; ++i)
  {
    if(imu) f.setIMU(Vector3(0.1, 0.2, 9.8), Vector3(0.02, 0.1 * i, 0.05), local(0.3), 0);
    for(int k : f.getListOfContacts())
    {
      Vector6 w;
      w << 1, -2, 200, 3, 1, 0.5;
      f.updateContactWithWrenchSensor(w, local(-0.9 + 0.02 * k), unsigned(k));
    }
    f.update();
    r = cat({r, f.getCurrentStateVector(), Vector(f.getStateCovarianceMat().diagonal()), f.getMeasurementVector()});
  }
  return r;
}
void configure(KineticsObserver & f)
{
  f.setSamplingTime(0.005);
  f.setMass(50);
  f.setWithUnmodeledWrench(true);
  f.setWithGyroBias(true);
  f.setCenterOfMass(Vector3(0.01, 0.02, 0.1), Vector3::Zero(), Vector3::Zero());
  f.setInertiaMatrix(Matrix3(Vector3(8, 7, 5).asDiagonal()), Matrix3(Matrix3::Zero()));
  f.setAngularMomentum(Vector3(0.1, 0, 0.2), Vector3::Zero());
  f.setUnmodeledWrenchInitCovMatDefault(Matrix6(0.01 * Matrix6::Identity()));
  Matrix12 ci = 1e-4 * Matrix12::Identity();
  ci.bottomRightCorner<6, 6>() *= 1e4;
  f.setContactInitCovMatDefault(ci);
  f.setStateKinematics(local(0.9), true, true);
  f.setStateUnmodeledWrench(Vector6::Zero(), true);
  f.setWithAccelerationEstimation(true);
}
Matrix12 m12(double d)
{
  return d * Matrix12::Identity();
}
Matrix3 m3(double d)
{
  return d * Matrix3::Identity();
}
} // namespace
MC_SUITE(kinetics, 2)
{
  switch(c.choose(13))
  {
    case 0:
    {
      typedef std::tuple<unsigned, unsigned> T;
      omitted<0>(c, "constructor", [](auto... a) {
        KineticsObserver f(a...);
        Vector n = cat({one(double(f.getStateSize())), one(double(f.getStateCovarianceMat().rows()))});
        configure(f);
        f.addContact(pose(0), 0);
        return cat({n, follow(f)});
      }, T(2, 2), T(4, 1));
      break;
    }
    case 1:
    {
      int which = c.choose(4);
      bool before = c.flag();
      typedef std::tuple<bool> T;
      omitted<0>(c, "switch", [=](auto... a) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        if(which == 0) f.setWithUnmodeledWrench(before), f.setWithUnmodeledWrench(a...);
        if(which == 1) f.setWithAccelerationEstimation(before), f.setWithAccelerationEstimation(a...);
        if(which == 2) f.setWithGyroBias(before), f.setWithGyroBias(a...);
        if(which == 3) f.useFiniteDifferencesJacobians(before), f.useFiniteDifferencesJacobians(a...);
        Vector r = follow(f);
        if(which != 1) return r;
        Kin k = f.getKinematics();
        return cat({r, one(k.linAcc.isSet()), one(k.angAcc.isSet())});
      }, T(false), T(true));
      break;
    }
    case 2:
    case 3:
    {
      // without a number, IMUs are numbered in the order of the calls
      bool cov = c.flag();
      int n = 1 + c.choose(3);
      auto run = [&](bool given) {
        KineticsObserver f(2, 3);
        configure(f);
        Vector r(0);
        for(int it = 0; it < 2; ++it)
        {
          for(int i = 0; i < n; ++i)
          {
            Vector3 acc(0.1 * i, 0.2, 9.8), gyr(0.1, 0.02 * i, 0.05);
            int id;
            if(cov)
              id = given ? f.setIMU(acc, gyr, m3(0.01 + i), m3(0.02), local(0.1 * i), i) : f.setIMU(acc, gyr, m3(0.01 + i), m3(0.02), local(0.1 * i));
            else
              id = given ? f.setIMU(acc, gyr, local(0.1 * i), i) : f.setIMU(acc, gyr, local(0.1 * i));
            r = cat({r, one(id)});
          }
          r = cat({r, follow(f, false)});
        }
        return r;
      };
      c.step([&] { return std::to_string(n) + " IMUs without a number"; });
      same(c, run(false), run(true), "IMUs set without a number are not numbered in order");
      break;
    }
    case 4:
    case 5:
    {
      // contacts: without a number the first free one; gains left out are the default ones
      bool other = c.flag();
      int held = c.choose(4), free = 0; // bit i: contact i is in place already
      while(held >> free & 1) ++free;
      typedef std::tuple<int, Matrix3, Matrix3, Matrix3, Matrix3> T;
      Matrix3 z = Matrix3::Zero();
      const T v(2, m3(30000), m3(80), m3(300), m3(9)), d(free, z, z, z, z);
      auto prep = [=](KineticsObserver & f) {
        configure(f);
        for(int i = 0; i < 2; ++i)
          if(held >> i & 1) f.addContact(pose(0.2 + i), i);
      };
      if(c.flag())
        omitted<0>(c, "addContact", [&](auto... a) {
          KineticsObserver f(3, 1);
          prep(f);
          if(other) f.setStateKinematics(local(0.7), false, false);
          int id = f.addContact(pose(0), a...);
          return cat({one(id), follow(f)});
        }, v, d);
      else
        omitted<0>(c, "addContact with covariances", [&](auto... a) {
          KineticsObserver f(3, 1);
          prep(f);
          if(other) f.setStateKinematics(local(0.7), false, false);
          int id = f.addContact(pose(0), m12(0.01), m12(0.0001), a...);
          return cat({one(id), follow(f)});
        }, v, d);
      break;
    }
    case 6:
    {
      typedef std::tuple<bool, bool> T;
      omitted<0>(c, "setStateKinematics", [&](auto... a) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        Vector r = follow(f);
        f.setStateKinematics(local(0.7), a...);
        return cat({f.getCurrentStateVector(), flat(f.getStateCovarianceMat()), follow(f)});
      }, T(false, false), T(true, true));
      break;
    }
    case 7:
    {
      typedef std::tuple<unsigned, bool> T;
      unsigned w = unsigned(c.choose(2));
      omitted<0>(c, "setGyroBias", [&](auto... a) {
        KineticsObserver f(2, 2);
        configure(f);
        f.addContact(pose(0), 0);
        f.setIMU(Vector3(0, 0, 9.8), Vector3(0, 0.1, 0), local(0.3), 1);
        Vector r = follow(f);
        f.setGyroBiasInitCovarianceDefault(m3(0.7));
        f.setGyroBias(Vector3(0.1, 0.2, 0.3), a...);
        return cat({f.getCurrentStateVector(), flat(f.getStateCovarianceMat()), follow(f)});
      }, T(w, false), T(0, true));
      break;
    }
    case 8:
    {
      typedef std::tuple<bool> T;
      omitted<0>(c, "setStateUnmodeledWrench", [&](auto... a) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        Vector r = follow(f);
        f.setUnmodeledWrenchInitCovMatDefault(Matrix6(0.7 * Matrix6::Identity()));
        f.setStateUnmodeledWrench(Vector6::Constant(0.3), a...);
        return cat({f.getCurrentStateVector(), flat(f.getStateCovarianceMat()), follow(f)});
      }, T(false), T(true));
      break;
    }
    case 9:
    {
      typedef std::tuple<bool> T;
      omitted<0>(c, "setStateVector", [&](auto... a) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        Vector r = follow(f);
        Vector x = f.getCurrentStateVector();
        x(0) += 0.1;
        f.setStateVector(x, a...);
        return cat({f.getCurrentStateVector(), flat(f.getStateCovarianceMat()), follow(f)});
      }, T(false), T(true));
      break;
    }
    case 10:
    {
      // the forms which return and the ones which fill
      KineticsObserver f(2, 2);
      configure(f);
      f.addContact(pose(0), c.choose(2));
      Vector x = f.getCurrentStateVector(), t = gen(f.getStateCovarianceMat().rows(), 1, 3 + c.choose(4)), s = Vector::Constant(7, 3.0);
      if(c.flag()) s = x;
      c.step([&] { return "stateSum and stateDifference, returned or filled"; });
      Vector r = f.stateSum(x, t);
      f.stateSum(x, t, s);
      same(c, s, r, "the forms of stateSum are not equivalent");
      Vector dd = Vector::Constant(c.flag() ? 2 : t.size(), 1.0), q = f.stateDifference(r, x);
      f.stateDifference(r, x, dd);
      same(c, dd, q, "the forms of stateDifference are not equivalent");
      break;
    }
    case 11:
    {
      // the inertia as a matrix or as (Ixx Iyy Izz Ixy Ixz Iyz)
      bool rate = c.flag();
      int again = c.choose(2);
      auto run = [&](bool vec) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        Vector r(0);
        for(int i = 0; i <= again; ++i)
        {
          Vector6 v6, r6;
          v6 << 8 + i, 7, 5, 0.3, 0.2, -0.4;
          r6 << 0.1, 0.2, 0.3, 0.4, 0.5, 0.6;
          auto M = [](const Vector6 & u) {
            Matrix3 m;
            m << u(0), u(3), u(4), u(3), u(1), u(5), u(4), u(5), u(2);
            return m;
          };
          if(vec)
          {
            if(rate)
              f.setInertiaMatrix(v6, r6);
            else
              f.setInertiaMatrix(v6);
          }
          else
          {
            if(rate)
              f.setInertiaMatrix(M(v6), M(r6));
            else
              f.setInertiaMatrix(M(v6));
          }
          r = cat({r, follow(f)});
        }
        return r;
      };
      c.step([&] { return std::string("inertia as a vector") + (rate ? " with its rate" : ""); });
      same(c, run(true), run(false), "the forms of the inertia are not equivalent");
      break;
    }
    default:
    {
      // a covariance given explicitly equal to the default one
      int which = c.choose(3);
      Matrix6 W = Matrix6::Identity() * c.pick<double>({1, 0.01});
      W(0, 1) = W(1, 0) = 0.001;
      auto run = [&](bool given) {
        KineticsObserver f(2, 1);
        configure(f);
        f.addContact(pose(0), 0);
        if(!given && which == 0) f.setContactWrenchSensorDefaultCovarianceMatrix(W);
        if(!given && which == 1) f.setIMUDefaultCovarianceMatrix(m3(0.02), m3(0.03));
        if(!given && which == 2) f.setAbsolutePoseSensorDefaultCovarianceMatrix(W);
        Vector r(0);
        for(int i = 0; i < 3; ++i)
        {
          Vector6 w;
          w << 1, -2, 200, 3, 1, 0.5;
          if(given && which == 0)
            f.updateContactWithWrenchSensor(w, W, local(-0.9), 0);
          else
            f.updateContactWithWrenchSensor(w, local(-0.9), 0);
          if(given && which == 1)
            f.setIMU(Vector3(0.1, 0.2, 9.8), Vector3(0.02, 0.1, 0.05), m3(0.02), m3(0.03), local(0.3), 0);
          else
            f.setIMU(Vector3(0.1, 0.2, 9.8), Vector3(0.02, 0.1, 0.05), local(0.3), 0);
          if(given && which == 2)
            f.setAbsolutePoseSensor(pose(0.1), W);
          else
            f.setAbsolutePoseSensor(pose(0.1));
          f.update();
          r = cat({r, f.getCurrentStateVector(), flat(f.getStateCovarianceMat())});
        }
        return r;
      };
      c.step([&] { return "covariance of sensor " + std::to_string(which) + " given with the measurement or as the default"; });
      same(c, run(true), run(false), "the default covariance is not used for a measurement given without one");
    }
  }
}

MC_SUITE(builtin, 2)
{
  switch(c.choose(4))
  {
    case 0:
    {
      // IMUs with and without numbers, in any order: a free number is the smallest one not used in this iteration
      int n = 1 + c.choose(3);
      std::vector<int> how;
      std::set<int> used;
      std::vector<int> want;
      for(int i = 0; i < n; ++i)
      {
        int x = c.choose(4) - 1, y = x;
        if(used.count(x)) throw mc::Prune();
        if(x < 0)
          for(y = 0; used.count(y);) ++y;
        used.insert(y);
        how.push_back(x), want.push_back(y);
      }
      KineticsObserver f(2, 3);
      configure(f);
      f.setIMUDefaultCovarianceMatrix(m3(0.01), m3(0.01));
      int its = 1 + c.choose(2);
      for(int it = 0; it < its; ++it)
      {
        std::map<int, double> tag;
        for(int i = 0; i < n; ++i)
        {
          c.step([&] { return "setIMU, number " + std::to_string(how[size_t(i)]); });
          double a = 0.1 * i + it;
          Vector3 acc(a, 0.2, 9.8), gyr(0.1, 0.02, 0.05);
          int id = how[size_t(i)] < 0 ? f.setIMU(acc, gyr, local(0.1)) : f.setIMU(acc, gyr, local(0.1), how[size_t(i)]);
          c.require(id == want[size_t(i)], "an IMU does not get its number, or the smallest free one", [&] { return "number " + std::to_string(id); });
          tag[id] = a;
        }
        Vector y = f.getMeasurementVector();
        f.update();
        c.require(y.size() == 6 * n, "the measurement vector has another size", [&] { return "size " + std::to_string(y.size()); });
        int k = 0;
        for(auto & t : tag) c.near(y(6 * k++), t.second, 1e-14, "the measurements are not in the order of the numbers");
      }
      c.state(mc::hashM(n, f.getCurrentStateVector()));
      break;
    }
    case 1:
    {
      // documented default variances, before anything is set
      KineticsObserver f(2, 1);
      f.setWithGyroBias(true);
      f.setWithUnmodeledWrench(true);
      f.setMass(50);
      f.setSamplingTime(0.005);
      f.setCenterOfMass(Vector3::Zero(), Vector3::Zero(), Vector3::Zero());
      f.setInertiaMatrix(m3(8), m3(0));
      f.setAngularMomentum(Vector3::Zero(), Vector3::Zero());
      c.step([&] { return "covariances of a new observer"; });
      f.setStateKinematics(local(0.9), true, true);
      Vector P(15);
      P << Vector6::Constant(1e-4), Vector6::Constant(1e-6), Vector3::Constant(1e-10);
      each(c, f.getStateCovarianceMat().diagonal().head(15), P, 1e-12, "the default initial covariance is not the documented one");
      each(c, f.getStateCovarianceMat().diagonal().segment(15, 6), Vector::Constant(6, 1e100), 1e-12, "the default initial covariance is not the documented one");
      f.addContact(pose(0), 0);
      P.resize(12);
      P << Vector6::Zero(), Vector6::Constant(1e100);
      each(c, f.getStateCovarianceMat().diagonal().segment(27, 6), P.tail(6), 1e-12, "the default initial covariance of a contact is not the documented one");
      f.setIMU(Vector3(0, 0, 9.8), Vector3::Zero(), local(0.3), 0);
      f.updateContactWithWrenchSensor(Vector6::Constant(1), local(-0.9), 0);
      f.setAbsolutePoseSensor(pose(0.1));
      f.update();
      Vector R(18);
      R << Vector3::Constant(1e-4), Vector3::Constant(1e-8), Vector3::Constant(1e-8), Vector3::Constant(1e-10), Vector3::Constant(1e-4), Vector3::Constant(1e-3);
      each(c, 1e8 * flat(f.getEKF().getR()), 1e8 * flat(Matrix(R.asDiagonal())), 1e-12, "the default covariance of a sensor is not the documented one");
      Vector Q = Vector::Constant(33, 1e-8);
      Q.segment(12, 3).setConstant(1e-12);
      each(c, 1e12 * flat(f.getEKF().getQ().topLeftCorner(33, 33)), 1e12 * flat(Matrix(Q.asDiagonal())), 1e-12, "the default process noise is not the documented one");
      break;
    }
    case 2:
    {
      // documented default gains: 40000, 120, 400, 12; given, left out, or given as zero; any of the four
      int given = c.choose(16);
      auto run = [&](int which) {
        KineticsObserver f(2, 1);
        configure(f);
        auto g = [&](int i, double x) { return which >> i & 1 ? m3(x) : m3(0); };
        f.addContact(pose(0), 0, g(0, 40000), g(1, 120), g(2, 400), g(3, 12));
        return follow(f);
      };
      c.step([&] { return "contact gains given: " + std::to_string(given); });
      same(c, run(given), run(15), "the default contact gains are not the documented ones", 1e-9);
      break;
    }
    default:
    {
      c.step([&] { return "mass"; });
      auto run = [&](bool given) {
        KineticsObserver f(2, 1);
        if(given) f.setMass(50);
        f.setSamplingTime(0.005);
        f.setCenterOfMass(Vector3(0.01, 0.02, 0.1), Vector3::Zero(), Vector3::Zero());
        f.setInertiaMatrix(Matrix3(Vector3(8, 7, 5).asDiagonal()), Matrix3(Matrix3::Zero()));
        f.setAngularMomentum(Vector3(0.1, 0, 0.2), Vector3::Zero());
        f.setStateKinematics(local(0.9), true, true);
        Matrix12 ci = 1e-2 * Matrix12::Identity();
        f.addContact(pose(0), ci, ci, 0);
        return follow(f);
      };
      same(c, run(false), run(true), "the default mass is not 50 kg", 1e-9);
    }
  }
}

namespace
{
// ---- kinematics
unsigned fieldsOf(const Kin & k)
{
  return (k.position.isSet() ? 1u : 0) | (k.orientation.isSet() ? 2u : 0) | (k.linVel.isSet() ? 4u : 0) | (k.angVel.isSet() ? 8u : 0)
         | (k.linAcc.isSet() ? 16u : 0) | (k.angAcc.isSet() ? 32u : 0);
}
Vector read(const Kin & k)
{
  return cat({one(fieldsOf(k)), k.toVector()});
}
Kin some(unsigned m)
{
  Kin k;
  if(m & 1) k.position = Vector3(1, 2, 3);
  if(m & 2) k.orientation = Vector3(0.1, 0.2, 0.3);
  if(m & 4) k.linVel = Vector3(0.4, 0.5, 0.6);
  if(m & 8) k.angVel = Vector3(0.7, 0.8, 0.9);
  if(m & 16) k.linAcc = Vector3(1.1, 1.2, 1.3);
  if(m & 32) k.angAcc = Vector3(1.4, 1.5, 1.6);
  return k;
}
} // namespace
MC_SUITE(kinematics, 2)
{
  typedef Kin::Flags F;
  typedef std::tuple<F::Byte> T;
  unsigned before = unsigned(c.choose(64));
  // the flags left out mean everything; whatever flags are given instead
  switch(c.choose(6))
  {
    case 0:
    {
      Vector v = gen(19, 1, int(before));
      v.segment<4>(3).normalize();
      omitted<0>(c, "constructor from a vector", [&](auto... a) { return read(Kin(v, a...)); }, T(F::all), T(F::all));
      c.require(fieldsOf(Kin(v)) == 63, "the constructor from a vector does not fill everything");
      break;
    }
    case 1:
    {
      Vector v = gen(19, 1, int(before));
      v.segment<4>(3).normalize();
      Kin k = some(before);
      c.step([&] { return "fromVector without flags"; });
      Kin & ref = k.fromVector(v);
      c.require(&ref == &k && fieldsOf(k) == 63, "fromVector does not fill everything");
      Kin q = some(before);
      q.fromVector(v, F::all);
      same(c, read(k), read(q), "fromVector without flags is not fromVector with all of them");
      break;
    }
    case 2:
    {
      Kin k = some(before), q = some(before);
      c.step([&] { return "setZero without flags"; });
      int form = c.choose(3);
      if(form == 0) k.setZero();
      if(form == 1) k.setZero<Matrix3>();
      if(form == 2) k.setZero<Quaternion>();
      q.setZero(F::all);
      same(c, read(k), read(q), "setZero without flags is not setZero with all of them");
      c.require(fieldsOf(k) == 63, "setZero does not set everything");
      break;
    }
    case 3:
    {
      Kin k = some(before), q = some(before), n;
      if(before != 63) break; // (a pose is wanted before an update of everything)
      unsigned m = unsigned(c.choose(64));
      if(!m) break;
      n = some(m);
      c.step([&] { return "update without flags, with the fields " + std::to_string(m); });
      k.update(n, 0.01);
      q.update(n, 0.01, F::all);
      same(c, cat({one(fieldsOf(k))}), cat({one(fieldsOf(q))}), "update without flags is not update with all of them");
      if(fieldsOf(k)) same(c, read(k), read(q), "update without flags is not update with all of them");
      break;
    }
    case 4:
    {
      // toVector without flags: the fields which are set
      if(!before) break;
      Kin k = some(before);
      c.step([&] { return "toVector without flags"; });
      same(c, k.toVector(), k.toVector(F::Byte(before)), "toVector without flags is not toVector with the fields that are set");
      break;
    }
    default:
    {
      // Orientation: initialised by default; setMatrix() and setQuaternion() without argument
      kine::Orientation o, p(bool(before & 1));
      c.step([&] { return "default orientation"; });
      c.require(o.isSet() == kine::Orientation(true).isSet() && (o.isMatrixSet() == kine::Orientation(true).isMatrixSet()),
              "the default orientation differs from the initialised one");
      kine::Orientation a, b;
      if(before & 2) a = Vector3(0.1, 0.2, 0.3), b = a;
      if(before & 4)
        a.setMatrix(), b.setMatrix(true);
      else
        a.setQuaternion(), b.setQuaternion(true);
      c.require(a.isMatrixSet() == b.isMatrixSet() && a.isQuaternionSet() == b.isQuaternionSet() && a.isSet() == b.isSet(),
              "setMatrix or setQuaternion without argument does not set");
      c.require(before & 4 ? a.isMatrixSet() : a.isQuaternionSet(), "setMatrix or setQuaternion without argument does not set");
      CheckedVector3 x, y(true);
      c.require(x.isSet() == y.isSet(), "the default of the checked item");
    }
  }
}

namespace
{
// ---- stores and files
struct Dir
{
  std::string dir;
  Dir()
  {
    dir = mc::workDir() + "/c22-" + std::to_string(getpid());
    ::mkdir(dir.c_str(), 0700);
  }
  std::string operator()(const std::string & n) const
  {
    return dir + "/" + n;
  }
  void clean() const
  {
    for(const char * n : {"a", "b"}) ::unlink((dir + "/" + n).c_str());
  }
};
const Dir & dir()
{
  static std::map<pid_t, Dir> m;
  return m[getpid()];
}
std::string text(const std::string & f)
{
  std::ifstream i(f);
  std::ostringstream s;
  s << (i ? "" : "(no file)") << i.rdbuf();
  return s.str();
}
Vector dump(const IndexedVectorArray & a)
{
  Vector r = cat({one(double(a.size())), one(double(a.getFirstIndex()))});
  for(TimeIndex k = a.getFirstIndex(); a.size() && k <= a.getLastIndex(); ++k) r = cat({r, one(double(a[k].size())), a[k]});
  return r;
}
Vector dump(const IndexedMatrixArray & a)
{
  Vector r = cat({one(double(a.size())), one(double(a.getFirstIndex()))});
  for(TimeIndex k = a.getFirstIndex(); a.size() && k <= a.getLastIndex(); ++k) r = cat({r, one(double(a[k].rows())), one(double(a[k].cols())), flat(a[k])});
  return r;
}
void put(const std::string & f, const std::string & s)
{
  std::ofstream(f, std::ios::trunc) << s;
}
} // namespace
MC_SUITE(stores, 2)
{
  dir().clean();
  switch(c.choose(10))
  {
    case 0:
    {
      // reading matrices: one column, time stamps
      bool chars = c.flag(), square = c.flag();
      put(dir()("a"), "3 1 2 3 4\n4 5 6 7 8\n5 9 8 7 6\n");
      if(!square) put(dir()("a"), "3 1 2\n4 5 6\n5 9 8\n");
      typedef std::tuple<Index, bool> T;
      if(!square)
        omitted<0>(c, "readFromFile, one column", [&](auto... a) {
          IndexedMatrixArray m;
          if(chars)
            m.readFromFile(dir()("a").c_str(), 2, a...);
          else
            m.readFromFile(dir()("a"), 2, a...);
          return dump(m);
        }, T(1, true), T(1, true));
      else
        omitted<1>(c, "readFromFile", [&](auto... a) {
          IndexedMatrixArray m;
          if(chars)
            m.readFromFile(dir()("a").c_str(), 2, a...);
          else
            m.readFromFile(dir()("a"), 2, a...);
          return dump(m);
        }, T(2, true), T(2, true));
      IndexedMatrixArray m;
      m.readFromFile(dir()("a"), 2, square ? 2 : 1);
      c.require(m.size() == 3 && m.getFirstIndex() == 3 && m[4](1, 0) == (square ? 7 : 6), "a file read without saying so has time stamps");
      break;
    }
    case 1:
    {
      bool chars = c.flag();
      put(dir()("a"), "3 1 2\n4 5 6\n5 9 8\n");
      typedef std::tuple<bool> T;
      omitted<0>(c, "readVectorsFromFile", [&](auto... a) {
        IndexedVectorArray m;
        if(chars)
          m.readVectorsFromFile(dir()("a").c_str(), a...);
        else
          m.readVectorsFromFile(dir()("a"), a...);
        return dump(m);
      }, T(true), T(true));
      IndexedVectorArray m;
      m.readVectorsFromFile(dir()("a"));
      c.require(m.size() == 3 && m.getFirstIndex() == 3 && m[4].size() == 2 && m[4](1) == 6, "vectors read without saying so have time stamps");
      break;
    }
    case 2:
    {
      // writing: the array is kept and the file overwritten
      bool chars = c.flag(), other = c.flag();
      typedef std::tuple<bool, bool> T;
      std::string files[2];
      int q = 0;
      omitted<0>(c, "writeInFile", [&](auto... a) {
        IndexedVectorArray m;
        for(int i = 0; i < 2; ++i) m.setValue(v2(i, 2 + i), 7 + i);
        std::string name = dir()(q ? "a" : "b");
        if(other) put(name, "1 2 3\n");
        if(chars)
          m.writeInFile(name.c_str(), a...);
        else
          m.writeInFile(name, a...);
        files[q++] = text(name);
        return dump(m);
      }, T(true, true), T(false, false));
      c.require(files[0] == files[1], "writing without saying so does not do as documented", [&] { return files[1] + "/" + files[0]; });
      break;
    }
    case 3:
    {
      // logger: save(clear = false, append = false)
      bool again = c.flag();
      typedef std::tuple<bool, bool> T;
      std::string files[2];
      int q = 0;
      omitted<0>(c, "Logger::save", [&](auto... a) {
        tools::Logger l;
        double x = 3;
        std::string name = q ? "a" : "b";
        l.setPath(dir().dir);
        l.record(&x, name);
        for(int i = 0; i < 2; ++i) l.push(x), x += 1;
        if(again) put(dir()(name), "1 2 3\n");
        l.save(a...);
        files[q++] = text(dir()(name));
        return cat({dump(l.getRecord(&x)), one(0)});
      }, T(true, true), T(false, false));
      c.require(files[0] == files[1], "saving without saying so does not do as documented", [&] { return files[1] + "/" + files[0]; });
      break;
    }
    case 4:
    {
      // logger: by address or by reference; without a file name nothing is written
      int rec = c.choose(2), push = c.choose(3);
      bool named = c.flag();
      auto run = [&](int rec, int push) {
        tools::Logger l;
        Vector3 x(1, 2, 3);
        std::string name = "a";
        l.setPath(dir().dir);
        if(rec == 0 && named) l.record(&x, name);
        if(rec == 0 && !named) l.record(&x);
        if(rec == 1 && named) l.record(x, name);
        if(rec == 1 && !named) l.record(x);
        for(int i = 0; i < 3; ++i)
        {
          if(push == 0) l.push(&x);
          if(push == 1) l.push(x);
          if(push == 2) l.push();
          x += Vector3(0.5, 1, 2);
        }
        const tools::Logger & cl = l;
        Vector r = cat({dump(l.getRecord(&x)), dump(cl.getRecord(&x))});
        l.save();
        return r;
      };
      c.step([&] { return "recorded " + std::string(rec ? "by reference" : "by address") + ", pushed in form " + std::to_string(push); });
      Vector want = run(0, 0);
      std::string f = text(dir()("a"));
      c.require((f == "(no file)") == !named, "a record without a name is written, or one with a name is not");
      dir().clean();
      same(c, run(rec, push), want, "the forms of recording are not equivalent");
      c.require(text(dir()("a")) == f, "the forms of recording do not write the same file");
      break;
    }
    case 5:
    {
      int n = c.choose(3);
      typedef std::tuple<TimeIndex> T;
      omitted<0>(c, "array constructor", [&](auto... a) {
        IndexedVectorArray m(TimeSize(n), a...);
        return cat({one(double(m.size())), one(double(m.getFirstIndex())), one(double(m.getNextIndex())), one(double(m.getLastIndex()))});
      }, T(4), T(0));
      break;
    }
    case 6:
    {
      // a file name given as a string or as characters: the same arguments mean the same
      Index rows = 1 + c.choose(3), cols = 1 + c.choose(3);
      bool stamps = c.flag(), had = c.flag();
      std::ostringstream o;
      for(int k = 0; k < 4; ++k)
      {
        if(stamps) o << 5 + k << ' ';
        for(int i = 0; i < rows * cols; ++i) o << 10 * k + i + 0.5 << ' ';
        o << '\n';
      }
      put(dir()("a"), o.str());
      IndexedMatrixArray m[2];
      for(int q = 0; q < 2 && had; ++q) m[q].setValue(Matrix::Ones(2, 2), 9);
      m[0].readFromFile(dir()("a").c_str(), rows, cols, stamps);
      m[1].readFromFile(dir()("a"), rows, cols, stamps);
      same(c, dump(m[1]), dump(m[0]), "readFromFile does not do the same for a string and for characters");
      bool right = m[0].size() == 4 && m[0].getFirstIndex() == (stamps ? 5 : 0);
      for(int k = 0; k < 4 && right; ++k)
        for(int i = 0; i < rows * cols; ++i) right = right && m[0][TimeIndex(k + (stamps ? 5 : 0))](i / cols, i % cols) == 10 * k + i + 0.5;
      c.require(right, "readFromFile does not read what the file holds");
      break;
    }
    case 7:
    {
      Index n = 1 + c.choose(3);
      bool stamps = c.flag(), had = c.flag();
      std::ostringstream o;
      for(int k = 0; k < 4; ++k)
      {
        if(stamps) o << 5 + k << ' ';
        for(int i = 0; i < n; ++i) o << 10 * k + i + 0.5 << (i + 1 < n ? " " : "");
        if(k < 3) o << '\n';
      }
      put(dir()("a"), o.str());
      IndexedVectorArray m[2];
      for(int q = 0; q < 2 && had; ++q) m[q].setValue(v2(1, 2), 9);
      m[0].readVectorsFromFile(dir()("a").c_str(), stamps);
      m[1].readVectorsFromFile(dir()("a"), stamps);
      same(c, dump(m[1]), dump(m[0]), "readVectorsFromFile does not do the same for a string and for characters");
      break;
    }
    case 8:
    {
      // writing: every combination of the two flags
      bool clear = c.flag(), append = c.flag(), other = c.flag(), logger = c.flag();
      std::string files[2];
      Vector left[2];
      for(int q = 0; q < 2; ++q)
      {
        std::string name = dir()("a");
        dir().clean();
        if(other) put(name, "1 2 3\n");
        IndexedMatrixArray m;
        tools::Logger l;
        Vector x = v2(0, 2);
        if(q && logger)
        {
          l.setPath(dir().dir);
          l.record(&x, "a");
          for(int i = 0; i < 3; ++i) x = v2(i, 2 + i), l.push(&x);
          l.save(clear, append);
          left[q] = dump(l.getRecord(&x));
        }
        else
        {
          for(int i = 0; i < 3; ++i) m.setValue(v2(i, 2 + i), i);
          if(q)
            m.writeInFile(name, clear, append);
          else
            m.writeInFile(name.c_str(), clear, append);
          left[q] = dump(m);
        }
        files[q] = text(name);
      }
      c.require(files[0] == files[1], "writing in the equivalent forms does not write the same", [&] { return files[1] + "/" + files[0]; });
      same(c, left[1], left[0], "writing in the equivalent forms does not leave the same array");
      c.require((left[0](0) == 0) == clear, "the array is not cleared when asked, or is when not");
      c.require((files[0].find("1 2 3\n") == 0) == (append && other), "the file is not appended to when asked, or is when not");
      break;
    }
    default:
    {
      int n = c.choose(4), k = c.choose(3), first = c.choose(2) * 3;
      typedef std::tuple<Vector> T;
      omitted<0>(c, "resize", [&](auto... a) {
        IndexedVectorArray m;
        for(int i = 0; i < k; ++i) m.setValue(v2(i, 1), first + i);
        m.resize(TimeSize(n), a...);
        return dump(m);
      }, T(v2(8, 9)), T(Vector()));
    }
  }
  dir().clean();
}

namespace
{
struct Fun : public DynamicalSystemFunctorBase
{
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = 0.9 * x;
    if(u.size()) r(0) += u(0);
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r = x.head(1);
    if(u.size()) r(0) += 0.5 * u(0);
    return r;
  }
  Index getStateSize() const override
  {
    return 2;
  }
  Index getInputSize() const override
  {
    return 1;
  }
  Index getMeasurementSize() const override
  {
    return 1;
  }
};
Vector run(ExtendedKalmanFilter & f, Fun & fun, bool input)
{
  Vector r = cat({one(double(f.getStateSize())), one(double(f.getMeasureSize())), one(double(f.getInputSize()))});
  f.setFunctor(&fun);
  f.setQ(spd(2, 1));
  f.setR(spd(1, 2));
  f.setStateCovariance(spd(2, 3));
  f.setState(v2(0.3, 0.4), 0);
  f.setA(gen(2, 2, 4));
  f.setC(gen(1, 2, 5));
  for(int k = 0; k < 3; ++k)
  {
    if(input) f.setInput(one(0.3 + k), k);
    if(input && k == 2) f.setInput(one(0.7), k + 1);
    f.setMeasurement(one(0.1 * k), k + 1);
  }
  return cat({r, f.getEstimatedState(3)});
}
template<typename T>
Vector flexible(T & f, int n)
{
  Vector r(0), u = 0.05 * gen(n, 1, 2);
  if(n > 15)
  {
    u.segment(0, 3) << 0.01, 0.02, 0.9;
    u.segment(9, 6) << 48, 46, 4, 0.1, 0.2, -0.1;
    u.segment(48, 3) << 0.1, 0.1, -0.01;
  }
  f.setMeasurementInput(u);
  for(int i = 0; i < 3; ++i)
  {
    f.setMeasurementInput(u);
    Vector y = 0.1 * gen(int(f.getMeasurementSize()), 1, i);
    y(2) += 9.8;
    f.setMeasurement(y);
    r = cat({r, f.getFlexibilityVector()});
  }
  return r;
}
} // namespace
MC_SUITE(others, 2)
{
  switch(c.choose(6))
  {
    case 0:
    {
      typedef std::tuple<bool, bool> T;
      // (inputs are available here, so both values of the flags are legal)
      omitted<0>(c, "EKF constructor", [&](auto... a) {
        Fun fun;
        ExtendedKalmanFilter f(2, 1, 1, a...);
        return run(f, fun, true);
      }, T(false, false), T(true, true));
      break;
    }
    case 1:
    {
      bool which = c.flag(), before = c.flag();
      typedef std::tuple<bool> T;
      omitted<0>(c, "EKF feedthrough", [&](auto... a) {
        Fun fun;
        ExtendedKalmanFilter f(2, 1, 1, before, before);
        if(which)
          f.setDirectInputOutputFeedthrough(a...);
        else
          f.setDirectInputStateFeedthrough(a...);
        return run(f, fun, true);
      }, T(false), T(true));
      break;
    }
    case 2:
    {
      typedef std::tuple<Index> T;
      omitted<0>(c, "linear filter constructor", [&](auto... a) {
        LinearKalmanFilter f(2, 1, a...);
        Vector r = cat({one(double(f.getStateSize())), one(double(f.getMeasureSize())), one(double(f.getInputSize()))});
        f.setA(gen(2, 2, 1));
        f.setC(gen(1, 2, 2));
        if(f.getInputSize()) f.setB(gen(2, 1, 3)), f.setD(gen(1, 1, 3));
        f.setQ(spd(2, 1));
        f.setR(spd(1, 2));
        f.setStateCovariance(spd(2, 3));
        f.setState(v2(0.3, 0.4), 0);
        for(int k = 0; k < 3; ++k)
        {
          if(f.getInputSize()) f.setInput(one(0.3 + k), k), f.setInput(one(0.3 + k), k + 1);
          f.setMeasurement(one(0.1 * k), k + 1);
        }
        return cat({r, f.getEstimatedState(3)});
      }, T(1), T(0));
      // an EKF without an input
      Fun fun;
      ExtendedKalmanFilter f(2, 1), g(2, 1, 0, false, false);
      same(c, run(f, fun, false), run(g, fun, false), "the EKF constructor without an input size has an input");
      break;
    }
    case 3:
    {
      // gains of the finite-time controller
      double x = c.pick<double>({0, 0.3, -2}), v = c.pick<double>({0, 0.2, -0.7});
      typedef std::tuple<double, double> T;
      if(c.flag())
        omitted<0>(c, "finiteTimeAccControl", [&](auto... a) { return one(tools::finiteTimeAccControl(x, v, a...)); }, T(-2, -3), T(-1, -1));
      else
        omitted<0>(c, "finiteTimeAccControl, vectors", [&](auto... a) { return tools::finiteTimeAccControl(Vector(v2(x, 1)), Vector(v2(v, 0.3)), a...); }, T(-2, -3), T(-1, -1));
      break;
    }
    case 4:
    {
      // measurements are noisy unless asked otherwise (a noise which is a bias only)
      bool base = c.flag(), algebraic = !base && c.flag();
      typedef std::tuple<bool> T;
      omitted<0>(c, "getMeasurements", [&](auto... a) {
        AccelerometerGyrometer s;
        GaussianWhiteNoise w(s.getMeasurementSize());
        w.setBias(gen(s.getMeasurementSize(), 1, 3));
        w.setStandardDeviation(Matrix::Zero(s.getMeasurementSize(), s.getMeasurementSize()));
        s.setNoise(&w);
        Vector st(s.getStateSize());
        st.setConstant(0.2);
        st.head<4>() << 0.5, 0.5, 0.5, 0.5;
        s.setState(st, 0);
        if(base) return static_cast<SensorBase &>(s).getMeasurements(a...);
        if(algebraic) return static_cast<AlgebraicSensor &>(s).getMeasurements(a...);
        return s.getMeasurements(a...);
      }, T(false), T(true));
      break;
    }
    default:
    {
      typedef std::tuple<double> T;
      bool base = c.flag();
      omitted<0>(c, "flexibility estimator constructor", [&](auto... a) {
        if(base)
        {
          flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU f(a...);
          f.setContactModel(1);
          f.setContactsNumber(1);
          return flexible(f, 60);
        }
        flexibilityEstimation::FixedContactEKFFlexEstimatorIMU f(a...);
        f.setContactsNumber(1);
        f.setContactPosition(0, Vector3(0.1, 0, 0));
        return flexible(f, 15);
      }, T(0.02), T(0.005));
    }
  }
}
MC_MAIN()
