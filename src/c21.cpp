// C21: components coexist: observers, models, sensors, simulators and loggers never influence one another.
#include "filtertypes.hpp"
#include "kinref.hpp"
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/logger.hpp>
using namespace indep;
using namespace filters;
using namespace flexibilityEstimation;

namespace
{
Vector3 g3(int s)
{
  return gen(3, 1, s);
}
Vector one(double d)
{
  return Vector::Constant(1, d);
}
struct Linear : DynamicalSystemFunctorBase
{
  Matrix A, B, Cm, D;
  Linear(int s) : A(0.5 * gen(2, 2, s)), B(gen(2, 1, s + 1)), Cm(gen(3, 2, s + 2)), D(gen(3, 1, s + 3)) {}
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    return A * x + B * u + Vector::Constant(2, 0.01 * double(k));
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    return Cm * x + D * u;
  }
  Index getStateSize() const override
  {
    return 2;
  }
  Index getInputSize() const override
  {
    return 1;
  }
  Index getMeasurementSize() const override
  {
    return 3;
  }
};

struct Kinetics
{
  static const int ops = 6;
  KineticsObserver f;
  bool con = false;
  kine::Kinematics local(int s, double z)
  {
    kine::Kinematics k;
    k.position = Vector3(Vector3(0.05, -0.1, z) + 0.02 * g3(s));
    k.orientation = Vector3(0.1 * g3(s + 1));
    k.linVel = Vector3(0.05 * g3(s + 2));
    k.angVel = Vector3(0.1 * g3(s + 3));
    k.linAcc = Vector3(0.1 * g3(s + 4));
    return k;
  }
  explicit Kinetics(int cfg) : f(2 + unsigned(cfg), 1 + unsigned(cfg))
  {
    f.setSamplingTime(0.005 + 0.001 * cfg);
    f.setMass(50 + cfg);
    f.setWithUnmodeledWrench(true);
    f.setWithGyroBias(true);
    f.setCenterOfMass(Vector3(0.01, 0.02 * cfg, 0.1), Vector3::Zero(), Vector3::Zero());
    f.setInertiaMatrix(Matrix3(Vector3(8, 7 + cfg, 5).asDiagonal()), Matrix3(Matrix3::Zero()));
    f.setAngularMomentum(Vector3(0.1, 0, 0.2 * cfg), Vector3::Zero());
    // (the default covariances of the wrenches are 1e100: nothing ordinary would be computed from them)
    f.setUnmodeledWrenchInitCovMatDefault(Matrix6((0.01 + cfg) * Matrix6::Identity()));
    Matrix12 ci = 1e-4 * Matrix12::Identity();
    ci.bottomRightCorner<6, 6>() *= 1e4;
    f.setContactInitCovMatDefault(ci);
    f.setStateKinematics(local(cfg, 0.9), true, true);
    f.setStateUnmodeledWrench(Vector6::Zero(), true);
    place(cfg);
  }
  void place(int s)
  {
    kine::Kinematics k;
    k.position = Vector3(0.1, -0.1, 0.01 * s);
    k.orientation = Vector3(0.05 * g3(s));
    f.addContact(k, 0);
    con = true;
  }
  Vector op(int o, int s)
  {
    Vector y(0);
    auto iterate = [&](bool wrench) {
      f.setIMU(Vector3(Vector3(0, 0, 9.8) + g3(s)), Vector3(0.2 * g3(s + 1)), local(s, 0.3), 0);
      if(con)
      {
        Vector6 w;
        w << g3(s), 400, g3(s + 1).head<2>();
        if(wrench)
          f.updateContactWithWrenchSensor(w, local(s + 2, -0.9), 0);
        else
          f.updateContactWithNoSensor(local(s + 2, -0.9), 0);
      }
      y = f.getMeasurementVector();
      f.update();
    };
    switch(o)
    {
      case 0: iterate(true); break;
      case 1: iterate(false); break;
      case 2:
        if(con)
          f.removeContact(0), con = false;
        else
          place(s);
        break;
      case 3:
      {
        kine::Kinematics k;
        k.position = Vector3(0.1 * g3(s));
        k.orientation = Vector3(0.2 * g3(s));
        f.setAbsolutePoseSensor(k);
        iterate(true);
        break;
      }
      case 4:
        f.setStateKinematics(local(s, 0.8), false, s % 2 == 0);
        f.setGyroBias(Vector3(0.01 * g3(s)), 0, false);
        break;
      case 5:
        f.setCenterOfMass(Vector3(0.1 * g3(s)));
        f.setMass(60 + s);
        f.setSamplingTime(0.004 + 0.001 * (s % 3));
        break;
    }
    return cat({f.getCurrentStateVector(), Vector(f.getStateCovarianceMat().diagonal()), y});
  }
};

Vector elasticInput(int s, unsigned n)
{
  Vector u = 0.05 * gen(48 + 12 * int(n), 1, s);
  u.segment(0, 3) << 0.01, 0.02, 0.9 + 0.001 * s;
  u.segment(9, 6) << 48, 46, 4, 0.1, 0.2, -0.1;
  for(unsigned i = 0; i < n; ++i) u.segment(48 + 12 * i, 3) << 0.1, i ? -0.1 : 0.1, -0.01;
  return u;
}
struct Elastic
{
  static const int ops = 7;
  IMUElasticLocalFrameDynamicalSystem f;
  unsigned n;
  explicit Elastic(int cfg) : f(0.005 + 0.002 * cfg), n(2)
  {
    f.setContactModel(1 + unsigned(cfg));
    f.setContactsNumber(n);
    f.setInputSize(48 + 12 * n);
    f.setFDstep(Vector::Constant(35, 1e-7));
  }
  Vector op(int o, int s)
  {
    Vector x = 0.02 * gen(35, 1, s), u = elasticInput(s, n);
    switch(o)
    {
      case 0: return f.stateDynamics(x, u, s);
      case 1: return f.measureDynamics(x, u, s);
      case 2:
        f.stateDynamics(x, u, s);
        return flat(f.stateDynamicsJacobian());
      case 3: return f.computeAccelerations(x, u);
      case 4:
        n = n == 2 ? 1 : 2;
        f.setContactsNumber(n);
        f.setInputSize(48 + 12 * n);
        break;
      case 5:
        f.setKfe(Matrix3((30000 + s) * Matrix3::Identity()));
        f.setRobotMass(50 + s);
        f.setSamplingPeriod(0.004 + 0.001 * (s % 3));
        break;
      case 6:
        f.setWithForceMeasurements(s % 2 == 0);
        f.setWithUnmodeledForces(s % 3 == 0);
        f.setWithAbsolutePosition(s % 2 == 1);
        break;
    }
    return cat({f.measureDynamics(x, elasticInput(s, n), s), one(double(f.getMeasurementSize()))});
  }
};
struct Flex
{
  static const int ops = 6;
  ModelBaseEKFFlexEstimatorIMU f;
  unsigned n = 1;
  bool first = true;
  explicit Flex(int cfg) : f(0.005 + 0.001 * cfg)
  {
    f.setContactModel(1);
    f.setContactsNumber(n);
  }
  void cycle(int s)
  {
    if(first) f.setMeasurementInput(elasticInput(s + 1, n));
    first = false;
    f.setMeasurementInput(elasticInput(s, n));
    Vector y = 0.02 * gen(int(f.getMeasurementSize()), 1, s);
    y(2) += 9.8;
    f.setMeasurement(y);
    f.getFlexibilityVector();
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0:
      case 1: cycle(s); break;
      case 2:
        f.setWithForcesMeasurements(s % 2 == 0);
        f.setForceVariance(1e-3 * s);
        break;
      case 3:
        f.setKfe(Matrix3((30000 + s) * Matrix3::Identity()));
        f.setSamplingPeriod(0.004 + 0.001 * (s % 3));
        break;
      case 4:
        f.setWithUnmodeledForces(s % 2 == 0);
        f.setUnmodeledForceVariance(1e-2 * s);
        break;
      case 5: f.resetCovarianceMatrices(); break;
    }
    cycle(s + 2);
    return cat({f.getFlexibilityVector(), flat(f.getFlexibility()), f.getStateCovariance(), flat(f.getMeasurementNoiseCovariance())});
  }
};
struct Fixed
{
  static const int ops = 5;
  FixedContactEKFFlexEstimatorIMU f;
  bool first = true;
  explicit Fixed(int cfg) : f(0.005 + 0.001 * cfg)
  {
    f.setVirtualMeasurementsCovariance(1e-5);
    contacts(1 + unsigned(cfg), cfg);
  }
  void contacts(unsigned n, int s)
  {
    f.setContactsNumber(n);
    for(unsigned i = 0; i < n; ++i) f.setContactPosition(i, Vector3(0.02 * g3(s + int(i))));
  }
  void cycle(int s)
  {
    Vector u = 0.1 * gen(15, 1, s), y = 0.1 * gen(6, 1, s + 1);
    y(2) += 9.8;
    if(first) f.setMeasurementInput(u);
    first = false;
    f.setMeasurementInput(u);
    f.setMeasurement(y);
    f.getFlexibilityVector();
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0: cycle(s); break;
      case 1: contacts(unsigned(s % 3), s); break;
      case 2: f.setProcessNoiseCovariance(Matrix(1e-6 * s * Matrix::Identity(18, 18))); break;
      case 3: f.setVirtualMeasurementsCovariance(1e-6 * s); break;
      case 4: f.setSamplingPeriod(0.004 + 0.001 * (s % 3)); break;
    }
    cycle(s + 2);
    return cat({f.getFlexibilityVector(), Vector(f.getFlexibilityCovariance().diagonal())});
  }
};
// motion models
template<typename M>
struct Motion
{
  static const int ops = 5;
  M f;
  template<typename X = M, typename std::enable_if<std::is_default_constructible<X>::value, int>::type = 0>
  static X make()
  {
    return X();
  }
  template<typename X = M, typename std::enable_if<!std::is_default_constructible<X>::value, int>::type = 0>
  static X make()
  {
    return X(0.01);
  }
  explicit Motion(int cfg) : f(make())
  {
    f.setSamplingPeriod(0.01 + 0.01 * cfg);
    other(f, cfg);
  }
  template<typename X>
  static auto other(X & m, int s) -> decltype(m.setContactsNumber(1), void())
  {
    unsigned n = unsigned(s % 3);
    m.setContactsNumber(n);
    for(unsigned i = 0; i < n; ++i) m.setContactPosition(i, Vector3(g3(s + int(i))));
  }
  static void other(...) {}
  Vector op(int o, int s)
  {
    Vector x = gen(int(f.getStateSize()), 1, s), u = gen(int(f.getInputSize()), 1, s + 1);
    if(f.getStateSize() == 19) x.segment(3, 4).normalize();
    switch(o)
    {
      case 0: return f.stateDynamics(x, u, s);
      case 1: return f.measureDynamics(x, u, s);
      case 2: f.setSamplingPeriod(0.01 * s); break;
      case 3: other(f, s); break;
      case 4: return f.stateDynamics(Vector(x * 0.5), u, s + 1);
    }
    return cat({f.stateDynamics(x, u, s), f.measureDynamics(x, u, s)});
  }
};
typedef Motion<IMUDynamicalSystem> Imu;
typedef Motion<IMUMagnetometerDynamicalSystem> ImuMag;
typedef Motion<IMUMltpctiveDynamicalSystem> ImuMult;
typedef Motion<IMUFixedContactDynamicalSystem> ImuFixed;
typedef Motion<StableIMUFixedContactDynamicalSystem> ImuStable;
struct Pendulum
{
  static const int ops = 3;
  BidimElasticInvPendulum f;
  explicit Pendulum(int cfg)
  {
    f.setMass(30 + cfg);
    f.setHeight(1 + 0.1 * cfg);
    f.setElasticity(1000 + cfg);
    f.setSamplingPeriod(0.01);
  }
  Vector op(int o, int s)
  {
    Vector x = 0.1 * gen(4, 1, s), u = gen(1, 1, s + 1);
    if(o == 1) f.setMass(40 + s);
    if(o == 2) f.setSamplingPeriod(0.01 * s);
    return f.stateDynamics(x, u, s);
  }
};
template<typename S>
struct Sensor
{
  static const int ops = 5;
  S f;
  bool mat = false;
  int cc = 0;
  long k = 0;
  explicit Sensor(int cfg)
  {
    if(cfg) f.setMatrixMode(mat = true);
    give(cfg);
  }
  void give(int s)
  {
    Vector w = g3(s);
    Matrix3 R = kref::expm(w);
    Quaternion q(R);
    Vector x((mat ? 15 : 10) + cc);
    if(mat)
      x << R.col(0), R.col(1), R.col(2), g3(s + 1), g3(s + 2), gen(cc, 1, s);
    else
      x << q.coeffs(), g3(s + 1), g3(s + 2), gen(cc, 1, s);
    f.setState(x, ++k);
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0: give(s); break;
      case 1:
        f.setMatrixMode(mat = !mat);
        give(s);
        break;
      case 2:
        f.concatenateWithInput(cc = s % 3);
        give(s);
        break;
      case 3: break;
      case 4: return f.getMeasurements(false);
    }
    return cat({f.getMeasurements(), one(double(f.getTime()))});
  }
};
typedef Sensor<AccelerometerGyrometer> Gyro;
typedef Sensor<AccelerometerGyrometerMagnetometer> Mag;
struct Simulator
{
  static const int ops = 6;
  static Linear & sys(int i)
  {
    static Linear a(0), b(4);
    return i ? b : a;
  }
  DynamicalSystemSimulator f;
  long k;
  explicit Simulator(int cfg) : k(3 * cfg)
  {
    f.setDynamicsFunctor(&sys(cfg));
    f.setInput(gen(1, 1, cfg), k);
    f.setState(gen(2, 1, cfg), k);
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0: f.simulateDynamics(); break;
      case 1: return f.getMeasurement(f.getCurrentTime());
      case 2: f.setInput(gen(1, 1, s), f.getCurrentTime()); break;
      case 3: f.setState(gen(2, 1, s), f.getCurrentTime()); break;
      case 4: f.simulateDynamicsTo(f.getCurrentTime() + 3); break;
      case 5: f.setDynamicsFunctor(&sys(s % 2)); break;
    }
    return cat({f.getCurrentState(), one(double(f.getCurrentTime())), f.getState(k), f.getInput(f.getCurrentTime())});
  }
};
struct Log
{
  static const int ops = 5;
  // the recorded variables outlive every logger
  struct Vars
  {
    double d = 0;
    Vector v;
    Matrix3 m;
  };
  std::shared_ptr<Vars> x = std::make_shared<Vars>();
  tools::Logger f;
  explicit Log(int cfg)
  {
    x->v = gen(2, 1, cfg);
    x->m = gen(3, 3, cfg);
    f.record(x->d);
    f.record(x->v);
    if(cfg) f.record(x->m);
    rec = cfg > 0;
  }
  bool rec;
  Vector op(int o, int s)
  {
    x->d = s;
    x->v = gen(2, 1, s);
    x->m = gen(3, 3, s);
    switch(o)
    {
      case 0: f.push(); break;
      case 1: f.push(x->v); break;
      case 2: f.clearLogs(); break;
      case 3:
        if(!rec) f.record(x->m);
        rec = true;
        break;
      case 4:
        f.push(x->d);
        f.push();
        break;
    }
    auto all = [&](const IndexedMatrixArray & a) {
      Vector r = one(double(a.size()));
      for(TimeIndex i = a.getFirstIndex(); a.size() && i < a.getNextIndex(); ++i) r = cat({r, flat(a[i])});
      return r;
    };
    return cat({all(f.getRecord(&x->d)), all(f.getRecord(&x->v)), rec ? all(f.getRecord(&x->m)) : Vector()});
  }
};
#define ALONE(T)                    \
  MC_SUITE(interleaved_##T, 3)      \
  {                                 \
    interleaved<T>(c);              \
  }
#define VALUE(T)                    \
  ALONE(T)                          \
  MC_SUITE(copied_##T, 3)           \
  {                                 \
    copied<T>(c);                   \
  }
MC_SUITE(interleaved_Kinetics, 3)
{
  interleaved<Kinetics>(c, c.t(2, 3));
}
MC_SUITE(interleaved_Flex, 3)
{
  interleaved<Flex>(c, c.t(2, 3));
}
MC_SUITE(interleaved_Fixed, 3)
{
  interleaved<Fixed>(c, c.t(3, 4), false);
}
ALONE(Log)
MC_SUITE(interleaved_Elastic, 3)
{
  interleaved<Elastic>(c, c.t(3, 4), false);
}
MC_SUITE(interleaved_Elastic_alike, 3)
{
  interleaved<Elastic>(c, c.t(2, 3));
}
MC_SUITE(copied_Elastic, 3)
{
  copied<Elastic>(c);
}
VALUE(Imu)
VALUE(ImuMag)
VALUE(ImuMult)
VALUE(ImuFixed)
VALUE(ImuStable)
VALUE(Pendulum)
VALUE(Gyro)
VALUE(Mag)
VALUE(Simulator)
#define PREEMPTED(T)              \
  MC_SUITE(preempted_##T, 3)      \
  {                               \
    preempted<T>(c);              \
  }
MC_SUITE(preempted_Kinetics, 3)
{
  preempted<Kinetics>(c, c.thorough(), c.t(3, Kinetics::ops));
}
MC_SUITE(preempted_Flex, 3)
{
  preempted<Flex>(c, c.thorough());
}
PREEMPTED(Fixed)
PREEMPTED(Log)
PREEMPTED(Elastic)
PREEMPTED(Imu)
PREEMPTED(ImuMag)
PREEMPTED(ImuMult)
PREEMPTED(ImuFixed)
PREEMPTED(ImuStable)
PREEMPTED(Pendulum)
PREEMPTED(Gyro)
PREEMPTED(Mag)
PREEMPTED(Simulator)
PREEMPTED(LKF)
PREEMPTED(EKF)
PREEMPTED(DCM)
PREEMPTED(DCM1)
PREEMPTED(Tilt)
} // namespace
extern "C"
{
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void * f, void * site)
{
  static indep::Preempt & p = indep::Preempt::get();
  if(p.mode != indep::Preempt::off) p.enter(f, site);
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) {}
}
MC_MAIN()
