// Filters and estimators as indep.hpp wants them: small alphabets of operations, each returning what can be observed.
#pragma once
#include "indep.hpp"
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
#include <state-observation/observer/tilt-estimator.hpp>
namespace filters
{
using namespace stateObservation;
using namespace indep;
// ---- adapters: an object with a small alphabet of operations, each returning what can be observed after it
struct LKF
{
  static const int ops = 5;
  LinearKalmanFilter f;
  long k = 0;
  explicit LKF(int cfg) : f(2, 1, 1)
  {
    init(cfg);
  }
  void init(int cfg)
  {
    k = 3 * cfg;
    f.setA(gen(2, 2, cfg));
    f.setB(gen(2, 1, cfg + 1));
    f.setC(gen(1, 2, cfg + 2));
    f.setD(gen(1, 1, cfg + 3));
    f.setQ(spd(2, cfg));
    f.setR(spd(1, cfg));
    f.setStateCovariance(spd(2, cfg + 5));
    f.setState(gen(2, 1, cfg + 7), k);
    f.setInput(gen(1, 1, cfg), k);
  }
  void reset(int cfg)
  {
    f.reset();
    init(cfg);
  }
  Vector op(int o, int s)
  {
    Vector extra(0);
    switch(o)
    {
      case 0:
        f.setInput(gen(1, 1, s), k + 1);
        f.setMeasurement(gen(1, 1, s + 9), k + 1);
        f.getEstimatedState(++k);
        extra = cat({f.getInnovation(), f.getLastPredictedMeasurement(), f.getLastPrediction(), flat(f.getLastGain())});
        break;
      case 1:
        f.setA(gen(2, 2, s));
        f.setR(spd(1, s));
        break;
      case 2:
        for(int q = 1; q < 3; ++q)
        {
          f.setInput(gen(1, 1, s + q), k + q);
          f.setMeasurement(gen(1, 1, s + 9 + q), k + q);
        }
        k += 2;
        f.getEstimatedState(k);
        extra = cat({f.getInnovation(), f.getSimulatedMeasurement(k)});
        break;
      case 3:
        f.setStateCovariance(spd(2, s));
        f.setQ(spd(2, s + 1));
        break;
      case 4:
        extra = f.getSimulatedMeasurement(k);
        break;
    }
    return cat({f.getEstimatedState(k), flat(f.getStateCovariance()), extra});
  }
};
struct Sys : DynamicalSystemFunctorBase
{
  double a = 0.7;
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r(2);
    r << x(0) + 0.1 * std::sin(a * x(1)) + u(0), x(1) - 0.2 * x(0);
    return r;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex) override
  {
    Vector r(2);
    r << a * x(0) + 0.1 * x(1) * x(1), x(1) + u(0);
    return r;
  }
  Index getStateSize() const override
  {
    return 2;
  }
  Index getInputSize() const override
  {
    return 1;
  }
  Index getMeasurementSize() const override
  {
    return 2;
  }
};
struct EKF
{
  static const int ops = 5;
  ExtendedKalmanFilter f;
  long k = 0;
  // models outlive every filter; they are immutable
  static Sys & sys(int i)
  {
    static Sys s[3];
    s[1].a = 1.3;
    s[2].a = -0.4;
    return s[i % 3];
  }
  explicit EKF(int cfg) : f(2, 2, 1, true, true)
  {
    init(cfg);
  }
  void init(int cfg)
  {
    k = 2 * cfg + 1;
    f.setFunctor(&sys(cfg));
    f.setQ(spd(2, cfg));
    f.setR(spd(2, cfg + 1));
    f.setStateCovariance(spd(2, cfg + 5));
    f.setState(gen(2, 1, cfg + 7), k);
    f.setInput(gen(1, 1, cfg), k);
    f.setA(gen(2, 2, cfg));
    f.setC(gen(2, 2, cfg));
  }
  void reset(int cfg)
  {
    f.reset();
    init(cfg);
  }
  Vector op(int o, int s)
  {
    Vector extra(0);
    switch(o)
    {
      case 0:
        f.setInput(gen(1, 1, s), k + 1);
        f.setMeasurement(gen(2, 1, s + 9), k + 1);
        f.setA(f.getAMatrixFD(Vector::Constant(2, 1e-6)));
        f.setC(f.getCMatrixFD(Vector::Constant(2, 1e-6)));
        f.getEstimatedState(++k);
        extra = cat({f.getInnovation(), f.getLastPredictedMeasurement(), f.getLastPrediction(), flat(f.getLastGain())});
        break;
      case 1:
        f.setFunctor(&sys(s));
        f.setR(spd(2, s));
        break;
      case 2:
        for(int q = 1; q < 3; ++q)
        {
          f.setInput(gen(1, 1, s + q), k + q);
          f.setMeasurement(gen(2, 1, s + 9 + q), k + q);
        }
        k += 2;
        f.getEstimatedState(k);
        extra = f.getInnovation();
        break;
      case 3:
        f.setStateCovariance(spd(2, s));
        f.setState(gen(2, 1, s), k);
        f.setInput(gen(1, 1, s), k);
        break;
      case 4:
        extra = cat({flat(f.getAMatrixFD(Vector::Constant(2, 1e-6))), f.getSimulatedMeasurement(k)});
        break;
    }
    return cat({f.getEstimatedState(k), flat(f.getStateCovariance()), extra});
  }
};
struct DCM
{
  static const int ops = 5;
  LipmDcmEstimator f;
  explicit DCM(int cfg)
  : f(0.005 + 0.01 * cfg, 3 + cfg, 0.002, 0.01 + 0.01 * cfg, 0.005, Vector2(0.02, cfg ? 0. : 0.03), gen(2, 1, cfg),
      gen(2, 1, cfg + 1), 0.01 * gen(2, 1, cfg + 2))
  {
  }
  void reset(int cfg)
  {
    // every parameter the constructor takes, then the initial data
    f.setSamplingTime(0.005 + 0.01 * cfg);
    f.setLipmNaturalFrequency(3 + cfg);
    f.setBiasDriftPerSecond(0.002);
    f.setDcmMeasureErrorStd(0.01 + 0.01 * cfg);
    f.setZmpMeasureErrorStd(0.005);
    f.setBiasLimit(Vector2(0.02, cfg ? 0. : 0.03));
    f.resetWithMeasurements(gen(2, 1, cfg), gen(2, 1, cfg + 1), 0.3, true, 0.01 * gen(2, 1, cfg));
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0:
        f.setInputs(gen(2, 1, s), gen(2, 1, s + 1), 0.4 * s);
        f.update();
        break;
      case 1:
        f.setLipmNaturalFrequency(2 + s % 3);
        f.setDcmMeasureErrorStd(0.01 * (1 + s % 4));
        break;
      case 2:
        f.setBiasLimit(Vector2(0.01 * (s % 3), 0.05));
        break;
      case 3:
        f.setInputs(gen(2, 1, s), gen(2, 1, s + 1));
        break;
      case 4:
        f.setBias(0.01 * gen(2, 1, s), Vector2(0.1, 0.2));
        f.setUnbiasedDCM(gen(2, 1, s + 4));
        break;
    }
    return cat({f.getBias(), f.getUnbiasedDCM(), f.getLocalBias(), flat(f.getFilter().getStateCovariance())});
  }
};
struct DCM1
{
  static const int ops = 4;
  UnidimLipmDcmEstimator f;
  explicit DCM1(int cfg) : f(0.005 + 0.01 * cfg, 3 + cfg, 0.002, 0.1 * cfg, 0.2, 0.01, 0.01 + 0.01 * cfg) {}
  void reset(int cfg)
  {
    f.setSamplingTime(0.005 + 0.01 * cfg);
    f.setLipmNaturalFrequency(3 + cfg);
    f.resetWithInputs(0.1 * cfg, 0.2, true, 0.002, 0.01 + 0.01 * cfg, 0.005, 0.01);
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0:
        f.setInputs(std::sin(s), std::cos(s));
        f.update();
        break;
      case 1:
        f.setLipmNaturalFrequency(2 + s % 3);
        f.setDcmMeasureErrorStd(0.01 * (1 + s % 4));
        break;
      case 2:
        f.setBiasDriftPerSecond(0.01 * (1 + s % 3));
        f.setSamplingTime(0.01 + 0.01 * (s % 2));
        break;
      case 3:
        f.setBias(0.01 * s, 0.1);
        f.setUnbiasedDCM(0.2 * s);
        break;
    }
    return cat({Vector::Constant(1, f.getBias()), Vector::Constant(1, f.getUnbiasedDCM()), flat(f.getFilter().getStateCovariance())});
  }
};
struct Tilt
{
  static const int ops = 5;
  TiltEstimator f;
  long k = 0;
  explicit Tilt(int cfg) : f(5 + cfg, 1, 2)
  {
    init(cfg);
  }
  void init(int cfg)
  {
    k = cfg;
    f.setAlpha(5 + cfg);
    f.setBeta(1);
    f.setGamma(2);
    f.setSamplingTime(0.005 + 0.01 * cfg);
    f.setSensorPositionInC(gen(3, 1, cfg));
    f.setSensorOrientationInC(Matrix3(AngleAxis(0.4 * cfg, Vector3::UnitX()).toRotationMatrix()));
    f.setSensorLinearVelocityInC(gen(3, 1, cfg + 1));
    f.setSensorAngularVelocityInC(gen(3, 1, cfg + 2));
    f.setControlOriginVelocityInW(gen(3, 1, cfg + 3));
    Vector x(9);
    x << gen(3, 1, cfg), gen(3, 1, cfg + 1).normalized(), gen(3, 1, cfg + 2).normalized();
    f.setState(x, k);
  }
  void reset(int cfg)
  {
    f.clearMeasurements();
    f.clearStates();
    init(cfg);
  }
  Vector op(int o, int s)
  {
    switch(o)
    {
      case 0:
        f.setMeasurement(Vector3(gen(3, 1, s)), Vector3(gen(3, 1, s + 1)), k + 1);
        f.getEstimatedState(++k);
        break;
      case 1:
        f.setAlpha(1 + 0.3 * s);
        f.setSensorPositionInC(gen(3, 1, s));
        break;
      case 2:
        for(int q = 1; q < 3; ++q) f.setMeasurement(Vector3(gen(3, 1, s + q)), Vector3(gen(3, 1, s + q + 1)), k + q);
        k += 2;
        f.getEstimatedState(k);
        break;
      case 3:
        f.setSamplingTime(0.01 + 0.001 * s);
        f.setControlOriginVelocityInW(gen(3, 1, s));
        break;
      case 4: // consistent tilt, no rotation
      {
        Vector x(9);
        x << 0, 0, 0, 0, 0, 1, 0, 0, 1;
        f.setState(x, k);
        f.setMeasurement(Vector3(0, 0, 9.8), Vector3(0, 0, 0), k + 1);
        f.getEstimatedState(++k);
        break;
      }
    }
    return cat({f.getEstimatedState(k), Vector::Constant(1, f.getAlpha()), f.getSensorPositionInC()});
  }
};

} // namespace filters
