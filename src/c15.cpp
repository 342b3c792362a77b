// C15: simulated sensors measure their current state; noise acts as configured.
#include "mc.hpp"
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/probability-law-simulation.hpp>
using namespace stateObservation;
using mc::C;

namespace
{
struct Recorder : NoiseBase
{
  double f;
  int calls = 0;
  Vector last;
  Recorder(double f) : f(f) {}
  Vector getNoisy(const Vector & v) override
  {
    ++calls;
    last = v;
    Vector r = v;
    for(Index i = 0; i < r.size(); ++i) r(i) += f * double(i + 1) + calls;
    return r;
  }
};
struct Phys
{
  Matrix3 R;
  Vector3 a, w;
};
Matrix3 rot(int i)
{
  switch(i)
  {
    case 0: return Matrix3::Identity();
    case 1: return AngleAxis(M_PI / 2, Vector3::UnitX()).toRotationMatrix();
    case 2: return AngleAxis(M_PI, Vector3(1, 1, 0).normalized()).toRotationMatrix();
    case 3: return AngleAxis(1.1, Vector3(0.3, -1, 0.6).normalized()).toRotationMatrix();
    case 4: return AngleAxis(-2.6, Vector3(-0.7, 0.2, 0.9).normalized()).toRotationMatrix();
    case 5: return AngleAxis(1e-9, Vector3::UnitY()).toRotationMatrix();
    case 6: return AngleAxis(M_PI, Vector3::UnitZ()).toRotationMatrix();
    default: return AngleAxis(3.0, Vector3(0.1, 0.9, -0.4).normalized()).toRotationMatrix();
  }
}
const double magY = 28, magZ = -33.7;
Vector pack(const Phys & p, bool matrixMode, int concat, double tag)
{
  Vector s((matrixMode ? 15 : 10) + concat);
  if(matrixMode)
  {
    for(int j = 0; j < 3; ++j) s.segment(3 * j, 3) = p.R.col(j);
    s.segment(9, 3) = p.a;
    s.segment(12, 3) = p.w;
  }
  else
  {
    Quaternion q(p.R);
    s << q.x(), q.y(), q.z(), q.w(), p.a, p.w, Vector::Zero(concat);
  }
  for(int i = 0; i < concat; ++i) s(s.size() - concat + i) = tag + i;
  return s;
}
Vector truth(const Phys & p, bool mag, int concat, double tag)
{
  Vector m((mag ? 9 : 6) + concat);
  m.head(3) = p.R.transpose() * (p.a + 9.8 * Vector3::UnitZ());
  m.segment(3, 3) = p.R.transpose() * p.w;
  if(mag) m.segment(6, 3) = p.R.transpose() * Vector3(0, magY, magZ);
  for(int i = 0; i < concat; ++i) m(m.size() - concat + i) = tag + i;
  return m;
}

template<typename S>
void histories(C & c, bool mag)
{
  S s;
  Recorder ra(0.5), rb(-2);
  GaussianWhiteNoise g(1);
  bool mm = false;
  int concat = 0;
  bool valid = false, cached = false, stale = false;
  Vector want, noisyWant;
  int noise = 0; // 0 none, 1 ra, 2 rb, 3 gaussian
  int gdim = 1;
  Vector gbias = Vector::Zero(1);
  TimeIndex time = 0;
  Phys p;
  bool given = false;
  auto fitG = [&] {
    int d = (mag ? 9 : 6) + concat;
    if(gdim != d)
    {
      g.setDimension(d);
      g.setStandardDeviation(Matrix::Zero(d, d));
      gdim = d;
      gbias = Vector::LinSpaced(d, 0.25, 3);
      g.setBias(gbias);
    }
  };
  int depth = c.t(7, 8);
  for(int k = 0; k < depth; ++k)
  {
    int op = c.choose(10);
    switch(op)
    {
      case 0:
      case 1:
      {
        // a new state, or the same one again with other pass-through inputs
        if(op == 1 && !given) throw mc::Prune();
        c.step([&] { return op ? "same state given again" : "set state"; });
        if(op == 0)
        {
          p = Phys{rot((3 * k + 1) % 8), Vector3(0.5 * k, -1, 2 - k), Vector3(0.1, k, -0.3 * k)};
          if(k % 2) p.a.setZero();
          given = true;
        }
        double tag = 100 * (k + 1);
        time = 3 * k - 2;
        s.setState(pack(p, mm, concat, tag), time);
        want = truth(p, mag, concat, tag);
        valid = true;
        cached = stale = false;
        break;
      }
      case 2:
        c.step([&] { return "attitude mode toggled"; });
        mm = !mm;
        s.setMatrixMode(mm);
        valid = false;
        break;
      case 3:
      case 4:
      {
        static const int n[3] = {0, 1, 3};
        int cc = 0;
        for(int q = 0; q < 3; ++q)
          if(n[q] == concat) cc = q;
        concat = n[(cc + 1 + k % 2) % 3];
        c.step([&] { return "pass-through inputs " + std::to_string(concat); });
        Index r = s.concatenateWithInput(concat);
        c.require(r == (mag ? 9 : 6) + concat, "returned measurement size");
        valid = false;
        if(noise == 3) fitG();
        break;
      }
      case 5:
        c.step([&] { return "noise removed"; });
        s.resetNoise();
        if(noise != 0 && cached) stale = true;
        noise = 0;
        break;
      case 6:
      {
        int n = (noise == 1) ? 2 : 1;
        c.step([&] { return "noise set"; });
        s.setNoise(n == 1 ? &ra : &rb);
        if(n != noise && cached) stale = true;
        noise = n;
        break;
      }
      case 7:
        c.step([&] { return "Gaussian noise of zero spread set"; });
        fitG();
        s.setNoise(&g);
        if(noise != 3 && cached) stale = true;
        noise = 3;
        break;
      case 8:
      {
        if(!valid) throw mc::Prune();
        c.step([&] { return "noiseless reading"; });
        int ca = ra.calls, cb = rb.calls;
        Vector m = s.getMeasurements(false);
        c.near(m, want, 1e-12, "noiseless reading");
        c.require(ra.calls == ca && rb.calls == cb, "a noiseless reading drew noise");
        break;
      }
      case 9:
      {
        if(!valid || (stale && noise != 0)) throw mc::Prune();
        c.step([&] { return "noisy reading"; });
        int ca = ra.calls, cb = rb.calls;
        Vector m = s.getMeasurements(true);
        if(noise == 0)
          c.near(m, want, 1e-12, "reading without noise");
        else if(cached)
        {
          c.near(m, noisyWant, 0, "repeated noisy reading");
          c.require(ra.calls == ca && rb.calls == cb, "a repeated noisy reading drew noise again");
        }
        else
        {
          if(noise == 3)
            noisyWant = want + gbias;
          else
          {
            Recorder & r = noise == 1 ? ra : rb;
            noisyWant = want;
            for(Index i = 0; i < want.size(); ++i)
              noisyWant(i) += r.f * double(i + 1) + (noise == 1 ? ca + 1 : cb + 1);
            c.require(ra.calls == ca + (noise == 1) && rb.calls == cb + (noise == 2),
                      "noise not drawn exactly once for a state");
          }
          c.near(m, noisyWant, 1e-12, "noisy reading");
          noisyWant = m;
          cached = true;
        }
        break;
      }
    }
    c.require(s.getStateSize() == (mm ? 15 : 10) + concat, "state size");
    c.require(s.getMeasurementSize() == (mag ? 9 : 6) + concat, "measurement size");
    c.require(s.stateVectorZero().isZero() && s.stateVectorZero().size() == s.getStateSize(), "zero state");
    c.require(s.checkStateVector(Vector::Zero((mm ? 15 : 10) + concat)), "size test of a correct state");
    c.require(!s.checkStateVector(Vector::Zero((mm ? 15 : 10) + concat + 1)), "size test of an oversized state");
    if(valid || k == 0) c.require(!valid || s.getTime() == time, "time of the state");
    NoiseBase * e[4] = {nullptr, &ra, &rb, &g};
    c.require(s.getNoise() == e[noise], "current noise");
    c.state(mc::hashM(uint64_t(mm) * 64 + uint64_t(concat) * 8 + uint64_t(noise) + 256 * cached + 512 * valid,
                      valid ? want : Vector()));
  }
}
MC_SUITE(imu_histories, 2)
{
  histories<AccelerometerGyrometer>(c, false);
}
MC_SUITE(imu_mag_histories, 2)
{
  histories<AccelerometerGyrometerMagnetometer>(c, true);
}

template<typename S>
void grid(C & c, bool mag)
{
  // attitude from all axes with components in {-1,0,1} and angles, accelerations and rates on a grid
  static const double ang[] = {0, 1e-10, 1e-4, 0.3, M_PI / 2, 2, M_PI - 1e-6, M_PI, 3.5};
  Vector3 ax(c.choose(3) - 1, c.choose(3) - 1, c.choose(3) - 1);
  double an = ang[c.choose(9)];
  if(ax.isZero()) ax = Vector3(0.3, 0.5, -0.1);
  Phys p;
  p.R = AngleAxis(an, ax.normalized()).toRotationMatrix();
  static const Vector3 vs[] = {Vector3(0, 0, 0), Vector3(1, -2, 3), Vector3(-9, 0.5, -9.8), Vector3(1e-8, 0, 20),
                               Vector3(0, 0, -9.8)};
  p.a = vs[c.choose(5)];
  p.w = vs[c.choose(4)];
  bool mm = c.flag();
  S s;
  s.setMatrixMode(mm);
  c.step([&] { return "reading at angle " + mc::str(an) + " about " + mc::str(ax); });
  Vector st = pack(p, mm, 0, 0);
  if(!mm && c.flag()) st.head(4) = -st.head(4).eval(); // the opposite quaternion is the same attitude
  s.setState(st, 1);
  Vector w = truth(p, mag, 0, 0);
  c.near(s.getMeasurements(), w, 1e-12, "reading");
  c.near(s.getMeasurements(false), w, 1e-12, "reading");
  c.state(mc::hashM(mag, w));
}
MC_SUITE(imu_grid, 3)
{
  grid<AccelerometerGyrometer>(c, false);
}
MC_SUITE(imu_mag_grid, 3)
{
  grid<AccelerometerGyrometerMagnetometer>(c, true);
}

// ---- Gaussian noise: exact consequences of the configured bias, spread and sum
void doubleSum(const Vector & v, const Vector & t, Vector & r)
{
  r = 2 * v - t;
}
/// distance of d from the column space of S, relative
bool inRange(const Matrix & S, const Vector & d)
{
  Eigen::ColPivHouseholderQR<Matrix> qr(S);
  Vector x = qr.solve(d);
  return (S * x - d).norm() <= 1e-6 * (1 + S.norm());
}
MC_SUITE(gaussian_histories, 2)
{
  int d = 1 + c.choose(3);
  bool viaDefault = c.flag();
  GaussianWhiteNoise g0;
  GaussianWhiteNoise g1(d);
  GaussianWhiteNoise & g = viaDefault ? g0 : g1;
  if(viaDefault)
  {
    c.require(g.getDimension() == 0, "dimension of a default noise");
    g.setDimension(d);
  }
  Matrix S = Matrix::Identity(d, d);
  Vector b = Vector::Zero(d);
  bool sub = false;
  int depth = c.t(4, 5);
  for(int k = 0; k < depth; ++k)
  {
    switch(c.choose(8))
    {
      case 0:
        c.step([&] { return "zero spread"; });
        S = Matrix::Zero(d, d);
        g.setStandardDeviation(S);
        break;
      case 1: // rank-one spread, not symmetric
      {
        c.step([&] { return "rank-one standard deviation"; });
        S = Matrix::Zero(d, d);
        for(int i = 0; i < d; ++i) S(i, (k + 1) % d) = i + 1 - 0.5 * k;
        g.setStandardDeviation(S);
        break;
      }
      case 2: // rank-one covariance
      {
        Vector v = Vector::LinSpaced(d, k % 2 ? 0. : 1., d + k);
        c.step([&] { return "rank-one covariance"; });
        g.setCovarianceMatrix(v * v.transpose());
        S = v;
        break;
      }
      case 3: // singular diagonal covariance
      {
        Matrix M = Matrix::Zero(d, d);
        for(int i = 0; i < d; ++i)
          if(i != k % d) M(i, i) = 4 + i;
        c.step([&] { return "singular diagonal covariance"; });
        g.setCovarianceMatrix(M);
        S = M;
        break;
      }
      case 4:
        b = Vector::LinSpaced(d, -3 + k, 7);
        c.step([&] { return "bias"; });
        g.setBias(b);
        break;
      case 5:
        sub = !sub;
        c.step([&] { return "sum function"; });
        if(sub)
          g.setSumFunction(doubleSum);
        else
          g.setSumFunction(stateObservation::detail::defaultSum);
        break;
      case 6:
        d = 1 + (d % 3);
        c.step([&] { return "dimension " + std::to_string(d); });
        g.setDimension(d);
        S = Matrix::Identity(d, d);
        b = Vector::Zero(d);
        break;
      case 7:
      {
        c.step([&] { return "noise drawn"; });
        Vector v = Vector::LinSpaced(d, 10, 20 + k);
        for(int q = 0; q < 3; ++q)
        {
          Vector n = g.getNoisy(v);
          c.require(n.size() == d, "size of a noisy vector");
          Vector dev = sub ? Vector(2 * v - n - b) : Vector(n - v - b);
          c.require(dev.allFinite(), "finite noise");
          if(S.isZero(0))
            c.near(dev, Vector::Zero(d), 1e-13, "noise of zero spread adds its bias");
          else
          {
            c.require(inRange(S, dev), "noise stays in the range of its standard deviation");
            c.require(!(dev.array() == 0).all(), "noise of non-zero spread varies");
          }
        }
        break;
      }
    }
    c.require(g.getDimension() == d, "dimension");
    c.state(mc::hashM(mc::hashM(sub, S), b));
  }
}
MC_SUITE(laws, 1)
{
  double a = -2 + c.choose(5), w = c.choose(4) * 0.75;
  c.step([&] { return "uniform and Gaussian scalars"; });
  if(w > 0)
    for(int i = 0; i < 50; ++i)
    {
      double u = tools::ProbabilityLawSimulation::getUniformScalar(a, a + w);
      c.require(u >= a && u <= a + w, "uniform scalar within its bounds");
    }
  double z = tools::ProbabilityLawSimulation::getGaussianScalar(1e-300, a);
  c.near(z, a, 1e-12, "Gaussian scalar of negligible spread is its bias");
  Matrix3 S = Matrix3::Zero();
  S(0, 1) = 2;
  S(2, 1) = -w;
  Vector3 b(a, w, 3);
  Vector3 n = tools::ProbabilityLawSimulation::getGaussianVector<Vector3>(S, b);
  c.require(inRange(S, n - b), "Gaussian vector in range");
  c.require(n(1) == b(1), "Gaussian vector without spread");
  c.state(uint64_t(c.path[0]) * 8 + uint64_t(c.path[1]));
}
} // namespace
MC_MAIN()
