B = [
    ('d1', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'unsigned maxContacts = 4', 'unsigned maxContacts = 3'),
    ('d2', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'bool resetContactWrenches = true', 'bool resetContactWrenches = false'),
    ('d3', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'setStateUnmodeledWrench(const Vector6 &, bool resetCovariance = true)', 'setStateUnmodeledWrench(const Vector6 &, bool resetCovariance = false)'),
    ('d4', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'setStateVector(const Vector & newvalue, bool resetCovariance = true)', 'setStateVector(const Vector & newvalue, bool resetCovariance = false)'),
    ('d5', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = true', 'const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = false'),
    ('d6', 'C22', 'include/state-observation/dynamics-estimators/kinetics-observer.hpp', 'void setWithAccelerationEstimation(bool b = true)', 'void setWithAccelerationEstimation(bool b = false)'),
    ('d7', 'C22', 'include/state-observation/tools/definitions.hpp', 'void readFromFile(const char * filename, Index rows, Index cols = 1, bool withTimeStamp = true)', 'void readFromFile(const char * filename, Index rows, Index cols = 1, bool withTimeStamp = false)'),
    ('d8', 'C22', 'include/state-observation/tools/logger.hpp', 'save(bool clear = false, bool append = false)', 'save(bool clear = false, bool append = true)'),
    ('d9', 'C22', 'include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp', 'bool measurementIsWithBias = true', 'bool measurementIsWithBias = false'),
    ('d10', 'C22', 'include/state-observation/tools/rigid-body-kinematics.hpp', 'Kinematics & setZero(Flags::Byte = Flags::all);\n\n  inline', 'Kinematics & setZero(Flags::Byte = Flags::position | Flags::orientation);\n\n  inline'),
    ('d11', 'C22', 'include/state-observation/observer/extended-kalman-filter.hpp', 'bool directInputStateProcessFeedthrough = true', 'bool directInputStateProcessFeedthrough = false'),
    ('d12', 'C22', 'include/state-observation/sensors-simulation/sensor-base.hpp', 'getMeasurements(bool noisy = true)', 'getMeasurements(bool noisy = false)'),
    ('d13', 'C22', 'include/state-observation/sensors-simulation/algebraic-sensor.hpp', 'getMeasurements(bool noisy = true)', 'getMeasurements(bool noisy = false)'),
    ('d14', 'C22', 'include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp', 'double dt = 0.005', 'double dt = 0.002'),
    ('d15', 'C22', 'include/state-observation/tools/miscellaneous-algorithms.hpp', 'double xd, double kp = -1, double kv = -1)', 'double xd, double kp = -1, double kv = -2)'),
]
