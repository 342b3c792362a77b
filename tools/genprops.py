import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/state-observation/"
p("C01","Time-indexed arrays and stamped values behave as contiguous finite maps",
 "Under every sequence of set, push, pop, truncate, re-index, resize, clear and reset operations a time-indexed array holds exactly the values a contiguous map from time index to value would hold, and its first, last and next indices, its size, its membership test, its front/back and its conversion to a plain vector all agree with that content. A stamped or checked single value reports whether it is set, its value and its time exactly as last written, copied or reset, and an unset value is never handed out. No operation called within its documented precondition fails or touches an entry it was not asked to touch.",
 ["histories","inputs"],"every operation sequence up to the explored depth, over array lengths 0..4, positive, zero and negative start indices, and every index just inside and just outside the stored range",
 "The suite never exercises these containers directly: it only pushes monotonically growing series through filters, so truncation at the boundaries, re-indexing and empty arrays are never reached.",
 [I+"tools/definitions.hpp",I+"tools/definitions.hxx"],
 [("indexed array of matrices over a deque and a first index",I+"tools/definitions.hxx: IndexedMatrixArrayT"),("stamped matrix / checked item",I+"tools/definitions.hxx: IndexedMatrixT, CheckedItem")])
p("C02","Recorded series survive file and text round trips; the logger is faithful",
 "Writing any time-indexed series of finite vectors or matrices to a file and reading it back (overwriting or appending, with or without clearing the source), or reading a file of numbers with or without time stamps, gives back the same number of elements, the same indices and the same entries to the printed precision, and clearing keeps the time index running. Converting matrices and vectors to text and back is likewise the identity to printed precision. A logger holds, for every registered variable of a supported type, exactly the successive values that variable had at each push, whatever the interleaving of registrations, pushes of all or single variables, changes of address, clears and saves, and its files hold the same.",
 ["histories","inputs"],"every series of the explored shapes, lengths and indices; every logger operation sequence up to the explored depth",
 "Tests write logs but never read them back and compare; the logger is only used with one call pattern.",
 [I+"tools/definitions.hxx","src/definitions.cpp",I+"tools/logger.hpp",I+"tools/logger.hxx","src/logger.cpp"],
 [("series file writer/reader",I+"tools/definitions.hxx: writeInFile, readFromFile, readVectorsFromFile"),("logger record/push/save","src/logger.cpp, "+I+"tools/logger.hxx")])
p("C03","Observers consume exactly the measurement and input of each time step",
 "A zero-delay observer asked for the state at time k applies one estimation step per elapsed time index, each using the measurement of the step being estimated and the inputs stored for that step, so that estimating step by step, in one batch, or with data supplied early in any order permitted by the contiguity rule gives the same state. Setting, pushing, querying and clearing states, measurements and inputs always leaves the stored data, their counts and their reported times equal to what was last supplied and not yet consumed.",
 ["histories"],"every sequence of set/push/get/clear calls and estimation requests up to the explored depth, for observers with and without inputs, state feed-through and measurement feed-through",
 "Tests drive each filter with one call order (set input, set measurement, estimate) and one horizon.",
 ["src/zero-delay-observer.cpp",I+"observer/zero-delay-observer.hpp","src/observer-base.cpp",I+"observer/observer-base.hpp"],
 [("measurement/input buffers and estimation loop","src/zero-delay-observer.cpp: getEstimatedState, setState, setMeasurement, setInput")])
p("C04","The linear Kalman filter is the textbook minimum-variance filter",
 "For every linear system, noise covariance, initial condition and measurement/input history, the linear Kalman filter's predicted state, predicted measurement, innovation, gain-corrected estimate and state covariance equal those of the textbook recursion, with direct feed-through and input terms included whenever they are configured. Every covariance it reports is symmetric and positive semi-definite, and the estimate is the one a batch least-squares solution over the whole history gives.",
 ["inputs","histories","configurations"],"every enumerated small system (sizes up to 2 states, 2 measurements, 2 inputs, all matrices over a small value set), history up to the explored length, with matrices changed between steps",
 "The suite checks that one simulated run converges below a loose error threshold, which a slightly wrong gain or covariance also does.",
 ["src/linear-kalman-filter.cpp","src/kalman-filter-base.cpp",I+"observer/kalman-filter-base.hpp"],
 [("prediction / innovation / gain / covariance update","src/kalman-filter-base.cpp: oneStepEstimation_"),("linear prediction","src/linear-kalman-filter.cpp: prediction_, simulateSensor_")])
p("C05","The extended Kalman filter never works from a stale prediction",
 "Every estimate, prediction, simulated measurement, innovation and finite-difference Jacobian of the extended Kalman filter is computed from the state, inputs, covariances and model that are current when it is computed, whatever was queried, set, replaced or reset before. On a linear model it therefore gives the linear Kalman filter's results, and its finite-difference Jacobians equal the model's derivatives, for every configuration of inputs and feed-throughs and also when states and measurements live on manifolds whose tangent dimension differs from their vector dimension.",
 ["histories","configurations","inputs"],"every interleaving, up to the explored depth, of setting states/inputs/measurements/matrices/model, querying predictions, Jacobians and innovations, estimating, and resetting",
 "Tests use one call order on one trajectory; caching errors show only when the same time step is queried, changed and queried again.",
 ["src/extended-kalman-filter.cpp",I+"observer/extended-kalman-filter.hpp","src/kalman-filter-base.cpp"],
 [("time-stamped prediction cache","src/extended-kalman-filter.cpp: prediction_, predictSensor_"),("finite differences","src/extended-kalman-filter.cpp: getAMatrixFD, getCMatrixFD")])
p("C06","Filters and estimators are independent values; reset means fresh",
 "For the linear and extended Kalman filters, the DCM/bias estimators and the tilt estimator, operating on one object never changes the behaviour of another: any interleaving of calls on two objects gives each the results it gives alone, and a copied object continues exactly as the original would while neither affects the other afterwards, even after the original is destroyed. Resetting a filter and supplying its initial data again gives exactly the results of a newly built one, and identical call histories always give identical results.",
 ["histories","schedules"],"every interleaving of two call histories up to the explored length for each filter type; every copy point and every reset point in a history",
 "Each test builds a single filter, runs it once and never copies or resets it.",
 ["src/kalman-filter-base.cpp","src/extended-kalman-filter.cpp","src/linear-kalman-filter.cpp","src/zero-delay-observer.cpp","src/lipm-dcm-estimator.cpp","src/tilt-estimator.cpp",I+"tools/state-vector-arithmetics.hpp"],
 [("default state arithmetic and buffers held per filter",I+"observer/kalman-filter-base.hpp"),("reset/clear","src/kalman-filter-base.cpp: reset, clearStates")])
p("C07","Rigid-body kinematics compose, invert and store like rigid motions",
 "For every pair of kinematics and every subset of set fields (position, orientation, linear/angular velocity and acceleration), composing kinematics gives exactly the pose, velocity and acceleration of the composed rigid motion, composing with the inverse gives the identity motion, composition is associative, and relative kinematics invert composition. A field is available in a result exactly when the operands carry what its formula needs (in a composition: a position needs both positions; a linear velocity needs the position, both linear velocities and the first angular velocity; a linear acceleration needs the linear velocity, both linear accelerations and the first angular acceleration; an angular acceleration needs the angular velocity and both angular accelerations), orientation representations never disagree, aliasing of operands with the result is harmless, and storing kinematics in a vector and reading it back with the same flags is the identity.",
 ["inputs","configurations"],"all 64 x 64 field subsets of two operands (and triples for associativity), over a grid of poses, velocities and accelerations including identity, half-turn and tiny rotations",
 "The suite composes a few random fully set kinematics; partially set operands, aliasing and special rotations are hardly sampled.",
 [I+"tools/rigid-body-kinematics.hpp",I+"tools/rigid-body-kinematics.hxx"],
 [("composition and inversion",I+"tools/rigid-body-kinematics.hxx: Kinematics::setToProductNoAlias, getInverse"),("flagged vector storage",I+"tools/rigid-body-kinematics.hxx: toVector, fromVector")])
p("C08","Kinematics integrate and update consistently with their derivatives",
 "Integrating kinematics over a period advances position, orientation and velocities exactly as constant acceleration motion does, for the field subsets that carry the needed derivatives, and never alters what it does not advance. Updating kinematics from new data over a period fills every requested field either from the new data, by integration or by finite differences so that all filled fields agree with the same motion; fields that were not requested are dropped. (Requested fields must be obtainable from the data, and successive orientations must not be near half a turn apart.)",
 ["inputs","configurations"],"every pair of field subsets (old content, new content), requested flags, and a grid of motions and periods",
 "Tests follow one trajectory with all fields set; most of the update decision tree is unreached.",
 [I+"tools/rigid-body-kinematics.hxx",I+"tools/rigid-body-kinematics.hpp"],
 [("integrate",I+"tools/rigid-body-kinematics.hxx: Kinematics::integrate, kine::integrateKinematics"),("update decision tree",I+"tools/rigid-body-kinematics.hxx: Kinematics::update")])
p("C09","Rotation representations convert consistently and merges respect both inputs",
 "Conversions among rotation vectors, angle-axis, quaternions, matrices, roll-pitch-yaw, homogeneous matrices and six-vectors are mutually inverse and agree on the represented rotation for every rotation, including identity, tiny angles and half turns, and their products, differences, exponential maps and Jacobians agree with each other. Merging tilt from one orientation with yaw from another always yields a true rotation having exactly that tilt and, whenever it is defined, that yaw; yaw extraction is invariant to what it must ignore.",
 ["inputs"],"a grid covering all axis directions with components in {-1,0,1}, angles from 0 through tiny, regular, near-half-turn and beyond, and all pairs of them",
 "Tests sample a few random rotations, almost surely away from every singular case.",
 [I+"tools/rigid-body-kinematics.hxx",I+"tools/rigid-body-kinematics.hpp"],
 [("conversion helpers",I+"tools/rigid-body-kinematics.hxx: rotationVectorToRotationMatrix ... vector6ToHomogeneousMatrix"),("tilt/yaw merge",I+"tools/rigid-body-kinematics.hxx: mergeTiltWithYaw*, mergeRoll1Pitch1WithYaw2*"),("orientation class",I+"tools/rigid-body-kinematics.hxx: Orientation")])
p("C10","Kinetics observer: contact and sensor bookkeeping is exact",
 "After any sequence of adding, updating, removing and clearing contacts, and of setting or omitting sensor measurements, the kinetics observer reports exactly the contacts that were added and not removed, with their own poses, and its state and measurement layouts give every active component its own non-overlapping range. Removed contacts free their slot for reuse, an automatic number is the first free one, adding a contact never disturbs the estimate of anything else, and sizes always match the active components.",
 ["histories","configurations"],"every sequence of contact and sensor operations up to the explored depth, for the enumerated numbers of contacts and IMUs and option flags",
 "The only test adds contacts once in a fixed order and never removes any.",
 ["src/kinetics-observer.cpp",I+"dynamics-estimators/kinetics-observer.hpp",I+"dynamics-estimators/kinetics-observer.hxx"],
 [("contact list","src/kinetics-observer.cpp: addContact, removeContact, clearContacts"),("layout indices",I+"dynamics-estimators/kinetics-observer.hxx")])
p("C11","Kinetics observer: each iteration uses that iteration's data, consistently",
 "Every update advances the estimate by exactly one time step using exactly the sensor, contact and input data supplied since the previous update; sensors not supplied are ignored, sensors supplied in any order give the same estimate, and calling update again without new data changes nothing. When measurements are exactly those predicted by the model the estimate is the model's own prediction, and the predicted and measured quantities obey rigid-body dynamics and sensor kinematics. Covariances that are not given with a measurement are the current defaults, and derivatives that are not given come from finite differences over the time since the previous value of the same quantity. A noise model set on the observer disturbs its own predictions by exactly the noise, once, until it is removed.",
 ["histories","configurations"],"every order and subset of per-iteration sensor/contact inputs over several iterations, for the enumerated configurations",
 "The only test checks the state sum/difference and one Jacobian; no complete multi-iteration estimation with changing sensors is checked.",
 ["src/kinetics-observer.cpp",I+"dynamics-estimators/kinetics-observer.hpp"],
 [("iteration protocol","src/kinetics-observer.cpp: startNewIteration_, setIMU, updateContactWithWrenchSensor, update, updateMeasurements"),("dynamics and sensor model","src/kinetics-observer.cpp: stateDynamics, measureDynamics, computeAccelerations_")])
p("C12","Kinetics observer: state arithmetic and covariance settings are block-exact",
 "Adding the difference of two states to the second gives the first, adding a zero increment changes nothing, and differences of states on every component (positions, orientations, velocities, biases, wrenches, contacts) are independent of each other. Setting or resetting a state component, its covariance or its process noise changes exactly that component's entries, takes effect in the filter immediately, and can be read back.",
 ["inputs","configurations","histories"],"all component-wise perturbations from the enumerated set, every combination of active components, every setter sequence up to the explored depth",
 "One test checks sum/difference on one random state with everything active; setters and inactive components are unreached.",
 ["src/kinetics-observer.cpp",I+"dynamics-estimators/kinetics-observer.hxx"],
 [("state sum/difference","src/kinetics-observer.cpp: stateSum, stateDifference"),("covariance block setters","src/kinetics-observer.cpp: setStateCovarianceMat..., resetStateCovariance...")])
p("C13","The simulator reproduces the system's trajectory for any access order",
 "States and measurements returned by the dynamical-system simulator at any time index equal the trajectory obtained by iterating the system from the last imposed state with the inputs in force when each step is simulated, whatever the order in which states, measurements and inputs are set or requested and whatever was simulated before. An input holds until the next defined one, setting an input never leaves later results that predate it, and imposing a state at a recorded time forgets everything recorded later.",
 ["histories"],"every sequence of set/get/simulate/reset calls up to the explored depth",
 "Tests simulate forward once and read the trajectory in order.",
 ["src/dynamical-system-simulator.cpp",I+"dynamical-system/dynamical-system-simulator.hpp"],
 [("lazy simulation and stored trajectories","src/dynamical-system-simulator.cpp: getState, getMeasurement, setState, setInput, simulateDynamicsTo")])
p("C14","DCM bias estimators follow their documented filter, clamp and frames",
 "For every history of measurements, orientations, resets and parameter changes, the planar and the one-dimensional DCM/bias estimators produce the estimates of the documented linear filter with the parameters currently set, with the bias kept constant in the robot frame. When a limit is set the local bias never exceeds it on that axis, an unlimited axis is left untouched, the sum of DCM and bias is preserved by clamping, and the planar estimator in a rotated frame gives the rotated estimate.",
 ["histories","configurations","inputs"],"every operation sequence up to the explored depth with measurements, yaw angles, limits and parameter changes from the enumerated sets",
 "The test runs one random scenario and checks convergence only; parameter setters, single-axis limits and resets are never called.",
 ["src/lipm-dcm-estimator.cpp","src/unidim-lipm-dcm-estimator.cpp",I+"dynamics-estimators/lipm-dcm-estimator.hpp",I+"dynamics-estimators/unidim-lipm-dcm-estimator.hpp"],
 [("estimator matrices and clamping","src/lipm-dcm-estimator.cpp: updateMatricesABQ_, update, setInputs"),("one-dimensional version","src/unidim-lipm-dcm-estimator.cpp")])
p("C15","Simulated sensors measure their current state; noise acts as configured",
 "A simulated inertial or magnetic sensor always returns the measurement of the state and time last given to it (specific force, angular rate and field expressed in the sensor frame, followed by any pass-through inputs), identically for quaternion and matrix attitude modes, and repeats the same value until the state changes. A noisy reading is the noiseless reading combined once per state with the configured noise (it stays the same until the next state is given), requesting noiseless readings is never affected by noise, noise with zero spread adds exactly its bias, and noise only spreads along the directions in which its covariance is non-zero. A change of attitude mode or pass-through count takes effect from the next state given.",
 ["histories","configurations","inputs"],"every sequence of set-state, mode, pass-through, noise and read calls up to the explored depth over a grid of attitudes, accelerations and rates",
 "Tests only use sensors indirectly inside converging filters with loose thresholds.",
 ["src/algebraic-sensor.cpp","src/accelerometer-gyrometer.cpp","src/accelerometer-gyrometer-magnetometer.cpp","src/linear-acceleration.cpp","src/rotation-velocity.cpp","src/magnetic-field.cpp","src/gaussian-white-noise.cpp","src/sensor-base.cpp","src/probability-law-simulation.cpp"],
 [("measurement cache","src/algebraic-sensor.cpp: getMeasurements, setState"),("sensor models","src/accelerometer-gyrometer*.cpp"),("noise","src/gaussian-white-noise.cpp")])
p("C16","IMU and pendulum models depend only on their arguments and obey kinematics",
 "The next state and the measurement given by each motion model (additive and multiplicative attitude IMU, magnetometer IMU, fixed-contact and stabilised flexibility, elastic pendulum) depend only on the state, input and configured parameters, never on earlier calls, and equal exact constant-acceleration rigid-body motion and ideal sensor readings (for the pendulum, one explicit Euler step of its equation of motion); contacts read the displacement of the contact points, noise is applied once per call and only when set. For the multiplicative model the analytical Jacobians equal the derivatives of its dynamics and measurement in its own state arithmetic, whose sum and difference are inverse of each other.",
 ["histories","inputs"],"every sequence of dynamics/measurement/Jacobian calls up to the explored depth over a grid of states and inputs including zero, tiny and half-turn attitudes",
 "Tests call each model along one trajectory, so stale cached attitudes and special rotations are never compared with anything.",
 ["src/imu-dynamical-system.cpp","src/imu-magnetometer-dynamical-system.cpp","src/imu-mltpctive-dynamical-system.cpp","src/imu-fixed-contact-dynamical-system.cpp","src/stable-imu-fixed-contact-dynamical-system.cpp","src/bidim-elastic-inv-pendulum-dyn-sys.cpp"],
 [("attitude cache","src/imu-dynamical-system.cpp: computeQuaternion_"),("analytical Jacobians","src/imu-mltpctive-dynamical-system.cpp: getAMatrix, getCMatrix")])
p("C17","The elastic flexibility model obeys mechanics and is free of call history",
 "For every contact model, number of contacts and combination of options, the predicted accelerations balance gravity, contact, additional and unmodelled wrenches on the robot's mass and inertia, contact wrenches follow the stiffness and damping configured for the chosen contact model, and the next state and the measurement are those of the resulting motion. All results depend only on the arguments and the configuration, never on earlier calls; Jacobians equal the derivatives of the model with respect to each enabled state component, and measurement and input sizes always match the configuration.",
 ["histories","configurations","inputs"],"every configuration and every sequence of configuration, dynamics, measurement and Jacobian calls up to the explored depth, over a grid of states and inputs",
 "Tests run one configuration along one recorded trajectory and check loose convergence bounds.",
 ["src/imu-elastic-local-frame-dynamical-system.cpp",I+"flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp"],
 [("accelerations and wrenches","src/imu-elastic-local-frame-dynamical-system.cpp: computeAccelerations, computeContactWrench, computeForcesAndMoments"),("rotation cache and scratch","src/imu-elastic-local-frame-dynamical-system.cpp: computeRotation_"),("finite-difference Jacobians","src/imu-elastic-local-frame-dynamical-system.cpp: stateDynamicsJacobian, measureDynamicsJacobian")])
p("C18","Flexibility estimators stay consistent under any configuration order",
 "Whatever the order in which contacts, force and absolute-position measurements, unmodelled forces, variances and sampling period are configured, the flexibility estimators end with the measurement size, the block-diagonal measurement noise matrix and the model parameters that the final configuration prescribes and with the process noise and state covariance last set or reset, and these are what the filter uses. Estimates equal those of the underlying filter run on the same data, advance one step per measurement, stay finite with a regulated orientation, a measurement that cannot be used (NaN) leaves the last estimate standing, and switching estimation off yields a zero flexibility without leaving data behind. Guesses of the flexibility become the estimate, and forces and torques stay within their limits when these are enabled.",
 ["histories","configurations"],"every sequence of configuration, measurement and estimation calls up to the explored depth",
 "Tests configure each estimator once, in one order, before running it.",
 ["src/model-base-ekf-flex-estimator-imu.cpp","src/fixed-contact-ekf-flex-estimator-imu.cpp","src/ekf-flexibility-estimator-base.cpp"],
 [("noise matrix assembly","src/model-base-ekf-flex-estimator-imu.cpp: updateMeasurementCovarianceMatrix_; src/fixed-contact-ekf-flex-estimator-imu.cpp: updateCovarianceMatrix_"),("estimation loop","src/ekf-flexibility-estimator-base.cpp: getFlexibilityVector")])
p("C19","The tilt estimator implements its complementary filter exactly",
 "For every history of gyrometer, accelerometer and velocity data, gains and kinematic settings, the tilt estimator's state follows its documented update (velocity, intermediate and final tilt), the tilt it maintains stays on the unit sphere, and a motion consistent with the true tilt is tracked without drift. Re-expressing all data in a rotated sensor frame rotates the estimate accordingly, and results depend only on data and settings supplied for the step.",
 ["histories","inputs","configurations"],"every input sequence up to the explored depth from a grid of tilts, rates, accelerations and gains",
 "No unit test covers the tilt estimator at all.",
 ["src/tilt-estimator.cpp",I+"observer/tilt-estimator.hpp"],
 [("one step update","src/tilt-estimator.cpp: oneStepEstimation_")])
p("C20","Elementary numeric helpers obey their contracts on every input class",
 "Clamping, sign, squaring, differentiation, lazy normalisation, the compile-time square root, skew-symmetric operators, approximate comparisons and the finite-time control law return, for every input class including zeros, negatives and extreme magnitudes (a zero vector cannot be normalised), the values their documented definitions give, component by component for vector versions.",
 ["inputs"],"every combination from a grid of boundary values (zeros, ones, tiny, huge, negative, non-normalised) for scalars and vectors of the explored sizes",
 "These helpers are only exercised incidentally with ordinary values.",
 [I+"tools/miscellaneous-algorithms.hpp",I+"tools/rigid-body-kinematics.hxx",I+"tools/definitions.hxx"],
 [("numeric helpers",I+"tools/miscellaneous-algorithms.hpp"),("skew-symmetric and fixed-point helpers",I+"tools/rigid-body-kinematics.hxx")])
p("C21","Components coexist: distinct objects never influence one another",
 "Kinetics observers, flexibility estimators, filters, tilt and DCM estimators, motion and elastic models, sensors, simulators and loggers are independent of one another: under every interleaving of calls on two objects of the same kind, configured differently, each gives exactly the results it gives when used alone, also when a call on one object is preempted anywhere by a call another thread makes on the other object. A copied motion model, elastic model, sensor or simulator continues exactly as the original would, and neither it nor its destruction disturbs the original. Random noise generators are outside this property.",
 ["schedules","histories"],"every interleaving of two call histories of the explored length for each kind of object; every copy point; every preemption of one call by one call on the other object, at every entry of a library function during that call",
 "The tests hold one object of each kind at a time and run it in one thread; shared temporaries are invisible then.",
 ["src/kinetics-observer.cpp","src/imu-elastic-local-frame-dynamical-system.cpp","src/model-base-ekf-flex-estimator-imu.cpp","src/fixed-contact-ekf-flex-estimator-imu.cpp","src/imu-fixed-contact-dynamical-system.cpp","src/dynamical-system-simulator.cpp","src/logger.cpp","src/accelerometer-gyrometer.cpp","src/extended-kalman-filter.cpp",I+"tools/rigid-body-kinematics.hxx"],
 [("operating caches of the elastic model","src/imu-elastic-local-frame-dynamical-system.cpp: op_, computeRotation_"),("temporaries kept by the filters and the observer","src/extended-kalman-filter.cpp, src/kalman-filter-base.cpp: oc_; src/kinetics-observer.cpp: update, computeLocalAccelerations_"),("model state of simulators","src/dynamical-system-simulator.cpp")])
p("C22","Arguments left out take documented defaults; equivalent call forms agree",
 "Leaving out optional arguments of a constructor or member function (kinetics observer, DCM and flexibility estimators, filters, kinematics, indexed arrays and their files, logger, sensors, control helper) has exactly the effect of giving the defaults its declaration documents: contacts and IMUs without a number take the first free one, contacts without gains and measurements without covariances use the default ones, flags left out mean everything, resets and switches are on, files have time stamps and are overwritten. Overloads documented as forms of one call agree: orientations as angle, 2D or 3D matrix, inertia as matrix or six numbers, results returned or filled, names as string or characters, records and pushes by address or reference.",
 ["inputs","configurations"],"every number of omitted arguments of each function with defaults, every pair of equivalent forms, over the explored prior states and values",
 "The tests call each function in one form, mostly with every argument given.",
 [I+"dynamics-estimators/kinetics-observer.hpp","src/kinetics-observer.cpp",I+"dynamics-estimators/lipm-dcm-estimator.hpp",I+"dynamics-estimators/unidim-lipm-dcm-estimator.hpp",I+"tools/rigid-body-kinematics.hpp",I+"tools/definitions.hpp",I+"tools/logger.hpp",I+"observer/extended-kalman-filter.hpp"],
 [("default arguments","the declarations in the headers listed"),("numbering of IMUs and contacts","src/kinetics-observer.cpp: setIMU, addContact")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
