prop("C01", "Time-indexed containers behave as a gap-free map from time to value",
 "For every sequence of operations (writing at a time, appending, relabelling the first or the last time, removing from either end, truncating before or after a time, resizing, clearing), a time-indexed list of vectors or matrices holds exactly the values written at the times they were written, over a contiguous range of times whose first, last, next and size queries and membership test agree with the content. A time-stamped value and a checked value return exactly what was last set, report being set or unset accordingly, and an access outside the stored range or to an unset value is rejected, never answered with other data.",
 ["histories"], "all operation sequences, element sizes and (large) time indices",
 "Tests append a few vectors in order; they never mix truncation, relabelling, popping and overwriting.",
 [I+"tools/definitions.hpp", I+"tools/definitions.hxx", "src/definitions.cpp"],
 [("IndexedMatrixArrayT, IndexedMatrixT, CheckedItem", I+"tools/definitions.hxx")])
prop("C02", "Vectors and time series survive the trip through text and files",
 "Whatever vectors, matrices or time series are written as text (in memory or in a file, with or without time stamps), reading the text back gives the same number of elements, the same times, the same sizes and the same values to the written precision, and the file contains nothing else. Reading a text with blank, short or missing parts never invents elements.",
 ["inputs"], "all sizes, values (huge, tiny, negative), lengths and starting times",
 "Tests never read back what they write.",
 [I+"tools/definitions.hxx", I+"tools/miscellaneous-algorithms.hpp", "src/definitions.cpp"],
 [("writeInFile/readFromFile, vectorToString/stringToVector", I+"tools/definitions.hxx")])
prop("C03", "Observer bookkeeping: the estimate depends only on the recorded history",
 "For every discrete-time filter and any order of giving the initial state, measurements and inputs, the estimate at an instant depends only on the last state given and the measurements and inputs of the following instants: asking in one go, step by step or repeatedly, and giving data early, yields the same estimates. The filter reports the current instant, the last measurement and input and their instants faithfully; clearing or resetting forgets exactly what was given, and data that cannot be used (wrong size, an instant already passed, a gap) is rejected.",
 ["histories"], "all histories of set/get/clear calls on the linear and the extended filters",
 "Tests run a single fixed loop: set measurement, set input, ask next estimate.",
 ["src/zero-delay-observer.cpp", "src/observer-base.cpp", "src/kalman-filter-base.cpp", "src/extended-kalman-filter.cpp", "src/linear-kalman-filter.cpp"],
 [("ZeroDelayObserver queues x_, y_, u_", "src/zero-delay-observer.cpp"), ("prediction caches", "src/extended-kalman-filter.cpp")])
prop("C04", "The linear Kalman filter computes the textbook estimate and covariance",
 "For every linear model with process and measurement noise covariances, input and direct feed-through (constant or changing at each step), the estimate, its covariance, the innovation, the prediction and the simulated and predicted measurements equal those of the standard Kalman filter recursion. The covariance stays symmetric and positive semi-definite and never exceeds the predicted one.",
 ["inputs", "histories"], "all dimensions, model matrices, covariances and data sequences",
 "Tests check that the final error is small on one system.",
 ["src/linear-kalman-filter.cpp", "src/kalman-filter-base.cpp"],
 [("KalmanFilterBase::oneStepEstimation_", "src/kalman-filter-base.cpp")])
prop("C05", "The extended Kalman filter linearises and corrects around the true model",
 "For every differentiable process and measurement model, including states and measurements that live on manifolds through user supplied sum and difference operations, the extended filter's estimate and covariance equal the standard recursion evaluated with the model's own predictions at the current state and input. Finite-difference Jacobians match the analytic ones for additive and manifold arithmetics, and predictions never reflect an older state, input or model.",
 ["inputs", "histories"], "all models, arithmetics, input/feed-through declarations and call histories",
 "Tests use an additive linear model and check the final error only.",
 ["src/extended-kalman-filter.cpp", "src/kalman-filter-base.cpp", "src/state-vector-arithmetics.cpp"],
 [("prediction_, getAMatrixFD, getCMatrixFD", "src/extended-kalman-filter.cpp")])
prop("C06", "Conversions between rotation representations describe the same rotation",
 "For every rotation, converting between rotation matrix, quaternion, rotation vector, angle-axis and roll-pitch-yaw, in any order, preserves the rotation; skew-symmetric, cross product, homogeneous transform and inverse operations satisfy their defining identities, and re-orthogonalising gives a proper rotation near the input. Results stay finite and accurate for null, tiny, near-half-turn and multi-turn angles (for roll-pitch-yaw, away from the exact gimbal lock where the pitch is a quarter turn).",
 ["inputs"], "all rotations, including null, tiny, near pi, and multi-turn ones",
 "Tests sample one or two generic rotations per conversion.",
 [I+"tools/rigid-body-kinematics.hpp", I+"tools/rigid-body-kinematics.hxx"],
 [("kine namespace conversions", I+"tools/rigid-body-kinematics.hxx")])
prop("C07", "An orientation object is one rotation whatever the representation in use",
 "Whichever representation (matrix, quaternion, rotation vector, angle-axis, roll-pitch-yaw) an orientation was set, composed, inverted, integrated, differentiated or copied from, and in whatever order the representations are queried or refreshed, all of its views describe the same rotation, the one obtained by the same operations on rotation matrices. Reading never changes the orientation, and one that was never set reports so.",
 ["histories"], "all sequences of assignments, compositions, integrations and queries",
 "Tests check each constructor once.",
 [I+"tools/rigid-body-kinematics.hpp", I+"tools/rigid-body-kinematics.hxx"],
 [("kine::Orientation lazy matrix/quaternion cache", I+"tools/rigid-body-kinematics.hxx")])
prop("C08", "Rigid-body kinematics compose and invert like moving frames",
 "For all moving frames, composing kinematics gives the position, orientation, velocities and accelerations of the composed motion, as obtained by differentiating the composed pose over time; composition is associative, the inverse cancels on both sides, and changing between equivalent compositions changes nothing. Components are declared known only when the operands' known components determine them (an angular acceleration needs those of both operands, for instance), and known ones have the same value whatever other components are known.",
 ["inputs", "configurations"], "all kinematics and all combinations of known components",
 "Tests check the inverse on a few random samples with every component known.",
 [I+"tools/rigid-body-kinematics.hpp", I+"tools/rigid-body-kinematics.hxx"],
 [("kine::Kinematics setToProduct, getInverse", I+"tools/rigid-body-kinematics.hxx")])
prop("C09", "Integrating and updating kinematics follows the equations of motion",
 "Integrating kinematics over a time step advances pose and velocities consistently with constant accelerations, to the order of the step; updating kinematics with a new partial sample fills in the missing components consistently with the previous sample, the new one and the step, for every combination of known components, and copies the known ones exactly. Velocities reconstructed from two sampled poses, and accelerations from two sampled velocities, agree with the true motion to the order of the step.",
 ["inputs", "configurations"], "all motions, steps and combinations of known components",
 "Tests integrate one trajectory with all components known.",
 [I+"tools/rigid-body-kinematics.hpp", I+"tools/rigid-body-kinematics.hxx"],
 [("kine::Kinematics integrate, update", I+"tools/rigid-body-kinematics.hxx")])
prop("C10", "Merging and extracting tilt and yaw keeps each part",
 "For all pairs of orientations, merging the tilt of one with the yaw of the other gives a rotation that has exactly the tilt of the first and the requested heading, for roll-pitch-yaw and for axis-agnostic merging, including the configurations where a yaw angle is singular. Tilt and yaw extraction and the frame-invariance tests agree with the definition of the direction of gravity and of the heading in the horizontal plane.",
 ["inputs"], "all pairs of rotations and horizontal axes, including singular ones",
 "Tests check random pairs, never singular attitudes.",
 [I+"tools/rigid-body-kinematics.hpp", I+"tools/rigid-body-kinematics.hxx"],
 [("mergeTiltWithYaw*, rotationMatrixToYaw*", I+"tools/rigid-body-kinematics.hxx")])
prop("C11", "The tilt estimator implements its complementary filter equations",
 "At every step the tilt estimator's state evolves by its documented complementary filter from the measured acceleration, angular rate and velocity and the sensor's kinematics in the control frame, with the current gains and sampling period; the estimated gravity directions are of unit length after each step. With consistent noise-free data the estimated tilt converges to the true one from any initial tilt, and stays there.",
 ["inputs", "histories"], "all gains, trajectories, control frames and initial states",
 "No existing test runs the tilt estimator.",
 ["src/tilt-estimator.cpp", I+"observer/tilt-estimator.hpp"],
 [("TiltEstimator::oneStepEstimation_", "src/tilt-estimator.cpp")])
prop("C12", "The planar DCM estimator solves the LIPM with bias in the right frame",
 "The planar estimator's bias and DCM equal those of a Kalman filter on the linear inverted pendulum dynamics with a bias that is constant in the robot's local frame, for any sequence of ZMP and DCM measurements, headings, and changes of the pendulum frequency, sampling time, noise levels and bias drift, which take effect as configured. Local and world values of the bias are consistent with the heading, the reported bias respects the configured limit, and correcting the DCM or restarting the estimation keeps what is documented.",
 ["inputs", "histories"], "all measurement sequences, headings and configuration histories",
 "Tests check the final bias on one walk.",
 ["src/lipm-dcm-estimator.cpp", I+"dynamics-estimators/lipm-dcm-estimator.hpp"],
 [("LipmDcmEstimator::update", "src/lipm-dcm-estimator.cpp")])
prop("C13", "The one-dimensional DCM estimator solves the LIPM with bias",
 "The one-dimensional estimator's bias and DCM equal those of a Kalman filter on the linear inverted pendulum dynamics with a slowly drifting bias, for any sequence of ZMP and DCM measurements and any history of changes of frequency, sampling time, noise levels and bias drift, which take effect as configured. With exact measurements and constant bias the estimates converge to the truth.",
 ["inputs", "histories"], "all measurement sequences and configuration histories",
 "Tests check the final bias on one walk.",
 ["src/unidim-lipm-dcm-estimator.cpp", I+"dynamics-estimators/unidim-lipm-dcm-estimator.hpp"],
 [("UnidimLipmDcmEstimator::update", "src/unidim-lipm-dcm-estimator.cpp")])
prop("C14", "Simulated inertial sensors and motion models obey rigid-body physics",
 "For every attitude, rate and acceleration, the simulated accelerometer, gyrometer and magnetometer return the specific force, angular rate and magnetic field expressed in the sensor frame, followed by the raw extra signals, with noise added only when one is set; sizes and zero values are consistent. The inertial motion models integrate position, velocity, attitude and rate over the sampling period as the motion of a rigid body, and measure through those same sensors.",
 ["inputs", "histories"], "all states, inputs, sampling periods and sensor configurations",
 "Tests only check the estimation error of a filter that uses the same model for simulation and estimation.",
 ["src/accelerometer-gyrometer.cpp", "src/accelerometer-gyrometer-magnetometer.cpp", "src/algebraic-sensor.cpp", "src/sensor-base.cpp", "src/linear-acceleration.cpp", "src/rotation-velocity.cpp", "src/magnetic-field.cpp", "src/imu-dynamical-system.cpp", "src/imu-magnetometer-dynamical-system.cpp", "src/imu-mltpctive-dynamical-system.cpp", "src/imu-fixed-contact-dynamical-system.cpp", "src/stable-imu-fixed-contact-dynamical-system.cpp", "src/bidim-elastic-inv-pendulum-dyn-sys.cpp"],
 [("algorithm::LinearAcceleration, RotationVelocity, MagneticField", "src/"), ("stateDynamics/measureDynamics", "src/imu-*-dynamical-system.cpp")])
prop("C15", "The simulator reproduces the iterated model whatever the query order",
 "For every model, initial state and input sequence, the states and measurements returned by the simulator at any instant, asked in any order and any number of times, are those of iterating the model one instant at a time with the input of each instant (the last given one until changed), each instant being evaluated once and remembered. Giving a state at an instant replaces that state and everything simulated after it, and nothing before; giving an input again replaces it for what is simulated afterwards.",
 ["histories"], "all orders of setting states and inputs and of asking states and measurements",
 "Tests simulate forward and then read the arrays once.",
 ["src/dynamical-system-simulator.cpp", "src/dynamical-system-functor-base.cpp"],
 [("DynamicalSystemSimulator", "src/dynamical-system-simulator.cpp")])
prop("C16", "Simulated noise has the requested mean and covariance",
 "For every mean and positive semi-definite covariance, including singular ones, the noise added by the Gaussian noise models and random generators has that mean and covariance, independent from one draw to the next, and the noisy value is the given value plus the noise. Uniform draws stay in range and random rotations are valid rotations.",
 ["inputs", "configurations"], "all dimensions, means and covariances",
 "Tests never look at the statistics of the noise.",
 ["src/gaussian-white-noise.cpp", "src/probability-law-simulation.cpp", I+"tools/probability-law-simulation.hxx"],
 [("GaussianWhiteNoise::setCovarianceMatrix", "src/gaussian-white-noise.cpp")])
prop("C17", "The logger records every pushed value of every tracked variable",
 "For any interleaving of adding, removing and re-addressing variables, pushing values, clearing and saving, the logger's record of a variable is exactly the sequence of values it had when pushed, under its own name, type and time index, and other variables' records are unaffected. The saved files contain these records and nothing else, and misuse (unknown variable, wrong type) is reported.",
 ["histories"], "all interleavings of logger operations on all supported types",
 "No test uses the logger except to write one file.",
 [I+"tools/logger.hpp", I+"tools/logger.hxx", "src/logger.cpp"],
 [("tools::Logger", "src/logger.cpp")])
prop("C18", "Kinetics observer: contacts, sensors and flags keep consistent state layouts",
 "For any valid history of adding, updating and removing contacts, of adding IMUs and updating their measurements, of enabling and disabling biases, wrenches and forces, and of setting parts of the state, the kinetics observer keeps its contacts, state, covariance and measurement of matching sizes and contents: each quantity stays where it was set, removed ones leave no trace, and untouched parts and their covariances do not change. Each update is one step of the extended Kalman filter on the observer's own models with the configured noises, and the covariance stays symmetric and positive semi-definite as long as the filter is well conditioned.",
 ["histories"], "all histories of contact, sensor, flag and state operations, with updates in between",
 "The test uses one fixed set of contacts and one fixed sequence.",
 ["src/kinetics-observer.cpp", I+"dynamics-estimators/kinetics-observer.hpp", I+"dynamics-estimators/kinetics-observer.hxx"],
 [("addContact, removeContact, setIMU, setState*, reset*CovarianceMat", "src/kinetics-observer.cpp")])
prop("C19", "Kinetics observer: manifold arithmetic and dynamics are consistent",
 "For all states, the observer's state sum and difference are inverse of each other and keep orientations valid, its analytic and finite-difference Jacobians agree with its own dynamics, and its predicted accelerations satisfy the Newton-Euler equations for the configured mass, inertia, centre of mass, angular momentum and all contact and external wrenches; the wrench of a contact follows the configured springs and dampers applied to the displacement and velocity of its frame. Measurements predicted for IMUs (with the estimated gyrometer bias), contact wrenches and the pose agree with the rigid-body kinematics of the state.",
 ["inputs", "configurations"], "all states, contacts, inertial parameters and sensor configurations",
 "Tests compare two Jacobians of the same code at one state.",
 ["src/kinetics-observer.cpp"],
 [("stateSum, stateDifference, stateDynamics, measureDynamics, computeAccelerations_", "src/kinetics-observer.cpp")])
prop("C20", "Flexibility estimators: configured options take effect, estimates stay sound",
 "For any history of configuration (up to two modelled elastic contacts, sampling period, noise levels, guesses, masses, optional measurements and limits) and data, the flexibility estimators run with exactly the configured model, keep sizes and covariances consistent, give at every instant the estimate of the corresponding extended Kalman filter step, keep every contact force and moment within its limit when the limits are on, and survive a broken measurement. The estimate converges to the flexibility that generated the data, from any moderate initial error.",
 ["histories", "configurations"], "all configuration and data histories",
 "Tests replay one scenario and check the final error.",
 ["src/model-base-ekf-flex-estimator-imu.cpp", "src/fixed-contact-ekf-flex-estimator-imu.cpp", "src/ekf-flexibility-estimator-base.cpp", "src/flexibility-estimator-base.cpp"],
 [("ModelBaseEKFFlexEstimatorIMU", "src/model-base-ekf-flex-estimator-imu.cpp")])
prop("C21", "The elastic contact model obeys Newton-Euler and its stated elasticity",
 "For all states and inputs with up to two contacts, the accelerations, contact forces and moments and momentum derivatives of the flexible-base model satisfy the Newton-Euler equations for the configured mass, inertia, centre of mass and contacts with the configured stiffness and damping; its integration schemes agree to the order of the step, its measurements equal the rigid-body kinematics of the sensor, and its Jacobians match the finite differences of its own dynamics (disabled optional parts of the state being constant).",
 ["inputs", "configurations"], "all states, inputs, contact sets, inertial and elastic parameters",
 "Tests run the model inside the estimator on one scenario.",
 ["src/imu-elastic-local-frame-dynamical-system.cpp"],
 [("computeAccelerations, computeElasticContactForces, iterateDynamics*", "src/imu-elastic-local-frame-dynamical-system.cpp")])
prop("C22", "No valid use reads or writes outside its memory or uninitialised data",
 "Whatever valid sequence of calls is made to any part of the library, nothing reads or writes outside the memory it owns, uses freed or never initialised memory, or executes undefined behaviour, and no internal run-time assertion fires. Copies and assignments of containers, kinematics, filters, LIPM and tilt estimators, sensors, dynamical models and simulators, and destruction in any order, leave the remaining objects usable and independent: each copy goes on exactly as a new object with the same history would.",
 ["histories", "inputs"], "all valid call sequences over all public classes, including copies and destruction orders",
 "Tests run without sanitizers on one path per class.",
 ["src/", I],
 [("all", "src/")])
prop("C23", "Separate objects used from separate threads do not interfere",
 "Using different estimators, models, sensors, kinematics and containers from different threads at the same time has no data race and gives exactly the results of using each of them alone, in any schedule. No estimator's result depends on other instances created, used or destroyed in the same program.",
 ["schedules", "histories"], "all schedules of independent objects in several threads, and all interleavings of instances in one thread",
 "No test uses more than one thread or interleaves instances.",
 ["src/", I],
 [("no mutable shared state, except the documented random generator", I+"tools/probability-law-simulation.hpp")])
