HOOKS = {"guard": "none", "enable": "no hooks are needed: the checks drive the public interfaces of the library"}
NOTES = "Specification language: TLA+ (TLC). All harnesses are compiled from /repo's working tree by lib/build.py."
TECH, NOTE, NA = {}, {}, {}

prop("P01", "Measurement handles: sharing, cloning, timestamps and validity",
 "A measurement is a handle on a payload plus its own timestamp: copies share one payload (a write through one is seen by all), clones never do, a payload lives exactly as long as some handle refers to it, and constructing, copying, cloning, casting or releasing never alters a payload value or another handle's timestamp. A measurement is invalid exactly when its timestamp is zero, invalidating touches only that handle's timestamp, and cloning an empty measurement gives an empty measurement with the same timestamp. The printed form of an invalid measurement is INVALID, and that of a valid one is its value followed by its time of day.",
 ["histories", "inputs"], "every finite sequence of constructions, copies, clones, casts, writes, timestamp changes, invalidations, releases and swaps over any number of handles, every payload type, every 64-bit timestamp",
 "sharing errors show only in particular multi-step histories over several handles; a test samples a handful",
 ["src/utMeasurement/Measurement.h"], [("reference-counted payload", "Measurement.h: class Measurement"), ("clone", "Measurement.h: Measurement::clone")],
 state="payload heap and (reference, timestamp) per handle", observe="payload value, sharing, use count, timestamp, validity, printed form")

prop("P02", "Serialisation round trips and message streams",
 "Whatever sequence of values of the supported types (scalars, strings, vectors of fixed and dynamic size, square and non-square matrices, quaternions, poses, values with covariance, camera intrinsics with every lens model, lists, and time-stamped measurements of all of these) is written to one stream, reading the same types back in the same order yields exactly the same values and timestamps, bit for bit, in every supported format (boost text and binary archives, msgpack, and the framed message serialisers built on them), and consumes exactly what was written, however writes and reads interleave. A measurement without payload is read back as a measurement without payload by the framed serialisers and refused by the plain archives. When the stream holds no further message the reader reports an error or leaves the variable as it was, rather than returning a made-up value; msgpack refuses a value of another width. The format a serialiser claims is the format it writes.",
 ["inputs", "histories"], "every finite value of every supported type, every sequence of writes and reads, every supported format",
 "a round trip must hold for every value, shape and sequence; tests sample single values of a few types",
 ["src/utSerialization/BoostArchiveSerializer.h", "src/utSerialization/MsgpackSerializer.h", "src/utSerialization/BaseSerializer.h", "src/utMath/*.h"],
 [("boost archives", "BoostArchiveSerializer.h"), ("msgpack adaptors", "MsgpackSerializer.h"), ("member serialisation", "Vector/Matrix/Quaternion/Pose/ErrorPose/ErrorVector/CameraIntrinsics/Measurement ::serialize")],
 state="queue of written messages and the reader position", observe="values read, exceptions")

prop("P03", "Clock synchronisation of sensor timestamps, calendar time",
 "Converting native sensor ticks to local time keeps to its contract for every event history: the event counter counts the events, the first event maps to its own local time, a sensor clock running exactly at its nominal rate is converted exactly whatever the spacing of its events, once the estimator has settled isolated late or early arrivals do not disturb the converted times, a persistent shift of the local clock is followed within two thousand events however long the clock ran undisturbed before, and a clock with a constant rate error is tracked. The least-squares variant hands back the first events unchanged and then reproduces an exactly linear clock of any rate, unimpressed by single outliers within its window. A timestamp prints in its long form as the UTC calendar date and time it denotes and in its short form as the local time of day, for every 64-bit value within the calendar range, and the current time agrees with the system clock.",
 ["histories", "inputs"], "every sequence of (native tick, local time) events and every timestamp",
 "the estimator is stateful over unbounded event histories", ["src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSync.h", "src/utMeasurement/TimestampSyncLS.h", "src/utMeasurement/Timestamp.cpp"],
 [("drift estimation", "TimestampSync::convertNativeToLocal"), ("least squares window", "TimestampSyncLS")], state="event count, drift gain, averages", observe="converted timestamps")

prop("P04", "Rigid transforms form a group acting on points, with short-way interpolation",
 "Poses and quaternions behave as the group of rigid motions and its action, for every sequence of operations: composing poses composes their actions on points and their 3x4 and 4x4 matrices, inverting undoes a pose on either side, the action preserves distances, scaling a pose scales only its translation, conversion to and from matrices and 7-vectors loses nothing, and equality holds exactly for equal components. Rotating a vector by a quaternion agrees with its rotation matrix. Normalising keeps the rotation. negateIfCloser returns whichever of q and -q is closer to the reference. Linear interpolation between two poses moves the translation uniformly on the straight line and the rotation uniformly the shorter way round, reaching exactly the end points, whichever signs the quaternions have and however close the two rotations are.",
 ["inputs", "histories"], "all rotations (including half turns, tiny angles and the cube group), all translations, all sequences of operations, all interpolation parameters in [0,1]",
 "group laws quantify over all rotations; the hard cases (half turns, signs, near-equal rotations) are measure-zero for sampled tests",
 ["src/utMath/Pose.cpp", "src/utMath/Pose.h", "src/utMath/Quaternion.cpp", "src/utMath/Quaternion.h", "src/utMath/Matrix.h"],
 [("composition, inversion, action", "Pose.cpp: operator*, operator~"), ("slerp", "Quaternion.cpp: slerp"), ("matrix conversion", "Matrix.h / Quaternion.cpp: toMatrix, fromMatrix")],
 state="registers holding rigid transforms", observe="quaternion up to sign, translation, matrices, images of points")

prop("P05", "Rotation representations convert without changing the rotation",
 "Any chain of conversions among the representations of a rotation (quaternion, 3x3 matrix, rotation vector, axis and angle, via RotationCast, the quaternion constructors, toLogarithm / fromLogarithm, toAxisAngle, and Euler angles in all six axis orders) denotes the same rotation at its end as at its start, in double precision and in single precision, for every rotation including the identity, exact and nearly half turns and the gimbal lock, and never produces a NaN. The quaternion constructed from an axis of any non-zero length and an angle is that rotation. The angle of a quaternion lies between no and half a turn and is the angle of its rotation. The rotation velocity between two orientations, integrated over the same time, leads from the first to the second the shorter way round, and integrated over multiples of it leads to the corresponding powers.",
 ["inputs", "histories"], "all rotations, all chains of conversions, all axes and angles",
 "conversion formulas have branches at half turns, at the identity and at the gimbal lock that sampled rotations never reach",
 ["src/utMath/Quaternion.cpp", "src/utMath/Quaternion.h", "src/utMath/Util/RotationCast.h", "src/utMath/RotationVelocity.h", "src/utMath/Util/TypeToVector.h"],
 [("casts", "RotationCast.h"), ("Euler angles", "Quaternion.cpp: getEulerAngles"), ("logarithm", "Quaternion.cpp: toLogarithm"), ("velocity", "RotationVelocity.h")],
 state="the rotation and its current representation", observe="rotation matrix of the current representation")

prop("P06", "Uncertainty propagation, error poses and the Kalman measurement update",
 "Covariances are propagated to first order exactly: composing, inverting and invert-multiplying poses with error, and transforming points with error by poses with error, give the composed value and the covariance J C J^T of the exact Jacobians under the library's multiplicative error model (translation error in the target frame, rotation error e on the right of the rotation); converting a pose covariance to its additive 7x7 form uses the same model. A linear (affine) function of an estimate, of a part of it or of two independent estimates transforms mean and covariance accordingly, leaving the other components and adjusting their cross covariances. A Kalman measurement update with a linear measurement of any part of the state gives the least-squares combination of prior and measurement: information adds up, the order of measurements does not matter, the covariance stays symmetric, positive definite and never grows, and the identity-measurement, dynamic-size and fixed-size entry points agree. Backward propagation of a measurement covariance (identity, diagonal or full) through a Jacobian J yields (J^T C^-1 J)^-1.",
 ["inputs", "histories"], "all sequences of transformations and measurement updates on all registers of estimates, all sub-ranges and dimensions",
 "a wrong Jacobian block changes only covariances, which tests hardly look at, and only for general rotations and correlated errors",
 ["src/utMath/ErrorPose.cpp", "src/utMath/ErrorPose.h", "src/utMath/Stochastic/CovarianceTransform.h", "src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/BackwardPropagation.h"],
 [("error pose algebra", "ErrorPose.cpp"), ("J C J^T", "CovarianceTransform.h"), ("measurement update", "Kalman.h: kalmanMeasurementUpdate"), ("backward propagation", "BackwardPropagation.h")],
 state="registers of poses with 6x6 covariance; registers of information matrix and vector", observe="mean and covariance of every result")

prop("P07", "Pose and orientation tracking filters",
 "For every history of measurements, time updates and predictions the pose filter (position derivatives up to order two, orientation velocity or none, normal and inside-out) and the rotation-only filter behave as the Kalman filter of their motion model. Predicting before any absolute pose or rotation was measured is refused and angular velocities measured before it are ignored; the first absolute measurement is taken as it is. For positions, and for small rotations about any orientation, the estimated means and variances of all derivatives are exactly those of the linear filter, whether measurements are new or from the past, and the sign of a measured quaternion is irrelevant. The process noise set for an order adds |dt| times its square to the variance of that order, and nothing is added where none is set. Predictions, for past and future times, carry the requested time and change nothing. A measured angular velocity (also one measured from the other side) is extrapolated as the uniform rotation it denotes, moving an inside-out tracked position along its circle; measurements that agree with the motion leave it unchanged; angular velocities beyond ten radians per second are reset to zero; a new pose measured repeatedly is taken over. Inside-out tracking with unsupported orders is refused.",
 ["histories", "inputs"], "all sequences of measurements, time updates and predictions, in any order of their times",
 "the filters are stateful; a wrong Jacobian or time difference shows only in covariances and after several differently timed measurements",
 ["src/utTracking/PoseKalmanFilter.cpp", "src/utTracking/PoseKalmanFilter.h", "src/utTracking/LinearPoseMotionModel.h", "src/utTracking/LinearPoseMotionModel.cpp", "src/utTracking/RotationOnlyKF.cpp", "src/utTracking/Function/*.h", "src/utMath/Optimization/Function/RotationVelocityIntegration.h"],
 [("pose filter", "PoseKalmanFilter.cpp"), ("motion model", "LinearPoseMotionModel"), ("orientation", "RotationOnlyKF.cpp")],
 state="estimate in information form per axis; orientation, angular velocity, position", observe="means, variances, predicted poses")

prop("P08", "Registration: absolute orientation, tool tip and hand-eye calibration",
 "From exact data each estimator recovers the motion that produced it, for every non-degenerate configuration and in double and single precision. Point-set registration (absolute orientation, pose, rotation as matrix or quaternion, scale) recovers it for all non-collinear sets, planar ones, three points and half turns included; it remains the least-squares solution when points carry opposite paired errors; its residual, covariance residual*(J^T J)^-1 and the optimisation from a nearby guess agree with that model; the RANSAC versions find the motion from exactly the inliers among up to a third of outliers, report inlier flags and count, and report failure when more inliers are demanded than exist. Tool-tip calibration (closed form, optimised, RANSAC, error statistics) finds the point that stays fixed in the world. Hand-eye calibration (Tsai-Lenz on poses or 4x4 matrices over all pairs or neighbours, dual quaternions on poses or relative motions, the online rotation filters) finds X with hand*X*eye constant whatever the signs of the quaternions and for small and large rotations; lists of different sizes are refused and two or fewer poses give the identity; the generated relative motions are the n(n-1)/2 motions between all pairs.",
 ["inputs", "histories"], "all point sets, motions, outlier positions, orders of measurements and quaternion signs",
 "degenerate-looking but valid configurations (planar, minimal, half turns, sign flips) and outlier positions are not sampled by random tests",
 ["src/utAlgorithm/PoseEstimation3D3D/*", "src/utAlgorithm/PoseEstimation6D6D/*", "src/utAlgorithm/ToolTip/*", "src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.*"],
 [("absolute orientation", "AbsoluteOrientation.h / Optimization.h / Ransac.h"), ("tool tip", "ToolTip/TipCalibration.*, Optimization.*, Ransac.*"), ("hand-eye", "PoseEstimation6D6D/TsaiLenz.*, DualQuaternion.*")],
 state="point pairs / pose pairs fed so far and the hidden motion", observe="estimated motion, residual, covariance, inlier flags")

prop("P09", "Assignment: Munkres finds a minimal complete matching",
 "For every matrix of finite costs, of any shape, sign and with any number of ties, in double, single precision or integers, solving terminates, and the row list, the column list and the mask matrix all describe the same kind of result: a one-to-one assignment (a permutation of the square matrix that the smaller side is padded to) that matches every row or every column of the given matrix, with the smallest possible sum of costs. A solver object can be given another matrix and solved again, with the result of the new matrix only.",
 ["inputs", "histories"], "all cost matrices and all sequences of problems given to one solver",
 "optimality quantifies over all permutations; the augmenting and shifting steps are only reached by matrices whose row minima do not form a matching",
 ["src/utMath/Graph/Munkres.h"], [("algorithm", "Munkres.h: step1 .. step5, setMatrix, solve")],
 state="reduced costs, stars, primes, covers", observe="row list, column list, mask matrix, their cost")

prop("P10", "Projective geometry: cameras, homographies, epipolar geometry, triangulation",
 "From exact images of points in front of the cameras, in double and single precision: the projection matrix of six or more points in general position is recovered (third row of length one, positive depth); decomposing any multiple of K[R|t] of a camera that sees the origin gives back K (upper triangular, K11 > 0, K33 = -1), R and t; homographies from four or more points and from the corners of the unit square are recovered up to scale; the fundamental matrix of two cameras, from their poses and from sixteen or more points (also taking only every n-th of the given points), satisfies x'Fx = 0, and the relative pose with unit baseline is recovered from it and one point; points are triangulated from two or more views, with or without refinement, with residual zero; image points of two views given in any order, also with one missing on either side, are matched along epipolar lines and reconstructed in the order of the first list; the distance from an epipolar line is the squared point-line distance. Too few points, step zero and lists of different sizes are refused. The OpenGL matrix of a camera maps the image borders to -1 and 1 and the near and far distance to -1 and 1; the off-axis matrix does the same for a screen anywhere in space seen from any eye point in front of it; correctOrigin turns the image upside down exactly if the origin flag is zero. Applying 2x3, 3x3, 3x4 and 4x4 matrices to points of two to four coordinates, and projecting them, treats missing coordinates as (0, 1); normalising points subtracts their mean and divides by their standard deviation.",
 ["inputs"], "all cameras, scales and signs of projective quantities, point sets, numbers of views",
 "projective quantities are only defined up to scale and sign; errors show only for general intrinsics (skew, flipped axes, offsets), scaled matrices and unequal lists",
 ["src/utAlgorithm/Projection.cpp", "src/utAlgorithm/Homography.cpp", "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/FundamentalMatrix.h", "src/utAlgorithm/3DPointReconstruction.cpp", "src/utMath/Geometry/PointProjection.h", "src/utMath/Geometry/PointTransformation.h", "src/utMath/Geometry/PointNormalization.h"],
 [("projection", "Projection.cpp"), ("homography", "Homography.cpp"), ("epipolar geometry", "FundamentalMatrix.cpp"), ("triangulation", "3DPointReconstruction.cpp"), ("point functors", "PointTransformation.h, PointProjection.h")],
 state="a rig of cameras and world points", observe="recovered matrices (relative to their largest entry), poses, points, normalised device coordinates")
prop("P11", "Pose from images: one camera, several cameras, bundle adjustment",
 "For exact images of a known body in front of a camera (Ubitrack convention, K33 = -1, body at negative z): computePose returns the true pose, residual 0 and a vanishing covariance, with and without refinement, when the first four or more points lie in any plane z = const (also z not 0) or the first four lie in a tilted plane, whatever points follow, and for six or more points in space with the projective initialisation; it refuses fewer than four points and a first triple on one line. poseFromHomography inverts K[r1 r2 t] up to any scale and sign. For images that fit no pose the residual is the root mean square reprojection error per coordinate of the returned pose, the covariance is that of singleCameraPoseError for the sum of squares, and refining does not make the error larger. optimizePose never ends with a larger error than it starts with, returns the error of the pose it leaves behind, and finds the true pose from a start nearby. singleCameraPoseError and multipleCameraPoseError are imageError times the inverse of the sum of J'J over the observations given, J by (translation, multiplicative rotation error). The iterative estimation from normalised images converges to the true pose of a body in front. Estimation from several cameras with known poses returns the true pose and weight 0 for every bundle in which every camera sees at least the required number of points (and one sees four, or a start pose is given), ignoring points of weight 0; otherwise weight -1 and the identity; inconsistent input is refused. Bundle adjustment leaves exact poses and points alone, never increases the reprojection error, and removes it for small disturbances of points and poses.",
 ["inputs"], "all poses, cameras, bodies, visibility patterns, orders of points, starting values",
 "the repository's tests sample random poses with a loose bound on the residual; errors in a starting value, an offset or a Jacobian are masked by the refinement for most inputs",
 ["src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "src/utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.h", "src/utAlgorithm/BundleAdjustment.cpp", "src/utAlgorithm/Function/MultiplePointProjection.h", "src/utAlgorithm/Function/MultiplePointProjectionError.h", "src/utAlgorithm/Function/MultipleCameraProjectionError.h"],
 [("pose from homography and points", "PlanarPoseEstimation.cpp"), ("iterative estimation", "NonPlanarPoseEstimation.cpp"), ("several cameras", "MultipleCameraPoseOptimization.cpp"), ("bundle adjustment", "BundleAdjustment.cpp")],
 state="a body, its pose, a rig of cameras and what each of them sees", observe="estimated poses, residuals, weights, information matrices, reprojection error before and after")
prop("P12", "Optimisation: damped least squares and random sample consensus",
 "Levenberg-Marquardt (double and single precision; Cholesky, QR or SVD) is the state machine of damped least squares: each trial is params + (J'WJ + lambda I)^-1 J'W(measurement - prediction), normalised; it is kept if and only if it makes the (weighted) squared error smaller - an undefined error never counts as smaller - and then lambda is divided by the step factor, otherwise multiplied by it; the problem is asked for exactly these parameters, the termination criterion is asked once per iteration with its number, the new and the previous error, and the returned error is that of the parameters left behind. On linear problems repeated steps reach the (weighted) least squares solution, and so does Gauss-Newton. OptTerminate stops at its number of iterations or when the error changes by less than its fraction of the previous error. RANSAC, for every behaviour of estimator and evaluator: samples have the requested size (without repetition where the list is shuffled), the values are judged in order until all are or enough inliers have become impossible; the largest set with at least the required inliers (the first of equals) is kept; it stops after the first success (or at the least number of runs) and never after more than the most; the result is estimated from exactly the inliers of that set and their number returned, with the inlier flags where asked for; failure (0 or the estimator's exception) is reported exactly if no run had enough inliers or the final estimate fails. Automatic parameters: threshold and set size as given, (1-p)n required inliers, least number of runs that succeeds with the requested probability.",
 ["inputs", "histories"], "all problems, error sequences (also undefined errors), weights; all answers of estimator and evaluator, all sample sizes and run limits",
 "the control flow depends on the answers of the problem, which tests with well-behaved problems never vary; a wrong step is hidden by later iterations",
 ["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/GaussNewton.h", "src/utMath/Optimization/Optimization.h", "src/utMath/Optimization/Ransac.h"],
 [("damped least squares", "LevenbergMarquardt.h"), ("Gauss-Newton", "GaussNewton.h"), ("termination", "Optimization.h: OptTerminate"), ("consensus", "Ransac.h")],
 state="current parameters, error and damping; runs made, inliers of the current and the best run", observe="parameters asked for, calls of the criterion, calls of estimator and evaluator, results")

prop("P13", "Lens distortion and camera intrinsics",
 "Distorting an image point applies exactly the documented rational radial model (k1 to k6) plus the tangential terms (p1, p2) to the sensor point behind it - for cameras looking along +z or -z, with skew, single points and lists (whatever the result list held before, also in place), double and single precision - and the derivatives by the point and by the parameters are those of that function; projecting a point of space with distortion is the same as distorting its image. Undistortion inverts distortion for moderate lenses (radial factor within a quarter of one and slowly varying over the image, small tangential terms). A lens without parameters changes nothing. A camera's record (type, size, matrix, number of parameters, parameters) is what its constructor was given, with unused parameters zero and the type following from the number of radial parameters; copying, writing to and reading from any archive (into a fresh or a used object) keeps it, flipping the handedness twice gives it back; opening angles are those of half the image size at the focal lengths, the diagonal one is at least as large as the others.",
 ["inputs", "histories"], "all points, all lens parameters, all intrinsic matrices, all sequences of operations on stored cameras",
 "the effect of each coefficient and sign convention differs over the image plane; tests check single points of one lens",
 ["src/utAlgorithm/CameraLens", "src/utAlgorithm/LensDistortion.cpp", "src/utAlgorithm/Function/RadialDistortion.h", "src/utMath/CameraIntrinsics.h"],
 [("distortion", "CameraLens/Distortion.h, Correction.cpp"), ("undistortion", "CameraLens/Undistortion.h"), ("four-parameter model", "LensDistortion.cpp, Function/RadialDistortion.h"), ("intrinsics", "CameraIntrinsics.h")],
 state="stored cameras and the last archive", observe="image points, derivatives, records, angles")

prop("P14", "Linear algebra: vectors, matrices and the kernels on them",
 "Vectors and matrices keep exactly the entries given by constructor, array, element access or file of constants (zeros, identity), stored column by column; equality, inequality and the lexicographic order compare entries; the stream output is the entries in brackets, row by row. The kernels return the exact algebraic result for every size and shape, in double and single precision, for fixed and dynamic operands, through the returned value, an output argument or a range of operands, also when the output is one of the operands where that is allowed: inner products, 1-norm, 2-norm, (squared) distance, normalisation, matrix-vector, matrix-matrix and outer products, cross product, linear interpolation, the change of handedness of a 4 x 4 matrix, determinant and inverse of every nonsingular matrix up to 4 x 4, the Moore-Penrose pseudo-inverse of every shape and rank (also 0), root mean square of an error vector, and the conversions between numeric types (towards zero) and from rotations and poses to vectors.",
 ["inputs", "histories"], "all shapes up to 4 x 4, all integer entries in the bounds, all ranks, all sequences of operations on registers",
 "templates are specialised per size and shape: an index or a stride is wrong for one shape only, and tests use few shapes and one precision",
 ["src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/Blas1.h", "src/utMath/Blas2.h", "src/utMath/Blas3.h", "src/utMath/VectorFunctions.h", "src/utMath/MatrixOperations.h", "src/utMath/MatrixOperations.cpp", "src/utMath/Functors/MatrixFunctors.h", "src/utMath/Util/cast_assign.h"],
 [("types", "Vector.h, Matrix.h"), ("kernels", "Blas1.h, Blas2.h, Blas3.h, VectorFunctions.h"), ("inverses", "MatrixOperations.cpp, Functors/MatrixFunctors.h")],
 state="two vectors of each length and two matrices of each shape", observe="entries, storage, text, numbers, inverses")
prop("P15", "Statistics: averages, Gaussians, clustering",
 "An averager (numbers, scalars, vectors, error vectors, rotations, poses, error poses) returns after every history of single additions, lists and copies the mean of what it was given since it was created, and error averages the population covariance; quaternions count up to sign - samples around any rotation, also one by 180 degrees, average to it - and the covariance of an error pose is that of (translation, multiplicative rotation error) around the mean. The correlation of two lists is Pearson's coefficient of their common length, 1 for two empty lists. Gaussian estimates (plain, weighted, by index) are mean, population covariance, its trace and the root of it, and fail exactly for an empty selection. The Mahalanobis distance is that of the covariance and refuses a singular one; the mean log likelihood is that of the weighted mixture of normal densities. k-means from given centroids is Lloyd's iteration (ties to the first, an empty cluster stays where it is, ends when the mean squared shift falls below its threshold) and returns the centroids, the assignment and the shift; from random seeds it is Lloyd's iteration from some choice of distinct values of the list; greedy seeds are the first ones, drawn seeds are distinct values of the list, as many as asked for or as there are. Expectation maximisation on well separated groups gives each component the share of its group, its mean and covariance, keeps the ratio of identical components, gives weight 0 to a component far from everything, and returns the mean log likelihood of the result. Weighted values order by weight alone. Uniform random numbers and vectors lie in the requested range, random quaternions have unit length.",
 ["inputs", "histories"], "all sample lists, weights, seeds, starting values and interleavings of adding and reading",
 "errors show for samples on one side only (signs of quaternions, empty clusters, singular covariances) or only in the covariance; the seeds are random, so tests accept almost anything",
 ["src/utMath/Stochastic/Average.h", "src/utMath/Stochastic/Gaussian.h", "src/utMath/Stochastic/Correlation.h", "src/utMath/Stochastic/MahalanobisDistance.h", "src/utMath/Stochastic/Weighted.h", "src/utMath/Stochastic/k_means.h", "src/utMath/Stochastic/expectation_maximization.h", "src/utMath/Random", "src/utAlgorithm/Correlation.cpp"],
 [("averages", "Average.h"), ("Gaussians", "Gaussian.h, MahalanobisDistance.h"), ("clustering", "k_means.h, expectation_maximization.h")],
 state="two averagers of each kind and the samples given so far", observe="means, covariances, coefficients, centroids and assignments, mixtures, random numbers")

prop("P16", "Calibration files, directory listings and string archives",
 "What was last written to a calibration file - an integer, a 3-vector, a pose, a 3 x 3 matrix, a list of 3-vectors as text or binary, or one of the last four with a time as text - is read back exactly in the form it was written (with or without dropping the time), also into used objects and after copying the file, after any history of writing, copying, replacing and removing files. Reading a file that is missing, a directory, empty, of other content, cut short at any word or byte, or written in the other form throws an Ubitrack exception, and so does writing to a directory, to a path that does not exist or to a full device. A directory listing is the sorted list of the regular files (links to files count, dangling links do not, directories only where asked for) whose whole name matches the pattern or the predefined pattern, joined with what the list held before; the path of a file lists itself; nothing found is an Ubitrack exception. A string archive gives back the items written to it in their order, separated by blanks; any white space separates them when reading, and missing items or text that is not a number are reported by an exception.",
 ["inputs", "histories", "fault_sequences"], "all values of the listed types, all histories of writing, damaging and reading files, all directory contents, all item sequences",
 "partial and damaged files and directories with unusual entries do not occur in tests; a silent default value looks like a calibration",
 ["src/utUtil/CalibFile.h", "src/utUtil/GlobFiles.cpp", "src/utUtil/SimpleStringIArchive.h", "src/utUtil/SimpleStringOArchive.h"],
 [("calibration files", "CalibFile.h"), ("listings", "GlobFiles.cpp"), ("string archives", "SimpleStringIArchive.h, SimpleStringOArchive.h")],
 state="the content and condition of each file, the entries of each directory, the list being filled", observe="values read, exceptions, lists of paths, archive text")

prop("P17", "Plane conics and images of quadrics",
 "A conic is a curve, not a choice of numbers: moving, stretching (also by different and negative factors) and mirroring it at the rows of an image moves, stretches and mirrors exactly the points of the curve, the dual is the inverse of the matrix, and matrix, vector and value at a point are representations of one polynomial - in double and single precision and after any sequence of such steps. Its kind (circle, degenerate, ellipse, hyperbola, parabola, with the default or a given threshold), determinant, centre (an Ubitrack exception where there is none), eccentricity, semi-axes (longer first), area, direction of the longer axis, bounding box and intersections with a row are those of the curve, for every rotation of the axes and either sign of the coefficients, also for circles. The image of a quadric, ellipsoid or spheroid standing on the ground under a 3 x 4 projection is the exact outline P Q P' (as a point conic), the same through either representation.",
 ["inputs", "histories"], "all conics with the listed coefficients, all sequences of transformations, all cameras and ellipsoids in the bounds",
 "formulas for rotated, mirrored or negated conics are wrong only there; the tests call the functions and compare nothing but one round trip",
 ["src/utMath/Geometry/Conic.h", "src/utMath/Geometry/QuadricFunctors.h"],
 [("conics", "Conic.h"), ("quadrics", "QuadricFunctors.h")],
 state="four conics", observe="coefficients, kinds, centre, axes, angles, boxes, intersections, projected outlines")

prop("P18", "Model functions return the modelled value and its true derivative",
 "Every function object handed to the optimisers, filters and error propagation returns the value of its model and, in every entry of the matrix, the partial derivative of exactly that value by exactly that parameter - the same from evaluate and jacobian as from evaluateWithJacobian, for every argument, number of points and cameras, and order of the visibility lists: rotation of a point by a quaternion (also by an error rotation or a rotation vector, at and away from zero), homogeneous division of 2 to 5 dimensions in both precisions, normalisation of vectors and projective poses, radial and tangential distortion by point and by coefficients, the camera matrix by its entries, one point in many cameras, many points in one camera, points in several distorted cameras (by the pose, by an error of the pose, and by an error at a centre of gravity), bundle adjustment with free points, points on moving bodies, images and optionally intrinsics and distortion (also writing into and reading from its network), a x - x b for hand-eye rotations, linear functions and the numeric approximation of their derivative, and the time updates of motion models (linear of any order, rotation with velocity, poses of any listed order, inside-out tracking, inverted velocity; derivatives by a rotation velocity at zero velocity). Functions composed of others (sums, differences, norms, linear maps, divisions, rotations, camera matrices with parameters at any place of the vector) return the composed value, write the chain rule derivative into the columns of their parameters, leave the other columns alone, and depend only on the last vector they were given.",
 ["inputs", "histories"], "all arguments, numbers and orders of points, cameras and bodies, places of parameters and orders of evaluation",
 "an optimiser with a slightly wrong derivative still converges, only slower or elsewhere; the tests check results of whole optimisations with loose limits, at few configurations",
 ["src/utAlgorithm/Function", "src/utAlgorithm/NewFunction", "src/utMath/Optimization/Function", "src/utMath/Optimization/NewFunction", "src/utTracking/Function"],
 [("projection", "utAlgorithm/Function"), ("composition", "utMath/Optimization/NewFunction"), ("motion", "utTracking/Function")],
 state="the vector a composed function was last evaluated at, the network of a bundle adjustment", observe="values and all entries of the derivative")
prop("P19", "Log events reach exactly the configured outputs, complete and as laid out",
 "Naming a category creates it and all categories above it, and always gives the same one. The priority that counts for a category is that of the nearest category up the tree that has one, after every order of setting and clearing priorities, also for fixed-context categories; the root always has one. An event is delivered if and only if that priority admits it: once to every appender attached to the category or to a category above it, as far as additivity reaches upwards, that passes the threshold and the filters of the appender - the same from every way of logging (strings, format strings of any length, streams, macros, fixed contexts), from several threads at once without losing or mixing events. Appenders are deleted exactly when the category that owns them lets go of them. Layouts produce exactly the text of their pattern (category with precision, message, priority, context, file, line, time in all formats, minimum and maximum width, adjustment) and refuse malformed patterns; the nested context is per thread, a stack whose shown text is its words in order. Remote syslog messages arrive in pieces that leave room for their preamble and add up to the message. Log files: every event is appended whole to the file the appender has open; reopening moves to the file of that name and keeps the old one if there is none; rolling over moves every backup up by one, loses only the oldest and leaves the file below its limit. A configuration file gives every category it mentions exactly the priority, appenders and additivity it says, however it is written (order of the lines, blanks, comments, prefixes, variables, length of lines); a faulty one is refused with ConfigureFailure; initLogging without a readable file sets up the documented default.",
 ["histories", "configurations", "schedules", "fault_sequences"], "all histories of operations on categories, appenders, contexts and files, all configurations, interleavings of two threads and of file operations from outside",
 "the test suite has no test of the logging at all",
 ["3rd/log4cpp/src", "3rd/log4cpp/include/log4cpp", "src/utUtil/Logging.cpp"],
 [("categories", "3rd/log4cpp/src/Category.cpp"), ("layouts", "3rd/log4cpp/src/PatternLayout.cpp"), ("files", "3rd/log4cpp/src/RollingFileAppender.cpp"), ("configuration", "3rd/log4cpp/src/PropertyConfiguratorImpl.cpp"), ("initLogging", "src/utUtil/Logging.cpp")],
 state="the tree of categories with priorities, additivity and appenders; thresholds, filters and layouts of appenders; contexts of threads; files, names and open files", observe="texts that arrive at appenders, files, streams and sockets; priorities; exceptions")
prop("P20", "XML documents: reading, writing and editing a tree",
 "A well-formed document gives the tree it stands for, whatever its layout: order of quotes, white space within tags, character references by name, decimal or hexadecimal, CDATA, comments, declarations and unknown parts, byte order mark, line ends; read from memory, a file or a stream (which takes exactly one element and leaves the rest); white space of text is condensed or kept as set; every node and attribute carries its row and column, by tab size and encoding. A text that is not well formed (cut off anywhere within its element, a tag not closed or closed by another name, an attribute repeated, without value or quote, a bad character reference, no element) is reported as an error, and nothing beyond its end is read. Writing gives the same text by every way of writing (file, stream, string, printer with any indentation and line break), and reading it gives the same tree again: every value comes back, special and control characters included. Reading a missing file or a directory and writing to a full device or a missing directory fail and say so. Adding, inserting, replacing and removing nodes, setting and removing attributes, copying, assigning (also to itself) and clearing do exactly that, at exactly that place, to that document only; a document is never a child, and a node of another parent is refused; afterwards all links between nodes (parents, siblings, first and last child, attributes) are consistent. Searching by position, value or kind finds the first, last, next or n-th that fits, or none; attribute values are read as integers and floating-point numbers or refused; a visitor sees the nodes in order and stops where it says so.",
 ["inputs", "histories", "fault_sequences"], "all documents, ways to write them and cut them off, trees and histories of edits",
 "the test suite has no test of the XML library; errors show for one character at one place (the end of the text, a quote, a control character) or as a link that only a later edit follows",
 ["3rd/tinyxml"],
 [("parser", "3rd/tinyxml/tinyxmlparser.cpp"), ("tree and output", "3rd/tinyxml/tinyxml.cpp"), ("interface", "3rd/tinyxml/tinyxml.h")],
 state="two documents as trees of nodes with values and attributes; the text of a document; white space setting", observe="the tree read through every accessor with all links; row and column; text written; results and error states")
prop("P21", "Serial ports, timers and exceptions report what happened",
 "After every history of creating, opening, closing and destroying serial ports - failed attempts (no such file, no terminal, unsupported speed) and devices that go away included - exactly the ports that are open hold one descriptor each, and no other descriptor is ever closed. Opening sets the line to the speed, number of bits, parity, stop bits, waiting time and minimum asked for, without any translation of bytes; closing or destroying a port puts back what was set before; opening an open port or closing a closed one does nothing. Bytes are received and sent unchanged, once and in order; a read gives the bytes that wait, up to the number asked for, and touches no more of the buffer; the number of bytes waiting is told, and flushing discards them. Every use of a port that is not open fails with an exception, as does sending on and asking a device that is gone. A block timer counts every block, also one left by an exception, with the time it took, gives total and average in milliseconds, and logs name, number of runs and the place of the first block once when it goes, if it has a logger and ran. Sleeping takes at least the time asked for. An exception keeps its message, line and file, shows them when streamed, and is logged when that is asked for.",
 ["histories", "fault_sequences"], "all histories of operations on ports of one or several devices, with failures at every point",
 "the test suite has no test of these; a descriptor that is closed twice or leaked shows in an unrelated part of the program",
 ["src/utUtil/SerialPort.cpp", "src/utUtil/SerialPort.h", "src/utUtil/BlockTimer.cpp", "src/utUtil/BlockTimer.h", "src/utUtil/OS.cpp", "src/utUtil/Exception.cpp"],
 [("ports", "src/utUtil/SerialPort.cpp"), ("timers", "src/utUtil/BlockTimer.h"), ("sleeping", "src/utUtil/OS.cpp"), ("exceptions", "src/utUtil/Exception.cpp")],
 state="ports with parameters and saved settings; devices with settings and queues; open descriptors; timers with runs and ticks", observe="results and exceptions; descriptors of the process; settings and bytes on both ends of the line; log events")
