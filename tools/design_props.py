D = {}
D["P01"] = """
*Specified*: `Measurement.tla`, a heap of payload objects and handles (reference, timestamp); copy, clone, cast, write,
invalidate, release, swap, print. *Exhaustive*: sharing, lifetime and independence invariants over all histories of
3 handles, 3 payload values. *Binding*: `MeasurementGen` histories over 27 payload types and 8 representative 64-bit
timestamps; observed are values, sharing (writes through one handle seen by others), use counts, timestamps, printed
forms. *Beyond tests*: every interleaving of handle operations, not single calls. Cost 10 s.
"""
D["P02"] = """
*Specified*: `Serialization.tla`, a stream as queue of (type, value) messages with reader position, empty-stream and
wrong-width behaviour. *Binding*: sequences of writes and reads of 36 payload types, plain and as measurement, in
text, binary, msgpack (stream, zone and `as<>`), and the framed serialisers; equality is bit for bit.
*Bounds*: 9 values per type. Cost 60 s (compile time of the templates dominates).
"""
D["P03"] = """
*Specified*: `Clock.tla` (contract of the estimator as nondeterministic bounds on converted times: first event, exact
clocks, settled outlier rejection, shift following, rate error), `ClockShiftGen` (long histories), `Calendar.tla` (proleptic Gregorian calendar in integer arithmetic, checked
exhaustively against its inverse over 400 years). *Binding*: event histories for both estimators; timestamps printed
by the code against the calendar. Cost 15 s.
"""
D["P04"] = """
*Specified*: `Rigid.tla`, registers of exact rigid transforms (integer quaternion, rational translation), group laws,
action, isometry checked exhaustively for small quaternions. *Binding*: `RigidGen` histories of compose, invert, apply, scale,
convert, compare, interpolate; expectations exact, tolerance 1e-9 (interpolation 1e-7). *Beyond tests*: half turns,
cube group, equal and opposite signs, near-equal rotations in combination. Cost 20 s.
"""
D["P05"] = """
*Specified*: `Rotation.tla`, a rotation and its current representation; every conversion keeps the rotation.
*Binding*: random walks over the conversion graph from integer quaternions in all critical regions; after each
conversion the harness evaluates the representation to a matrix independently of the library and compares with the
specification's rational matrix (1e-6, single precision 1e-2). Cost 15 s.
"""
D["P06"] = """
*Specified*: `ErrPose.tla` (poses with covariance; Jacobians of composition, inversion and point transformation derived
from the error model; associativity, inverse and symmetry laws exhaustively on small rotations) and `Kalman.tla` (estimates in
information form, where measurements simply add; exhaustively: positive definiteness, commutativity, optimality, shrinking).
*Binding*: histories of operations, means and covariances compared as exact rationals (1e-7). The information form is a different
algorithm from the gain form in the code, so the oracle shares nothing with it. Cost 50 s.
"""
D["P07"] = """
*Specified*: `Tracker.tla` (per axis linear filter of position/orientation derivatives with process noise, exact rationals) and `TrackerSpin.tla`
(uniform rotation as powers of an integer quaternion; measurement kinds, refusals, resets). *Exhaustive*: predictions do not change the
state, agreeing measurements keep the motion, extrapolation composes. *Binding*: `TrackerGen` (means and variances of all derivatives,
1e-6 for positions, 1e-2 of the rotation unit 1e-8 for orientation means) and `TrackerSpinGen` (large rotations, inside-out, rotation-only, 1e-5).
*Limits*: the inside-out filter is an EKF and is only driven with measurements that agree with its motion; variances of large rotations are not compared.
`PoseKalmanFilter::addPositionMeasurement` is declared but not defined in the repository and cannot be called. Cost 35 s.
"""
D["P08"] = """
*Specified*: `Align.tla` (point pairs produced by a hidden rigid motion and scale, with inlier / outlier marking and balanced errors), `Tip.tla`
(poses around a hidden fixed point), `HandEye.tla` (motions a, b with ax = xb). *Exhaustive*: the hidden motion is the unique solution of
the defining equations on small configurations, and stays optimal under the paired errors. *Binding*: histories that add data and call the estimators;
expected motions are exact rationals (1e-6 .. 1e-4 by estimator, 1e-2 single precision). *Limits*: RANSAC is exercised where the
probability of missing the inliers is below 1e-9; the online filters converge, so they are compared after many measurements; exact half turns are
excluded for hand-eye, where they are singular. Cost 40 s.
"""
D["P09"] = """
*Specified*: `Munkres.tla`, the algorithm as a state machine (star, cover, search, augment, shift). *Exhaustive*: all 3x3 matrices over 0..2: termination (liveness),
independence of stars, optimality against all permutations; 2x2: potentials certify optimality. *Binding*: `MunkresGen` plants an optimal assignment with its
certificate (potentials, non-negative slack, zero for unmatched columns), up to 8 x 11, square or not, double, float, int, solver reuse; only the cost and
the one-to-one property are compared, so any optimal assignment is accepted. A step that computes for over 10 s counts as not terminating. Cost 30 s.
"""
D["P10"] = """
*Specified*: `Camera.tla` (integer pinhole cameras, images, epipolar geometry), `MCCamera` checks exhaustively that x'Fx = 0, that F has rank 2, that a projection
matrix determines its camera, that two views determine the point. *Binding*: `CameraGen` computes images, matrices, normalised device coordinates as exact rationals;
quantities defined up to scale are compared relative to their largest entry. *Limits*: normalisation of a point set very far from the origin
relative to its extent loses precision (difference of mean of squares and squared mean); a two-pass version was tried and taken back because the repository's
own randomised homography test (single precision, badly conditioned cases) fails with the changed rounding. The
fundamental matrix with a step size that leaves fewer than eight points is not specified. Cost 45 s.
"""
D["P11"] = """
*Specified*: `PoseEst.tla` on top of `Camera.tla`: pose, camera, image, derivative of the image by the six pose errors, information matrix, all in integers (cube
rotations for the covariances, general rational rotations for the poses). `MCPoseEst` checks exhaustively that four points of a plane determine the pose, that the
derivatives are those of the image (exact difference identities), that camera and body poses compose. *Binding*: `PoseEstGen` draws bodies (plane, tilted plane,
box), cameras, visibility, starts; the harness inverts the returned covariance with its own arithmetic and compares it with the integer information matrix.
*Limits*: views nearly along the plane of a planar body are excluded (ill-posed); the collinearity refusal is only specified for points in one direction;
convergence of the iterative methods is claimed for box-shaped bodies and starts nearby. Cost 40 s.
"""
D["P12"] = """
*Specified*: `LM.tla` (damped least squares as a state machine whose environment chooses the error of every trial, including undefined ones; exact normal equations
of linear problems) and `Ransac.tla` (a monitor over the calls RANSAC makes: sample, judge, final estimate, return). `MCLM` explores all runs of length 4
(978670 states, with two different derivatives: the kept error never increases, the damping is 2^(rejected-kept), the parameters left are those of the kept error), `MCRansac` all call sequences for
three values (result reported iff some run had enough inliers; never stuck; run limits). *Binding*, both directions: `LMGen` behaviours are replayed against a
scripted problem that records what it is asked; for RANSAC a table-driven estimator/evaluator records every call the code makes and TLC validates the recorded
traces against the monitor (`RansacTrace`, 6000 traces per quick run; a corrupted trace must be rejected). *Limits*: the random choice itself is not judged; the
Tukey weight functions are not claimed (their value for zero error is undefined). Cost 15 s.
"""

D["P13"] = """
*Specified*: `Lens.tla`: the distortion of a sensor point as an exact rational function (numerators over C D^6), its derivatives by the point and by the
parameters, images through an intrinsic matrix with K33 = 1 or -1, and a store of cameras with constructors, copies, archives and flips. `MCLens` checks on a
7x7 grid and 63 lenses that the model is symmetric under the symmetries of the square with (p2, p1) turning like a vector, that zero parameters are the
identity, that every closed-form derivative equals an exact 8-point finite difference, and that the guard used for undistortion makes the distorted radius grow;
and explores the camera store (type follows the number of parameters, flips cancel, an archive is a fixed point). *Binding*: `LensGen` behaviours keep
four camera registers (double and single precision side by side) and an archive in text, binary, msgpack or msgpack-with-zone form; points and lists go through
`distort`, `undistort`, the sensor-level functions with Jacobians, and the older four-parameter interface. *Limits*: undistortion is claimed only for moderate
lenses (the search has a fixed number of steps); the fisheye model is only stored. Cost 15 s.
"""

D["P14"] = """
*Specified*: `Alg.tla`: exact integer results of every kernel (products, norms, orders, interpolation, determinants and adjugates, and the pseudo-inverse
through full-rank factors) and the text form. `MCAlg` checks over small matrices (71 685 states) the Moore-Penrose conditions for all full-rank factorisations,
the adjugate and determinant laws, linearity, Cauchy-Schwarz, that the order is total and that changing handedness twice cancels. *Binding*: `AlgGen`
behaviours drive a file of registers (two vectors of each length 1-5, two matrices of each shape 1-4 x 1-4) in one of the two precisions; each kernel is called in
each of its forms (fixed/dynamic, returned/output argument/list). *Limits*: sizes above five, other element types and badly conditioned matrices. Cost 2 min
(TLC writes long behaviours).
"""

D["P15"] = """
*Specified*: `Stats.tla`: moments and covariances as exact fractions, correlation, Lloyd's iteration in units of 1/420 with its termination rule and the set
of outcomes over all seeds, Mahalanobis distances, densities and likelihoods as expressions over exact numbers, and what expectation maximisation finds on separated
groups. `MCStats` checks on all lists of three points of a 3x3 grid and all pairs of starting centroids (69 465 states) that no round of Lloyd's iteration
raises the cost, that it settles in a fixed point, that covariances are symmetric, positive and equal to their definition, and Cauchy-Schwarz for the correlation.
*Binding*: `StatsGen` behaviours feed averagers of ten kinds one value or one list at a time, copy, clear and read them in between; rotations are q times rational
unit quaternions in conjugate pairs with random signs, so that mean and covariance are exact; random seeding is accepted if its result is among the specified
outcomes. *Limits*: k-means where a decision is close to a tie is left out; expectation maximisation of overlapping groups has no exact result and is left out;
`index_iterator` (unused, does not work) and `Random::Pose` (does not compile) are not specified. Cost 80 s.
"""

D["P16"] = """
*Specified*: `Files.tla`: each file is absent, a directory, bad, good (form, type, value) or the beginning of a good one; writing makes it good whatever it was (except a
directory), damage makes it bad or partial, only a good file can be read and only in its own form. A listing is the sorted sequence of the matching entries of a
directory of named entries (file, directory, link, dangling link), patterns being sets of names. String archives are sequences of words. `MCFiles` checks (1552 states)
that a file that can be read holds what was last written to it, that damage is never readable, and that listings are sorted and complete.
*Binding*: `FilesGen` behaviours run on a scratch directory the harness creates and removes: four files written, cut at random words or bytes, copied, replaced and read;
two directories with fourteen entry names; archives with every item type. *Limits*: binary files damaged in the middle (no checksum in the format, so nothing to
specify); numbers of an archive are short because its text carries six significant digits. Cost 15 s.
"""

D["P17"] = """
*Specified*: `Conic.tla`: transformations as substitutions in an integer polynomial, the dual as the adjugate, semi-axes, area, direction, eccentricity and bounding box as
expressions over exact numbers, images of quadrics as P Q P' and its dual. `MCConic` checks for all 729 conics with coefficients in -1..1 and all translations of a 3x3
grid that transformations move exactly the points (25 points each), compose and undo, that the dual is the inverse and tangents of points of the curve are its points,
that the box touches the curve - and, for 144 ellipsoids before a camera at the origin, that the outline vanishes exactly where the ray through the pixel touches the
ellipsoid (an independent formula).
*Binding*: `ConicGen` behaviours keep four conics in registers, transform them into one another and ask for everything after each step; a third of the steps runs in
single precision where that is exact. *Limits*: decisions by threshold only where the numbers are exact; the covariance of a conic fit (`ConicCovariance.h`: hard coded
noise, by its own comment to be estimated) is not specified. Cost 60 s.
"""

D["P18"] = """
*Specified*: `Jacobian.tla`: values and derivatives as exact integer formulas over known denominators (rational unit quaternions, quarter turns about rational axes) or
as expressions of them (rotation vectors of any angle: sine, cosine, angle), distortion as a list of monomials that is differentiated term by term. `MCJacobian` does not
trust those formulas: it derives them from difference quotients that are exact for the degree at hand (central difference for quadratic maps, the seven point formula
for degree five, cross-multiplied quotients for divisions, R = 1 + th [a] L with a' L = a' for the derivative of a rotation vector) on 3884 arguments.
*Binding*: `JacobianGen` behaviours run each function on generated arguments, through both interfaces, over a matrix filled with garbage (composed functions: zeros, as they
only write their own columns), after an evaluation elsewhere. *Limits*: `StoreIntermediate` and `UnscentedTransform.h` do not compile; `ImageLookup` needs the image class
of another component; the quaternion time update is documented for order 1 and its derivative by the velocity at small velocity only; `Subtraction` with parameters in both
branches is documented not to work. Cost 30 s.
"""
D["P19"] = """
*Specified*: `Log.tla` (tree of categories, effective priority, deliveries counted with additivity, layouts as lists of pieces, contexts, streams, datagrams), `LogFiles.tla`
(names, inodes and open files; appending, reopening, rolling over) and `LogConf.tla` (what a configuration means, independent of how it is written). `MCLog` checks that the
priority kept by pushing changes down the tree is the one found by walking up, and that deliveries follow additivity, in all trees of small size; `MCLogFiles` that a rolling
appender's files are always the end of what was sent, in order, each backup full and the open file below the limit, with removals and the directory taken away.
*Binding*: `LogGen` (categories, appenders with queues, two threads with contexts, all ways of logging, concurrent logging counted per thread and category), `LogFileGen` (every
step followed by a look at all names, contents and modes, in a scratch directory; names removed, renamed and directories moved away in between) and `LogConfGen` (the
configuration is drawn as a record, rendered as text with random order, blanks, comments, prefixes, variables and long lines; nine kinds of faulty ones) behaviours are replayed.
*Limits*: duplicate keys or appender names, no backups at all, `SimpleConfigurator` (deprecated), the local syslog and abort appenders are not specified. `log(p, "%s", text)`
with exactly one string argument is ambiguous between two overloads (the compiler warns); the harness does not use it. Cost 60 s.
"""

D["P20"] = """
*Specified*: `Xml.tla`: trees; the source grammar of a document with every freedom of layout (`Emit`), what a source means (`Mean`, with condensed or kept white space and file line
ends) and where its parts are (`Place`); the text each way of writing gives (`Printed`, `Pretty`); the edits of a tree and the searches. `MCXml` checks on all documents of up to two
nodes reached by inserting, removing and setting attributes that the text written is a source that means the same tree, that layouts add white space alone, that edits are undone by
their inverses and searches agree.
*Binding*: `XmlGen` draws sources (not trees), so that one tree is met in many texts, reads them by memory (against a page that may not be read), file and stream, cuts and damages
them, writes drawn trees and reads them back. `XmlDomGen` edits two documents; after every step all of both is compared and every pointer between nodes followed.
*Limits*: tinyxml's leniencies are left unspecified (unknown entities, garbage after the root, `</a >`, a cut-off declaration or comment outside the element); a comment beginning with `>`
is ended too early when read from a stream, which cannot be repaired locally. Cost 60 s.
"""

D["P21"] = """
*Specified*: `Device.tla`: ports (parameters, open or not, the settings found when opening), devices (there or gone, settings, queue of bytes), with failures as steps that change nothing.
`MCDevice` checks in every order of all steps on two ports and two devices that descriptors are those of open ports, that bytes are read once and in order, and that a line used by one
port at a time gets its settings back.
*Binding*: `DeviceGen` behaviours on pseudo terminals, whose other end the harness holds; devices are links in a scratch directory, removed when a device goes. After each step the
descriptors of the process are counted, the settings read back and the waiting bytes counted. A pseudo terminal ignores the number of bits and the parity, so stand-ins for
`tcsetattr`/`tcgetattr` in the harness note what was asked for. Timers are constructed in memory filled with a pattern.
*Limits*: copying a port, break signals (pseudo terminals have none), reads that wait for more than one byte. Cost 60 s.
"""
