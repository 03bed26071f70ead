# text of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this and registry.py
T = {}
K = 'Schweizer-Messer/sm_kinematics/'
def P(pid, title, statement, over, quant, why, files, mech, note, **kw):
    T[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, **kw)

P('C02', 'Quaternion algebra is an exact homomorphism onto rotation matrices',
  'For every unit quaternion, the rotation matrix built from it is orthonormal with determinant one, the product and inverse of quaternions correspond to the product and inverse of the matrices, and converting a matrix back gives the same rotation. Rotating vectors and points with a quaternion, left/right product matrices and the Jacobians offered with these operations equal the exact algebraic ones.',
  ['inputs'], 'all unit quaternions, all vectors; every branch of the matrix-to-quaternion conversion',
  'Unit tests draw a few random quaternions; sign, branch and near-degenerate cases of the conversion are measure-zero for them.',
  [K + 'src/quaternion_algebra.cpp'], [('product, inverse, matrix conversions', K + 'src/quaternion_algebra.cpp')],
  'all values, exact real arithmetic')
P('C03', 'Quaternion/axis-angle exponential and logarithm are consistent',
  'Converting an axis-angle vector to a quaternion or a rotation matrix and back is the identity for every angle short of a half turn, the small-angle series used near zero agree with the exact functions to the accuracy of double precision at the switch-over, and the rotation Jacobians offered for the exponential and logarithm equal their derivatives.',
  ['inputs'], 'all axes, all angles in the stated ranges on both sides of each small-angle switch',
  'The series branches are active only for angles around 1e-4 and below, where a wrong coefficient changes results by less than the tolerances tests use, yet it destroys convergence of optimisers differentiating through it.',
  [K + 'src/quaternion_algebra.cpp', K + 'src/rotations.cpp'], [('exponential, logarithm, series', K + 'src/quaternion_algebra.cpp')],
  'exact real arithmetic; series branches by Taylor remainder')
P('C05', 'Rotation parameterisations round trip and have exact S matrices',
  'Each rotation parameterisation (yaw-pitch-roll, ZYX and ZXY Euler angles, Rodriguez, rotation vector) turns every parameter vector into an orthonormal matrix, recovers an equivalent parameter vector from it away from its singularity, and its angular-velocity matrix equals the derivative of the rotation with respect to the parameters, with its inverse being the matrix inverse.',
  ['inputs'], 'all parameter vectors away from the documented singularities',
  'Tests use random samples and finite differences with loose tolerances; quadrant and sign errors in rarely sampled octants pass them.',
  [K + 'src/EulerAnglesYawPitchRoll.cpp', K + 'src/EulerAnglesZYX.cpp', K + 'src/EulerAnglesZXY.cpp', K + 'src/EulerRodriguez.cpp', K + 'src/RotationVector.cpp'],
  [('parameters to rotation, S matrix', K + 'src/RotationVector.cpp')], 'exact real arithmetic')
P('C04', 'Elementary rotations and rotation helpers are exact',
  'Elementary rotations about the coordinate axes, roll-pitch-yaw composition and decomposition, cross-product matrices, axis-angle conversion and angle wrapping/difference helpers return exactly what their geometric definition says for every input.',
  ['inputs'], 'all angles and vectors',
  'They are used with arbitrary angles; tests sample a handful.',
  [K + 'src/rotations.cpp'], [('elementary rotations', K + 'src/rotations.cpp')], 'exact real arithmetic')
P('C06', 'Rigid transformations form a group acting on points',
  'Composing, inverting, applying, and converting rigid transformations agrees exactly with the corresponding 4x4 homogeneous matrices for every pose and point; interpolation between two poses starts and ends exactly at them, moves linearly in translation and along the shorter great arc in rotation. Minimal perturbation and the associated box and adjoint matrices and the Jacobians of applying a transformation equal the true derivatives.',
  ['inputs'], 'all poses, points and homogeneous points',
  'Group laws and derivative identities quantify over all poses; tests check a few random ones with tolerances that hide small systematic errors.',
  [K + 'src/Transformation.cpp', K + 'src/transformations.cpp', K + 'src/homogeneous_coordinates.cpp'], [('composition, inverse, interpolation', K + 'src/Transformation.cpp'), ('box matrices, Jacobians', K + 'src/transformations.cpp')],
  'exact real arithmetic; interpolation for relative half-angles in [0.01,1.5]')
P('C07', 'First-order uncertainty propagation through geometry is exact',
  'Covariances attached to transformations, homogeneous points, vectors and scalars are propagated through composition, inversion, application, sums, differences, scaling, dot products, normalisation and changes between homogeneous, Euclidean and minimal form as J U J^T with the true Jacobian of the operation, operands without covariance contributing none.',
  ['inputs'], 'all poses, points and symmetric covariance matrices',
  'A wrong cross term or scale factor in a covariance still gives a symmetric positive matrix, so sampling tests that only look at means or shapes cannot notice.',
  [K + 'src/UncertainTransformation.cpp', K + 'src/UncertainHomogeneousPoint.cpp', K + 'src/HomogeneousPoint.cpp', K + 'include/sm_kinematics/UncertainVector.hpp'], [('covariance propagation', K + 'src/UncertainTransformation.cpp'), ('point covariance', K + 'src/UncertainHomogeneousPoint.cpp')],
  'exact real arithmetic')
AC = 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/'
CAMS = 'aslam_cv/aslam_cameras/src/'
P('C01', 'Time and Duration arithmetic is exact to the nanosecond',
  'Time and duration values (also their wall-clock variants) always keep their nanosecond field in [0, 1e9); addition, subtraction, negation, construction and comparison behave as exact integer nanosecond arithmetic over the whole representable range and throw rather than wrap when a result leaves it; converting to and from integer nanoseconds is exact and converting decimal seconds is exact to the nanosecond.',
  ['inputs'], 'all 32-bit second/nanosecond pairs; all representable nanosecond counts; decimal seconds in the stated ranges',
  'Carries, borrows and range limits only matter at isolated values (nanosecond sums of exactly one second, results near 2^31 seconds) that example-based tests do not hit.',
  ['aslam_cv/aslam_time/include/aslam_time/Time.hpp', 'aslam_cv/aslam_time/include/aslam_time/Duration.hpp', 'aslam_cv/aslam_time/src/time.cpp', 'aslam_cv/aslam_time/src/duration.cpp', 'Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp'],
  [('normalisation', 'aslam_cv/aslam_time/src/duration.cpp'), ('operators', 'aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp')],
  'bit-precise integers; decimal conversions in IEEE arithmetic within |x| <= 4 (value) / 4e9 (normalisation)')
P('C08', 'Camera projections, their inverses, validity and Jacobians agree',
  'For the pinhole, omnidirectional (unified), extended unified and double sphere projections, projecting a point and lifting the keypoint back gives the same viewing ray; points along the same ray project to the same keypoint; projection reports success exactly for points inside the model domain and image; and every Jacobian offered (with respect to the point, its homogeneous form, the keypoint, the intrinsics and the distortion) equals the derivative of the projection or lift. Parameter updates and serialised parameter vectors address the same intrinsics.',
  ['inputs'], 'all points, keypoints and intrinsics within the stated bounds of each model',
  'Tests sample random points in front of one fixed camera with loose finite-difference tolerances; domain edges, off-centre Jacobian terms and points behind the camera are not covered.',
  [AC + 'implementation/PinholeProjection.hpp', AC + 'implementation/OmniProjection.hpp', AC + 'implementation/ExtendedUnifiedProjection.hpp', AC + 'implementation/DoubleSphereProjection.hpp'],
  [('pinhole', AC + 'implementation/PinholeProjection.hpp'), ('unified', AC + 'implementation/OmniProjection.hpp'), ('extended unified', AC + 'implementation/ExtendedUnifiedProjection.hpp'), ('double sphere', AC + 'implementation/DoubleSphereProjection.hpp')],
  'exact real arithmetic; double sphere lift for four fixed lens shapes')
P('C09', 'Lens distortion models, inverses and Jacobians are consistent',
  'For the no-distortion, radial-tangential, equidistant and field-of-view models, distorting follows the published formula, undistorting inverts it, the identity parameters leave points unchanged, the image centre is handled without singularity, and every Jacobian offered (point and parameters) equals the derivative of the distortion. Parameter updates, parameter vectors, equality of two distortion objects and clearing act on exactly the stored coefficients.',
  ['inputs'], 'all image points and coefficients within the stated bounds',
  'Errors that vanish on the axis, at zero coefficients or in one coefficient only are invisible to tests with one parameter set and loose tolerances.',
  [AC + 'implementation/RadialTangentialDistortion.hpp', AC + 'implementation/EquidistantDistortion.hpp', AC + 'implementation/FovDistortion.hpp', CAMS + 'RadialTangentialDistortion.cpp', CAMS + 'EquidistantDistortion.cpp', CAMS + 'FovDistortion.cpp'],
  [('distort, undistort, Jacobians', AC + 'implementation/EquidistantDistortion.hpp')],
  'exact real arithmetic; inverses of the polynomial models to first order in the coefficients')
OBI = 'aslam_optimizer/aslam_backend/include/aslam_backend/backend/'
OBS = 'aslam_optimizer/aslam_backend/src/'
SBI = 'aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/'
P('C12', 'Error terms weigh, differentiate and assemble the least-squares cost exactly',
  'For every error term of fixed or dynamic dimension, the squared error is e^T W e times the M-estimator weight, the invR and square-root forms of the weight set the same W, the Jacobians and right-hand side it contributes to the normal equations are J^T W J and -J^T W e with active variables only, weighted Jacobians and errors agree with the unweighted ones, and the M-estimator weight functions equal their published formulas.',
  ['inputs'], 'all residuals, Jacobians, weight matrices and M-estimator parameters, all combinations of active variables',
  'A wrong weight or scale still converges on the toy problems tests solve; it biases real estimates.',
  [OBS + 'ErrorTerm.cpp', OBI + 'implementation/ErrorTerm.hpp', OBS + 'ErrorTermDs.cpp', OBS + 'MEstimatorPolicies.cpp'], [('fixed size', OBI + 'implementation/ErrorTerm.hpp'), ('dynamic size', OBS + 'ErrorTermDs.cpp'), ('M-estimators', OBS + 'MEstimatorPolicies.cpp')],
  'exact real arithmetic; error dimension 2, up to 3 design variables of dimension 1 to 2')
P('C13', 'Jacobian containers represent the sum of chained block Jacobians',
  'A Jacobian container holds exactly the sum of the blocks added to it per design variable whatever the order and repetition of additions, ignores inactive variables, applies chain-rule matrices to exactly the blocks added under them, merges with another container without changing it, refuses blocks of wrong size, and its dense, sparse and Hessian views (with scaling) equal the assembled matrix, its transpose product and gradient.',
  ['inputs', 'histories'], 'all block values; all sequences of up to three additions over three variables with every activity pattern',
  'Expressions share design variables in arbitrary orders; tests build a few fixed ones.',
  [OBS + 'JacobianContainer.cpp', OBI + 'JacobianContainer.hpp'], [('add, chain rule, Hessian', OBS + 'JacobianContainer.cpp')],
  'sequences of up to 3 additions, blocks of 1 to 2 columns')
P('C14', 'Sparse block and compressed column matrices equal their dense counterparts',
  'Every operation on sparse block matrices (allocation, dense conversion, clone, transpose, sum, product, matrix-vector and symmetric products, slices, symmetric permutation, scaling, compressed-column export, block structure) gives the same result as the dense matrix for every pattern of absent blocks, and refuses incompatible dimensions.',
  ['inputs', 'histories'], 'all values, all block patterns within the stated masks, rectangular and non-uniform blocks',
  'Correctness depends on which blocks are absent and on unequal block sizes; tests use full, uniform ones.',
  [SBI + 'implementation/sparse_block_matrix.hpp', 'aslam_optimizer/aslam_sparse_block_matrix/src/matrix_structure.cpp'], [('operations', SBI + 'implementation/sparse_block_matrix.hpp')],
  'up to 3x3 blocks of size 1 to 2')
EXI = 'aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/'
EXS = 'aslam_optimizer/aslam_backend_expressions/src/'
P('C16', 'Point, vector, scalar and matrix expressions differentiate exactly',
  'Every point, direction, homogeneous, scalar, vector and matrix expression evaluates to the value of its formula in its operands and its reported Jacobians, with and without a chain-rule matrix and also when operands share design variables, equal the derivative of that value under a minimal update of every design variable. It reports exactly the design variables it depends on, and reverting an update restores the value.',
  ['inputs', 'histories'], 'all operand values, chain-rule matrices and update directions, for every kind of expression node',
  'Tests compare finite differences at random points with loose tolerances; wrong signs or missing terms of shared operands can stay below them.',
  [EXS + 'EuclideanExpressionNode.cpp', EXS + 'HomogeneousExpressionNode.cpp', EXS + 'ScalarExpressionNode.cpp', EXI + 'implementation/VectorExpressionNode.hpp', EXS + 'MatrixBasic.cpp'], [('points and directions', EXS + 'EuclideanExpressionNode.cpp'), ('scalars', EXS + 'ScalarExpressionNode.cpp')],
  'exact real arithmetic; derivative by dual numbers through the real code; expression depth up to 3')
P('C17', 'Rotation and transformation expressions differentiate exactly',
  'Rotation and transformation expressions (products, inverses, composition from rotation and translation, extraction of either, application to points and rotations) evaluate to the matrix their formula defines, and their Jacobians, with and without a chain-rule matrix and with shared design variables, equal the derivative in the left tangent space; the transformation error terms built from them are zero at agreement and differentiate exactly.',
  ['inputs', 'histories'], 'all unit quaternions, translations, points, chain-rule matrices and update directions',
  'Sign and frame conventions of the tangent spaces are easily broken in a way symmetrical test cases cannot see.',
  [EXS + 'RotationExpressionNode.cpp', EXS + 'TransformationExpressionNode.cpp', EXS + 'TransformationBasic.cpp', EXS + 'ErrorTermTransformation.cpp'], [('rotations', EXS + 'RotationExpressionNode.cpp'), ('transformations', EXS + 'TransformationExpressionNode.cpp')],
  'exact real arithmetic; expression depth up to 3')
P('C18', 'Design variables update, revert and measure minimal differences consistently',
  'For every kind of design variable, a minimal update moves the value by exactly the stated perturbation and keeps it on its manifold, revert restores the previous value, parameters read back are those set, and the minimal difference to a stored value is zero for that value, recovers the update that led away from it, and its Jacobian equals its derivative.',
  ['inputs', 'histories'], 'all values and update steps; updates followed by reverts and further updates',
  'Marginalisation and prior terms depend on differences at zero and at large updates, which tests do not combine with a changed value.',
  [EXS + 'RotationQuaternion.cpp', EXS + 'EuclideanPoint.cpp', EXS + 'HomogeneousPoint.cpp', EXS + 'MappedRotationQuaternion.cpp', EXS + 'MappedEuclideanPoint.cpp', EXS + 'EuclideanDirection.cpp', EXS + 'Scalar.cpp'], [('rotation', EXS + 'RotationQuaternion.cpp'), ('homogeneous point', EXS + 'HomogeneousPoint.cpp')],
  'exact real arithmetic; rotation differences for angles short of a half turn')
BSPI = 'aslam_nonparametric_estimation/aslam_bsplines/'
P('C19', 'B-spline values, derivatives, integrals and bases agree everywhere in time',
  'For every spline order, dimension, segment count and admissible knot sequence, a B-spline evaluates to the piecewise polynomial the Cox-de Boor recursion defines, is continuous with its order-2 derivatives across simple knots, its derivatives and integrals are those of its value, its basis functions are a nonnegative partition of unity, its Jacobian with respect to the coefficients is the basis, segment lookup finds the segment containing the time over the whole closed validity interval, and knot sequences that are not admissible are refused.',
  ['inputs'], 'all times, coefficients and (for low orders) knot vectors within the bounds',
  'Tests evaluate a few splines at sampled times; the ends of the interval, repeated knots and nonuniform spacing are where the formulas differ.',
  [BSPI + 'src/BSpline.cpp', BSPI + 'include/aslam_bsplines/BSpline.hpp'], [('evaluation', BSPI + 'src/BSpline.cpp')],
  'exact real arithmetic; orders 2 to 5, up to 4 segments')
P('C20', 'B-spline construction, growth, fitting and quadratic forms are exact',
  'Initialising a spline through points or with given values and derivatives interpolates them; adding a segment keeps the curve on the old interval and passes through the new value; removing a segment keeps the remaining curve; fitting reproduces data that lie on a spline and satisfies the normal equations of its stated objective; the quadratic integral and motion matrices equal the integrals they stand for and are symmetric.',
  ['inputs', 'histories'], 'all data values, end derivatives and coefficients for the stated orders and knots; sequences of add and remove',
  'Edits of the spline change knots, coefficients and basis matrices together; tests check one edit at a time on one order.',
  [BSPI + 'src/BSpline.cpp'], [('initialisation, add and remove', BSPI + 'src/BSpline.cpp')],
  'exact real arithmetic; orders 2 to 4; the sparse Cholesky solver is replaced by an exact solver of the same linear system')
SPI = 'aslam_nonparametric_estimation/aslam_splines/'
KALI = 'aslam_offline_calibration/kalibr/'
P('C21', 'Pose splines: poses, velocities and accelerations with exact Jacobians',
  'For a pose spline over any rotation parametrisation, the transformation, orientation, position, velocity, acceleration and angular velocity at a time (in the world and in the body frame) are the ones of the curve of its coefficients, mutually consistent with the time derivative of the transformation, and every returned Jacobian is the derivative of the value it comes with, with respect to the coefficients that are active there; curve values and transformations convert into each other and initialisation from poses passes through them.',
  ['inputs'], 'all coefficients and all times within a segment',
  'Each quantity combines spline derivatives with kinematics of a rotation parametrisation; tests compare with finite differences at a few random curves.',
  [BSPI + 'src/BSplinePose.cpp', BSPI + 'include/aslam_bsplines/BSplinePose.hpp'], [('values and Jacobians', BSPI + 'src/BSplinePose.cpp')],
  'exact real arithmetic; orders 2 to 4, up to 3 segments, segment parametrised by the values of the curve; angular acceleration exact only at rotation parameters at rest (known finding)')
P('C22', 'Spline expressions, motion priors and IMU error terms match their models',
  'Expressions of a spline design variable return the value of the spline and the exact Jacobian with respect to exactly the active coefficients (and to time, where time is estimated), a time outside its buffer is refused, adding and removing segments keeps design variables and coefficients in step, the motion prior costs are the quadratic integral they stand for with the matching gradient, and accelerometer, gyroscope and position errors equal their measurement models with exact Jacobians.',
  ['inputs', 'histories'], 'all coefficients, times, measurements, biases and updates within the bounds',
  'These expressions carry the IMU calibration; a wrong Jacobian block still converges in a test, to a slightly different place.',
  [SPI + 'src/BSplineExpressions.cpp', SPI + 'src/BSplinePoseDesignVariable.cpp', KALI + 'src/AccelerometerError.cpp', KALI + 'src/GyroscopeError.cpp'], [('spline expressions', SPI + 'src/BSplineExpressions.cpp'), ('IMU error terms', KALI + 'src/GyroscopeError.cpp'), ('motion prior', SPI + 'include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp')],
  'exact real arithmetic; orders 2 to 4, up to 3 segments; the factor of a segment integral is an arbitrary matrix')
P('C23', 'The timestamp corrector keeps the lower hull of its history',
  'For every history of pairs of increasing remote and any local times, the estimated local time is an affine function of the remote one that never lies after the arrival of any message so far and touches the lower convex hull at the middle of the covered interval; it is exact for a clock without drift whose delays vanish at the ends of the supporting segment; a remote time that does not increase is refused without any effect, and fewer than three hull points return the local time unchanged.',
  ['inputs', 'histories'], 'all histories within the bounds',
  'The hull is edited by every message; which points it keeps depends on the whole history.',
  ['Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp'], [('hull update', 'Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp')],
  'exact real arithmetic; histories of up to 6 messages')
P('C11', 'Calibration targets and observations keep corners, indices and poses in step',
  'For every grid size and spacing, each target type maps every grid coordinate to exactly one point index, the point lies where the target geometry puts it, and indices outside the grid are refused; an observation reports exactly the corners whose last update was an addition, at the position last given, with equally long and equally ordered target points, image points and indices; the grid detector reports exactly what the target found minus reprojection outliers, together with the estimated pose, and leaves nothing from an earlier image; in an April grid every good tag inside the image, and only those, sets the four corners of its own place.',
  ['inputs', 'histories'], 'all spacings and corner positions; grids, edits and detections within the bounds',
  'Corner indexing ties an image point to a target point; a slip for one id, one border or one order of removals calibrates a wrong geometry without any error.',
  [AC + 'GridCalibrationTargetBase.hpp', CAMS + 'GridCalibrationTargetObservation.cpp', CAMS + 'GridDetector.cpp', 'aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp'], [('indices', AC + 'GridCalibrationTargetBase.hpp'), ('observation', CAMS + 'GridCalibrationTargetObservation.cpp'), ('detector', CAMS + 'GridDetector.cpp'), ('April grid', 'aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp')],
  'exact real arithmetic; grids up to 3 x 4; the image and the tag and corner finders of OpenCV are replaced by arbitrary answers; at most 3 edits')
P('C10', 'Camera compositions: parameters, Jacobians, masks and shutter fit together',
  'For a camera composed of any projection, distortion, shutter and mask, the parameters, updates, dimensions and intrinsics Jacobians of the parts that are estimated are stacked in one order (projection, distortion, shutter) and parts that are not estimated are never touched; a point is visible and a keypoint valid, through every interface, exactly if the projection accepts it and its mask pixel is set, and the mask is never read outside; the time of a keypoint is the line delay times its row, with the matching Jacobian.',
  ['inputs'], 'all parameters, points, mask images and estimation flags within the bounds',
  'The parts are tested one by one; errors of stacking only show for a combination of estimated parts, errors of masking at particular pixels.',
  [AC + 'CameraGeometry.hpp', AC + 'ImageMask.hpp', AC + 'RollingShutter.hpp'], [('composition', AC + 'implementation/CameraGeometry.hpp'), ('mask', CAMS + 'ImageMask.cpp'), ('shutters', CAMS + 'RollingShutter.cpp')],
  'exact real arithmetic; six compositions; masks of up to 4x6 pixels at scale 1 and 1/2')
P('C15', 'Reprojection errors and keypoint times match their model exactly',
  'A reprojection error is the measurement minus the projection of the point, its cost is weighted by the inverse covariance given, and its Jacobians with respect to the point and to exactly the active parts of the camera are the derivatives of that error; the error a frame reports for a keypoint uses the same model; the time of a keypoint as an expression is the image time plus the shutter offset, follows updates of the shutter and has exactly its derivative.',
  ['inputs'], 'all points the camera can project, measurements, weights, delays and activity patterns',
  'These are the residuals every calibration minimises; a wrong sign or a missing block still converges on a sampled test.',
  ['aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/ReprojectionError.hpp', 'aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/SimpleReprojectionError.hpp', 'aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp'], [('error term', 'aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/ReprojectionError.hpp'), ('camera design variable', 'aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp'), ('keypoint time', 'aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp')],
  'exact real arithmetic; three compositions at fixed intrinsics; only points the projection accepts (a rejected point leaves the prediction undefined)')
P('C24', 'The optimiser never accepts a worse state and reports what it did',
  'With a policy that reverts failures, every accepted state has a cost not above the one before, a rejected step is undone exactly and inactive variables never move; a step moves each variable by its scaled part of the solution; the costs, counts, sizes and failure flag returned describe the run, which stops only for the stated limits or a converged step and recovers from a failed linear solve. The policies rebuild the system exactly after accepted steps, judge a step by the decrease since the last accepted cost, never step outside the trust region, and damp more or shrink the region after a failure.',
  ['histories', 'inputs'], 'all cost functions, step sequences, linear solver failures and policy states within the bounds',
  'A step wrongly kept or judged shows only for a particular sequence of successes and failures; tests run well-behaved problems.',
  [OBS + 'Optimizer2.cpp', OBS + 'TrustRegionPolicy.cpp', OBS + 'DogLegTrustRegionPolicy.cpp', OBS + 'LevenbergMarquardtTrustRegionPolicy.cpp', OBS + 'GaussNewtonTrustRegionPolicy.cpp'],
  [('loop', OBS + 'Optimizer2.cpp'), ('gain bookkeeping', OBS + 'TrustRegionPolicy.cpp'), ('dog leg', OBS + 'DogLegTrustRegionPolicy.cpp'), ('damping', OBS + 'LevenbergMarquardtTrustRegionPolicy.cpp')],
  'exact real arithmetic; the linear solver is a stand-in with arbitrary answers; single thread')
P('C25', 'Linear solvers solve the damped normal equations of the current Jacobian',
  'For every linear system solver, the cost is the sum over error terms, the right-hand side is minus the transposed Jacobian times the residual, and what is handed to the factorisation is the Gauss-Newton matrix plus the square of the current conditioner, for every solve after a build: a new conditioner, a failed factorisation or an error evaluation in between leaves the built system unchanged. Compressed column matrices equal the dense matrix they stand for through every sequence of appends, diagonal pushes, updates and pops.',
  ['histories', 'inputs'], 'all Jacobians, residuals, weights, conditioners and orders of variables and terms within the bounds',
  'A corrupted diagonal or a stale residual only appears on a second solve without a rebuild, that is after a rejected step.',
  [OBS + 'LinearSystemSolver.cpp', OBS + 'BlockCholeskyLinearSystemSolver.cpp', OBS + 'SparseCholeskyLinearSystemSolver.cpp', OBS + 'SparseQrLinearSystemSolver.cpp', OBS + 'DenseQrLinearSystemSolver.cpp', OBI + 'implementation/CompressedColumnMatrix.hpp', OBI + 'implementation/CompressedColumnJacobianTransposeBuilder.hpp'],
  [('block Cholesky', OBS + 'BlockCholeskyLinearSystemSolver.cpp'), ('sparse Cholesky', OBS + 'SparseCholeskyLinearSystemSolver.cpp'), ('dense QR', OBS + 'DenseQrLinearSystemSolver.cpp'), ('compressed matrix', OBI + 'implementation/CompressedColumnMatrix.hpp')],
  'exact real arithmetic; CHOLMOD and SPQR are stand-ins that record the system and return an arbitrary solution; single thread')
P('C26', 'An optimisation problem keeps variables and error terms consistent',
  'After any history of additions and removals a problem holds exactly the variables and error terms added and not removed, in order; every error term in it has all its variables in it, a refused addition leaves it unchanged, removing a variable removes exactly the terms that use it, the terms of a variable are found, and objects the problem owns are destroyed once.',
  ['histories'], 'all histories of additions and removals within the bounds',
  'A dangling term or a stale index needs a particular order of additions and removals.',
  [OBS + 'OptimizationProblem.cpp', OBS + 'SimpleOptimizationProblem.cpp', OBS + 'OptimizationProblemBase.cpp'], [('problem', OBS + 'OptimizationProblem.cpp'), ('simple problem', OBS + 'SimpleOptimizationProblem.cpp')],
  'error terms naming one variable twice are outside')
NA = {}
