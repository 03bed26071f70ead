UNITS = {}
PROPS = {}
K = 'Schweizer-Messer/sm_kinematics/src/'
UNITS['quat'] = dict(harness='quat.cpp', src=[K + x for x in ('quaternion_algebra.cpp', 'rotations.cpp')])
PROPS['C02'] = dict(units=['quat'], bounds='all real quaternions / vectors; no loops to bound')
UNITS['kin'] = dict(harness='kin.cpp', src=[K + x for x in ('quaternion_algebra.cpp', 'rotations.cpp', 'transformations.cpp', 'EulerAnglesYawPitchRoll.cpp', 'EulerAnglesZYX.cpp', 'EulerAnglesZXY.cpp', 'EulerRodriguez.cpp', 'RotationVector.cpp', 'RotationalKinematics.cpp')])
PROPS['C03'] = dict(units=['kin'], bounds='all unit quaternions, Euler angles and rotation vectors in the stated domains; no loops to bound')
PROPS['C04'] = dict(units=['kin'], bounds='all real inputs of the parametrisations; no loops to bound')
PROPS['C05'] = dict(units=['kin'], bounds='all rotation vectors and angles in the stated domains, including the small-angle branches')
UNITS['tf'] = dict(harness='tf.cpp', src=[K + x for x in ('quaternion_algebra.cpp', 'rotations.cpp', 'transformations.cpp', 'Transformation.cpp', 'UncertainTransformation.cpp', 'HomogeneousPoint.cpp', 'UncertainHomogeneousPoint.cpp', 'homogeneous_coordinates.cpp')] + ['Schweizer-Messer/sm_random/src/random.cpp'])
PROPS['C06'] = dict(units=['tf'], bounds='all poses and points, interpolation parameter in [0,1]; no loops to bound')
PROPS['C07'] = dict(units=['tf'], bounds='all poses, points, covariances and perturbations; no loops to bound')
SMC = 'Schweizer-Messer/sm_common/src/'
UNITS['cam'] = dict(harness='cam.cpp', src=['aslam_cv/aslam_cameras/src/NoDistortion.cpp'])
PROPS['C08'] = dict(units=['cam'], bounds='all intrinsics and points in the stated domains, for every projection with no or symbolic distortion')
CAM = 'aslam_cv/aslam_cameras/src/'
UNITS['dist'] = dict(harness='dist.cpp', src=[CAM + x + '.cpp' for x in ('NoDistortion', 'RadialTangentialDistortion', 'EquidistantDistortion', 'FovDistortion')])
PROPS['C09'] = dict(units=['dist'], bounds='all distortion parameters and points; the iterative inversion is checked on one step and at its fixed point')
UNITS['time'] = dict(harness='time.cpp', src=['aslam_cv/aslam_time/src/time.cpp', 'aslam_cv/aslam_time/src/duration.cpp', 'Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp'])
PROPS['C01'] = dict(units=['time'], bounds='all 32-bit field values (sums and differences of durations: |seconds| <= 1e9); fromNSec over the full representable range; conversion from decimal seconds normalised for |x| <= 4e9 and exact to 2 ns for |x| <= 4, in IEEE arithmetic', outside='Duration*double, Rate, sleep and wall clock readings', opts={'time_secval_ieee': dict(qt=60000)})
SB = 'aslam_optimizer/aslam_sparse_block_matrix/src/'
UNITS['sbm'] = dict(harness='sbm.cpp', src=[SB + 'matrix_structure.cpp', SB + 'sparse_helper.cpp'])
PROPS['C14'] = dict(units=['sbm'], bounds='block layouts of up to 3x3 blocks of up to 3x3 entries, all entries and histories of block creation')
OB = 'aslam_optimizer/aslam_backend/src/'
UNITS['eb'] = dict(harness='eb.cpp', src=[OB + x + '.cpp' for x in ('JacobianContainer', 'ErrorTerm', 'ErrorTermDs', 'MEstimatorPolicies', 'DesignVariable')] + ['Schweizer-Messer/sm_timing/src/Timer.cpp'])
PROPS['C12'] = dict(units=['eb'], bounds='error dimension up to 3, two design variables, all residuals, weights and Jacobians')
PROPS['C13'] = dict(units=['eb'], bounds='Jacobian containers with up to 4 blocks, all chain rule matrices and activity patterns')

BE = 'aslam_optimizer/aslam_backend_expressions/src/'
EXPR_SRC = [BE + x + '.cpp' for x in ('ErrorTermEuclidean', 'ErrorTermTransformation', 'EuclideanDirection', 'EuclideanExpression', 'EuclideanExpressionNode', 'EuclideanPoint', 'HomogeneousExpression', 'HomogeneousExpressionNode', 'HomogeneousPoint', 'MapTransformation', 'MappedEuclideanPoint', 'MappedHomogeneousPoint', 'MappedRotationQuaternion', 'MatrixBasic', 'MatrixExpression', 'MatrixExpressionNode', 'MatrixTransformation', 'RotationExpression', 'RotationExpressionNode', 'RotationQuaternion', 'Scalar', 'ScalarExpression', 'ScalarExpressionNode', 'TransformationBasic', 'TransformationExpression', 'TransformationExpressionNode', 'Vector2RotationQuaternionExpressionAdapter')]
KIN_SRC = [K + x + '.cpp' for x in ('quaternion_algebra', 'rotations', 'transformations', 'Transformation', 'homogeneous_coordinates', 'EulerAnglesYawPitchRoll', 'EulerAnglesZYX', 'EulerRodriguez', 'RotationVector', 'RotationalKinematics')]
EB_SRC = UNITS['eb']['src']
UNITS['expr'] = dict(harness='expr.cpp', src=EXPR_SRC + KIN_SRC + EB_SRC)
PROPS['C16'] = dict(units=['expr'], bounds='one level of every expression node (compositions follow by induction over nodes), all values and perturbations')
PROPS['C17'] = dict(units=['expr'], bounds='every design variable of the expression library, all updates, one update and revert')
PROPS['C18'] = dict(units=['expr'], bounds='each error term and expression list of the library, all values')
BSP = 'aslam_nonparametric_estimation/aslam_bsplines/src/'
UNITS['spl'] = dict(harness='spl.cpp', src=[BSP + 'BSpline.cpp'] + UNITS['sbm']['src'], libs=['-lcholmod'])
PROPS['C19'] = dict(units=['spl'], bounds='orders 2 to 5, up to 4 segments, all times and coefficients, uniform, non-uniform and repeated knots')
PROPS['C20'] = dict(units=['spl'], bounds='orders 2 to 4, up to 3 segments and 4 data points, histories of up to 3 edits')
UNITS['pose'] = dict(harness='pose.cpp', src=[BSP + 'BSpline.cpp', BSP + 'BSplinePose.cpp'] + KIN_SRC + UNITS['sbm']['src'], libs=['-lcholmod'])
PROPS['C21'] = dict(units=['pose'], bounds='orders 2 to 4, up to 3 segments, all times and coefficients, concrete non-uniform knots')
SPL = 'aslam_nonparametric_estimation/aslam_splines/src/'
KAL = 'aslam_offline_calibration/kalibr/src/'
UNITS['imu'] = dict(harness='imu.cpp', src=[BSP + 'BSpline.cpp', BSP + 'BSplinePose.cpp'] + [SPL + x + '.cpp' for x in ('BSplineExpressions', 'BSplinePoseDesignVariable', 'EuclideanBSplineDesignVariable')] + [KAL + x + '.cpp' for x in ('AccelerometerError', 'GyroscopeError', 'EuclideanError')] + [OB + x + '.cpp' for x in ('MarginalizationPriorErrorTerm', 'OptimizationProblem', 'OptimizationProblemBase')] + EXPR_SRC + KIN_SRC + EB_SRC + UNITS['sbm']['src'], libs=['-lcholmod'])
PROPS['C22'] = dict(units=['imu'], bounds='orders 2 to 4, up to 3 segments, all times, coefficients and measurements')
UNITS['tsc'] = dict(harness='tsc.cpp', src=[])
PROPS['C23'] = dict(units=['tsc'], bounds='histories of 3 points with any remote and local times; 4 and 5 points with any local times at stated remote times', outside='integer time types; rounding')
APT = 'aslam_offline_calibration/aslam_apriltag2/src/'
CVB = 'aslam_cv/aslam_cv_backend/src/'
UNITS['targ'] = dict(harness='targ.cpp', src=[CAM + x + '.cpp' for x in ('GridCalibrationTargetBase', 'GridCalibrationTargetCheckerboard', 'GridCalibrationTargetCirclegrid', 'GridCalibrationTargetObservation', 'GridDetector', 'CameraGeometryBase', 'NoDistortion', 'RadialTangentialDistortion', 'EquidistantDistortion', 'FovDistortion', 'RollingShutter', 'ImageMask', 'GlobalShutter', 'NoMask', 'FrameBase', 'KeypointBase', 'DescriptorBase', 'BackProjection', 'Landmark')] + ['aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp', CVB + 'GridCalibrationTargetDesignVariableContainer.cpp', APT + 'TagDetection.cc', APT + 'TagFamily.cc'] + UNITS['time']['src'] + sorted(set(UNITS['expr']['src'] + UNITS['tf']['src'])))
SML = ['Schweizer-Messer/sm_logging/src/' + x + '.cpp' for x in ('Formatter', 'Logger', 'LoggingEvent', 'LoggingGlobals', 'StdOutLogger', 'Tokens')]
UNITS['targ']['native_src'] = SML
UNITS['targ']['libs'] = ['-lboost_system', '-lboost_thread', '-lboost_regex'] + ['-lboost_serialization']
PROPS['C11'] = dict(units=['targ'], bounds='targets of up to 3x4 corners (2x3 tags), any spacing; observations with any 3 edits; up to 4 detected tags with any identifier, border position and refinement', outside='detection in the image itself, drawing, the pose estimate')

UNITS['camgeo'] = dict(UNITS['targ'], harness='camgeo.cpp', src=UNITS['targ']['src'] + [CAM + 'Image.cpp'])
PROPS['C10'] = dict(units=['camgeo'], bounds='six camera compositions with all parameters, updates, estimation flags and points; mask images of up to 4x6 pixels', outside='loading masks from files')
PROPS['C15'] = dict(units=['camgeo'], bounds='three camera compositions with all parameters, points, measurements and weights', outside='')

# ---- optimiser
OPT_SRC = [OB + x + '.cpp' for x in ('BlockCholeskyLinearSolverOptions', 'BlockCholeskyLinearSystemSolver', 'DenseMatrix', 'DenseQRLinearSolverOptions', 'DenseQrLinearSystemSolver', 'JacobianBuilder', 'LinearSystemSolver', 'Matrix', 'SparseBlockMatrixWrapper', 'SparseCholeskyLinearSolverOptions', 'SparseCholeskyLinearSystemSolver', 'SparseQRLinearSolverOptions', 'SparseQrLinearSystemSolver', 'sparse_matrix_functions')]
UNITS['lin'] = dict(harness='lin.cpp', src=OPT_SRC + EB_SRC + UNITS['sbm']['src'], libs=['-lcholmod', '-lspqr', '-lboost_thread', '-lboost_system'])
PROPS['C25'] = dict(units=['lin'], bounds='three unknowns in two blocks, three residuals in two terms, all values, both orders, two solves between builds; matrices up to 4 x 6')
UNITS['opt'] = dict(harness='opt.cpp', src=OPT_SRC + [OB + x + '.cpp' for x in ('DogLegTrustRegionPolicy', 'GaussNewtonTrustRegionPolicy', 'LevenbergMarquardtTrustRegionPolicy', 'OptimizationProblem', 'OptimizationProblemBase', 'SimpleOptimizationProblem', 'Optimizer2', 'TrustRegionPolicy')] + EB_SRC + UNITS['sbm']['src'], libs=['-lcholmod', '-lspqr', '-lboost_thread', '-lboost_system'])
PROPS['C24'] = dict(units=['opt'], bounds='two active and one inactive variable, up to two optimiser iterations with failures in between, any cost function and any policy; policies: one call from any state, or three calls')
PROPS['C26'] = dict(units=['opt'], bounds='three variables and two error terms, all histories of four operations')
