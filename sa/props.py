"""The properties and the parts of the program that carry each of them.

fns  : regular expressions over the qualified function name ("|"-joined, matched in full against the part after the
       outermost namespace); every function selected is an obligation "its summary conforms to the reviewed one"
data : regular expressions over class names whose in-class defaults / field types are obligations too
slots: optional restriction of the summary slots that count for this property (regular expression over the slot name)
rules: names of first-principles rules in sa/rules.py
"""

HIST = ["inputs", "histories"]
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, fns="", data="", rules=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, fns=fns, data=data,
                      rules=list(rules), state=list(state)))


T0 = ("The existing tests are simulation executables that pass when they exit with status 0; none of them compares an estimate, "
      "a covariance, a file or a message against an expected value, ")

P("C01", "Every state variable keeps its own rows and columns of the covariance",
  "At every moment the joint covariance is square with one row and column per error-state dimension, and the blocks recorded for the "
  "active variables tile it without gap or overlap. Adding, cloning, initialising, marginalising or querying variables moves exactly "
  "the blocks concerned: every remaining variable keeps its own variance and cross-covariances under its new position, and a removed "
  "variable is no longer referenced.",
  ["histories", "configurations"],
  "every sequence of clone / initialise / marginalise / update operations, for every set of calibration options and feature representations",
  T0 + "and they visit one calibration layout and one order of clone and feature arrivals.",
  ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/State.cpp", "ov_core/src/types/"],
  [("marginalisation, cloning and initialisation of variables", "ov_msckf/src/state/StateHelper.cpp"), ("initial layout of the calibration variables", "ov_msckf/src/state/State.cpp"),
   ("position bookkeeping of composite variables", "ov_core/src/types/Type.h, PoseJPL.h, IMU.h")],
  fns=r"StateHelper::(marginalize|marginalize_old_clone|marginalize_slam|clone|augment_clone|initialize|initialize_invertible|set_initial_covariance|get_marginal_covariance|get_full_covariance|EKFUpdate|EKFPropagation)|State::\(ctor\)|State::(max_covariance_size|imu_intrinsic_size)|(Type|PoseJPL|IMU|JPLQuat|Vec|Landmark)::(\(ctor\)|set_local_id|id|size|check_if_subvariable|clone|pose|q|p|v|bg|ba)",
  data=r"ov_msckf::State|ov_type::Type|ov_type::PoseJPL|ov_type::IMU|ov_type::Landmark", rules=["cov_layout", "order_vector"],
  state=[("joint covariance", "one dense matrix shared by all variables"), ("variable list", "each active variable with its starting row and its size")])

P("C02", "Propagation and update change mean and covariance by the EKF equations",
  "Propagating with a transition and noise matrix, or updating with a residual, Jacobian and noise matrix, changes the covariance by "
  "exactly the extended-Kalman-filter equations, including every cross-covariance with variables outside the measurement, and corrects "
  "every active variable with its own segment of the state correction. The covariance stays symmetric, delayed initialisation appends "
  "the correctly conditioned block, and a negative variance on the diagonal stops the program instead of being carried on.",
  ["inputs", "histories"],
  "every transition, noise, Jacobian and residual matrix, every subset and order of involved variables, and every history of earlier operations",
  T0 + "so a wrong cross-covariance or a dropped term goes unnoticed as long as nothing becomes negative.",
  ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_core/src/types/"],
  [("propagation of a block of variables", "ov_msckf/src/state/StateHelper.cpp"), ("measurement update and correction of the variables", "ov_msckf/src/state/StateHelper.cpp"),
   ("delayed initialisation of a new variable", "ov_msckf/src/state/StateHelper.cpp")],
  fns=r"StateHelper::(EKFPropagation|EKFUpdate|set_initial_covariance|initialize|initialize_invertible|get_marginal_covariance|get_full_covariance|augment_clone)|(Type|PoseJPL|IMU|JPLQuat|Vec|Landmark)::(update|set_value|set_value_internal)|Propagator::propagate_and_clone|UpdaterHelper::(measurement_compress_inplace|nullspace_project_inplace)",
  rules=["cov_symmetric", "neg_diag_stops"])

P("C03", "Jacobians use first-estimate values exactly when that mode is selected",
  "When first-estimate linearisation is enabled, every state- and measurement-Jacobian is evaluated at the first estimate of the "
  "variables concerned while residuals use the current estimate; when it is disabled only current estimates are used. First estimates "
  "are set when a variable enters the state and are never changed by an update afterwards.",
  ["histories", "configurations"],
  "every update history, for both settings of the linearisation option and every feature representation",
  T0 + "and the wrong linearisation point only shows as a slow loss of consistency.",
  ["ov_msckf/src/update/UpdaterHelper.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_core/src/types/"],
  [("measurement Jacobians", "ov_msckf/src/update/UpdaterHelper.cpp"), ("process Jacobians", "ov_msckf/src/state/Propagator.cpp"), ("value / first-estimate pairs", "ov_core/src/types/*.h"),
   ("anchor changes keep the first-estimate frame consistent", "ov_msckf/src/update/UpdaterSLAM.cpp")],
  fns=r"UpdaterHelper::get_feature_jacobian_(full|representation)|Propagator::compute_(F_and_G_analytic|F_and_G_discrete|H_Dw|H_Da|H_Tg|Xi_sum)|UpdaterSLAM::(perform_anchor_change|delayed_init|update|change_anchors)|UpdaterMSCKF::update|UpdaterZeroVelocity::try_update|(Type|PoseJPL|IMU|JPLQuat|Vec)::(fej|set_fej|set_fej_internal|Rot_fej|pos_fej|quat_fej|vel_fej|bias_g_fej|bias_a_fej|update|clone)|Landmark::(get_xyz|set_from_xyz|update)|StateHelper::(augment_clone|clone|initialize|initialize_invertible)|VioManager::initialize_with_gt|StaticInitializer::initialize",
  data=r"ov_msckf::StateOptions", rules=["fej_pairs", "fej_callers"])

P("C04", "The sliding window holds one pose clone per processed frame and stays bounded",
  "Each processed camera frame adds exactly one clone of the inertial pose, stored under the time at which that pose was propagated, "
  "and each clone carries the derivative with respect to the camera time offset when that is estimated. The oldest clone is removed "
  "once the configured window size is exceeded, after everything anchored in it or measured from it has been used, moved or dropped.",
  ["histories", "configurations"],
  "every sequence of frames, every window size and every camera time offset",
  T0 + "and they run with one window size and well-behaved timestamps.",
  ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/State.h", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/state/Propagator.cpp"],
  [("cloning with the time-offset derivative", "ov_msckf/src/state/StateHelper.cpp"), ("oldest clone selection", "ov_msckf/src/state/State.h"), ("per-frame orchestration", "ov_msckf/src/core/VioManager.cpp")],
  fns=r"StateHelper::(augment_clone|marginalize_old_clone|clone|marginalize|marginalize_slam)|State::margtimestep|Propagator::propagate_and_clone|VioManager::(do_feature_propagate_update|track_image_and_update|try_to_initialize)|UpdaterSLAM::change_anchors|UpdaterZeroVelocity::try_update|FeatureDatabase::cleanup_measurements(_exact)?|Feature::clean_old_measurements|Feature::clean_older_measurements",
  data=r"ov_msckf::StateOptions", rules=["clone_map"])

P("C05", "No image measurement is fused twice or lost before its use",
  "A feature observation contributes to at most one filter update: features picked for an update are taken out of the pool or have the "
  "used observations removed, and a track is used only when it is finished, has reached the oldest clone, or has reached the maximum "
  "length. Tracks that are too short, too many, or rejected are dropped or kept for later exactly as configured, longest and most "
  "valuable first.",
  ["histories", "inputs"],
  "every history of feature births, losses and lengths, and every limit on the number of features per update",
  T0 + "and double use of information does not make a run fail.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_core/src/feat/FeatureDatabase.cpp"],
  [("selection of features for each kind of update", "ov_msckf/src/core/VioManager.cpp"), ("marking used observations", "ov_msckf/src/update/UpdaterMSCKF.cpp, UpdaterSLAM.cpp"),
   ("removal of used features", "ov_core/src/feat/FeatureDatabase.cpp")],
  fns=r"VioManager::(do_feature_propagate_update|retriangulate_active_tracks)|UpdaterMSCKF::update|UpdaterSLAM::(update|delayed_init)|FeatureDatabase::.*|Feature::clean_.*|FeatureDatabase::\(ctor\)",
  rules=["to_delete"])

P("C06", "Only measurements passing their chi-square gate change the state",
  "Before it is fused, each feature or zero-velocity measurement is tested with its Mahalanobis distance, built from its own residual, "
  "Jacobian, the current marginal covariance of the involved variables and the configured noise, against the 95% threshold for the size "
  "of its residual times the configured multiplier. A measurement that fails leaves mean and covariance untouched and is discarded or "
  "counted as failed.",
  ["inputs", "configurations"],
  "every residual, Jacobian and covariance, every residual size including those beyond the precomputed table, and every multiplier",
  T0 + "and nothing checks that rejected measurements had no effect.",
  ["ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterZeroVelocity.cpp", "ov_msckf/src/state/StateHelper.cpp"],
  [("gate of window features", "ov_msckf/src/update/UpdaterMSCKF.cpp"), ("gate of long-lived features", "ov_msckf/src/update/UpdaterSLAM.cpp"), ("gate in delayed initialisation", "ov_msckf/src/state/StateHelper.cpp"),
   ("gate of zero-velocity updates", "ov_msckf/src/update/UpdaterZeroVelocity.cpp")],
  fns=r"Updater(MSCKF|SLAM|ZeroVelocity)::(\(ctor\)|update|delayed_init|try_update)|StateHelper::(initialize|initialize_invertible|get_marginal_covariance)|VioManagerOptions::print_and_load_estimator|UpdaterOptions::print",
  data=r"ov_msckf::UpdaterOptions", rules=["chi2_gate"])

P("C07", "Feature measurement Jacobians are the derivatives of the measurement",
  "For every camera model, feature representation and calibration option, the residual of a feature observation is the raw pixel minus "
  "the predicted pixel, and the Jacobian blocks stacked for clone poses, anchor, extrinsics, intrinsics and feature are the chain-rule "
  "derivatives of that prediction with respect to the variables they are assigned to. Removing the feature by projection and compressing "
  "the stacked system loses no information about the remaining variables.",
  ["inputs", "configurations"],
  "every geometry, camera model, representation and combination of calibration switches",
  T0 + "and no test differentiates a measurement.",
  ["ov_msckf/src/update/UpdaterHelper.cpp", "ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h"],
  [("stacked feature Jacobian", "ov_msckf/src/update/UpdaterHelper.cpp"), ("camera derivatives", "ov_core/src/cam/"), ("null-space projection and compression", "ov_msckf/src/update/UpdaterHelper.cpp")],
  fns=r"UpdaterHelper::.*|Cam(Radtan|Equi)::compute_distort_jacobian|UpdaterMSCKF::update|UpdaterSLAM::(update|delayed_init)|Landmark::get_xyz|CamBase::distort_d",
  rules=["cam_derivative"])

P("C08", "Feature representations convert losslessly and survive anchor changes",
  "For every supported landmark parameterisation, converting a position to stored parameters and back returns the same point in the "
  "same frame, for the current and for the first estimate alike. When the clone a landmark is anchored in leaves the window the landmark "
  "is re-expressed in the newest clone, its mean, first estimate and covariance are transformed together, and its global position is "
  "unchanged.",
  ["inputs", "histories", "configurations"],
  "every landmark position, every representation and every sequence of anchor changes",
  T0 + "and the default run uses a single representation.",
  ["ov_core/src/types/Landmark.cpp", "ov_core/src/types/LandmarkRepresentation.h", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterHelper.cpp"],
  [("parameter conversions", "ov_core/src/types/Landmark.cpp"), ("names and classes of representations", "ov_core/src/types/LandmarkRepresentation.h"), ("anchor change", "ov_msckf/src/update/UpdaterSLAM.cpp")],
  fns=r"Landmark::.*|LandmarkRepresentation::.*|UpdaterSLAM::(change_anchors|perform_anchor_change|delayed_init|update)|UpdaterHelper::get_feature_jacobian_representation|VioManager::(get_features_SLAM|get_features_ARUCO)|StateHelper::marginalize_slam",
  data=r"ov_type::Landmark|ov_type::LandmarkRepresentation|ov_type::LandmarkRepresentation::Representation", rules=["landmark_roundtrip", "enum_switch"])

P("C09", "The IMU process model matches its mean equations in every configuration",
  "For each integration method and each IMU intrinsic model, the mean follows the strap-down equations with bias, scale, misalignment and "
  "gravity sensitivity applied in the documented order, and the state transition and noise Jacobians are the derivatives of that same "
  "motion, so that the methods agree to first order. Process noise enters with the configured densities and the correct power of the "
  "time step, and gravity has the configured magnitude along the global vertical.",
  ["inputs", "configurations"],
  "every pair of IMU readings, every state, all integration methods and intrinsic models",
  T0 + "and only the default integration method and intrinsic model is exercised.",
  ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h", "ov_msckf/src/state/State.h", "ov_msckf/src/utils/NoiseManager.h"],
  [("mean integration", "ov_msckf/src/state/Propagator.cpp"), ("transition and noise Jacobians", "ov_msckf/src/state/Propagator.cpp"), ("intrinsic matrices", "ov_msckf/src/state/State.h")],
  fns=r"Propagator::(compute_.*|predict_.*|propagate_and_clone|\(ctor\)|fast_state_propagate)|State::(Dm|Tg|imu_intrinsic_size|\(ctor\))|NoiseManager::.*|UpdaterZeroVelocity::try_update",
  data=r"ov_msckf::NoiseManager|ov_msckf::StateOptions|ov_msckf::Propagator", rules=["imu_order", "fg_agree"])

P("C10", "IMU readings used for an interval cover exactly that interval",
  "For every requested interval the readings handed to propagation start and end exactly at its two boundaries, interpolated from the "
  "neighbouring readings, are strictly increasing in time, and include every reading in between once. When the readings cannot cover the "
  "interval the request is refused or reported rather than silently using a wrong interval.",
  ["inputs", "histories"],
  "every stream of IMU times and every pair of interval boundaries, including coincident times and gaps",
  T0 + "and simulated IMU times are perfectly regular.",
  ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h", "ov_init/src/utils/helper.h"],
  [("selection and interpolation for the filter", "ov_msckf/src/state/Propagator.cpp"), ("selection and interpolation for initialisation", "ov_init/src/utils/helper.h")],
  fns=r"Propagator::(select_imu_readings|interpolate_data|feed_imu|clean_old_imu_measurements|propagate_and_clone|fast_state_propagate)|InitializerHelper::(select_imu_readings|interpolate_data)|InertialInitializer::feed_imu|UpdaterZeroVelocity::(feed_imu|clean_old_imu_measurements|try_update)|ImuData::operator<|VioManager::feed_measurement_imu",
  data=r"ov_core::ImuData", rules=["sibling_imu_select"])

P("C11", "High-rate pose prediction starts from the latest fused state",
  "The state and covariance returned between camera frames are obtained by integrating the buffered IMU readings from the most recently "
  "fused state to the requested time, expressed with the local velocity frame and covariance order that is documented. Any change of the "
  "fused state invalidates what was predicted from the old one, and the prediction never alters the filter.",
  ["histories", "inputs"],
  "every interleaving of prediction requests, IMU readings and filter updates",
  T0 + "and no test requests a prediction.",
  ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h", "ov_msckf/src/core/VioManager.cpp"],
  [("cached prediction", "ov_msckf/src/state/Propagator.cpp"), ("invalidation", "ov_msckf/src/state/Propagator.h and its callers")],
  fns=r"Propagator::(fast_state_propagate|invalidate_cache|feed_imu|clean_old_imu_measurements|select_imu_readings|interpolate_data|predict_and_compute|\(ctor\))|UpdaterZeroVelocity::try_update|UpdaterMSCKF::update|UpdaterSLAM::(update|delayed_init)|VioManager::(initialize_with_gt|feed_measurement_imu|feed_measurement_simulation|track_image_and_update|do_feature_propagate_update)",
  data=r"ov_msckf::Propagator", rules=["cache_invalidation"])

P("C12", "Data shared between threads is accessed under its lock, without deadlock",
  "IMU buffers, feature tracks, image and track history, initialisation queues and visualisation results that are reachable from more "
  "than one thread are read and written only while the mutex that owns them is held, for the whole of each compound access. Locks are "
  "acquired in a consistent order, never twice by one thread, and parallel image processing changes only per-camera data or locked data.",
  ["schedules"],
  "every interleaving of the callback threads, the background initialisation thread and the parallel tracking workers",
  "The tests are single-schedule runs without a race detector; a missing lock fails only on rare interleavings.",
  ["ov_core/src/track/", "ov_core/src/feat/FeatureDatabase.cpp", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/state/Propagator.h", "ov_init/src/init/InertialInitializer.cpp"],
  [("feature database lock", "ov_core/src/feat/FeatureDatabase.cpp"), ("tracker locks", "ov_core/src/track/TrackBase.h"), ("initialisation thread", "ov_msckf/src/core/VioManagerHelper.cpp"), ("IMU buffers", "ov_msckf/src/state/Propagator.h, ov_init/src/init/InertialInitializer.cpp")],
  fns="", rules=["locks"])

P("C13", "Camera models distort and undistort consistently with their Jacobians",
  "Each camera model maps normalised coordinates to pixels by its published distortion equations, its derivatives with respect to the "
  "point and to the intrinsics are those of that mapping, and undistortion uses the same parameters and is its inverse. Setting new "
  "intrinsics takes effect in every one of these functions.",
  ["inputs", "configurations"],
  "every pixel, every intrinsic vector and both camera models",
  T0 + "and the derivatives are never compared with the mapping.",
  ["ov_core/src/cam/CamBase.h", "ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h"],
  [("perspective model with radial-tangential distortion", "ov_core/src/cam/CamRadtan.h"), ("fisheye model", "ov_core/src/cam/CamEqui.h"), ("shared parameters", "ov_core/src/cam/CamBase.h")],
  fns=r"Cam(Base|Radtan|Equi)::.*", data=r"ov_core::Cam.*", rules=["cam_derivative", "cam_params"])

P("C14", "Rotation algebra is self-consistent and cached rotations match their quaternions",
  "Quaternion, rotation-matrix, exponential, logarithm, Jacobian and Euler conversions follow one convention and are mutually inverse "
  "where they should be, including for small and for maximal angles. Every state variable's cached rotation, and every sub-variable of "
  "a composite variable, always agrees with the stored value, whether it was set, updated or cloned.",
  ["inputs", "histories"],
  "every quaternion, rotation and tangent vector, and every sequence of set / update / clone calls",
  T0 + "and no test calls the conversions at their special cases.",
  ["ov_core/src/utils/quat_ops.h", "ov_core/src/types/"],
  [("conversions", "ov_core/src/utils/quat_ops.h"), ("cached rotation", "ov_core/src/types/JPLQuat.h"), ("composite variables", "ov_core/src/types/PoseJPL.h, IMU.h")],
  fns=r"(Inv|Inv_se3|Jl_so3|Jr_so3|Omega|exp_se3|exp_so3|hat_se3|log_se3|log_so3|quat_2_Rot|quat_multiply|quatnorm|rot2rpy|rot_2_quat|rot_x|rot_y|rot_z|skew_x|vee)|(Type|JPLQuat|PoseJPL|IMU|Vec)::.*|State_JPLQuatLocal::.*",
  data=r"ov_type::.*", rules=["so3_series", "value_cache"])

P("C15", "Feature records stay in lockstep and queries return exactly what they say",
  "For every feature and camera the stored times, raw and normalised coordinates always have the same length and correspond index by "
  "index, whatever is appended, removed or merged. Queries by time or by id return exactly the features satisfying the stated condition, "
  "and removal requests delete exactly those, leaving every other record unchanged.",
  ["histories", "inputs"],
  "every sequence of additions, queries and clean-ups, from any number of cameras",
  T0 + "and a lost or mismatched measurement only lowers accuracy.",
  ["ov_core/src/feat/Feature.cpp", "ov_core/src/feat/FeatureDatabase.cpp"],
  [("record clean-up", "ov_core/src/feat/Feature.cpp"), ("database queries", "ov_core/src/feat/FeatureDatabase.cpp")],
  fns=r"Feature(Database)?::.*|TrackBase::change_feat_id|TrackSIM::feed_measurement_simulation|FeatureHelper::compute_disparity",
  data=r"ov_core::Feature(Database)?", rules=["lockstep"])

P("C16", "Track identities are unique and every observation belongs to its camera and time",
  "New tracks receive identifiers never used before and outside the range reserved for fiducial tag corners, and a track keeps its "
  "identifier from frame to frame. Each observation is stored under the camera and time of the image it was found in, with normalised "
  "coordinates computed by that camera's calibration, and fiducial corners keep fixed, collision-free identifiers.",
  ["histories", "inputs", "configurations"],
  "every image sequence, number of cameras, stereo pairing and number of tags",
  T0 + "and the simulator supplies perfect associations, so identity mistakes are not reached.",
  ["ov_core/src/track/", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp"],
  [("optical-flow tracker", "ov_core/src/track/TrackKLT.cpp"), ("descriptor tracker", "ov_core/src/track/TrackDescriptor.cpp"), ("fiducial tracker", "ov_core/src/track/TrackAruco.cpp"), ("simulated tracker", "ov_core/src/track/TrackSIM.cpp"), ("tag / feature classification", "ov_msckf/src/core/VioManager.cpp, ov_msckf/src/update/UpdaterSLAM.cpp")],
  fns=r"Track(Base|KLT|Descriptor|Aruco|SIM)::.*|VioManager::(\(ctor\)|do_feature_propagate_update|get_features_ARUCO|get_features_SLAM|feed_measurement_simulation|track_image_and_update)|UpdaterSLAM::(update|delayed_init|change_anchors)|StateHelper::marginalize_slam|FeatureDatabase::update_feature|UpdaterMSCKF::update|CameraData::operator<",
  data=r"ov_core::Track.*|ov_core::CameraData", rules=["aruco_range", "id_fresh"])

P("C17", "Pixels are read only inside the image, and masked regions yield no features",
  "Every pixel or mask look-up happens only at coordinates already established to lie inside the image it addresses, for detection, "
  "tracking, matching and simulation alike. No feature is extracted or kept inside the region masked out for its camera, and detections "
  "closer than the configured minimum distance to existing ones are not added.",
  ["inputs", "configurations"],
  "every image size, mask, grid setting and tracked position, including positions predicted outside the image",
  T0 + "and synthetic measurements never leave the image.",
  ["ov_core/src/track/TrackKLT.cpp", "ov_core/src/track/TrackDescriptor.cpp", "ov_core/src/track/TrackAruco.cpp", "ov_core/src/track/Grider_GRID.h", "ov_core/src/track/Grider_FAST.h", "ov_msckf/src/sim/Simulator.cpp"],
  [("tracked points against image and mask", "ov_core/src/track/TrackKLT.cpp"), ("grid extraction", "ov_core/src/track/Grider_GRID.h, Grider_FAST.h"), ("descriptor extraction", "ov_core/src/track/TrackDescriptor.cpp")],
  fns=r"Track(KLT|Descriptor|Aruco)::(feed_.*|perform_.*|robust_.*)|Grider_(FAST|GRID)::.*|Simulator(Init)?::project_pointcloud|VioManager::(feed_measurement_camera|track_image_and_update|get_historical_viz_image)|TrackBase::display_.*",
  data=r"ov_core::Track(KLT|Descriptor|Aruco)", rules=["pixel_bounds"])

P("C18", "Each configuration entry reaches its own parameter and takes effect",
  "Every documented configuration key is read into the parameter it names, with the documented unit, transform direction and per-camera "
  "index, and its default applies only when the key is absent. Parameters are handed to the components that use them unchanged, and "
  "parsing yields the values written in the file, with node-level overrides taking precedence.",
  ["configurations", "inputs"],
  "every configuration file and every combination of option values and cameras",
  T0 + "and they use one or two configuration files with mostly default values.",
  ["ov_msckf/src/core/VioManagerOptions.h", "ov_init/src/init/InertialInitializerOptions.h", "ov_msckf/src/state/StateOptions.h", "ov_core/src/utils/opencv_yaml_parse.h", "ov_core/src/feat/FeatureInitializerOptions.h", "ov_msckf/src/core/VioManager.cpp"],
  [("option groups", "ov_msckf/src/core/VioManagerOptions.h, ov_init/src/init/InertialInitializerOptions.h"), ("typed look-up", "ov_core/src/utils/opencv_yaml_parse.h"), ("wiring to components", "ov_msckf/src/core/VioManager.cpp")],
  fns=r"(VioManagerOptions|InertialInitializerOptions|StateOptions|FeatureInitializerOptions|UpdaterOptions|NoiseManager)::.*|YamlParser::.*|VioManager::(\(ctor\)|get_params)|InertialInitializer::\(ctor\)|Updater(MSCKF|SLAM|ZeroVelocity)::\(ctor\)|Propagator::\(ctor\)|State::\(ctor\)|Track(KLT|Descriptor|Aruco|SIM|Base)::\(ctor\)|FeatureInitializer::(\(ctor\)|config)|LandmarkRepresentation::from_string|Printer::.*",
  data=r".*Options|ov_msckf::NoiseManager", rules=["config_table"])

P("C19", "Invalid configuration or input is refused with an error, not used",
  "A missing or unparsable mandatory entry, an inconsistent calibration, an unknown option value or an unreadable file leads to an error "
  "message and termination or a reported failure. It never results in running with a partly filled or contradictory configuration.",
  ["configurations", "inputs", "fault_sequences"],
  "every malformed or incomplete configuration and data file",
  "The tests only start from valid files.",
  ["ov_msckf/src/core/VioManagerOptions.h", "ov_init/src/init/InertialInitializerOptions.h", "ov_core/src/utils/opencv_yaml_parse.h", "ov_core/src/utils/print.cpp", "ov_core/src/utils/dataset_reader.h", "ov_eval/src/utils/Loader.cpp"],
  [("validation of options", "ov_msckf/src/core/VioManagerOptions.h"), ("failure flag of the parser", "ov_core/src/utils/opencv_yaml_parse.h"), ("file loading", "ov_core/src/utils/dataset_reader.h, ov_eval/src/utils/Loader.cpp")],
  fns=r"(VioManagerOptions|InertialInitializerOptions)::.*|YamlParser::.*|LandmarkRepresentation::from_string|Printer::setPrintLevel|DatasetReader::.*|Loader::.*|AlignTrajectory::align_trajectory|Landmark::.*|State::\(ctor\)|Simulator(Init)?::\(ctor\)|BsplineSE3::feed_trajectory|main@run_simulation",
  rules=["must_fail"])

P("C20", "Simulation is reproducible and measures the true trajectory",
  "With the same seeds and configuration the simulator produces the same sequence of measurements and perturbed parameters, independent "
  "of anything else the program does. Simulated inertial and camera measurements are the true trajectory seen through the true (not the "
  "perturbed) parameters at the stated rates and times, plus noise of the configured density and a correctly evolving bias.",
  ["configurations", "histories"],
  "every seed, rate, noise setting, camera set and trajectory",
  T0 + "and each run uses one seed per purpose; the repeatability test covers one configuration.",
  ["ov_msckf/src/sim/Simulator.cpp", "ov_init/src/sim/SimulatorInit.cpp", "ov_msckf/src/run_simulation.cpp"],
  [("measurement generation", "ov_msckf/src/sim/Simulator.cpp"), ("initialiser simulator", "ov_init/src/sim/SimulatorInit.cpp"), ("simulated filter run", "ov_msckf/src/run_simulation.cpp")],
  fns=r"Simulator(Init)?::.*|main@run_simulation|BsplineSE3::.*|VioManager::feed_measurement_simulation|TrackSIM::.*|DatasetReader::load_simulated_trajectory",
  data=r".*::Simulator(Init)?|.*Options", rules=["rng_seeding", "sibling_sim"])

P("C21", "Evaluation files are read with the column meaning they were written with",
  "Every trajectory, state, deviation, ground-truth and timing file is parsed with the same column order, units and comment rules it is "
  "written with, so each loaded quantity is the one recorded. Incomplete or comment lines are skipped, and unreadable input is reported.",
  ["inputs"],
  "every file content and every number of cameras or algorithms in it",
  "No test loads a result file.",
  ["ov_eval/src/utils/Loader.cpp", "ov_eval/src/calc/ResultSimulation.cpp", "ov_eval/src/calc/ResultTrajectory.cpp", "ov_eval/src/format_converter.cpp", "ov_core/src/utils/dataset_reader.h"],
  [("file readers", "ov_eval/src/utils/Loader.cpp"), ("state / deviation columns", "ov_eval/src/calc/ResultSimulation.cpp"), ("ground-truth reader", "ov_core/src/utils/dataset_reader.h")],
  fns=r"Loader::.*|ResultSimulation::.*|ResultTrajectory::\(ctor\)|DatasetReader::.*|process_csv|main@(format_converter|timing_.*|error_simulation)",
  rules=["eval_columns"])

P("C22", "Trajectory association, alignment and error metrics follow their definitions",
  "Estimates are paired with the nearest ground truth within the tolerance, each aligned by the least-squares transform of the requested "
  "class over exactly the requested poses. Absolute, relative, planar and normalised errors and their summary statistics are those of the aligned pairs, "
  "in the stated units, segment by segment and run by run.",
  ["inputs", "configurations"],
  "every pair of trajectories, alignment class, segment length and tolerance",
  "No test computes a metric.",
  ["ov_eval/src/alignment/", "ov_eval/src/calc/", "ov_eval/src/utils/Statistics.h", "ov_eval/src/error_comparison.cpp"],
  [("association and alignment", "ov_eval/src/alignment/AlignUtils.cpp, AlignTrajectory.cpp"), ("metrics", "ov_eval/src/calc/ResultTrajectory.cpp, ov_eval/src/utils/Statistics.h")],
  fns=r"Align(Utils|Trajectory)::.*|Result(Trajectory|Simulation)::.*|Statistics::.*|Loader::(get_total_length|load_data)|main@(error_.*|plot_trajectories|timing_.*)|plot_.*",
  data=r"ov_eval::Statistics", rules=["alignment_count", "stats_reset"])

P("C23", "Static initialisation happens only at rest and yields a gravity-aligned state",
  "Without motion the system initialises only when the inertial readings show the configured lack (or onset) of motion over the "
  "configured windows, and otherwise leaves the state untouched. On success the attitude aligns measured gravity with the global "
  "vertical, gyroscope and accelerometer biases explain the remaining readings, velocity and position are zero, and the covariance block "
  "and its order match the state it describes.",
  ["inputs", "configurations"],
  "every window of IMU readings and every threshold and window length",
  T0 + "and the simulated runs start from ground truth.",
  ["ov_init/src/static/StaticInitializer.cpp", "ov_init/src/init/InertialInitializer.cpp", "ov_init/src/utils/helper.h", "ov_msckf/src/core/VioManagerHelper.cpp"],
  [("static window test and state", "ov_init/src/static/StaticInitializer.cpp"), ("choice of initialiser", "ov_init/src/init/InertialInitializer.cpp"), ("gravity-aligned frame", "ov_init/src/utils/helper.h"), ("hand-over to the filter", "ov_msckf/src/core/VioManagerHelper.cpp")],
  fns=r"StaticInitializer::.*|InertialInitializer::.*|InitializerHelper::gram_schmidt|VioManager::(try_to_initialize|initialize_with_gt)|StateHelper::set_initial_covariance|FeatureHelper::.*|IMU::(set_value|set_fej|update)",
  data=r"ov_init::.*Options", rules=["init_untouched"])

P("C24", "Dynamic initialisation returns a consistent state or fails without side effects",
  "Initialisation under motion uses the feature tracks and inertial readings of the configured window, requires the configured number of "
  "features, poses, rotation and gravity magnitude, and optimises residuals whose Jacobians are their derivatives. On success pose, "
  "velocity, biases, clones, features and covariance are expressed in one gravity-aligned frame in the stated order; on any failure "
  "nothing of the caller's is changed.",
  ["inputs", "configurations"],
  "every set of tracks and readings, and every success or failure point inside the procedure",
  T0 + "and whether the result is right is only printed.",
  ["ov_init/src/dynamic/DynamicInitializer.cpp", "ov_init/src/ceres/", "ov_init/src/utils/helper.h"],
  [("linear and nonlinear solution", "ov_init/src/dynamic/DynamicInitializer.cpp"), ("residual factors", "ov_init/src/ceres/"), ("gravity-constrained polynomial", "ov_init/src/utils/helper.h")],
  fns=r"DynamicInitializer::.*|Factor_.*|State_JPLQuatLocal::.*|InitializerHelper::.*|InertialInitializer::initialize|CpiV1::feed_IMU|Feature::clean_older_measurements",
  data=r"ov_init::.*", rules=["init_untouched"])

P("C25", "Zero-velocity updates are applied only when the platform is at rest",
  "A zero-velocity update is attempted only when enabled, with enough readings and after initialisation, and is applied only if the "
  "disparity or the chi-square and speed tests indicate standstill; otherwise mean and covariance are untouched and normal processing "
  "continues. When applied, the residual is the deviation of the readings from a stationary platform, the noise is the scaled IMU noise "
  "of each interval, and the image of that time adds no clone or feature information.",
  ["inputs", "histories", "configurations"],
  "every window of readings, thresholds and history of earlier updates",
  T0 + "and the standard simulation is always in motion.",
  ["ov_msckf/src/update/UpdaterZeroVelocity.cpp", "ov_msckf/src/update/UpdaterZeroVelocity.h", "ov_msckf/src/core/VioManager.cpp", "ov_core/src/feat/FeatureHelper.h"],
  [("detection and update", "ov_msckf/src/update/UpdaterZeroVelocity.cpp"), ("calls from the manager", "ov_msckf/src/core/VioManager.cpp"), ("disparity statistics", "ov_core/src/feat/FeatureHelper.h")],
  fns=r"UpdaterZeroVelocity::.*|VioManager::(track_image_and_update|feed_measurement_simulation|feed_measurement_imu|do_feature_propagate_update|\(ctor\))|FeatureHelper::compute_disparity|VioManagerOptions::print_and_load_estimator|FeatureDatabase::cleanup_measurements_exact|Feature::clean_old_measurements",
  data=r"ov_msckf::(UpdaterOptions|VioManagerOptions|UpdaterZeroVelocity)", rules=["zupt_gate"])

P("C26", "Preintegrated inertial measurements, Jacobians and covariance agree",
  "Feeding a sequence of inertial readings accumulates relative rotation, velocity and position exactly as the chosen continuous model "
  "prescribes, whatever the interval splitting. The bias and gravity Jacobians are the derivatives of those quantities, and the "
  "covariance is propagated with the same model and the configured noise.",
  ["inputs", "configurations"],
  "every sequence of readings and intervals, including zero rotation rate, for both models and the averaging option",
  "No test reads a preintegrated quantity.",
  ["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp", "ov_core/src/cpi/CpiBase.h", "ov_init/src/ceres/Factor_ImuCPIv1.cpp"],
  [("piecewise constant measurement model", "ov_core/src/cpi/CpiV1.cpp"), ("piecewise constant local acceleration model", "ov_core/src/cpi/CpiV2.cpp"), ("residual on two states", "ov_init/src/ceres/Factor_ImuCPIv1.cpp")],
  fns=r"Cpi(Base|V1|V2)::.*|Factor_ImuCPIv1::.*", data=r"ov_core::Cpi.*", rules=["cpi_defaults"])

P("C27", "A triangulated point is accepted only if it passes every configured test",
  "Triangulation combines all observations of a feature with the matching camera poses and returns a position in the anchor and global "
  "frame only if its depth limits, condition number, convergence and baseline ratio are within the configured limits. Refinement "
  "minimises the reprojection error, accepts only steps that reduce it, and a rejected feature is not used by any update.",
  ["inputs", "configurations"],
  "every set of observations, poses and limits, for both triangulation variants with and without refinement",
  T0 + "and the acceptance limits are rarely reached in simulation.",
  ["ov_core/src/feat/FeatureInitializer.cpp", "ov_core/src/feat/FeatureInitializerOptions.h", "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp"],
  [("triangulation and refinement", "ov_core/src/feat/FeatureInitializer.cpp"), ("use of the result", "ov_msckf/src/update/UpdaterMSCKF.cpp, UpdaterSLAM.cpp")],
  fns=r"FeatureInitializer::.*|FeatureInitializer::ClonePose::.*|FeatureInitializerOptions::.*|UpdaterMSCKF::update|UpdaterSLAM::delayed_init|VioManager::retriangulate_active_tracks",
  data=r"ov_core::FeatureInitializer(Options)?", rules=["tri_checked"])

P("C28", "The estimator processes measurements in order and reports what it estimated",
  "Measurements are processed in time order: inertial readings reach every consumer, images are handled once, old or early images are "
  "skipped, and nothing is fused before initialisation. After each image the published active tracks, landmarks, time and status describe "
  "the state of that image in the documented frames, with the estimated calibration applied.",
  ["histories", "configurations"],
  "every sequence of inertial, image and simulated measurements and every set of enabled features",
  T0 + "and published outputs are not inspected.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/core/VioManager.h"],
  [("measurement entry points", "ov_msckf/src/core/VioManager.cpp"), ("initialisation, visualisation and queries", "ov_msckf/src/core/VioManagerHelper.cpp")],
  fns=r"VioManager::.*|State::\(ctor\)|Track(Base|SIM)::.*|main@run_simulation|Propagator::feed_imu|InertialInitializer::feed_imu",
  data=r"ov_msckf::VioManager(Options)?|ov_core::TrackBase", rules=["imu_fanout"])

P("C29", "Diagnostic output never reads the wrong type or a missing argument",
  "Every formatted message is printed with exactly one argument of the matching type for each conversion, for every print level and "
  "every branch it is on. Messages at or above the selected level are printed and lower ones are not.",
  ["inputs", "configurations"],
  "every print statement reachable in any configuration, error branch or print level",
  "Most messages sit on branches no test takes, and a mismatched argument is undefined behaviour rather than a visible failure.",
  ["ov_core/src/utils/print.h", "ov_core/src/utils/print.cpp", "ov_core/src", "ov_init/src", "ov_msckf/src", "ov_eval/src"],
  [("print function and level filter", "ov_core/src/utils/print.cpp"), ("all callers", "ov_core, ov_init, ov_msckf, ov_eval")],
  fns=r"Printer::.*", rules=["format"])

P("C30", "The spline trajectory interpolates its poses with matching derivatives",
  "The simulated trajectory passes through control poses resampled uniformly from the loaded ones, and pose, velocity and acceleration "
  "are the value and the first and second time derivatives of one and the same cubic spline at every time in its range. Outside the "
  "range, or with too few poses, evaluation reports failure instead of extrapolating.",
  ["inputs"],
  "every loaded trajectory and every query time",
  T0 + "and derivative errors are absorbed as simulated motion.",
  ["ov_core/src/sim/BsplineSE3.cpp", "ov_core/src/sim/BsplineSE3.h", "ov_core/src/utils/quat_ops.h"],
  [("resampling and evaluation", "ov_core/src/sim/BsplineSE3.cpp"), ("SE(3) exponential and logarithm", "ov_core/src/utils/quat_ops.h")],
  fns=r"BsplineSE3::.*|(exp_se3|log_se3|hat_se3|Inv_se3|exp_so3|log_so3|vee|skew_x)|DatasetReader::load_simulated_trajectory",
  data=r"ov_core::BsplineSE3", rules=["spline_basis"])

NOT_APPLICABLE = [
    ("N01", "Estimates stay accurate and their covariance statistically consistent",
     "On a well-excited trajectory with correct calibration the estimation error stays bounded and its normalised squared value stays near its expected value. "
     "This holds for every integration method and feature representation.",
     ["inputs", "histories"], "every trajectory and noise realisation",
     "quantifies over real-valued trajectories, noise realisations and floating-point behaviour; no static argument in reach bounds it"),
    ("N02", "Processing keeps up with the sensor rates",
     "Each camera frame is processed within the time between frames at the configured rates and feature counts, on the intended hardware.",
     ["inputs", "configurations"], "every image sequence and hardware platform",
     "a run-time quantity (wall-clock time of image processing and linear algebra) that depends on hardware and data"),
    ("N03", "Iterative refinement converges numerically to a good minimum",
     "Feature refinement, undistortion and the initialisation optimisation converge to the minimum of their cost from the initial values they are given.",
     ["inputs"], "every observation geometry and conditioning",
     "depends on numerical conditioning and third-party solvers; the update formulas and acceptance tests are decided under C24 and C27, convergence itself is not"),
]
