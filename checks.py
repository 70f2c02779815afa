"""Registry: harness binaries (BINS) and checks (CHECKS)."""

INC_EIGEN = ["-isystem", "/usr/include/eigen3"]
INC_REPO = ["-I@REPO@/eigen_ext/include", "-I@REPO@/eigen_gtsam/include", "-I@REPO@/pointcloud_tools/include", "-I@REPO@/serpent/include"]
INC_PCL = ["-isystem", "/usr/include/pcl-1.14"]
INC_CV = ["-isystem", "/usr/include/opencv4"]
REF = "plain:harness/ref.cpp"

BINS = {}
CHECKS = {}


def binary(name, src, flags=(), libs=(), flavour="asan"):
    BINS[name] = {"src": src, "flags": ["-I@HERE@/harness"] + list(flags), "libs": list(libs), "flavour": flavour}


def scenario(bin, name, quick, **kw):
    d = {"bin": bin, "name": name, "quick": quick}
    d.update(kw)
    return d


def check(pid, rule, scenarios, **kw):
    d = {"rule": rule, "scenarios": scenarios}
    d.update(kw)
    CHECKS[pid] = d


EXT = INC_EIGEN + ["-I@REPO@/eigen_ext/include"]
for n in ("c01", "c02", "c03"):
    binary(n, ["harness/%s.cpp" % n, REF], EXT)

check("C01",
      "Each case draws rotation vectors (zero, 1e-9..1e-3, pi/2, ordinary, within 1e-9 of pi, axis aligned) and translations (zero, "
      "single-axis, 1e-3..1e3, ordinary), in double or float, and compares every transform routine with 4x4 homogeneous algebra "
      "and the definition of the adjoint. Non-trivial: the input matrices hash to a value not seen before.",
      [scenario("c01", "algebra", 16000), scenario("c01", "rates", 16000), scenario("c01", "precomputed", 16000), scenario("c01", "polar", 16000)],
      require_events=["transform_pairs", "rate_estimates", "precomputed_objects", "zero_rotation_seen", "polar_points"])
check("C02",
      "Random SPD (or zero) covariances of condition up to 1e6 and random rigid transforms; composition is compared with numerical "
      "first-order propagation of the group product. Non-trivial: distinct (covariance, transform).",
      [scenario("c02", "propagate", 12000), scenario("c02", "compose", 10000), scenario("c02", "rotate_point", 16000), scenario("c02", "reorder", 12000)],
      require_events=["covariances_moved", "compositions_with_cross_covariance", "compositions_without_cross_covariance",
                      "point_covariances_rotated", "reorderings"])
check("C03",
      "Matrices built to be on a known side of each predicate (SPD, one negative eigenvalue in each position, asymmetry inside/outside "
      "the precision in each position, zero/negative/non-finite entries in each position), sizes 2..9. Non-trivial: distinct matrix.",
      [scenario("c03", "validity", 24000), scenario("c03", "vectors", 20000)],
      require_events=["matrices_judged", "nonfinite_matrices", "vectors"])

PCLF = INC_EIGEN + INC_PCL + INC_REPO + ["-include", "@HERE@/harness/prelude.hpp"]
GTSAM_LIBS = ["-lgtsam", "-lboost_serialization", "-ltbb"]
PCL_LIBS = ["-lpcl_registration", "-lpcl_filters", "-lpcl_features", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree", "-lpcl_sample_consensus", "-lpcl_common",
            "-lflann_cpp", "-llz4"]
binary("c04", ["harness/c04.cpp", "repo:eigen_gtsam/src/geometry.cpp", REF], INC_EIGEN + INC_REPO, GTSAM_LIBS)
binary("c05", ["harness/c05.cpp", "repo:pointcloud_tools/src/point_types.cpp", REF], PCLF, PCL_LIBS)
binary("c06", ["harness/c06.cpp", "repo:pointcloud_tools/src/point_types.cpp", REF], PCLF, PCL_LIBS)
RC = "repo:serpent/src/front_end/lidar/registration_covariance.cpp"
binary("c08", ["harness/c08.cpp", "plain:harness/icp_ref.cpp", "repo:pointcloud_tools/src/point_types.cpp", REF], PCLF, PCL_LIBS)
binary("c09", ["harness/c09.cpp", "plain:harness/icp_ref.cpp", RC, "repo:pointcloud_tools/src/point_types.cpp", REF], PCLF, PCL_LIBS)
check("C04",
      "Random rigid transforms (rotation 0..pi, edge angles) converted in both directions and composed. Non-trivial: distinct transform.",
      [scenario("c04", "conversions", 20000)], require_events=["poses_converted"])
check("C05",
      "Random clouds of every supported point type (0..60 points, organised or not, with invalid points when not dense), transformed in place or into another cloud by a random rigid transform; every field of every point is compared with double-precision algebra. Non-trivial: distinct cloud.",
      [scenario("c05", "unit", 6000), scenario("c05", "covariance", 6000), scenario("c05", "dispatch", 6000)],
      require_events=["points_transformed", "nonfinite_points_kept", "in_place_transforms", "copying_transforms", "clouds_beyond_65536_points"])
check("C06",
      "Random field values in every point type, sent through the serialised format and back; poses; normals of exact and perturbed length; 64-bit stamps. Non-trivial: distinct values.",
      [scenario("c06", "types", 6000), scenario("c06", "angle_axis", 6000), scenario("c06", "utilities", 6000)],
      require_events=["typed_clouds_round_tripped", "pose_points", "normals_judged", "time_conversions"])
check("C07",
      "Source clouds made from a moved, noisy, shuffled target with unmatched points on both sides; random subset of source indices; both search directions. The oracle is brute force. Non-trivial: distinct clouds.",
      [scenario("c09", "correspondences", 4000)],
      require_events=["correspondences_forward-all", "correspondences_forward-subset", "correspondences_reciprocal-all", "correspondences_reciprocal-subset", "unrestricted_tree_rejected", "large_clouds", "identical_clouds", "unequal_clouds", "scaled_scenes"])
check("C08",
      "Random transform, correspondence and normal in five rotation regimes (ordinary, small, tiny, vanishing, exactly zero); the oracle is second-order automatic differentiation of the residual. Non-trivial: distinct (rotation, points).",
      [scenario("c08", "ordinary", 3000), scenario("c08", "small", 1000), scenario("c08", "tiny", 400), scenario("c08", "vanishing", 200), scenario("c08", "zero", 100), scenario("c08", "linear", 3000)],
      require_events=["correspondences_differentiated"])
check("C09",
      "Registrations of 30 to 2500 points with random rotation from zero to 3 rad, noise levels from 1e-9 to 1e3, sizes of space from 0.5 to 200, reach, crowded targets and subsets; the oracle recomputes the covariance from brute-force correspondences and exact derivatives. Ill-conditioned or ambiguous cases are skipped and counted. Non-trivial: distinct Hessian.",
      [scenario("c09", "estimators", 1600), scenario("c09", "names", 400)],
      require_events=["covariances_estimated", "targets_shared", "large_scenes", "far_matches_allowed"])

CVF = INC_EIGEN + INC_CV + INC_REPO + ["-include", "functional", "-include", "stdexcept"]
CV_LIBS = ["-lopencv_core"]
ST = "repo:serpent/src/front_end/stereo/"
binary("c10", ["harness/c10.cpp", ST + "window_functions.cpp", ST + "stereo_cost_functions.cpp", ST + "match_filters.cpp"], CVF, CV_LIBS)
binary("c11", ["harness/c11.cpp", ST + "window_functions.cpp", ST + "stereo_cost_functions.cpp", ST + "stereo_keypoint_matcher.cpp"], CVF, CV_LIBS)
check("C10",
      "Random images 1..30 pixels a side (noise, binary, gradient, low contrast; contiguous or views), windows inside, outside and on the border. The stack is filled with garbage before each call. Non-trivial: distinct image.",
      [scenario("c10", "windows", 8000), scenario("c10", "costs", 8000)],
      require_events=["windows_inside", "windows_outside", "costs_compared", "strided_images", "foreign_types_refused", "huge_windows", "huge_cost_windows", "dark_images"])
check("C11",
      "Random or shifted image pairs, 0..14 keypoints per side crowded onto one epipolar line, five costs, three filters, both directions; exact ties and ratio equality are skipped and counted. Non-trivial: distinct image pair.",
      [scenario("c11", "indices", 8000), scenario("c11", "scan", 6000), scenario("c11", "config", 2000)],
      require_events=["keypoints_matched", "keypoints_unmatched", "ratio_accepted", "ratio_rejected", "bidirectional_rejections", "epipolar_scans", "configurations_refused", "border_keypoints", "wide_images", "crowded_keypoint_lists"])
check("C12",
      "Sequences of five calls on one filter of each kind with random reconfiguration between them; matches within rounding of a range bound are left out, those exactly at one are kept. Non-trivial: distinct match set.",
      [scenario("c10", "filters", 8000)],
      require_events=["matches_passed", "matches_rejected", "focal_length_updates", "baseline_updates", "matches_exactly_at_limit", "large_match_sets"])
check("C13",
      "Random intrinsics, baselines, points 0.2..80 m away and coordinates of either disparity sign, with non-zero memory on both sides of the point. Non-trivial: distinct point.",
      [scenario("c10", "equations", 60000)],
      require_events=["points_projected", "coordinates_backprojected"])

# ---- parts that include ROS headers: built against the stand-in in shim/
SHIM = ["-I@MSGS@", "-I@HERE@/shim", "-I@REPO@/eigen_ros/include", "-I@REPO@/camera_tools/include", "-I@REPO@/imu_tools/include", "-I@REPO@/navigation_tools/include",
        "-include", "@HERE@/shim/prelude_ros.hpp"]
ROSF = INC_EIGEN + INC_PCL + INC_CV + INC_REPO + SHIM
ROSF_NOPCL = INC_EIGEN + INC_CV + INC_REPO + SHIM + ["-DVROS_NO_PCL"]
binary("c14", ["harness/c14.cpp", ST + "window_functions.cpp", ST + "stereo_cost_functions.cpp", ST + "stereo_keypoint_matcher.cpp", ST + "match_filters.cpp", ST + "stereo_feature_tracker.cpp"],
       ROSF_NOPCL, ["-lopencv_video", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_core"])
check("C14",
      "Sequences of 2..9 stereo frames with 0..50 scripted detections per side, scripted optical flow with random failures and jumps, random thresholds, regions of interest, refused frames, "
      "late-installed range filter, optional statistics and intermediate images; plus sequences with the real FAST detector and pyramidal Lucas-Kanade on a sliding textured scene. "
      "Non-trivial: a frame in which at least one feature was tracked.",
      [scenario("c14", "tracks", 3000), scenario("c14", "realistic", 80)],
      require_events=["frames_processed", "features_tracked", "features_new", "features_lost_by_flow", "features_lost_by_stereo", "statistics_checked", "runs_with_roi", "frames_refused", "real_features_tracked", "real_features_new"])
ER = "repo:eigen_ros/src/"
EIGEN_ROS = [ER + f + ".cpp" for f in ("eigen_ros", "geometry_msgs", "imu", "nav_msgs", "odometry", "pose", "sensor_msgs", "std_msgs", "statistics_msgs", "twist")]
binary("c18", ["harness/c18.cpp", "repo:serpent/src/utils/utilities.cpp", "repo:serpent/src/utils/ros_conversion.cpp", REF] + EIGEN_ROS, ROSF_NOPCL, GTSAM_LIBS)
check("C18",
      "Buffers of 2..14 strictly increasing stamps (gaps of 1 ns to 1.2 s), intervals whose ends fall between, exactly on and beyond measurements, chained onto earlier preintegration; interpolation at, between and outside the two stamps; "
      "valid and spoiled noise parameters; waits with every locking contract and with shutdown in the middle. Non-trivial: distinct interval.",
      [scenario("c18", "integrate", 6000), scenario("c18", "buffer", 4000), scenario("c18", "interpolate", 6000), scenario("c18", "parameters", 3000), scenario("c18", "sleep", 1500)],
      require_events=["intervals_integrated", "end_exactly_on_measurement", "start_exactly_on_measurement", "end_after_last_measurement", "split_intervals", "refusals", "measurements_dropped",
                      "messages_converted", "interpolations", "unknown_orientations", "orientations_interpolated", "parameters_accepted", "parameters_refused", "sleeps", "shutdown_while_waiting"])
binary("c19", ["harness/c19.cpp", REF] + EIGEN_ROS, ROSF_NOPCL)
check("C19",
      "Random values (including near-identity and half-turn rotations, tiny and large magnitudes, asymmetric matrices) converted to every message kind and back, into destinations holding other data; "
      "messages with wrong sizes. Every component is compared with its place in the message definition. Non-trivial: distinct values.",
      [scenario("c19", "messages", 8000), scenario("c19", "arrays", 6000), scenario("c19", "poses", 8000)],
      require_events=["values_converted", "covariances_converted", "odometries_converted", "dynamic_covariances", "multi_arrays", "parameters_read", "poses_transformed"])
binary("c20", ["harness/c20.cpp", ER + "body_frames.cpp", ER + "body_frames_tf.cpp", REF] + EIGEN_ROS, ROSF_NOPCL)
check("C20",
      "Random frame trees (1..13 frames, depth up to 3, aliases, looked-up and moving frames, un-normalised rotations, partial translations) read from parameters; a consistent world model answers TF queries and is the oracle "
      "for every transform at random times; plus eleven kinds of misconfiguration. Non-trivial: distinct frame pose.",
      [scenario("c20", "lookup", 3000), scenario("c20", "publish", 2000), scenario("c20", "refuse", 2000)],
      require_events=["configured_transforms", "looked_up_transforms", "dynamic_transforms", "aliases_resolved", "tf_failures", "static_transforms", "alias_transforms", "dynamic_frames_in_published_trees", "service_calls", "misconfigurations_refused"])
PCT2 = "repo:pointcloud_tools/src/pclpointcloud2_utilities.cpp"
binary("c15", ["harness/c15.cpp", PCT2, REF], ROSF, ["-lpcl_common"])
check("C15",
      "Random cloud layouts (gaps, trailing padding, field list in any order, multi-element fields, all eight datatypes, organised or not, possibly empty) with every unused byte random; each operation is compared with byte-level reference "
      "editing, and every byte it does not own must be unchanged. Non-trivial: distinct cloud contents.",
      [scenario("c15", "layout", 5000), scenario("c15", "values", 5000), scenario("c15", "analysis", 5000)],
      require_events=["clouds_extended", "values_read", "values_written", "casts", "casts_refused", "fields_scaled", "points_kept", "empty_clouds", "statistics_computed", "directions", "zero_points_refused", "normals_judged"])
check("C16",
      "Sweeps of 20 ms to 5 s with random rotation (0, 1e-3, up to 3 rad) and translation, deskewed to the start, the end, inside and before the sweep, in random cloud layouts and float or double fields. Non-trivial: distinct cloud and target time.",
      [scenario("c15", "deskew", 8000)],
      require_events=["points_deskewed", "deskewed_to_before_start", "no_motion"])
binary("c17", ["harness/c17.cpp", "repo:serpent/src/back_end/graph_manager.cpp", REF], ROSF_NOPCL, GTSAM_LIBS)
check("C17",
      "Random histories of setting, overwriting and reading states by key and by named key; factors of every kind at random keys; pose, IMU and barometer chains optimised one or several states at a time with further states already known, against a batch "
      "maximum-a-posteriori solution and its marginals; marginalisation windows of 1..4; stereo tracks with losses and missed states. Non-trivial: distinct history.",
      [scenario("c17", "store", 3000), scenario("c17", "factors", 2000), scenario("c17", "optimise", 250), scenario("c17", "marginalise", 120), scenario("c17", "stereo", 400)],
      require_events=["values_overwritten", "updates_from_values", "ranges_extracted", "complete_states", "minimum_keys", "factors_created", "key_queries", "busy_histories", "windows_resized", "crowded_frames", "initial_values_replaced", "several_states_at_once",
                      "states_beyond_optimised_key", "optimisations_compared", "covariances_compared", "states_marginalised", "states_without_stereo", "frame_pairs_with_missed_states", "landmarks_created",
                      "features_measured", "stereo_optimisations", "reacquired_ids", "frames_without_pose"])
BACKEND = ["repo:serpent/src/back_end/graph_manager.cpp", "repo:serpent/src/back_end/optimisation.cpp", "repo:serpent/src/utils/utilities.cpp", "repo:serpent/src/utils/ros_conversion.cpp",
           "repo:eigen_gtsam/src/geometry.cpp", ER + "body_frames.cpp"]
binary("c21", ["harness/c21.cpp", REF] + BACKEND + EIGEN_ROS, ROSF, GTSAM_LIBS + ["-lpcl_common"])
check("C21",
      "Missions of 2..6 states over every combination of inertial, registration, stereo and barometer factors, delivered on five callback threads with random delays, early and late arrival, missed and stale stereo frames, a barometer starting late; "
      "every published state, path, bias, covariance and predicted motion is compared with a reference graph solved in batch. Robust kernels, configured at random, are compared with what the stereo factors get. Shutdown with callbacks waiting; bad configurations and measurements. Non-trivial: distinct mission.",
      [scenario("c21", "history", 1200), scenario("c21", "kernel", 600), scenario("c21", "shutdown", 400), scenario("c21", "refuse", 800)],
      require_events=["estimates_compared", "covariances_compared", "inertial_transforms_compared", "velocities_from_poses", "stereo_frames_missed", "pressures_sent", "barometer_started_late",
                      "imu_before_initial_state", "kernels_compared", "stereo_frames_with_kernel", "landmarks_compared", "histories_completed", "shutdowns", "bad_inputs", "misconfigurations", "configurations_accepted"])
binary("c22", ["harness/c22.cpp", REF, "repo:serpent/src/front_end/frontend.cpp", "repo:serpent/src/utils/utilities.cpp", "repo:serpent/src/utils/ros_conversion.cpp",
               "repo:eigen_gtsam/src/geometry.cpp", ER + "body_frames.cpp", PCT2] + EIGEN_ROS, ROSF, GTSAM_LIBS + ["-lpcl_common"])
check("C22",
      "Missions of 2..6 point clouds with inertial, stereo and barometer streams sent from independent threads at random speeds (ahead of or far behind the clouds), stamps that coincide, missing stereo frames, a barometer that starts late, clouds without "
      "times; random extrinsics, motion, biases and reference frame. Every published message is accounted for; points are compared with a reference integration and with the simulated world; every IMU-rate odometry must be the prediction from "
      "the state in force. Shutdown with callbacks waiting; bad configurations. Non-trivial: distinct mission.",
      [scenario("c22", "mission", 1200), scenario("c22", "shutdown", 400), scenario("c22", "refuse", 200)],
      require_events=["initial_states_compared", "imu_arrays_compared", "clouds_compared", "points_compared_with_world", "clouds_without_times", "stereo_frames_compared", "graph_stereo_frames_compared",
                      "states_at_stereo_frames", "states_without_stereo_frame", "pressures_compared", "states_before_barometer_data", "base_link_poses_compared", "odometries_compared",
                      "imu_stamp_equal_to_cloud", "missions_completed", "shutdowns", "shutdowns_stereo", "misconfigurations", "empty_clouds"])
binary("c23", ["harness/c23.cpp", "harness/c23_unit.cpp", REF, "repo:pointcloud_tools/src/point_types.cpp", ER + "body_frames.cpp", PCT2] + EIGEN_ROS, ROSF, PCL_LIBS)
check("C23",
      "Histories of 3..12 steps (clouds with their path, corrections of random earlier poses, small and large motions, unmatched clouds, paths without the cloud, map and pose graph services at any time, also before the first cloud), both frame "
      "selections, both filters on and off, both point types of the nodes; a model map is the oracle for every point, normal and unit vector. Filtered maps are compared up to the voxel size; distance ties are skipped and counted. Non-trivial: distinct history.",
      [scenario("c23", "history", 3000), scenario("c23", "concurrent", 600), scenario("c23", "refuse", 300)],
      require_events=["map_points_compared", "filtered_maps_compared", "global_maps_compared", "empty_global_maps", "pose_graphs_compared", "map_poses_corrected", "key_clouds_added", "clouds_not_added",
                      "past_maps_compared", "nearby_maps_compared", "maps_larger_than_region", "paths_refused", "unmatched_clouds", "misconfigurations", "older_clouds", "answers_during_mission", "concurrent_maps", "concurrent_graphs"])
LIDAR = ["repo:serpent/src/front_end/lidar/" + f + ".cpp" for f in ("pointcloud_formatter", "pointcloud_filter", "pointcloud_add_unit_vectors")]
binary("c24", ["harness/c24.cpp", REF, "repo:pointcloud_tools/src/point_types.cpp", "repo:serpent/src/front_end/stereo/sensor_point_types.cpp", ER + "body_frames.cpp", PCT2] + LIDAR + EIGEN_ROS, ROSF, PCL_LIBS)
check("C24",
      "Ouster and custom clouds in random layouts, with early and late points, empty and organised clouds; every subset of the five filters with random parameters (each stage is judged on what the stage before published); noisy planes for normals by "
      "count and by radius with 1..4 threads; the whole chain on 2..6 threads; eight kinds of refusal. Values within single precision of a limit count either way. Non-trivial: distinct case.",
      [scenario("c24", "formatter", 3000), scenario("c24", "filters", 2500), scenario("c24", "normals", 1200), scenario("c24", "pipeline", 400), scenario("c24", "refuse", 400)],
      require_events=["points_formatted", "late_points", "empty_clouds", "first_clouds_removed", "cells_compared", "body_points_removed", "points_outside_body", "points_out_of_range", "outliers_removed", "samples_drawn",
                      "points_kept", "directions_added", "normals_compared", "pipelines_checked", "refusals"])
binary("c25", ["harness/c25.cpp", "harness/c25_unit.cpp", REF, RC, "repo:pointcloud_tools/src/point_types.cpp", "repo:serpent/src/front_end/lidar/registration_methods.cpp", "repo:serpent/src/utils/utilities.cpp", "repo:serpent/src/utils/ros_conversion.cpp",
               "repo:eigen_gtsam/src/geometry.cpp", ER + "body_frames.cpp"] + EIGEN_ROS, ROSF + ["-I@HERE@/shim/fast_gicp"], GTSAM_LIBS + PCL_LIBS)
check("C25",
      "Histories of 2..5 clouds of 25..120 landmarks with motions up to several degrees and decimetres, guesses slightly wrong, wildly wrong (no correspondences) or missing, maps with extra points, streams from three threads in any relative order; all registration "
      "methods (fast_gicp replaced by an ICP with its interface), covariance methods, models and point models, both point types, debug clouds. The reference is the same algorithm configured by hand, and the true motion where it is exact. "
      "Every parameter of every method is inspected; shutdown with scan-to-map waiting; thirteen kinds of misconfiguration. Non-trivial: distinct history.",
      [scenario("c25", "history", 1000), scenario("c25", "shutdown", 200), scenario("c25", "methods", 1500), scenario("c25", "refuse", 500)],
      require_events=["transforms_compared", "true_motions_compared", "covariances_compared", "infinite_covariances", "lost_clouds", "clouds_without_guess", "debug_clouds_compared", "shutdowns", "methods_inspected",
                      "misconfigurations", "normal_checks"])
CT = "repo:camera_tools/src/"
binary("c26", ["harness/c26.cpp", REF] + [CT + f + ".cpp" for f in ("image_operations", "split_image", "publish_info", "change_frame_id")], ROSF_NOPCL, ["-lopencv_core"])
check("C26",
      "Images of five encodings with padded rows, one to three regions each with every combination of flip and rotations (also none, and 0 degrees), several frames; every pixel and the camera model are compared with a reference (the order of several operations is free, but "
      "image and model must agree on it; the principal point is judged to a pixel per operation). Camera info for streams with changing size and frame; pairing of images and camera info with gaps and lags; eight kinds of refusal. Non-trivial: distinct case.",
      [scenario("c26", "split", 6000), scenario("c26", "operations", 6000), scenario("c26", "info", 2000), scenario("c26", "frame", 2000), scenario("c26", "refuse", 800)],
      require_events=["images_compared", "plain_regions", "flips_horiz", "flips_vert", "flips_both", "turns_0", "turns_90", "turns_180", "turns_270", "several_operations", "operations_compared", "infos_compared", "baselines",
                      "pairs_compared", "unpaired", "refusals"])
binary("c27", ["harness/c27.cpp", REF, "repo:eigen_gtsam/src/geometry.cpp", ER + "body_frames.cpp", "repo:imu_tools/src/imu_transform.cpp", "repo:imu_tools/src/imu_analysis.cpp"] +
       ["repo:navigation_tools/src/" + f + ".cpp" for f in ("combine_transforms", "odometry_to_tf", "integrate_imu")] + EIGEN_ROS, ROSF_NOPCL, GTSAM_LIBS)
check("C27",
      "Chains of 1..25 transforms of every accepted type; odometry of random frames; inertial messages turned by random rotations with every option; inertial streams of 2..40 messages with random extrinsics, gravity, noises and initial state, integrated by a "
      "hand-configured gtsam and by an independent integrator; repeated stamps; five kinds of misconfiguration. Non-trivial: distinct case.",
      [scenario("c27", "combine", 3000), scenario("c27", "to_tf", 2000), scenario("c27", "turn_imu", 3000), scenario("c27", "analysis", 2000), scenario("c27", "integrate", 1500), scenario("c27", "refuse", 500)],
      require_events=["combined_TransformStamped", "combined_PoseStamped", "combined_PoseWithCovarianceStamped", "odometry_transforms_compared", "imu_turned", "frames_overwritten", "orientations_shown", "transformed_orientations",
                      "integrations_compared", "without_orientation", "repeated_stamps", "refusals"])
binary("c28", ["harness/c28.cpp", REF] + [ST + f + ".cpp" for f in ("window_functions", "stereo_cost_functions", "stereo_keypoint_matcher", "match_filters", "stereo_feature_tracker", "stereo_factor_finder", "sensor_point_types")] + [PCT2] + EIGEN_ROS,
       ROSF, ["-lopencv_video", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_core", "-lpcl_common"])
check("C28",
      "Sequences of 1..6 stereo frames of a sliding textured scene delivered on four topics in any relative order, with frames missing on one topic, one or several spinner threads; all detectors, optical flow options, costs, matching filters, masks and range limits with random "
      "parameters set under their documented names, compared with a tracker configured by hand; statistics, points and debug images on and off. Non-trivial: a sequence with at least one feature.",
      [scenario("c28", "mission", 1500), scenario("c28", "refuse", 600)],
      require_events=["features_compared", "frames_compared", "incomplete_frames", "threaded_missions", "statistics_compared", "points_compared", "debug_images", "masks", "range_limited", "refusals"])
PT = "repo:pointcloud_tools/src/"
binary("c29", ["harness/c29.cpp", REF, PCT2, PT + "pointcloud_analyser.cpp", PT + "pointcloud_file_converter.cpp"] + EIGEN_ROS, ROSF, ["-lpcl_io", "-lpcl_kdtree", "-lpcl_search", "-lpcl_common", "-lflann_cpp", "-llz4"])
check("C29",
      "Pairs of random clouds in up to three frames moving between messages, arriving in either order, some alone; streams of clouds of random layout; clouds of random fields saved from topics to PCD and PLY files and loaded back in any order to shared topics, with unusable requests. Non-trivial: distinct message.",
      [scenario("c29", "distances", 2000), scenario("c29", "analyse", 3000), scenario("c29", "files", 800)],
      require_events=["distances_compared", "invalid_points", "clouds_in_different_frames", "lone_clouds", "statistics_compared", "clouds_with_normals", "fields_restored", "pcd_files", "ply_files", "refusals"])
SYS = ["repo:serpent/src/front_end/frontend.cpp", "repo:serpent/src/back_end/graph_manager.cpp", "repo:serpent/src/back_end/optimisation.cpp", "repo:serpent/src/utils/utilities.cpp", "repo:serpent/src/utils/ros_conversion.cpp",
       "repo:eigen_gtsam/src/geometry.cpp", ER + "body_frames.cpp", ER + "body_frames_tf.cpp", RC, "repo:serpent/src/front_end/lidar/registration_methods.cpp", "repo:pointcloud_tools/src/point_types.cpp", PCT2] + LIDAR + \
      [ST + f + ".cpp" for f in ("window_functions", "stereo_cost_functions", "stereo_keypoint_matcher", "match_filters", "stereo_feature_tracker", "stereo_factor_finder", "sensor_point_types")]
binary("c30", ["harness/c30.cpp", "harness/c30_main.cpp", REF] + SYS + EIGEN_ROS, ROSF + ["-I@HERE@/shim/fast_gicp", "-I@REPO@"],
       GTSAM_LIBS + PCL_LIBS + ["-lopencv_video", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_core"])
check("C30",
      "The node's own main, with the shipped configuration as its launch file loads it and random changes to it, on 4..8 threads: a known smooth motion through a textured room, inertial data at 200 Hz, 3..6 sweeps distorted by the motion, optional cameras and barometer, random mounting. Non-trivial: distinct mission.",
      [scenario("c30", "mission", 240), scenario("c30", "shipped", 24)],
      require_events=["states_compared", "fast_odometry_compared", "map_points_compared", "missions_with_cameras", "missions_without_cameras"])

for n in ("c21", "c22", "c23", "c24", "c25", "c28", "c29", "c30"):
    binary(n + "t", BINS[n]["src"] + ["harness/tsan_rt.cpp"], BINS[n]["flags"][1:], BINS[n]["libs"] + ["-ltbb"], flavour="tsan")
check("C31",
      "The missions of C21-C25 and C28-C30 (optimisation, front end, mapping, registration, lidar filters, stereo tracking, cloud comparison, the assembled node; shutdown with callbacks waiting) with the real code built under ThreadSanitizer: several spinner threads, "
      "senders on threads of their own, random delays. Every memory access and lock operation of the instrumented code is checked for happens-before order and lock order; crashes and callbacks that never end count too. Distinct pairs of callbacks seen running at the same "
      "time are counted. Non-trivial: distinct mission.",
      [scenario("c21t", "history", 1200), scenario("c21t", "shutdown", 400), scenario("c22t", "mission", 1000), scenario("c22t", "shutdown", 400), scenario("c23t", "history", 100), scenario("c23t", "concurrent", 600), scenario("c24t", "pipeline", 300),
       scenario("c25t", "history", 400), scenario("c25t", "shutdown", 200), scenario("c28t", "mission", 300), scenario("c29t", "distances", 400), scenario("c30t", "mission", 80)],
      only="crash:|hang:", 
      require_events=["histories_completed", "missions_completed", "shutdowns", "map_points_compared", "pipelines_checked", "true_motions_compared", "threaded_missions", "distances_compared", "fast_odometry_compared"])
