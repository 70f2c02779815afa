"""Properties of the parts that are built against the ROS stand-in in /verif/shim."""
from props import prop, NOTE

NOTE_R = NOTE + "These sources include ROS headers, which are not installed: they are compiled against the stand-in in /verif/shim (message structs generated from the .msg files, an in-process bus), which is trusted too. "
NOT_APPLICABLE = []

prop("C14", "Tracked stereo features keep identity and mutual consistency across frames",
     "After every processed stereo frame the reported features are in one-to-one correspondence with distinct match ids; an id, once given, always denotes the same physical feature and is never reused or changed; a feature that optical flow, the stereo geometry or the range filter "
     "loses in either image is dropped with its id and never returns; new features are only added away from tracked ones, within the region of interest and below the cost limit; "
     "the per-frame statistics equal the counts of what actually happened; a refused frame (different image sizes) leaves the tracks as they were.",
     ["histories", "inputs"], "all sequences of stereo frames, detections, flow results, thresholds, regions of interest and filters",
     "No test covers the tracker; identity errors need several frames with losses on one side only.",
     ["serpent/src/front_end/stereo/stereo_feature_tracker.cpp", "serpent/include/serpent/front_end/stereo/stereo_feature_tracker.hpp"],
     [("per-frame pipeline and track bookkeeping", "serpent/src/front_end/stereo/stereo_feature_tracker.cpp")],
     ["returned keypoints, matches, ids and statistics"], "trace monitor with scripted detector and optical flow, plus real detector runs, under ASan+UBSan", NOTE_R,
     state=[("previous_track_data", "features carried to the next frame", "stereo_feature_tracker.hpp"), ("next_match_id", "next unused id", "stereo_feature_tracker.hpp")])

prop("C18", "Inertial data is integrated and interpolated over exactly the requested time",
     "Preintegration over [start, end] uses at every instant the last measurement stamped at or before it, covers exactly end - start, keeps what was accumulated before, and gives the same result when the interval is split; an empty interval changes nothing; "
     "a buffer that cannot cover the start or has fewer than two measurements is refused. Pruning removes exactly the measurements strictly older than the given time. "
     "Scalar, pressure and IMU interpolation are linear (spherical-linear for orientation) between the two stamps and refuse times outside them. Invalid noise parameters are refused. "
     "The condition wait evaluates its condition with the lock held, sleeps without it, ends on shutdown, and leaves the lock as asked.",
     ["inputs", "histories"], "all ordered measurement buffers, intervals, stamps, noise parameters and locking modes",
     "The tests of these functions need ROS and use one regular buffer; stamps exactly at the interval ends do not occur in them.",
     ["serpent/src/utils/utilities.cpp", "serpent/include/serpent/utils/utilities-inl.hpp", "serpent/src/utils/ros_conversion.cpp", "eigen_ros/src/imu.cpp"],
     [("segment loop, pruning, interpolation, waiting", "serpent/src/utils/utilities.cpp")], ["preintegrated motion and covariance, returned values, exceptions, lock state"],
     "differential monitor against a segment-by-segment reference; lock-state monitor in the sleep hook; under ASan+UBSan", NOTE_R)

prop("C19", "Message conversions preserve every component in its documented place",
     "Converting a vector, quaternion, transform, pose, twist, odometry, IMU sample, header, covariance or matrix to its message and back returns the same value whatever the destination held before; 6x6 covariances appear in messages in (position, orientation) order, row by row, and internally in (rotation, translation) order; "
     "messages whose sizes do not fit are refused. Applying a transform to a pose composes it on the right and moves its covariance to the new frame; changing the frame of an IMU sample rotates its vectors and their covariances by the inverse extrinsic.",
     ["inputs"], "all values of all convertible types",
     "The tests of these conversions need ROS and use symmetric or diagonal examples in which a swapped block or a transposed matrix does not show.",
     ["eigen_ros/src/geometry_msgs.cpp", "eigen_ros/include/eigen_ros/eigen_ros.hpp", "eigen_ros/include/eigen_ros/std_msgs.hpp", "eigen_ros/src/statistics_msgs.cpp", "eigen_ros/src/pose.cpp", "eigen_ros/src/odometry.cpp", "eigen_ros/src/imu.cpp"],
     [("field-wise conversion and covariance reordering", "eigen_ros/src/geometry_msgs.cpp")], ["converted messages and values"],
     "component-wise differential monitor with poisoned destinations, under ASan+UBSan", NOTE_R)

prop("C20", "The body frame tree gives consistent transforms between all frames",
     "For every frame tree given as parameters, the transform between any two frames at any time is the one implied by composing the configured (or looked-up, or, for moving frames, current) parent-child transforms; frame-to-body is its inverse; aliases and frame ids resolve to their frame; transforms looked up once are not looked up again. "
     "The static transforms published are those of every configured frame and alias exactly once, and of no moving or looked-up frame. Duplicate names, ids or aliases, contradictory or malformed entries, unknown frames and unavailable transforms are refused.",
     ["configurations", "inputs"], "all frame trees, frames, times and TF contents",
     "There is no test of this class.",
     ["eigen_ros/src/body_frames.cpp", "eigen_ros/src/body_frames_tf.cpp"],
     [("recursive parameter reader", "eigen_ros/src/body_frames.cpp"), ("static broadcaster and lookup service", "eigen_ros/src/body_frames_tf.cpp")],
     ["returned transforms, published static transforms, service replies, exceptions"], "world-model monitor over random frame trees and TF answers, under ASan+UBSan", NOTE_R)

prop("C15", "Editing a raw point cloud changes exactly the requested fields of every layout",
     "For any layout (gaps, trailing padding, fields in any order, multi-element fields, every datatype, empty or organised clouds): adding fields keeps every existing byte of every point and appends non-overlapping fields inside the point; reading, writing, casting, scaling and renaming a field touch exactly that field of the points concerned; "
     "filtering keeps exactly the chosen points in order; the computed sizes, statistics, unit vectors and directions are those of the points; unknown fields, type mismatches and out-of-range requests are refused rather than read out of bounds.",
     ["inputs", "configurations"], "all PointCloud2 layouts, field types and values",
     "The tests of these utilities need ROS and use one packed layout.",
     ["pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp"],
     [("field arithmetic and typed accessors", "pointcloud_tools/src/pclpointcloud2_utilities.cpp")], ["bytes, fields and header of the resulting cloud; exceptions"],
     "byte-level differential monitor against reference editing, under ASan+UBSan", NOTE_R)

prop("C16", "Deskewing moves every point to where it was at the requested time",
     "With motion of constant velocity over the sweep (translation linear in time, rotation at constant rate about a fixed axis), deskewing to any time, before, inside or after the sweep, re-expresses every point in the sensor frame of that time according to the point's own time offset; the cloud's stamp becomes that time and the offsets become zero; "
     "everything else in the cloud is unchanged; without motion the points are unchanged; a non-positive duration and missing fields are refused.",
     ["inputs"], "all sweeps, motions, target times and point times",
     "The test needs ROS and moves along one axis to three target times.",
     ["pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
     [("deskew loop", "pointcloud_tools/src/pclpointcloud2_utilities.cpp")], ["deskewed points, times, stamp and the other bytes"],
     "differential monitor against long-double closed-form motion, under ASan+UBSan", NOTE_R)

prop("C17", "The pose graph feeds every measurement to the optimiser exactly once and reports the optimum",
     "Every stored state, stamp and named key reads back as last set and everything unset is refused; factors and values in a key range are exactly those created for it. Optimising up to a key yields the maximum-a-posteriori estimate (and marginal covariances) of exactly the factors created up to that key, "
     "whether states are optimised one by one or several at once, and leaves later states as they were; marginalising old states does not change the estimate or covariances of a consistent graph and removes exactly the states outside the window. "
     "A stereo feature seen in two successive stereo frames is measured in both, whatever states lie between the frames; its landmark is created once, at its first pair, where its disparity places it; reacquired ids, repeated frames and frames without a pose are refused.",
     ["histories", "inputs"], "all histories of states, factors, stereo tracks and optimisation points",
     "The graph manager tests need ROS and follow one chain optimised once; none covers stereo, marginalisation, missed states or partly optimised graphs.",
     ["serpent/src/back_end/graph_manager.cpp", "serpent/include/serpent/back_end/graph_manager.hpp", "serpent/include/serpent/back_end/graph_manager-inl.hpp"],
     [("new-factor and new-value extraction, stereo track bookkeeping", "serpent/src/back_end/graph_manager.cpp")],
     ["returned values, factors, landmarks, estimates, covariances and exceptions"],
     "trace monitor with a reference graph solved in batch, under ASan+UBSan", NOTE_R,
     state=[("new_factors_/new_values_", "what the optimiser has not seen", "graph_manager.hpp"), ("stereo_features", "feature tracks by key", "graph_manager.hpp")])

prop("C21", "The back end publishes one maximum-a-posteriori state per synchronised set of measurements",
     "For each state the front end announces, the back end publishes exactly one optimised state, in order and with the announced stamp, once every enabled factor (inertial, registration, stereo, barometer) for it has arrived, whatever the order and timing in which the measurement streams deliver them. "
     "Each published pose path, velocity, bias and covariance is the maximum-a-posteriori estimate (and marginal) of exactly the measurements received up to that state, and the predicted inertial motion is consistent with the state it starts from. A missed or late stereo frame or barometer reading delays or omits nothing else. "
     "Configurations and measurements that cannot be used are refused with an exception and leave the node usable; callbacks waiting for a measurement end at shutdown.",
     ["schedules", "histories", "inputs"], "all arrival orders, factor configurations and missions",
     "There is no test of the node; the guarantees depend on five concurrent callbacks waiting on each other.",
     ["serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/back_end/optimisation.hpp"],
     [("per-factor callbacks waiting on the shared graph", "serpent/src/back_end/optimisation.cpp")],
     ["published messages, their stamps and order, and exceptions leaving callbacks"],
     "trace monitor of the real node on a recording ROS stand-in, random callback schedules, batch reference solution, under ASan+UBSan", NOTE_R,
     state=[("gm", "the pose graph shared by the callbacks", "optimisation.hpp"), ("graph_mutex", "serialises the callbacks on the graph", "optimisation.hpp")])

prop("C22", "The front end gives each state exactly the measurements that belong to it",
     "One state is made per point cloud, at the first stereo frame of its interval or else at the cloud's stamp. For each state the front end publishes, in order and exactly once, the cloud deskewed to it along the motion of the lidar during the sweep, the IMU measurements that span it from the previous state, "
     "the pressure interpolated at it and (if asked to) its stereo frame, and an initial odometry for the first, whatever the relative timing of the sensor streams. "
     "Every later IMU measurement gives one odometry: the prediction from the latest optimised state and biases with all measurements since. The pose and transform published for an optimised state are those of base_link in the map, with the covariance of that pose. "
     "Unusable configurations and empty clouds are refused; callbacks waiting for a measurement end at shutdown.",
     ["schedules", "histories", "inputs"], "all relative timings of the streams, extrinsics, motions and configurations (with registration of the clouds enabled in the back end)",
     "There is no test of the node; a wrong extrinsic, a dropped or duplicated measurement or a stalled stream shows only in runs with several streams.",
     ["serpent/src/front_end/frontend.cpp", "serpent/include/serpent/front_end/frontend.hpp", "serpent/src/utils/utilities.cpp"],
     [("state selection and waiting for measurements in pointcloud_callback", "serpent/src/front_end/frontend.cpp"), ("IMU-rate prediction", "serpent/src/front_end/frontend.cpp")],
     ["published messages, their stamps, contents and order, and exceptions leaving callbacks"],
     "trace monitor of the real node on a recording ROS stand-in, independent sensor threads, reference integration and simulated world, under ASan+UBSan", NOTE_R,
     state=[("imu_buffer/stereo_buffer/barometer_buffer", "measurements not yet given to a state", "frontend.hpp"), ("previous_state_time", "state the next measurements start from", "frontend.hpp")])

prop("C23", "The map holds every key cloud at its latest pose, and map outputs are exactly the clouds they should contain",
     "A cloud joins the map when it is the first, or has moved or turned more than the thresholds from the last key cloud at its current pose; each correction of the path moves the key cloud of that stamp and nothing else. "
     "For each cloud exactly one local map is published, in the lidar frame at that cloud: the union of the configured number of nearest (or latest) key clouds at their current poses, every point, normal and unit vector moved rigidly, voxel filtered only if the local filter is enabled. "
     "The services publish the union of all key clouds in the map frame (filtered only if the global filter is enabled) and the key clouds with their poses, at any time. Paths without the cloud's pose and clouds older than the map are refused.",
     ["histories", "inputs"], "all sequences of clouds, path corrections and service calls, both frame selections and point types",
     "There is no test of the mapping; errors only show after corrections and with non-default options.",
     ["serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/include/serpent/mapping/mapping.hpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"],
     [("key cloud selection, correction and region extraction", "serpent/include/serpent/mapping/mapping-inl.hpp")],
     ["published maps and pose graphs, exceptions"],
     "model-based trace monitor of the real node on a recording ROS stand-in, under ASan+UBSan", NOTE_R,
     state=[("map/pose_cloud", "key clouds and their positions", "mapping.hpp")])
prop("C24", "The lidar pipeline hands on exactly the sensor's points: formatted, filtered as configured, with directions and normals",
     "Each received cloud is published once per enabled stage, in order, with its stamp and in the lidar frame. Formatting converts time and range to seconds and metres (or renames the time field), drops only points later than the limit and, if so configured, only the first cloud; every other byte of a point is kept. "
     "Each enabled filter removes exactly what its configuration documents: voxel cells are replaced by the average of their points if they hold enough, points inside the body region go, points outside the range limits go, statistical outliers go, a random sample has the configured size; points kept are unchanged and in order. "
     "Unit vectors point from the sensor to the point; normals are the direction of least spread of the k nearest (or within-radius) points, turned towards the viewpoint. Unknown options and clouds lacking a required field are refused.",
     ["inputs", "histories"], "all clouds, field layouts and filter configurations",
     "There is no test of these nodes; each filter combination wires the topics differently.",
     ["serpent/src/front_end/lidar/pointcloud_formatter.cpp", "serpent/src/front_end/lidar/pointcloud_filter.cpp", "serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp",
      "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp", "serpent/src/front_end/stereo/sensor_point_types.cpp"],
     [("format, filter callbacks and topic wiring, normal estimation callback", "serpent/src/front_end/lidar/pointcloud_filter.cpp")],
     ["clouds published by every stage, exceptions"],
     "stage-by-stage trace monitor of the real nodes on a recording ROS stand-in with brute-force references, under ASan+UBSan", NOTE_R)
prop("C25", "Registration publishes, for every cloud after the first, the refined body motion with its covariance",
     "For each cloud with an initial guess, except the first, exactly one transform is published, with the cloud's stamp, in order: the motion found by the configured scan-to-scan method between it and the previous such cloud, refined by the scan-to-map method against its own local map if enabled, "
     "expressed between body frames. Its covariance is that of the configured estimator, model and point noise evaluated on the last registration, moved to the body frame (an undetermined covariance is never published as a finite one). Every method is built with every configured parameter; contradictory or "
     "unknown options are refused. The callbacks may arrive in any relative order on any threads, and return when the node shuts down.",
     ["schedules", "histories", "inputs"], "all interleavings of cloud, guess and map arrivals, and all configurations",
     "There is no test of the node; pairing of clouds with maps and frames of the covariance only show across threads and with non-trivial extrinsics.",
     ["serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/front_end/lidar/registration.hpp", "serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp",
      "serpent/src/front_end/lidar/registration_methods.cpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"],
     [("s2s_callback, s2m_callback, publish_refined_transform, covariance bindings", "serpent/include/serpent/front_end/lidar/registration-inl.hpp")],
     ["published transforms and debug clouds, exceptions, callbacks that do not return"],
     "trace monitor with a hand-configured reference registration on a recording ROS stand-in with random thread schedules, under ASan+UBSan", NOTE_R,
     state=[("s2m_pointclouds/s2s_registrations", "clouds waiting for their local map", "registration.hpp")])
prop("C26", "Camera tools publish exactly the configured part of each image, turned as configured, with a camera model and header that fit it",
     "split_image publishes, for every image and every configured part, the pixels of its region with all configured flips and rotations (any combination, 0 degrees included) applied, and a camera info of the same size, stamp and frame whose focal lengths and principal point (to a pixel) describe the turned picture; "
     "distortion and projection are those configured when nothing is turned. The input is never changed; a region outside the image, an unknown operation or a rotation that is no multiple of 90 degrees is refused. publish_info publishes the configured camera model with each image's header and size, and change_frame_id "
     "republishes every image with its own camera info, changed only in the frame.",
     ["inputs", "histories"], "all images, regions, operations, camera models and message orders",
     "The camera tools have no test; operations on pixels and on the camera model are separate code that must agree for every size and combination.",
     ["camera_tools/src/image_operations.cpp", "camera_tools/src/split_image.cpp", "camera_tools/src/publish_info.cpp", "camera_tools/src/change_frame_id.cpp"],
     [("Rotate::apply, Flip::apply", "camera_tools/src/image_operations.cpp"), ("ImageSplitter::split, parse_configuration", "camera_tools/src/split_image.cpp")],
     ["published images and camera infos, exceptions"],
     "comparison with a pixel-by-pixel reference on a recording ROS stand-in, random configurations and streams, under ASan+UBSan", NOTE_R)

prop("C27", "Stream tools: chained transforms, odometry as a transform, turned and integrated inertial data are published exactly",
     "combine_transforms publishes after every transform the product of all transforms so far, in order, for each accepted message type, and a path of all of them with their stamps; odometry_to_tf publishes every odometry as the same transform. imu_transform turns only the orientation (and the frame if asked), imu_analysis "
     "shows each orientation and, if asked, the transformed one; integrate_imu predicts the body pose from the first message on with the configured gravity, noise, extrinsics and initial state, with the covariance of the integration, and refuses repeated stamps. Unusable parameters are refused.",
     ["inputs", "histories"], "all message sequences and configurations",
     "None of these nodes has a test; order of multiplication, frames and parameter binding only show over sequences with non-trivial rotations.",
     ["navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/odometry_to_tf.cpp", "navigation_tools/src/integrate_imu.cpp", "imu_tools/src/imu_transform.cpp", "imu_tools/src/imu_analysis.cpp"],
     [("IntegrateImu::integrate", "navigation_tools/src/integrate_imu.cpp"), ("CombineTransforms::combine", "navigation_tools/src/combine_transforms.cpp")],
     ["published odometry, paths, transforms and inertial messages, exceptions"],
     "comparison with reference models on a recording ROS stand-in, random streams and configurations, under ASan+UBSan", NOTE_R)
prop("C28", "Stereo pipeline node: every complete stereo frame yields exactly the features of the configured tracker",
     "The stereo pipeline assembles the left and right image and camera info with equal stamps, whatever the order of arrival, and publishes for each complete frame, in order, exactly the features (pixel coordinates and track ids) that a tracker configured with the documented detector, optical flow, matcher, filter, mask and range-limit "
     "parameters finds, with the header and camera infos of that frame; frames with a missing part publish nothing. Optional statistics, triangulated points and debug images correspond to the same frame. Unknown detector, flow, cost or matching names, malformed sizes and unusable camera infos are refused.",
     ["inputs", "configurations", "schedules"], "all image sequences, configurations and orders of arrival",
     "No test runs the node: a parameter read under a wrong name, swapped arguments of a long factory call or a frame paired with another frame's info changes nothing in unit tests.",
     ["serpent/src/front_end/stereo/stereo_factor_finder.cpp", "serpent/include/serpent/front_end/stereo/stereo_factor_finder.hpp", "serpent/src/nodes/stereo_pipeline_node.cpp"],
     [("StereoFactorFinder::stereo_callback", "serpent/src/front_end/stereo/stereo_factor_finder.cpp")],
     ["published features, statistics, points and debug images; exceptions"],
     "differential oracle (hand-configured tracker) on a recording ROS stand-in with random arrival orders and spinner threads, under ASan+UBSan", NOTE_R)
prop("C29", "Point cloud tools: distances, statistics and files carry exactly the cloud's data",
     "compute_distances publishes for every pair of clouds with equal stamps, whatever the order of arrival, each source point unchanged with the distance to the nearest valid target point after the target is brought into the source frame at that time (no distance for invalid source points), under the source's header. "
     "pointcloud_analyser publishes per field, in order, the number, minimum, maximum, mean and variance of the values. Saving a cloud from a topic to a PCD or PLY file and loading it restores every field's type and value exactly, the size and organisation, under the requested frame and the current time, on the requested topic; missing files, topics and unknown formats are refused.",
     ["inputs", "histories"], "all clouds, layouts, poses, arrival orders and request sequences",
     "None of these nodes has a test; direction and time of the transform, nearest rather than some neighbour and byte layout only show with random frames, sizes and layouts.",
     ["pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp", "pointcloud_tools/src/pointcloud_analyser.cpp", "pointcloud_tools/src/pointcloud_file_converter.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
     [("ComputeDistances::callback", "pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp"), ("PointcloudFileConverter::load", "pointcloud_tools/src/pointcloud_file_converter.cpp")],
     ["published clouds and statistics, service answers, files in a scratch directory"],
     "brute-force and byte-level reference on a recording ROS stand-in with random streams and requests, under ASan+UBSan", NOTE_R)
prop("C30", "The assembled node follows the motion of the robot and maps its surroundings",
     "The complete node as its main builds it, with the shipped parameters or any documented choice of registration method, covariance model, filters, point type, IMU convention, gravity, sensor mounting, window, barometer and cameras: fed with the data of a robot moving smoothly through a static room, it publishes for every cloud but the last, in order and exactly once, "
     "an optimised state (odometry, pose, transform, path entry) at the documented time, close to the true body pose and velocity; the IMU-rate odometry has increasing stamps and stays close to the truth; the transforms of the sensors are those configured; on request the global map lies on the walls of the room and covers them, and the pose graph gives the true sensor poses. "
     "No callback fails and no data stays unprocessed, whatever the interleaving of the callback threads.",
     ["schedules", "inputs", "configurations", "histories"], "all motions, rooms, documented configurations, thread counts and callback interleavings",
     "No test builds the node; a wrong frame, sign, topic, key or wait between two parts that are each correct alone only shows in the assembled system.",
     ["serpent/src/nodes/node.cpp", "serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/config/tuning_default.yaml"],
     [("module selection and wiring", "serpent/src/nodes/node.cpp"), ("state creation and deskewing", "serpent/src/front_end/frontend.cpp"), ("graph updates and publication", "serpent/src/back_end/optimisation.cpp")],
     ["all published odometry, poses, transforms, paths, maps and pose graphs; exceptions; callbacks that never end"],
     "end-to-end monitor with ground truth: simulated sensors, ROS stand-in with real spinner threads, under ASan+UBSan", NOTE_R + "Closeness is judged with limits of about twice the largest error seen over some 20000 missions; smaller errors are left to C17-C28. ")

prop("C31", "The nodes' concurrent callbacks share their state without data races, lock inversions or deadlocks",
     "While any number of spinner threads deliver the sensor streams, estimates, transforms, paths and service calls in any interleaving, each callback's accesses to the state it shares with others (IMU, stereo and barometer buffers, preintegrated measurements, the latest estimate, the pose graph, the map, queued clouds and registrations) "
     "are ordered by the locks that own that state: no two threads access the same data with at least one writing and nothing ordering them, no pair of locks is taken in opposite orders, no lock is given up or released by a thread that does not hold it, and no callback stays blocked once what it waits for is there or the node shuts down. "
     "This holds for the optimisation, the front end, registration, mapping, the lidar filters, stereo tracking and the assembled node.",
     ["schedules", "histories"], "all interleavings of callbacks on any number of threads",
     "No test runs two callbacks at once; a race shows as a rare wrong value or crash in the field and never in a sequential test.",
     ["serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/src/utils/utilities.cpp"],
     [("lock guards around the shared buffers", "serpent/src/front_end/frontend.cpp"), ("graph_mutex and protected_sleep", "serpent/src/back_end/optimisation.cpp"), ("s2s_mutex and the queues it owns", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"), ("map_mutex", "serpent/include/serpent/mapping/mapping-inl.hpp")],
     ["every memory access and lock operation of the instrumented node code, per thread"],
     "happens-before race and lock-order detection (ThreadSanitizer) on the real nodes under many-threaded missions with random delays", NOTE_R + "Only code compiled from source is instrumented (nodes, Eigen, header-only Boost and PCL); accesses inside the GTSAM, TBB and PCL libraries are not seen. Only the sanitizer's reports, crashes and hangs count here; wrong values are left to C21-C30. ",
     state=[("imu_buffer, stereo_buffer, barometer_buffer", "streams not yet given to a state", "frontend.hpp"), ("gm", "the pose graph", "optimisation.hpp"), ("s2m_pointclouds, s2s_registrations", "clouds awaiting scan-to-map", "registration.hpp"), ("map", "key clouds", "mapping.hpp")])
