"""Source of properties.jsonl and MANIFEST.json: run `python3 props.py` to regenerate both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      observe=observe, technique=technique, note=note, state=state))


NOTE = ("Holds on the seeded executions counted in the evidence file, each judged by an independent reference; ASan and a UBSan subset "
        "make memory errors fatal. Trusts the reference in /verif/harness, gcc and the installed libraries. ")

prop("C01", "Rigid-transform utilities obey SE(3) algebra",
     "For every pair of rigid transforms, forming a relative transform, moving a relative transform or a twist to another frame, taking the "
     "adjoint, building a transform from its parts, decomposing a transform into precomputed components and converting a point to polar "
     "coordinates give the result that 4x4 homogeneous-matrix algebra defines, for any rotation including zero and rotations near pi. "
     "Rates between two poses are the body-frame relative motion divided by the elapsed time, and a non-positive elapsed time is refused with an exception.",
     ["inputs"], "all rigid transforms (rotation zero to pi, any translation), twists, points and time steps, in float and double",
     "The unit tests compare a handful of fixed transforms; they never visit zero or near-pi rotations, float instantiations, or the twist and polar routines.",
     ["eigen_ext/include/eigen_ext/geometry.hpp", "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp"],
     [("relative and frame-change transforms, adjoint, rates, polar conversion", "eigen_ext/include/eigen_ext/geometry.hpp"),
      ("one-off decomposition into R, r, t, angle, sine and cosine", "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp")],
     ["return values of the public functions"], "differential monitor against homogeneous-matrix reference algebra, under ASan+UBSan", NOTE)

prop("C02", "Covariances are propagated to first order and stay valid",
     "Moving a 6x6 pose covariance between frames, composing the covariances of two chained transforms (with or without cross-covariance) and "
     "rotating a point covariance give the first-order propagated covariance of the documented tangent-space convention, and keep a symmetric positive "
     "semi-definite input symmetric positive semi-definite. Reordering swaps the two variable groups at the given boundary and nothing else, for fixed and dynamic sizes; "
     "a boundary outside the matrix or a non-square matrix is refused.",
     ["inputs"], "all SPD (and singular) covariances, cross-covariances, rigid transforms and boundaries",
     "The tests check single numeric examples and symmetric cases in which swapped blocks or a transposed cross term cancel out.",
     ["eigen_ext/include/eigen_ext/geometry.hpp", "eigen_ext/include/eigen_ext/covariance.hpp"],
     [("adjoint sandwich, composition with cross terms, block swap", "eigen_ext/include/eigen_ext")],
     ["returned matrices"], "differential monitor against numerically differentiated group product, under ASan+UBSan", NOTE)

prop("C03", "Matrix validity predicates and vector helpers judge correctly",
     "A matrix is accepted as a covariance exactly when it is square, finite, symmetric within the given precision and positive definite (with positive diagonal), whichever entry "
     "is at fault; symmetry, positive definiteness and non-zero-diagonal predicates agree with their mathematical definitions. "
     "Skew-symmetric conversion is exact in both directions and refuses matrices that are not skew-symmetric; normalisation gives a unit vector of the "
     "same direction and refuses a zero vector; linear interpolation is affine in its parameter.",
     ["inputs"], "all square matrices of size 2 to 9 and vectors, with a defect in any single position",
     "Tests use three or four fixed matrices; a predicate that skips one row, one triangle or non-finite values passes them.",
     ["eigen_ext/include/eigen_ext/matrix.hpp", "eigen_ext/include/eigen_ext/covariance.hpp"],
     [("symmetry loop, LLT test, diagonal test, normalisation", "eigen_ext/include/eigen_ext/matrix.hpp")],
     ["boolean verdicts and exceptions"], "monitor over matrices constructed on a known side of each predicate, under ASan+UBSan", NOTE)

prop("C04", "Pose conversion between the two geometry libraries is lossless",
     "Converting a rigid transform to the factor-graph library's pose type, or a pose back, preserves rotation and translation to working precision "
     "in both directions, so a round trip is the identity and conversion commutes with composition and inversion.",
     ["inputs"], "all rigid transforms",
     "There is no test of this library in the stable suite.",
     ["eigen_gtsam/src/geometry.cpp", "eigen_gtsam/include/eigen_gtsam/geometry.hpp"],
     [("component-wise conversion", "eigen_gtsam/src/geometry.cpp")], ["returned poses"],
     "differential monitor of conversions and round trips, under ASan+UBSan", NOTE)

prop("C05", "Transforming a typed point cloud moves every geometric field consistently",
     "Transforming a cloud maps each point's position by the full rigid transform and its normal, unit vector and covariance by the rotation only (covariance by "
     "R C R^T), for every supported point type, whether in place or into another cloud; all other per-point fields and the cloud's header, size and organisation are kept. "
     "Non-finite points of a non-dense cloud are kept as they are.",
     ["inputs", "configurations"], "all clouds (dense or not, organised or not, empty), point types and rigid transforms",
     "Tests transform one cloud of one or two point types; they do not cover covariance fields, aliasing, invalid points or the type dispatch.",
     ["pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"],
     [("vector and covariance rotation loops", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp"),
      ("dispatch on the fields a type has", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp")],
     ["output clouds, field by field"], "per-point reference monitor over random typed clouds, under ASan+UBSan", NOTE)

prop("C06", "Point types and cloud utilities preserve and classify data exactly",
     "Every custom point type has documented defaults (unnamed elements included), copies all its fields, is shown with its fields in order, and survives conversion to and from the serialised cloud format field for field; pose points convert to and "
     "from poses without loss and with a well-defined homogeneous coordinate. Cloud-level helpers count exactly the normals whose length deviates from one by more than the threshold, extract unit vectors in "
     "point order, and convert per-point times from nanoseconds to seconds.",
     ["inputs"], "all field values, poses, and clouds with any pattern of bad normals",
     "Tests construct a few default points; uninitialised padding, field copies and exact classification are not observed.",
     ["pointcloud_tools/src/point_types.cpp", "pointcloud_tools/include/pointcloud_tools/point_types.hpp", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp"],
     [("constructors and field registration", "pointcloud_tools/src/point_types.cpp")], ["fields read back, helper results"],
     "round-trip and classification monitors, under ASan+UBSan", NOTE)

prop("C07", "Registration correspondences are exactly the nearest neighbours in range",
     "After a registration, the computed correspondences contain, for every selected source point (every target point in reciprocal mode), its nearest neighbour in the other cloud under the final transform "
     "exactly when that neighbour is within the maximum correspondence distance, once each, with the true distance and indices that refer to the clouds themselves. "
     "When the registration is restricted to a subset of source points only those appear; reciprocal mode refuses a search structure that is not restricted to the same subset.",
     ["inputs", "configurations"], "all cloud pairs, transforms, subsets, distances, and both search directions",
     "No stable test calls it; nearest-neighbour completeness and index meaning need a brute-force oracle over many clouds.",
     ["pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp"],
     [("k-d tree query per point with a squared-distance gate", "pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp")],
     ["returned correspondences"], "brute-force nearest-neighbour oracle over random registrations, under ASan+UBSan", NOTE)

prop("C08", "Closed-form ICP derivatives equal the true derivatives of the cost",
     "For point-to-point and point-to-plane ICP, nonlinear and linearised, the per-correspondence Hessian with respect to the transform and the mixed derivative with respect to the points equal the exact second derivatives "
     "of the residual cost at that transform, for every rotation (including zero) and correspondence. Computing from typed points reads the coordinates of the source and target point and the target's normal.",
     ["inputs"], "all rotation vectors up to pi, translations, point pairs and normals",
     "The stable tests pin each model at one transform and one correspondence; thousands of generated terms vanish or coincide there.",
     ["serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp", "serpent/include/serpent/front_end/lidar/registration_covariance.hpp"],
     [("thousands of lines of generated closed-form terms", "serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp")],
     ["6x6 matrices returned"], "second-order automatic differentiation of the defining cost as online oracle, under ASan+UBSan", NOTE)

prop("C09", "Registration covariance estimates follow their defining formulae",
     "The Censi covariance (independent noise, range noise, range noise with common bias) and the linear-least-squares covariance of a registration equal their defining matrix formulae over all its correspondences, "
     "are symmetric positive semi-definite, and report the number of correspondences used. Names of covariance methods, models and point-noise methods convert to and from text one-to-one, unknown names are refused, and unit vectors are "
     "required exactly for the range-based point noise of an estimated covariance.",
     ["inputs", "configurations"], "all registrations with a well-conditioned Hessian, noise levels, models and method combinations",
     "No stable test runs an estimator; the tests stop at single-correspondence derivatives.",
     ["serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp", "serpent/src/front_end/lidar/registration_covariance.cpp"],
     [("accumulation over correspondences and the sandwich product", "serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp")],
     ["returned covariance and count"], "reference recomputation from brute-force correspondences, under ASan+UBSan", NOTE)

prop("C10", "Stereo window statistics and matching costs are exact",
     "For any images and windows, the window containment test, the window sum, mean and sum of squares, and the five matching costs (absolute, squared, zero-mean, locally scaled, normalised cross-correlation, with or without "
     "precomputed reference statistics) equal their definitions over the window's pixels, including images that are views into larger ones and windows on the border. Images that are not 8-bit single channel are refused.",
     ["inputs"], "all image sizes and strides, pixel values, window sizes and positions",
     "No test covers the stereo code.",
     ["serpent/src/front_end/stereo/window_functions.cpp", "serpent/src/front_end/stereo/stereo_cost_functions.cpp"],
     [("pixel loops", "serpent/src/front_end/stereo/stereo_cost_functions.cpp")], ["returned values"],
     "reference recomputation per window with stack poisoning, under ASan+UBSan", NOTE)

prop("C11", "Stereo keypoint matching returns the best admissible candidate",
     "A keypoint is matched to the minimum-cost candidate among those within the vertical threshold, on the geometrically possible side, and with both windows inside the images; otherwise it is reported unmatched. "
     "The bidirectional filter keeps only mutual best matches and the ratio filter only those whose cost is below the given ratio of the second best; reported costs are those of the match. "
     "Even or non-positive windows, ratios outside (0, 1), unknown filter names and image pairs of different size are refused.",
     ["inputs", "configurations"], "all image pairs, keypoint sets and orders, cost functions, filters, thresholds and directions",
     "No test covers the matcher, and order-dependent selection errors need many candidate orders.",
     ["serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp"],
     [("candidate scan with best and second-best cost", "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp")],
     ["returned indices, keypoints, costs and matched flags"], "brute-force matching oracle over random image pairs, under ASan+UBSan", NOTE)

prop("C12", "Match filters keep exactly the matches that meet their criterion",
     "The descriptor-distance, stereo-geometry and stereo-range filters return, unmodified and in order, exactly the matches that satisfy their documented thresholds (bounds inclusive), and report the positions of those matches in the input of the latest call. "
     "Changing a threshold, focal length or baseline affects later calls as if the filter had been built with the new value; a match that refers to a keypoint that does not exist is refused.",
     ["inputs", "histories"], "all match sets and sequences of calls and reconfigurations of one filter",
     "No test covers the filters; state leaking between calls only shows in sequences.",
     ["serpent/src/front_end/stereo/match_filters.cpp"],
     [("threshold tests and index bookkeeping", "serpent/src/front_end/stereo/match_filters.cpp")], ["returned matches and indices"],
     "model-based monitor over call sequences, under ASan+UBSan", NOTE)

prop("C13", "Stereo projection and back-projection are exact inverses",
     "Projecting a point in front of the camera gives the pinhole stereo coordinates of the given intrinsics and baseline, and back-projecting stereo coordinates recovers the point. "
     "Points on or behind the image plane and coordinates of zero disparity are refused.",
     ["inputs"], "all points, intrinsics and baselines, in float and double",
     "No test covers the stereo equations.",
     ["serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp"],
     [("closed-form projection", "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp")], ["returned coordinates and exceptions"],
     "differential and round-trip monitor, under ASan+UBSan", NOTE)

import sys  # noqa: E402

sys.modules['props'] = sys.modules[__name__]
import props_b  # noqa: E402,F401  (adds the parts that need the ROS stand-in)

NOT_APPLICABLE = props_b.NOT_APPLICABLE


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                    for p in PROPS if p["id"] not in na],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks are added to /repo; its only commits are fix: commits, listed in known_findings.txt. Checks build /repo's sources with sanitizers from /verif."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    import checks
    import glob
    out = [open(os.path.join(HERE, "design/head.md")).read(), "## 2. Properties\n"]
    for p in sorted(PROPS, key=lambda p: p["id"]):
        c = checks.CHECKS[p["id"]]
        out.append("### %s. %s\n" % (p["id"], p["title"]))
        out.append("*Property.* %s (Over %s.)\n" % (p["statement"], p["text"]))
        out.append("*Decided by* %s: harness `%s`; scenarios %s.\n" % (
            p["technique"], ", ".join(sorted({"harness/%s" % os.path.basename(s) for sc in c["scenarios"] for s in checks.BINS[sc["bin"]]["src"][:1]})),
            ", ".join("`%s` (%d cases quick)" % (sc["name"], sc["quick"]) for sc in c["scenarios"])))
        out.append("*Workload, oracle and bounds.* %s\n" % c["rule"])
        if c.get("require_events"):
            out.append("*Must be observed:* %s.\n" % ", ".join(c["require_events"]))
        out.append("*Beyond the tests.* %s\n" % p["why"])
    for n in NOT_APPLICABLE:
        out.append("### %s: not applicable\n%s\n" % (n["property"], n["reason"]))
    out.append(open(os.path.join(HERE, "design/tail.md")).read())
    out.append("## 6. Planted bugs and the checks that catch them\n\n| bug | breaks | what it does | needs |\n|---|---|---|---|")
    for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        m = json.load(open(f))
        out.append("| %s | %s%s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " (missed)" if m.get("missed") else "", m["what_it_breaks"], m["needs"]))
    out.append("\nUnless marked missed, the quick check of the named property reports each bug (`seedtool.py verify`).")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
    design()
