// C19: conversions between Eigen types and messages.
#include <ros/ros.h>

#include <eigen_ros/eigen_ros.hpp>
#include "ref.hpp"
#include "vr.hpp"

using vr::Rng;
using namespace eigen_ros;
typedef Eigen::Matrix<double, 6, 6> M6;

static Eigen::Vector3d vec(Rng& r, double s = 10) {
    Eigen::Vector3d v(s * r.gauss(), s * r.gauss(), s * r.gauss());
    if (r.chance(0.2)) v *= std::pow(10.0, r.uniform(-6, 6));
    if (r.chance(0.1)) v[r.integer(0, 2)] = 0;
    return v;
}
static Eigen::Quaterniond quat(Rng& r) {
    Eigen::Vector4d v(r.gauss(), r.gauss(), r.gauss(), r.gauss());
    if (r.chance(0.15)) v.tail<3>() *= 1e-7;          // near identity
    if (r.chance(0.15)) v[0] *= 1e-7;                 // near a half turn
    if (r.chance(0.1)) { v.setZero(); v[r.integer(0, 3)] = r.chance(0.5) ? 1 : -1; }
    v /= v.norm();
    return Eigen::Quaterniond(v[0], v[1], v[2], v[3]);
}
template<int R, int C>
Eigen::Matrix<double, R, C> mat(Rng& r) {
    Eigen::Matrix<double, R, C> m;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = r.gauss() * (r.chance(0.1) ? 1e4 : 1.0);
    return m;
}
// covariance with independent entries above the diagonal: any transposition-insensitive check is left to symmetric matrices
static M6 cov(Rng& r) { M6 m = mat<6, 6>(r); return 0.5 * (m + m.transpose()); }
static ros::Time stamp(Rng& r) { return ros::Time(static_cast<std::uint32_t>(r.next() % 2000000000u), static_cast<std::uint32_t>(r.next() % 1000000000u)); }
static std::string name(Rng& r) { std::string s; for (int i = r.integer(0, 12); i > 0; --i) s += static_cast<char>(r.integer(33, 126)); return s; }

template<typename M> bool xyz(const M& m, const Eigen::Vector3d& v) { return m.x == v[0] && m.y == v[1] && m.z == v[2]; }
static bool wxyz(const geometry_msgs::Quaternion& m, const Eigen::Quaterniond& q) { return m.w == q.w() && m.x == q.x() && m.y == q.y() && m.z == q.z(); }
static Eigen::Matrix3d rot(const geometry_msgs::Quaternion& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z).normalized().toRotationMatrix(); }
template<typename M> void fill_xyz(M& m, const Eigen::Vector3d& v) { m.x = v[0]; m.y = v[1]; m.z = v[2]; }
static void fill_q(geometry_msgs::Quaternion& m, const Eigen::Quaterniond& q) { m.w = q.w(); m.x = q.x(); m.y = q.y(); m.z = q.z(); }
// ROS order is (position, orientation) row-major; internal order is (orientation, position)
template<typename A> bool cov_matches(const A& a, const M6& c) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (a[6 * i + j] != c((i + 3) % 6, (j + 3) % 6)) return false;
    return true;
}
template<typename A> void fill_any(Rng& r, A& a) { for (auto& x : a) x = r.gauss(); }
static Pose junk_pose(Rng& r) { return Pose(vec(r), quat(r), mat<6, 6>(r)); }

static void geometry(Rng& r) {
    const Eigen::Vector3d p = vec(r);
    const Eigen::Quaterniond q = quat(r);
    const M6 c = r.chance(0.7) ? cov(r) : mat<6, 6>(r);
    const ros::Time t = stamp(r);
    const std::string f = name(r);
    vr::nontrivial(vr::hash_bytes(p.data(), 24, vr::hash_bytes(q.coeffs().data(), 32)));
    vr::event("values_converted");
    { geometry_msgs::Point m; fill_xyz(m, vec(r)); to_ros(m, p); vr::check(xyz(m, p), "point-to"); Eigen::Vector3d v = vec(r); from_ros(m, v); vr::check(v == p, "point-from"); }
    { geometry_msgs::Vector3 m; to_ros(m, p); vr::check(xyz(m, p), "vector-to"); Eigen::Vector3d v = vec(r); from_ros(m, v); vr::check(v == p, "vector-from"); }
    { geometry_msgs::Quaternion m; to_ros(m, q); vr::check(wxyz(m, q), "quaternion-to"); Eigen::Quaterniond v(1, 0, 0, 0); from_ros(m, v); vr::check(v.coeffs() == q.coeffs(), "quaternion-from");
      Eigen::Matrix3d R = mat<3, 3>(r); from_ros(m, R); vr::check(vr::mat_close(R, rot(m), 1e-9), "quaternion-from-matrix");
      geometry_msgs::Quaternion m2; to_ros(m2, Eigen::Matrix3d(q.toRotationMatrix())); vr::check(vr::mat_close(rot(m2), rot(m), 1e-7), "quaternion-to-matrix"); }
    geometry_msgs::Pose pm;
    fill_xyz(pm.position, p); fill_q(pm.orientation, q);
    geometry_msgs::Transform tm;
    fill_xyz(tm.translation, p); fill_q(tm.rotation, q);
    const Pose pose(p, q, c);
    Eigen::Matrix4d H = Eigen::Matrix4d::Identity();
    H.topLeftCorner<3, 3>() = rot(pm.orientation); H.topRightCorner<3, 1>() = p;
    auto kept = [](const Pose& a, const Pose& b) { return a.covariance == b.covariance; };
    { geometry_msgs::Pose m; to_ros(m, pose); vr::check(xyz(m.position, p) && wxyz(m.orientation, q), "pose-to");
      Pose v = junk_pose(r); const Pose was = v; from_ros(pm, v); vr::check(v.position == p && v.orientation.coeffs() == q.coeffs(), "pose-from"); vr::check(kept(v, was), "pose-from-covariance-touched");
      Eigen::Matrix4d h = mat<4, 4>(r); from_ros(pm, h); vr::check(vr::mat_close(h, H, 1e-9), "pose-from-matrix");
      geometry_msgs::Pose m2; to_ros(m2, H); vr::check(xyz(m2.position, p) && vr::mat_close(rot(m2.orientation), rot(pm.orientation), 1e-7), "pose-to-matrix"); }
    { geometry_msgs::Transform m; to_ros(m, pose); vr::check(xyz(m.translation, p) && wxyz(m.rotation, q), "transform-to");
      Pose v = junk_pose(r); from_ros(tm, v); vr::check(v.position == p && v.orientation.coeffs() == q.coeffs(), "transform-from");
      Eigen::Matrix4d h = mat<4, 4>(r); from_ros(tm, h); vr::check(vr::mat_close(h, H, 1e-9), "transform-from-matrix");
      Eigen::Isometry3d I = Eigen::Isometry3d::Identity(); from_ros(tm, I); vr::check(vr::mat_close(I.matrix(), H, 1e-9), "transform-from-isometry");
      geometry_msgs::Transform m2, m3; to_ros(m2, H); to_ros(m3, I);
      vr::check(xyz(m2.translation, p) && vr::mat_close(rot(m2.rotation), rot(pm.orientation), 1e-7), "transform-to-matrix");
      vr::check(vr::mat_close(Eigen::Vector3d(m3.translation.x, m3.translation.y, m3.translation.z), p, 1e-12) && vr::mat_close(rot(m3.rotation), rot(pm.orientation), 1e-7), "transform-to-isometry"); }
    { geometry_msgs::PoseStamped m; m.header.frame_id = f; to_ros(m, PoseStamped(pose, t)); vr::check(m.header.stamp == t && m.header.frame_id == f && xyz(m.pose.position, p) && wxyz(m.pose.orientation, q), "pose-stamped-to");
      PoseStamped v(junk_pose(r)); from_ros(m, v); vr::check(v.timestamp == t && v.data.position == p && v.data.orientation.coeffs() == q.coeffs(), "pose-stamped-from"); }
    { geometry_msgs::TransformStamped m; m.header.frame_id = f; m.child_frame_id = "c"; to_ros(m, PoseStamped(pose, t)); vr::check(m.header.stamp == t && m.header.frame_id == f && m.child_frame_id == "c" && xyz(m.transform.translation, p) && wxyz(m.transform.rotation, q), "transform-stamped-to");
      PoseStamped v(junk_pose(r)); from_ros(m, v); vr::check(v.timestamp == t && v.data.position == p && v.data.orientation.coeffs() == q.coeffs(), "transform-stamped-from"); }
    { geometry_msgs::PoseWithCovariance m; fill_any(r, m.covariance); to_ros(m, pose); vr::check(xyz(m.pose.position, p) && wxyz(m.pose.orientation, q), "pose-covariance-to"); vr::check(cov_matches(m.covariance, c), "pose-covariance-order");
      Pose v = junk_pose(r); from_ros(m, v); vr::check(v.position == p && v.orientation.coeffs() == q.coeffs() && v.covariance == c, "pose-covariance-from");
      geometry_msgs::PoseWithCovarianceStamped s; s.header.frame_id = f; to_ros(s, PoseStamped(pose, t)); vr::check(s.header.stamp == t && s.header.frame_id == f && xyz(s.pose.pose.position, p) && cov_matches(s.pose.covariance, c), "pose-covariance-stamped-to");
      PoseStamped w(junk_pose(r)); from_ros(s, w); vr::check(w.timestamp == t && w.data.position == p && w.data.covariance == c && w.data.orientation.coeffs() == q.coeffs(), "pose-covariance-stamped-from"); vr::event("covariances_converted"); }
    const Eigen::Vector3d lin = vec(r), ang = vec(r);
    const M6 tc = cov(r);
    const Twist tw(lin, ang, tc);
    { geometry_msgs::Twist m; to_ros(m, tw); vr::check(xyz(m.linear, lin) && xyz(m.angular, ang), "twist-to"); Twist v(vec(r), vec(r), mat<6, 6>(r)); const M6 was = v.covariance; from_ros(m, v); vr::check(v.linear == lin && v.angular == ang && v.covariance == was, "twist-from");
      geometry_msgs::TwistWithCovariance w; to_ros(w, tw); vr::check(xyz(w.twist.linear, lin) && xyz(w.twist.angular, ang) && cov_matches(w.covariance, tc), "twist-covariance-to");
      Twist x(vec(r), vec(r), mat<6, 6>(r)); from_ros(w, x); vr::check(x.linear == lin && x.angular == ang && x.covariance == tc, "twist-covariance-from"); }
    { const std::string fr = name(r), ch = name(r); const Odometry o(pose, tw, t, fr, ch); nav_msgs::Odometry m; m.child_frame_id = "stale"; to_ros(m, o);
      vr::check(m.header.stamp == t && m.header.frame_id == fr && m.child_frame_id == ch && xyz(m.pose.pose.position, p) && wxyz(m.pose.pose.orientation, q) && cov_matches(m.pose.covariance, c) && xyz(m.twist.twist.linear, lin) &&
                        xyz(m.twist.twist.angular, ang) && cov_matches(m.twist.covariance, tc), "odometry-to");
      Odometry v(junk_pose(r), Twist(vec(r), vec(r), mat<6, 6>(r)), stamp(r), "x", "y"); from_ros(m, v);
      vr::check(v.timestamp == t && v.frame == fr && v.child_frame == ch && v.pose.position == p && v.pose.covariance == c && v.twist.linear == lin && v.twist.angular == ang && v.twist.covariance == tc && v == o, "odometry-from");
      const PoseStamped ps = o.pose_stamped(); const TwistStamped ts = o.twist_stamped();
      vr::check(ps.timestamp == t && ps.data.position == p && ps.data.covariance == c && ts.timestamp == t && ts.data.linear == lin && ts.data.angular == ang && ts.data.covariance == tc, "odometry-parts");
      vr::event("odometries_converted"); }
    { Imu i(q, ang, lin, mat<3, 3>(r), mat<3, 3>(r), mat<3, 3>(r), t, f); sensor_msgs::Imu m; fill_any(r, m.orientation_covariance); to_ros(m, i);
      bool ok = m.header.stamp == t && m.header.frame_id == f && wxyz(m.orientation, q) && xyz(m.angular_velocity, ang) && xyz(m.linear_acceleration, lin);
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b)
          ok = ok && m.orientation_covariance[3 * a + b] == i.orientation_covariance(a, b) && m.angular_velocity_covariance[3 * a + b] == i.angular_velocity_covariance(a, b) && m.linear_acceleration_covariance[3 * a + b] == i.linear_acceleration_covariance(a, b);
      vr::check(ok, "imu-to");
      Imu v(quat(r), vec(r), vec(r), mat<3, 3>(r), mat<3, 3>(r), mat<3, 3>(r), stamp(r), "x"); from_ros(m, v);
      vr::check(v.timestamp == t && v.frame == f && v.orientation.coeffs() == q.coeffs() && v.angular_velocity == ang && v.linear_acceleration == lin && v.orientation_covariance == i.orientation_covariance &&
                        v.angular_velocity_covariance == i.angular_velocity_covariance && v.linear_acceleration_covariance == i.linear_acceleration_covariance, "imu-from"); }
    { std_msgs::Header h; to_ros(h, t, f); ros::Time t2; std::string f2 = "x"; from_ros(h, t2, f2); vr::check(h.stamp == t && h.frame_id == f && t2 == t && f2 == f, "header"); }
}

template<typename S, typename Msg, typename MsgStamped>
void dynamic_covariance(Rng& r, const char* tag) {
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
    const int n = r.chance(0.05) ? r.integer(9, 60) : r.integer(0, 9);
    M m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = static_cast<S>(r.gauss());
    Msg msg;
    msg.matrix.resize(r.integer(0, 90));
    to_ros(msg, m);
    bool ok = msg.dimensions == n && static_cast<int>(msg.matrix.size()) == n * n;
    for (int i = 0; ok && i < n; ++i) for (int j = 0; j < n; ++j) ok = ok && msg.matrix[n * i + j] == m(i, j);
    vr::check(ok, std::string("covariance-to-") + tag, vr::cat("n ", n));
    M b(r.integer(0, 5), r.integer(0, 5));
    from_ros(msg, b);
    vr::check(b.rows() == n && b.cols() == n && b == m, std::string("covariance-from-") + tag, vr::cat("n ", n));
    MsgStamped st;
    const ros::Time t = stamp(r);
    const std::string f = name(r);
    to_ros(st, m, t, f);
    M b2;
    ros::Time t2;
    std::string f2;
    from_ros(st, b2, t2, f2);
    vr::check(st.header.stamp == t && st.header.frame_id == f && t2 == t && f2 == f && b2.rows() == n && b2 == m, std::string("covariance-stamped-") + tag);
    // refusals
    M bad(r.integer(0, 6), r.integer(0, 6));
    bad.setZero();
    if (bad.rows() != bad.cols()) vr::expect_throw([&] { Msg x; to_ros(x, bad); }, std::string("non-square-accepted-") + tag, vr::cat(bad.rows(), "x", bad.cols()));
    Msg wrong = msg;
    const int delta = r.integer(1, 4);
    if (r.chance(0.5)) wrong.matrix.resize(wrong.matrix.size() + delta);
    else if (static_cast<int>(wrong.matrix.size()) >= delta) wrong.matrix.resize(wrong.matrix.size() - delta);
    else wrong.matrix.resize(wrong.matrix.size() + 1);
    vr::expect_throw([&] { M x; from_ros(wrong, x); }, std::string("wrong-size-accepted-") + tag, vr::cat("n ", n, " values ", wrong.matrix.size()));
    vr::event("dynamic_covariances");
    vr::nontrivial(vr::hash_bytes(m.data(), sizeof(S) * n * n, n));
}

template<int R, int C>
void multi_array(Rng& r) {
    Eigen::Matrix<double, R, C> m = mat<R, C>(r), b = mat<R, C>(r);
    std_msgs::Float64MultiArray msg;
    to_ros(msg, m);
    bool ok = msg.layout.dim.size() == 2 && msg.layout.dim[0].size == R && msg.layout.dim[1].size == C && msg.layout.dim[0].stride == R * C && msg.layout.dim[1].stride == C && msg.layout.data_offset == 0 && msg.data.size() == R * C;
    for (int i = 0; ok && i < R; ++i) for (int j = 0; j < C; ++j) ok = ok && msg.data[C * i + j] == m(i, j);
    vr::check(ok, "array-to");
    from_ros(msg, b);
    vr::check(b == m, "array-from");
    // a message used before
    const Eigen::Matrix<double, R, C> m2 = mat<R, C>(r);
    vr::expect_no_throw([&] { to_ros(msg, m2); from_ros(msg, b); }, "array-reused-message");
    vr::check(b == m2, "array-reused-message");
    // the sender's padding and offset are honoured
    std_msgs::Float64MultiArray pad;
    const int off = r.integer(0, 3), stride = C + r.integer(0, 2);
    pad.layout.data_offset = off;
    pad.layout.dim.resize(2);
    pad.layout.dim[0].size = R; pad.layout.dim[0].stride = R * stride;
    pad.layout.dim[1].size = C; pad.layout.dim[1].stride = stride;
    pad.data.resize(off + R * stride);
    for (auto& x : pad.data) x = -1234.5;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) pad.data[off + i * stride + j] = m(i, j);
    vr::expect_no_throw([&] { from_ros(pad, b); }, "array-padded");
    vr::check(b == m, "array-padded");
    // refusals
    std_msgs::Float64MultiArray wrong = msg;
    switch (r.integer(0, 3)) {
        case 0: wrong.layout.dim[0].size += 1; break;
        case 1: wrong.layout.dim[1].size += 1; break;
        case 2: wrong.layout.dim.pop_back(); break;
        default: wrong.layout.dim.push_back(std_msgs::MultiArrayDimension()); break;
    }
    vr::expect_throw([&] { from_ros(wrong, b); }, "array-wrong-dimensions");
    std_msgs::Float64MultiArray few = pad;
    few.data.resize(off + (R - 1) * stride + C - 1);
    vr::expect_throw([&] { from_ros(few, b); }, "array-too-few-values", vr::cat(R, "x", C, " offset ", off, " stride ", stride, " values ", few.data.size()));
    vr::event("multi_arrays");
    vr::nontrivial(vr::hash_bytes(m.data(), sizeof(double) * R * C));
}

static void arrays(Rng& r) {
    dynamic_covariance<double, statistics_msgs::Covariance, statistics_msgs::CovarianceStamped>(r, "double");
    dynamic_covariance<float, statistics_msgs::CovarianceFloat32, statistics_msgs::CovarianceFloat32Stamped>(r, "float");
    multi_array<2, 3>(r);
    multi_array<4, 4>(r);
    multi_array<6, 1>(r);
    multi_array<1, 5>(r);
    // parameters
    vros::reset();
    std::vector<double> v;
    for (int i = 0; i < 9; ++i) v.push_back(r.gauss());
    vros::set_param("ns/cov", v);
    ros::NodeHandle nh("ns");
    const Eigen::Matrix3d m = matrix3d_from_param(nh, "cov");
    bool ok = true;
    for (int i = 0; i < 9; ++i) ok = ok && m(i / 3, i % 3) == v[i];
    vr::check(ok, "param-matrix");
    vr::check(matrix3d_from_param(nh, "missing") == Eigen::Matrix3d::Identity(), "param-default");
    v.resize(r.integer(0, 8));
    vros::set_param("ns/cov", v);
    vr::expect_throw([&] { matrix3d_from_param(nh, "cov"); }, "param-short");
    vr::event("parameters_read", 3);
}

static void poses(Rng& r) {
    const Eigen::Vector3d p = 0.1 * vec(r, 20), tp = 0.1 * vec(r, 20);
    const Eigen::Quaterniond q = quat(r), tq = quat(r);
    const Eigen::Matrix3d pc = mat<3, 3>(r), oc = mat<3, 3>(r);
    const Pose a(p, q, pc, oc);
    M6 c = M6::Zero();
    c.topLeftCorner<3, 3>() = oc;
    c.bottomRightCorner<3, 3>() = pc;
    vr::check(a.covariance == c, "pose-blocks");
    const Twist tw(p, tp, pc, oc);
    vr::check(tw.covariance == c && tw.linear == p && tw.angular == tp && tw.linear_velocity_covariance() == pc && tw.angular_velocity_covariance() == oc, "twist-blocks");
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity(), C = Eigen::Isometry3d::Identity();
    T.linear() = tq.toRotationMatrix(); T.translation() = tp;
    C.linear() = q.toRotationMatrix(); C.translation() = p;
    const M6 s = cov(r) ;
    const M6 sp = s * s.transpose();
    const Pose cur(C, sp);
    vr::check(vr::mat_close(to_transform(cur).matrix(), C.matrix(), 1e-7) && cur.covariance == sp, "pose-from-isometry");
    ref::M4 Tm = T.matrix();
    const M6 A = ref::adjoint(ref::inv(Tm));
    const M6 want = A * sp * A.transpose();
    const ros::Time t = stamp(r), t2 = stamp(r);
    const Pose r1 = apply_transform(cur, T), r2 = apply_transform(cur, Pose(tp, tq)); 
    const PoseStamped r3 = apply_transform(PoseStamped(cur, t), T);
    for (const Pose* x : {&r1, &r2, &r3.data}) {
        vr::check(vr::mat_close(to_transform(*x).matrix(), (C * T).matrix(), 1e-7), "apply-transform-pose");
        vr::check(vr::mat_close(x->covariance, want, 1e-7), "apply-transform-covariance");
    }
    vr::check(r3.timestamp == t, "apply-transform-stamp");
    const Odometry o = apply_transform(Odometry(cur, tw, t, "f", "c"), PoseStamped(Pose(tp, tq), t2));
    vr::check(vr::mat_close(to_transform(o.pose).matrix(), (C * T).matrix(), 1e-7) && o.twist == tw && o.timestamp == t2 && o.frame == "f" && o.child_frame == "c", "apply-transform-odometry");
    // equality: q and -q are the same orientation; any real difference counts
    Pose b = cur;
    b.orientation.coeffs() *= -1;
    vr::check(b == cur, "equality-double-cover");
    Pose d = cur;
    switch (r.integer(0, 2)) {
        case 0: d.position[r.integer(0, 2)] += 1 + d.position.norm(); break;
        case 1: d.orientation = d.orientation * Eigen::Quaterniond(Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitY())); break;
        default: d.covariance(r.integer(0, 5), r.integer(0, 5)) += 1 + d.covariance.norm(); break;
    }
    vr::check(!(d == cur), "equality-misses-difference");
    // Imu to another frame: sensor vectors rotate with the inverse extrinsic
    const Eigen::Quaterniond e = quat(r);
    Imu i(q, p, tp, oc, sp.topLeftCorner<3, 3>(), sp.bottomRightCorner<3, 3>(), t, "f"), j = i;
    j.change_frame(e, e.inverse());
    const Eigen::Matrix3d E = e.toRotationMatrix();
    vr::check(vr::mat_close(j.angular_velocity, E.transpose() * p, 1e-8) && vr::mat_close(j.linear_acceleration, E.transpose() * tp, 1e-8), "imu-frame-vectors");
    vr::check(vr::mat_close(j.angular_velocity_covariance, E.transpose() * i.angular_velocity_covariance * E, 1e-8) && vr::mat_close(j.linear_acceleration_covariance, E.transpose() * i.linear_acceleration_covariance * E, 1e-8), "imu-frame-covariances");
    // The text does not say about which axes the orientation error is expressed; under either reading it keeps its size.
    const Eigen::Matrix3d joc = j.orientation_covariance;
    vr::check(std::abs(joc.trace() - oc.trace()) <= 1e-8 * (1 + std::abs(oc.trace())) && std::abs(joc.norm() - oc.norm()) <= 1e-8 * (1 + oc.norm()), "imu-frame-orientation-covariance");
    vr::check(vr::mat_close(j.orientation.normalized().toRotationMatrix(), q.toRotationMatrix() * E, 1e-7) && j.timestamp == t, "imu-frame-orientation");
    vr::event("poses_transformed", 4);
    vr::nontrivial(vr::hash_bytes(p.data(), 24));
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"messages", geometry}, {"arrays", arrays}, {"poses", poses}}); }
