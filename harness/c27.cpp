// C27: the stream tools: chained transforms, odometry as a transform, integrated and turned inertial data.
#include <ros/ros.h>

#include <imu_tools/imu_analysis.hpp>
#include <imu_tools/imu_transform.hpp>
#include <navigation_tools/combine_transforms.hpp>
#include <navigation_tools/integrate_imu.hpp>
#include <navigation_tools/odometry_to_tf.hpp>

#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <tf2_msgs/TFMessage.h>
#include <fstream>
#include "node_common.hpp"
#include "vr.hpp"

using nc::Iso;
using nc::T;
using vr::cat;
using vr::Rng;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Q;
typedef nav_msgs::Odometry Odom;
typedef geometry_msgs::TransformStamped Tf;
typedef sensor_msgs::Imu Imu;

static V3 v3(const geometry_msgs::Vector3& v) { return V3(v.x, v.y, v.z); }
static void set(geometry_msgs::Vector3& m, const V3& v) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
static bool same(const geometry_msgs::Quaternion& q, const Q& p) {
    return std::abs(Q(q.w, q.x, q.y, q.z).norm() - 1) < 1e-6 && (Q(q.w, q.x, q.y, q.z).toRotationMatrix() - p.normalized().toRotationMatrix()).norm() < 1e-6;
}
static std::vector<Tf> transforms() {
    std::vector<Tf> out;
    for (const auto& m : vros::received<tf2_msgs::TFMessage>("/tf")) for (const auto& t : m->transforms) out.push_back(t);
    return out;
}

// ------------------------------------------------------------------ combine_transforms
static void combine(Rng& r) {
    vros::reset();
    static const char* TYPE[] = {"TransformStamped", "PoseStamped", "PoseWithCovarianceStamped"};
    const int type = r.integer(0, 2);
    if (type != 0 || r.chance(0.5)) vros::set_param("/~/transform_type", std::string(TYPE[type]));
    CombineTransforms node;
    const int n = r.integer(1, 25);
    const double rs = r.chance(0.2) ? 2.0 : 0.3, ts = r.uniform(0.01, 5);
    Iso W = Iso::Identity();
    std::vector<Iso> want;
    std::vector<ros::Time> stamps;
    for (int i = 0; i < n; ++i) {
        const Iso m = r.chance(0.1) ? Iso::Identity() : nc::random_iso(r, rs, ts);
        W = W * m;
        want.push_back(W);
        stamps.push_back(T(9000000000ULL + 100000000ULL * i + r.integer(0, 1000)));
        if (type == 0) {
            Tf t; t.header.stamp = stamps[i]; t.header.frame_id = "body_prev"; t.child_frame_id = "body"; t.transform = nc::to_transform(m);
            vros::send("/~/input", t);
        } else if (type == 1) {
            geometry_msgs::PoseStamped t; t.header.stamp = stamps[i]; t.pose = nc::to_pose(m);
            vros::send("/~/input", t);
        } else {
            geometry_msgs::PoseWithCovarianceStamped t; t.header.stamp = stamps[i]; t.pose.pose = nc::to_pose(m);
            for (int k = 0; k < 6; ++k) t.pose.covariance[7 * k] = r.uniform(0, 1);
            vros::send("/~/input", t);
        }
        if (r.chance(0.5)) vros::spin_all();
    }
    vros::spin_all();
    auto od = vros::received<Odom>("/~/odometry");
    auto pa = vros::received<nav_msgs::Path>("/~/path");
    if (!vr::check((int)od.size() == n && (int)pa.size() == n, "combine-count", cat(od.size(), " ", pa.size(), " of ", n, " ", TYPE[type]))) return;
    for (int i = 0; i < n; ++i) {
        const double e = nc::apart(nc::from(od[i]->pose.pose), want[i]);
        vr::check(e < 1e-8 * (1 + ts * n), "combine-pose", cat("step ", i, " apart ", e, " ", TYPE[type]));
        vr::check(od[i]->header.stamp == stamps[i] && pa[i]->header.stamp == stamps[i], "combine-stamp", cat("step ", i));
        if (!vr::check((int)pa[i]->poses.size() == i + 1, "combine-path-length", cat("step ", i, " ", pa[i]->poses.size()))) return;
        for (int k = 0; k <= i; ++k)
            vr::check(nc::apart(nc::from(pa[i]->poses[k].pose), want[k]) < 1e-8 * (1 + ts * n) && pa[i]->poses[k].header.stamp == stamps[k], "combine-path", cat("step ", i, " pose ", k));
        vr::event(cat("combined_", TYPE[type]));
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ odometry_to_tf
static void to_tf(Rng& r) {
    vros::reset();
    OdometryToTf node;
    const int n = r.integer(1, 8);
    std::vector<Odom> sent;
    for (int i = 0; i < n; ++i) {
        Odom o;
        o.header.stamp = T(r.integer(1, 2000000000) * 7ULL); o.header.frame_id = cat("map", r.integer(0, 3)); o.child_frame_id = r.chance(0.15) ? std::string() : cat("body", r.integer(0, 3));
        o.pose.pose = nc::to_pose(nc::random_iso(r, 2, 10));
        set(o.twist.twist.linear, nc::vec(r, 3));
        sent.push_back(o);
        vros::send("/~/input", o);
        vros::spin_all();
    }
    auto got = transforms();
    if (!vr::check((int)got.size() == n, "tf-count", cat(got.size(), " of ", n))) return;
    for (int i = 0; i < n; ++i) {
        const auto& p = sent[i].pose.pose;
        const auto& t = got[i].transform;
        vr::check(got[i].header.stamp == sent[i].header.stamp && got[i].header.frame_id == sent[i].header.frame_id && got[i].child_frame_id == sent[i].child_frame_id, "tf-header", cat("odometry ", i));
        vr::check(t.translation.x == p.position.x && t.translation.y == p.position.y && t.translation.z == p.position.z, "tf-translation", cat("odometry ", i));
        vr::check(t.rotation.w == p.orientation.w && t.rotation.x == p.orientation.x && t.rotation.y == p.orientation.y && t.rotation.z == p.orientation.z, "tf-rotation", cat("odometry ", i));
        vr::event("odometry_transforms_compared");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ imu_transform
static Imu random_imu(Rng& r, std::uint64_t stamp) {
    Imu m;
    m.header.stamp = T(stamp); m.header.frame_id = "imu";
    const Q q = nc::rot(nc::vec(r, 2));
    m.orientation.w = q.w(); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z();
    set(m.angular_velocity, nc::vec(r, 1)); set(m.linear_acceleration, nc::vec(r, 9));
    for (auto& x : m.angular_velocity_covariance) x = r.uniform(0, 1);
    for (auto& x : m.linear_acceleration_covariance) x = r.uniform(0, 1);
    return m;
}
static std::vector<double> matrix(const Q& q) {
    std::vector<double> v;
    const Eigen::Matrix3d R = q.toRotationMatrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(R(i, j));
    return v;
}
static Q quat(const geometry_msgs::Quaternion& q) { return Q(q.w, q.x, q.y, q.z); }

static void turn_imu(Rng& r) {
    vros::reset();
    std::string in = "imu", out = "imu_transformed", frame;
    if (r.chance(0.5)) { in = "/sensor/imu"; vros::set_param("/~/imu_topic", in); }
    if (r.chance(0.5)) { out = "/sensor/turned"; vros::set_param("/~/imu_transformed_topic", out); }
    Q R = Q::Identity();
    if (r.chance(0.9)) { R = r.chance(0.2) ? Q(0, 1, 0, 0) : nc::rot(nc::vec(r, 2)); vros::set_param("/~/rotation", matrix(R)); }
    const bool over = r.chance(0.5);
    if (over || r.chance(0.3)) vros::set_param("/~/overwrite_frame", over);
    if (r.chance(0.7)) { frame = "turned"; vros::set_param("/~/new_frame", frame); }
    ImuTransform node;
    const int n = r.integer(1, 10);
    std::vector<Imu> sent;
    for (int i = 0; i < n; ++i) {
        sent.push_back(random_imu(r, 4000000000ULL + 5000000ULL * i));
        vros::send(in[0] == '/' ? in : "/~/" + in, sent[i]);
        if (r.chance(0.5)) vros::spin_all();
    }
    vros::spin_all();
    auto got = vros::received<Imu>(out[0] == '/' ? out : "/~/" + out);
    if (!vr::check((int)got.size() == n, "turn-count", cat(got.size(), " of ", n))) return;
    for (int i = 0; i < n; ++i) {
        const Imu& b = *got[i];
        vr::check(same(b.orientation, R * quat(sent[i].orientation)), "turn-orientation", cat("message ", i));
        vr::check(b.header.stamp == sent[i].header.stamp && b.header.frame_id == (over ? frame : "imu"), "turn-header", b.header.frame_id);
        vr::check(v3(b.angular_velocity) == v3(sent[i].angular_velocity) && v3(b.linear_acceleration) == v3(sent[i].linear_acceleration), "turn-rates", cat("message ", i));
        vr::check(b.angular_velocity_covariance == sent[i].angular_velocity_covariance && b.linear_acceleration_covariance == sent[i].linear_acceleration_covariance, "turn-covariances", cat("message ", i));
        vr::event("imu_turned");
        if (over) vr::event("frames_overwritten");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ imu_analysis
struct Quiet {  // the node prints every message
    std::streambuf *o, *e;
    std::ofstream sink{"/dev/null"};
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static void analysis(Rng& r) {
    vros::reset();
    Quiet quiet;
    std::string fixed = "fixed", moved = "fixed";
    if (r.chance(0.6)) { fixed = "world"; vros::set_param("/~/fixed_frame", fixed); }
    if (r.chance(0.8)) { moved = "body"; vros::set_param("/~/transformed_frame", moved); }
    const bool extra = r.chance(0.7);
    if (extra || r.chance(0.5)) vros::set_param("/~/apply_transform", extra);
    Q R = Q::Identity();
    V3 t = V3::Zero();
    if (r.chance(0.8)) { R = nc::rot(nc::vec(r, 2)); vros::set_param("/~/rotation", matrix(R)); }
    if (r.chance(0.8)) { t = nc::vec(r, 2); vros::set_param("/~/translation", std::vector<double>{t.x(), t.y(), t.z()}); }
    ImuAnalysis node;
    const int n = r.integer(1, 6);
    std::vector<Imu> sent;
    for (int i = 0; i < n; ++i) { sent.push_back(random_imu(r, 4000000000ULL + 5000000ULL * i)); vros::send("/~/imu", sent[i]); }
    vros::spin_all();
    auto got = transforms();
    if (!vr::check((int)got.size() == n * (extra ? 2 : 1), "analysis-count", cat(got.size(), " for ", n))) return;
    for (int i = 0; i < n; ++i) {
        const Tf& a = got[i * (extra ? 2 : 1)];
        const Q q = quat(sent[i].orientation);
        vr::check(a.header.stamp == sent[i].header.stamp && a.header.frame_id == fixed && a.child_frame_id == "imu", "analysis-header", cat("message ", i));
        vr::check(same(a.transform.rotation, q) && v3(a.transform.translation).norm() == 0, "analysis-orientation", cat("message ", i));
        if (extra) {
            const Tf& b = got[i * 2 + 1];
            vr::check(b.header.stamp == sent[i].header.stamp && b.header.frame_id == fixed && b.child_frame_id == moved, "analysis-header-2", cat("message ", i));
            vr::check(same(b.transform.rotation, q * R) && v3(b.transform.translation) == t, "analysis-transformed", cat("message ", i));
            vr::event("transformed_orientations");
        }
        vr::event("orientations_shown");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ integrate_imu
static void integrate(Rng& r) {
    vros::reset();
    const Iso B_I = r.chance(0.2) ? Iso::Identity() : nc::random_iso(r, 1.5, 0.4);  // the IMU in the body frame
    nc::body_frames("/~", {{"imu", B_I}});
    double g = 9.81;
    if (r.chance(0.5)) { g = r.uniform(0.5, 12); vros::set_param("/~/gravity", g); }
    double noise[6];
    const char* names[] = {"accelerometer", "gyroscope", "integration", "integration_bias", "accelerometer_bias", "gyroscope_bias"};
    for (int i = 0; i < 6; ++i) {
        noise[i] = 1e-3;
        if (r.chance(0.7)) { noise[i] = std::exp(r.uniform(-9, -2)); vros::set_param(cat("/~/imu/noise/", names[i]), noise[i]); }
    }
    V3 p = V3::Zero(), v = V3::Zero();
    if (r.chance(0.6)) for (int i = 0; i < 3; ++i) { p[i] = r.uniform(-9, 9); vros::set_param(cat("/~/pose/position/", "xyz"[i]), p[i]); }
    if (r.chance(0.6)) for (int i = 0; i < 3; ++i) { v[i] = r.uniform(-3, 3); vros::set_param(cat("/~/velocity/linear/", "xyz"[i]), v[i]); }
    IntegrateImu node;
    const bool blind = r.chance(0.2);
    const int n = r.chance(0.1) ? r.integer(100, 300) : r.integer(2, 40);
    const bool gaps = n <= 40 && r.chance(0.3);  // messages lost
    const Q R0 = blind ? Q::Identity() : nc::rot(nc::vec(r, 1.5));  // body in the world
    // reference configured by hand
    auto pp = gtsam::PreintegrationCombinedParams::MakeSharedU(g);
    const Eigen::Matrix3d I3 = Eigen::Matrix3d::Identity();
    pp->setAccelerometerCovariance(I3 * noise[0] * noise[0]);
    pp->setGyroscopeCovariance(I3 * noise[1] * noise[1]);
    pp->setIntegrationCovariance(I3 * noise[2] * noise[2]);
    pp->setBiasAccOmegaInit(Eigen::Matrix<double, 6, 6>::Identity() * noise[3] * noise[3]);
    pp->setBiasAccCovariance(I3 * noise[4] * noise[4]);
    pp->setBiasOmegaCovariance(I3 * noise[5] * noise[5]);
    pp->setBodyPSensor(gtsam::Pose3(gtsam::Rot3(B_I.linear()), B_I.translation()));
    gtsam::PreintegratedCombinedMeasurements pim(pp, gtsam::imuBias::ConstantBias());
    const gtsam::NavState start(gtsam::Rot3(R0), p, v);
    // reference integrated step by step, without gtsam
    Q q = R0;
    const V3 w0 = nc::vec(r, 0.4), a0 = nc::vec(r, 1.0), w1 = nc::vec(r, 0.2), a1 = nc::vec(r, 0.5);
    double t = 0, motion = 0;
    bool coarse = false;  // a gap was integrated: the two integration schemes differ
    std::uint64_t ns = 1500000000000000000ULL + r.integer(0, 999999999);
    std::vector<Iso> poses;
    std::size_t k = 0;
    for (int i = 0; i < n; ++i) {
        const double dt = i ? (gaps && r.chance(0.1) ? r.integer(50, 400) * 1e-3 : r.chance(0.1) ? 0.02 : 0.005) : 0;
        const std::uint64_t step = (std::uint64_t)std::llround(dt * 1e9);
        ns += step; t += dt;
        Imu m;
        m.header.stamp = T(ns); m.header.frame_id = "imu";
        const V3 w = w0 + w1 * std::sin(3 * t), a = a0 + a1 * std::cos(2 * t) + (R0.inverse() * V3(0, 0, g));  // measured by the IMU
        set(m.angular_velocity, w); set(m.linear_acceleration, a);
        for (int d = 0; d < 3; ++d) m.angular_velocity_covariance[4 * d] = r.uniform(0.001, 0.1);
        const Q qi = i == 0 ? Q(R0 * Q(B_I.linear())) : nc::rot(nc::vec(r, 1));
        if (blind) { m.orientation.w = m.orientation.x = m.orientation.y = m.orientation.z = 0; }
        else { m.orientation.w = qi.w(); m.orientation.x = qi.x(); m.orientation.y = qi.y(); m.orientation.z = qi.z(); }
        vros::send("/~/input", m);
        vros::spin_all();
        auto od = vros::received<Odom>("/~/odometry");
        auto pa = vros::received<nav_msgs::Path>("/~/path");
        if (i == 0) { if (!vr::check(od.empty() && pa.empty(), "integrate-first", "")) return; continue; }
        ++k;
        if (!vr::check(od.size() == k && pa.size() == k, "integrate-count", cat(od.size(), " ", pa.size(), " of ", k))) return;
        pim.integrateMeasurement(a, w, dt);
        const auto s = pim.predict(start, gtsam::imuBias::ConstantBias());
        const V3 wb = B_I.linear() * w, arm = B_I.translation();
        const V3 ab = B_I.linear() * a - wb.cross(wb.cross(arm));
        const V3 aw = q * ab - V3(0, 0, g);
        p += v * dt + 0.5 * aw * dt * dt; v += aw * dt; q = (q * nc::rot(wb * dt)).normalized();
        motion += dt;
        coarse = coarse || dt > 0.02;
        const Odom& o = *od.back();
        const Iso got = nc::from(o.pose.pose), want = nc::iso(Q(s.attitude().matrix()), s.position());
        const std::string d = cat("step ", i, " of ", n);
        vr::check(nc::apart(got, want) < 1e-6, "integrate-pose", cat(d, " apart ", nc::apart(got, want)));
        if (coarse) vr::event("gaps_integrated"); else vr::maximum("independent_pose_difference", nc::apart(got, nc::iso(q, p)));
        vr::check(coarse || nc::apart(got, nc::iso(q, p)) < 2e-4 * std::max(1.0, t * t * 20), "integrate-pose-independent", cat(d, " apart ", nc::apart(got, nc::iso(q, p))));
        const V3 lin = v3(o.twist.twist.linear);
        vr::check((lin - s.velocity()).norm() < 1e-6 || (lin - got.linear().transpose() * s.velocity()).norm() < 1e-6, "integrate-velocity", d);
        const Eigen::Matrix<double, 15, 15> C = pim.preintMeasCov();
        double worst = 0;
        for (int a_ = 0; a_ < 6; ++a_) for (int b_ = 0; b_ < 6; ++b_) worst = std::max(worst, std::abs(o.pose.covariance[a_ * 6 + b_] - C((a_ + 3) % 6, (b_ + 3) % 6)));
        vr::check(worst <= 1e-9 * (1 + C.topLeftCorner<6, 6>().norm()), "integrate-covariance", cat(d, " difference ", worst));
        worst = 0;
        for (int a_ = 0; a_ < 3; ++a_) for (int b_ = 0; b_ < 3; ++b_) worst = std::max(worst, std::abs(o.twist.covariance[a_ * 6 + b_] - C(6 + a_, 6 + b_)));
        vr::check(worst <= 1e-9 * (1 + C.norm()), "integrate-velocity-covariance", cat(d, " difference ", worst));
        vr::check(o.header.stamp == m.header.stamp && pa.back()->header.stamp == m.header.stamp, "integrate-stamp", d);
        poses.push_back(got);
        if (!vr::check(pa.back()->poses.size() == k, "integrate-path-length", d)) return;
        for (std::size_t j = 0; j < k; ++j) vr::check(nc::apart(nc::from(pa.back()->poses[j].pose), poses[j]) < 1e-9, "integrate-path", cat(d, " pose ", j));
        vr::event("integrations_compared");
        if (blind) vr::event("without_orientation");
    }
    // a repeated stamp is never integrated
    if (r.chance(0.3)) {
        Imu m; m.header.stamp = T(ns);
        m.orientation.w = 1;
        bool refused = false;
        vros::send("/~/input", m);
        try { vros::spin_all(); } catch (const std::exception&) { refused = true; }
        vr::check(refused && vros::received<Odom>("/~/odometry").size() == k, "integrate-repeated-stamp", "");
        vr::event("repeated_stamps");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ refusals
static void refuse(Rng& r) {
    vros::reset();
    const int kind = r.integer(0, 4);
    bool refused = false;
    Quiet quiet;
    try {
        if (kind == 0) { vros::set_param("/~/transform_type", std::string(r.chance(0.5) ? "Pose" : "transformstamped")); CombineTransforms n; }
        else if (kind == 1) { vros::set_param("/~/rotation", std::vector<double>(r.integer(0, 8), 1.0)); ImuTransform n; }
        else if (kind == 2) { vros::set_param("/~/rotation", std::vector<double>(r.integer(0, 8), 1.0)); ImuAnalysis n; }
        else if (kind == 3) { vros::set_param("/~/translation", std::vector<double>(r.integer(0, 2), 1.0)); ImuAnalysis n; }
        else { if (r.chance(0.5)) nc::body_frames("/~", {{"lidar", Iso::Identity()}}); IntegrateImu n; }
    } catch (const std::exception&) { refused = true; }
    vr::check(refused, cat("refused-", kind), "");
    vr::event("refusals");
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"combine", combine}, {"to_tf", to_tf}, {"turn_imu", turn_imu}, {"analysis", analysis}, {"integrate", integrate}, {"refuse", refuse}});
}
