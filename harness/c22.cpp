// C22: the front end selects states, and publishes for each exactly the deskewed cloud, IMU measurements, stereo frame and pressure that belong to it.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>

#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/FluidPressure.h>
#include <sensor_msgs/PointCloud2.h>
#include <serpent/front_end/frontend.hpp>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <tf2_msgs/TFMessage.h>
#include <atomic>
#include <cstring>
#include "node_common.hpp"
#include "vr.hpp"

using nc::Iso;
using nc::T;
using vr::cat;
using vr::Rng;
typedef gtsam::imuBias::ConstantBias Bias;
typedef std::uint64_t ns_t;
typedef std::int64_t sns;
typedef pcl::PCLPointCloud2 Cloud;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 6> M6;

static const char* CLOUD = "/serpent/frontend/deskewed_pointcloud";
static const char* S2S = "/serpent/frontend/imu_s2s";
static const char* INIT = "/serpent/frontend/initial_odometry";
static const char* BARO = "/serpent/frontend/barometer";
static const char* ODOM = "/serpent/output/odometry";
static const char* POSE = "/serpent/output/pose";

static gtsam::Pose3 g(const Iso& m) { return gtsam::Pose3(gtsam::Rot3(Eigen::Matrix3d(m.linear())), V3(m.translation())); }
static Iso e(const gtsam::Pose3& p) { Iso m = Iso::Identity(); m.linear() = p.rotation().matrix(); m.translation() = p.translation(); return m; }

struct World {
    bool stereo, baro, only_graph, mdc_t, mdc_r, own_body, ned, has_orientation, times;
    bool overwrite_imu, overwrite_baro;
    double acc_noise, gyr_noise, baro_noise, gravity;
    Iso b_imu, b_lidar, b_base;
    Iso start;  // body in the map at time t0
    V3 w, v;    // body rate, map velocity
    ns_t t0;
    V3 ba, bg;
    V3 init_p, init_v;
    std::vector<sensor_msgs::Imu> imu;
    std::vector<Cloud> clouds;
    std::vector<std::vector<V3>> world_points;
    std::vector<double> sweep;
    std::vector<ns_t> stereo_t;
    std::vector<sensor_msgs::FluidPressure> pressure;
    std::vector<ns_t> state;  // expected state times
    std::string d;
    Iso pose(double t) const {
        Iso m = start;
        m.linear() = start.linear() * nc::rot(w * t).toRotationMatrix();
        m.translation() = start.translation() + v * t;
        return m;
    }
    double s(ns_t t) const { return (double)((sns)t - (sns)t0) * 1e-9; }
};

static float get_f(const Cloud& c, std::size_t i, int k) { float f; std::memcpy(&f, &c.data[i * c.point_step + k], 4); return f; }
static void put_f(Cloud& c, std::size_t i, int k, float f) { std::memcpy(&c.data[i * c.point_step + k], &f, 4); }

static void configure(Rng& r, World& w) {
    w.b_imu = nc::random_iso(r, 0.6, 0.2);
    w.b_lidar = nc::random_iso(r, 0.8, 0.3);
    w.own_body = r.chance(0.5);
    w.b_base = w.own_body ? nc::random_iso(r, 0.5, 0.4) : Iso::Identity();
    XmlRpc::XmlRpcValue all, body, fs;
    fs["imu"] = nc::frame_param(w.b_imu, "imu_id");
    fs["lidar"] = nc::frame_param(w.b_lidar, "lidar_id");
    if (w.own_body) fs["base_link"] = nc::frame_param(w.b_base, "base_id");
    body["frames"] = fs;
    body["frame_id"] = std::string(w.own_body ? "core_id" : "base_id");
    all[w.own_body ? "core" : "base_link"] = body;
    vros::set_param("serpent/body_frames", all);
    w.stereo = r.chance(0.5);
    w.baro = r.chance(0.6);
    w.only_graph = r.chance(0.5);
    w.mdc_t = w.stereo || r.chance(0.8);
    w.mdc_r = w.stereo || r.chance(0.8);
    w.ned = r.chance(0.5);
    w.has_orientation = r.chance(0.8);
    w.times = r.chance(0.9);
    w.overwrite_imu = r.chance(0.5);
    w.overwrite_baro = r.chance(0.5);
    w.acc_noise = r.uniform(0.01, 0.1);
    w.gyr_noise = r.uniform(0.001, 0.01);
    w.baro_noise = r.uniform(1, 10);
    w.gravity = r.uniform(9.7, 9.9);
    vros::set_param("serpent/map_frame_id", std::string("the_map"));
    vros::set_param("serpent/mdc/translation", w.mdc_t);
    vros::set_param("serpent/mdc/rotation", w.mdc_r);
    vros::set_param("serpent/stereo_tracking/only_graph_frames", w.only_graph);
    vros::set_param("serpent/optimisation/factors/stereo", w.stereo);
    vros::set_param("serpent/optimisation/factors/barometer", w.baro);
    vros::set_param("serpent/imu/noise/overwrite", w.overwrite_imu);
    vros::set_param("serpent/imu/noise/accelerometer", w.acc_noise);
    vros::set_param("serpent/imu/noise/gyroscope", w.gyr_noise);
    vros::set_param("serpent/imu/reference_frame", std::string(w.ned ? "NED" : "NWU"));
    vros::set_param("serpent/barometer/noise/overwrite", w.overwrite_baro);
    vros::set_param("serpent/barometer/noise/barometer", w.baro_noise);
    vros::set_param("serpent/gravity", w.gravity);
    w.init_p = nc::vec(r, 3);
    w.init_v = nc::vec(r, 1);
    const char* ax[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) {
        // an axis that is not configured starts at zero
        if (r.chance(0.15)) w.init_p[i] = 0;
        else vros::set_param(std::string("serpent/pose/position/") + ax[i], (double)w.init_p[i]);
        if (r.chance(0.15)) w.init_v[i] = 0;
        else vros::set_param(std::string("serpent/velocity/linear/") + ax[i], (double)w.init_v[i]);
    }
    vros::set_param("serpent/prior_noise/position", 0.02);
    vros::set_param("serpent/prior_noise/rotation", 0.03);
    vros::set_param("serpent/prior_noise/linear_velocity", 0.04);
    w.d = cat(" [", w.stereo ? w.only_graph ? "stereo-graph " : "stereo " : "", w.baro ? "baro " : "", w.own_body ? "own-body " : "", w.mdc_t ? "" : "no-translation ", w.mdc_r ? "" : "no-rotation ", w.times ? "]" : "no-times]");
}

static void make_world(Rng& r, World& w, int n) {
    w.start = nc::random_iso(r, 0.8, 5);
    w.w = nc::vec(r, r.chance(0.2) ? 0.0 : 0.6);
    w.v = nc::vec(r, r.chance(0.2) ? 0.0 : 2.0);
    w.ba = nc::vec(r, 0.1);
    w.bg = nc::vec(r, 0.05);
    w.t0 = 1000000000000ULL + (ns_t)r.integer(0, 1000000) * 1000;
    const double period = r.uniform(0.05, 0.2);
    const double imu_dt = r.uniform(0.004, 0.012);
    std::vector<ns_t> ct;
    for (int k = 0; k < n; ++k) ct.push_back(w.t0 + (ns_t)((0.05 + k * period + r.uniform(0, 0.1) * period) * 1e6) * 1000);
    const double total = w.s(ct.back()) + 1.5 * period;
    // IMU
    for (double t = 0.0; t < total + 3 * imu_dt; t += imu_dt * r.uniform(0.7, 1.3)) {
        sensor_msgs::Imu m;
        ns_t stamp = w.t0 + (ns_t)(t * 1e9);
        m.header.stamp = T(stamp);
        w.imu.push_back(m);
    }
    if (r.chance(0.4)) {  // coinciding stamps
        const ns_t c = ct[r.integer(0, n - 1)];
        for (std::size_t i = 1; i + 1 < w.imu.size(); ++i)
            if (w.imu[i].header.stamp.toNSec() <= c && w.imu[i + 1].header.stamp.toNSec() > c) w.imu[i].header.stamp = T(c);
        vr::event("imu_stamp_equal_to_cloud");
    }
    for (auto& m : w.imu) {
        const double t = w.s(m.header.stamp.toNSec());
        const Iso b = w.pose(t), i = b * w.b_imu;
        const V3 acc = b.linear() * w.w.cross(w.w.cross(V3(w.b_imu.translation())));
        const V3 f = i.linear().transpose() * (acc + V3(0, 0, w.gravity)) + w.ba;
        const V3 om = w.b_imu.linear().transpose() * w.w + w.bg;
        m.linear_acceleration.x = f.x(); m.linear_acceleration.y = f.y(); m.linear_acceleration.z = f.z();
        m.angular_velocity.x = om.x(); m.angular_velocity.y = om.y(); m.angular_velocity.z = om.z();
        Eigen::Matrix3d R = i.linear();
        if (w.ned) R = Eigen::Vector3d(1, -1, -1).asDiagonal() * R;
        Eigen::Quaterniond q(R);
        if (w.has_orientation) { m.orientation.w = q.w(); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); }
        for (int k = 0; k < 3; ++k) m.linear_acceleration_covariance[4 * k] = 0.02 + 0.01 * k, m.angular_velocity_covariance[4 * k] = 0.003 + 0.001 * k, m.orientation_covariance[4 * k] = 0.5;
    }
    // Clouds: fields x y z t intensity (float)
    for (int k = 0; k < n; ++k) {
        Cloud c;
        c.header.stamp = ct[k] / 1000;
        c.header.frame_id = "lidar_id";
        c.header.seq = 100 + k;
        const char* names[] = {"x", "y", "z", "intensity", "t"};
        const int nf = w.times ? 5 : 4;
        for (int i = 0; i < nf; ++i) {
            pcl::PCLPointField f;
            f.name = names[i]; f.offset = 4 * i; f.datatype = pcl::PCLPointField::FLOAT32; f.count = 1;
            c.fields.push_back(f);
        }
        const int np = r.integer(3, 12);
        c.height = 1; c.width = np; c.point_step = 4 * nf; c.row_step = c.point_step * np; c.is_dense = true;
        c.data.resize(c.row_step);
        const double sw = period * r.uniform(0.3, 0.9);
        float last = 0;
        std::vector<V3> wp;
        for (int i = 0; i < np; ++i) {
            const float t = i == 0 ? 0.0f : i == 1 ? (float)sw : (float)r.uniform(0, sw);
            last = std::max(last, t);
            const V3 p = nc::vec(r, 10);
            put_f(c, i, 0, p.x()); put_f(c, i, 4, p.y()); put_f(c, i, 8, p.z()); put_f(c, i, 12, (float)i);
            if (w.times) put_f(c, i, 16, t);
            wp.push_back(w.pose(w.s(ct[k]) + (w.times ? t : 0)) * w.b_lidar * p);
        }
        w.clouds.push_back(c);
        w.world_points.push_back(wp);
        w.sweep.push_back(w.times ? last : 0.0);
    }
    // Stereo frames, some gaps of more than a cloud period
    if (w.stereo) {
        double t = r.uniform(-0.05, 0.1);
        while (t < total) {
            ns_t stamp = w.t0 + (sns)(t * 1e9);
            if (r.chance(0.1)) stamp = ct[r.integer(0, n - 1)] + r.integer(0, 900);  // truncated onto the cloud's stamp
            if (w.stereo_t.empty() || stamp / 1000 > w.stereo_t.back() / 1000) w.stereo_t.push_back(stamp);
            t += r.chance(0.15) ? 1.5 * period : r.uniform(0.02, 0.8 * period);
        }
        w.stereo_t.push_back(w.t0 + (ns_t)((total + 0.01) * 1e9));
    }
    // Pressure
    if (w.baro) {
        double t = r.chance(0.3) ? w.s(ct[r.integer(0, n / 2)]) + r.uniform(0, period) : -0.05;  // may start after the first states
        while (t < total + 0.3) {
            sensor_msgs::FluidPressure p;
            p.header.stamp = T(w.t0 + (sns)(t * 1e9));
            p.header.frame_id = "baro";
            p.fluid_pressure = 1e5 + 100 * r.gauss();
            p.variance = r.uniform(1, 5);
            w.pressure.push_back(p);
            t += r.uniform(0.01, 0.15);
        }
    }
    // The state of cloud k is the first stereo frame in [cloud k, cloud k+1), otherwise the cloud's own stamp.
    std::size_t si = 0;
    for (int k = 0; k + 1 < n; ++k) {
        ns_t s = ct[k];
        while (si < w.stereo_t.size() && w.stereo_t[si] / 1000 * 1000 < ct[k]) ++si;
        if (si < w.stereo_t.size() && w.stereo_t[si] / 1000 * 1000 < ct[k + 1]) s = w.stereo_t[si++] / 1000 * 1000, vr::event("states_at_stereo_frames");
        else if (w.stereo) vr::event("states_without_stereo_frame");
        w.state.push_back(s);
    }
}

static boost::shared_ptr<gtsam::PreintegrationCombinedParams> params_of(const World& w) {
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(w.gravity);
    p->setBodyPSensor(g(w.b_imu));
    p->setAccelerometerCovariance(Eigen::Matrix3d::Identity() * 1e-4);
    p->setGyroscopeCovariance(Eigen::Matrix3d::Identity() * 1e-6);
    p->setIntegrationCovariance(Eigen::Matrix3d::Identity() * 1e-6);
    return p;
}
static V3 acc(const sensor_msgs::Imu& m) { return V3(m.linear_acceleration.x, m.linear_acceleration.y, m.linear_acceleration.z); }
static V3 gyr(const sensor_msgs::Imu& m) { return V3(m.angular_velocity.x, m.angular_velocity.y, m.angular_velocity.z); }

// Measurement i applies from its stamp to the next one (the first also before its stamp).
static gtsam::NavState move(const World& w, const gtsam::NavState& from, const Bias& b, ns_t a, ns_t z) {
    gtsam::PreintegratedCombinedMeasurements p(params_of(w), b);
    for (std::size_t i = 0; i < w.imu.size(); ++i) {
        const ns_t s = std::max(a, (ns_t)w.imu[i].header.stamp.toNSec());
        const ns_t f = i + 1 < w.imu.size() ? std::min(z, (ns_t)w.imu[i + 1].header.stamp.toNSec()) : z;
        if (f > s && w.imu[i].header.stamp.toNSec() < z) p.integrateMeasurement(acc(w.imu[i]), gyr(w.imu[i]), (double)(f - s) * 1e-9);
    }
    return p.predict(from, b);
}

static void jitter(Rng& r) {
    static std::atomic<std::uint64_t> s{1};
    s = r.next();
    ros::vr_sleep_hook() = [](std::int64_t) {
        const std::uint64_t v = (s += 0x9e3779b97f4a7c15ull);
        std::this_thread::sleep_for(std::chrono::microseconds(20 + (v >> 33) % 300));
    };
}
static bool drained(const std::string& topic) {
    vros::Bus& b = vros::Bus::get();
    std::lock_guard<std::mutex> l(b.m);
    for (auto& s : b.subs[topic]) if (!s->queue.empty() || s->busy) return false;
    return true;
}
static std::uint64_t seq_now() { vros::Bus& b = vros::Bus::get(); std::lock_guard<std::mutex> l(b.m); return b.seq; }
static void pause(Rng& r, int us) { if (us) std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, us))); }

struct State {
    nav_msgs::Odometry odom;
    serpent::ImuBiases bias;
    gtsam::NavState nav;
    Bias b;
    M6 cov;  // rotation, position
    std::uint64_t sent = 0, done = 0;
};

static State estimate(Rng& r, const World& w, int k) {
    State s;
    const double t = w.s(w.state[k]);
    const Iso p = w.pose(t) * nc::random_iso(r, 1e-3, 1e-2);
    const V3 v = w.v + nc::vec(r, 5e-3);
    s.odom.header.stamp = T(w.state[k]);
    s.odom.header.frame_id = "the_map";
    s.odom.child_frame_id = "core_id";
    s.odom.pose.pose = nc::to_pose(p);
    s.odom.twist.twist.linear.x = v.x(); s.odom.twist.twist.linear.y = v.y(); s.odom.twist.twist.linear.z = v.z();
    Eigen::MatrixXd a(6, 6);
    for (int i = 0; i < 36; ++i) a(i) = r.gauss();
    s.cov = a * a.transpose() * 0.01 + 0.01 * M6::Identity();
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s.odom.pose.covariance[i * 6 + j] = s.cov((i + 3) % 6, (j + 3) % 6);
    s.bias.header = s.odom.header;
    const V3 ba = w.ba + nc::vec(r, 1e-3), bg = w.bg + nc::vec(r, 1e-4);
    s.bias.accelerometer_bias.x = ba.x(); s.bias.accelerometer_bias.y = ba.y(); s.bias.accelerometer_bias.z = ba.z();
    s.bias.gyroscope_bias.x = bg.x(); s.bias.gyroscope_bias.y = bg.y(); s.bias.gyroscope_bias.z = bg.z();
    s.b = Bias(ba, bg);
    s.nav = gtsam::NavState(gtsam::Rot3(Eigen::Matrix3d(p.linear())), V3(p.translation()), v);
    return s;
}

static sensor_msgs::Image image(Rng& r, ns_t t, const char* frame) {
    sensor_msgs::Image m;
    m.header.stamp = T(t);
    m.header.frame_id = frame;
    m.width = 3; m.height = 2; m.step = 3; m.encoding = "mono8";
    for (int i = 0; i < 6; ++i) m.data.push_back(r.integer(0, 255));
    return m;
}
static sensor_msgs::CameraInfo info(Rng& r, ns_t t, const char* frame) {
    sensor_msgs::CameraInfo m;
    m.header.stamp = T(t);
    m.header.frame_id = frame;
    m.width = 3; m.height = 2;
    m.K[0] = r.uniform(100, 500);
    return m;
}

struct Frame { sensor_msgs::Image l, r; sensor_msgs::CameraInfo li, ri; };

static bool quat_same(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, double tol) { return a.angularDistance(b) < tol && std::abs(a.norm() - 1) < 1e-6; }

static void compare(Rng& r, const World& w, const std::vector<State>& states, const std::vector<Frame>& frames, const std::vector<std::uint64_t>& imu_sent) {
    const int n = (int)w.state.size();
    const std::string& d = w.d;
    // initial odometry
    auto in = vros::received<nav_msgs::Odometry>(INIT);
    if (vr::check(in.size() == 1, "one-initial-odometry", cat(in.size(), d))) {
        const auto& o = *in[0];
        vr::check(o.header.stamp == T(w.state[0]) && o.header.frame_id == "the_map", "initial-odometry-stamp", d);
        std::size_t i = 1;
        while (w.imu[i].header.stamp.toNSec() < w.state[0]) ++i;
        const ns_t a = w.imu[i - 1].header.stamp.toNSec(), z = w.imu[i].header.stamp.toNSec();
        const double f = (double)(w.state[0] - a) / (double)(z - a);
        Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
        if (w.has_orientation) R = w.pose(w.s(a) + f * (double)(z - a) * 1e-9).linear();
        const Iso p = nc::from(o.pose.pose);
        vr::check((p.translation() - w.init_p).norm() < 1e-9, "initial-position", d);
        vr::check((p.linear() - R).norm() < 1e-6, "initial-orientation", cat(w.has_orientation ? "from IMU" : "no IMU orientation", w.ned ? " NED" : " NWU", d));
        const V3 v(o.twist.twist.linear.x, o.twist.twist.linear.y, o.twist.twist.linear.z);
        vr::check((v - w.init_v).norm() < 1e-9, "initial-velocity", d);
        bool ok = true;
        for (int a1 = 0; a1 < 6; ++a1)
            for (int b1 = 0; b1 < 6; ++b1) ok &= vr::close(o.pose.covariance[a1 * 6 + b1], a1 != b1 ? 0.0 : a1 < 3 ? 4e-4 : 9e-4, 1e-12);
        for (int a1 = 0; a1 < 3; ++a1) ok &= vr::close(o.twist.covariance[a1 * 7], 16e-4, 1e-12);
        vr::check(ok, "initial-covariance", d);
        vr::event("initial_states_compared");
    }
    // IMU between states
    auto ss = vros::received<serpent::ImuArray>(S2S);
    if (vr::check((int)ss.size() == n - 1, "one-imu-array-per-state", cat(ss.size(), " for ", n, " states", d))) {
        for (int k = 1; k < n; ++k) {
            const auto& s = *ss[k - 1];
            vr::check(s.start_timestamp == T(w.state[k - 1]) && s.end_timestamp == T(w.state[k]), "imu-array-interval", cat("state ", k, d));
            std::vector<const sensor_msgs::Imu*> want;
            for (std::size_t i = 0; i < w.imu.size(); ++i) {
                const ns_t t = w.imu[i].header.stamp.toNSec();
                if (t >= w.state[k]) break;
                if (t > w.state[k - 1] || w.imu[i + 1].header.stamp.toNSec() > w.state[k - 1]) want.push_back(&w.imu[i]);
            }
            bool ok = s.measurements.size() == want.size();
            for (std::size_t i = 0; ok && i < want.size(); ++i) {
                const auto &a = s.measurements[i], &b = *want[i];
                ok = a.header.stamp == b.header.stamp && acc(a) == acc(b) && gyr(a) == gyr(b) && a.orientation.w == b.orientation.w && a.orientation.z == b.orientation.z;
                for (int j = 0; ok && j < 9; ++j) {
                    const double ca = w.overwrite_imu ? (j % 4 ? 0 : w.acc_noise * w.acc_noise) : b.linear_acceleration_covariance[j];
                    const double cg = w.overwrite_imu ? (j % 4 ? 0 : w.gyr_noise * w.gyr_noise) : b.angular_velocity_covariance[j];
                    ok = vr::close(a.linear_acceleration_covariance[j], ca, 1e-12) && vr::close(a.angular_velocity_covariance[j], cg, 1e-12);
                }
            }
            vr::check(ok, "imu-between-states", cat("state ", k, ": ", s.measurements.size(), " measurements, expected ", want.size(), d));
            vr::event("imu_arrays_compared");
        }
    }
    // deskewed clouds
    std::vector<std::shared_ptr<Cloud>> cl;
    for (const auto& m : vros::received<sensor_msgs::PointCloud2>(CLOUD)) cl.push_back(vros::Canon<Cloud>::from(*m));
    if (vr::check((int)cl.size() == n, "one-cloud-per-state", cat(cl.size(), " for ", n, " states", d))) {
        for (int k = 0; k < n; ++k) {
            const Cloud &c = *cl[k], &src = w.clouds[k];
            if (!vr::check(c.header.stamp == w.state[k] / 1000 && c.header.frame_id == src.header.frame_id, "cloud-stamp", cat("state ", k, " at ", c.header.stamp, " expected ", w.state[k] / 1000, d))) continue;
            if (!vr::check(c.data.size() == src.data.size() && c.fields.size() == src.fields.size() && c.width == src.width, "cloud-layout", d)) continue;
            const ns_t p0 = src.header.stamp * 1000, p1 = p0 + (ns_t)std::llround(w.sweep[k] * 1e9);
            const State& from = states[k ? k - 1 : 0];
            const gtsam::NavState a = k ? move(w, from.nav, from.b, w.state[k - 1], p0) : from.nav;
            const gtsam::NavState z = move(w, a, from.b, p0, p1);
            const Iso skew = w.b_lidar.inverse() * e(a.pose()).inverse() * e(z.pose()) * w.b_lidar;
            const Eigen::AngleAxisd aa(skew.linear());
            auto at = [&](double t) {
                const double f = w.sweep[k] > 0 ? t / w.sweep[k] : 0;
                return nc::iso(w.mdc_r ? Eigen::Quaterniond(Eigen::AngleAxisd(aa.angle() * f, aa.axis())) : Eigen::Quaterniond::Identity(), w.mdc_t ? V3(skew.translation() * f) : V3(0, 0, 0));
            };
            const Iso N = at((double)((sns)w.state[k] - (sns)p0) * 1e-9).inverse();
            const Iso lidar = w.pose(w.s(w.state[k])) * w.b_lidar;
            const bool physical = w.mdc_r && w.mdc_t && w.times && (k > 0 || w.state[k] == p0);
            for (std::size_t i = 0; i < src.width; ++i) {
                const V3 p(get_f(src, i, 0), get_f(src, i, 4), get_f(src, i, 8)), q(get_f(c, i, 0), get_f(c, i, 4), get_f(c, i, 8));
                const V3 x = w.times ? V3(N * at(get_f(src, i, 16)) * p) : p;
                const double err = (q - x).norm();
                vr::maximum("deskew_error", err);
                vr::check(err < 2e-3, "deskewed-point", cat("state ", k, " point ", i, " off by ", err, d));
                if (physical) {
                    const double pe = (lidar.inverse() * w.world_points[k][i] - q).norm();
                    vr::maximum("deskew_error_world", pe);
                    vr::check(pe < 0.12, "deskewed-point-in-world", cat("state ", k, " point ", i, " off by ", pe, d));
                    vr::event("points_compared_with_world");
                }
                vr::check(get_f(c, i, 12) == get_f(src, i, 12), "deskew-other-field", d);
            }
            vr::event("clouds_compared");
            if (!w.times) vr::event("clouds_without_times");
        }
    }
    // stereo
    if (w.stereo) {
        std::vector<const Frame*> want;
        std::vector<ns_t> st;
        for (std::size_t i = 0; i < frames.size(); ++i) {
            const ns_t t = w.stereo_t[i] / 1000 * 1000;
            bool chosen = false;
            for (auto s : w.state) chosen |= s == t;
            if (!w.only_graph || chosen) want.push_back(&frames[i]), st.push_back(t);
        }
        auto l = vros::received<sensor_msgs::Image>("/serpent/stereo/left/image"), rr = vros::received<sensor_msgs::Image>("/serpent/stereo/right/image");
        auto li = vros::received<sensor_msgs::CameraInfo>("/serpent/stereo/left/camera_info"), ri = vros::received<sensor_msgs::CameraInfo>("/serpent/stereo/right/camera_info");
        bool ok = l.size() == want.size() && rr.size() == want.size() && li.size() == want.size() && ri.size() == want.size();
        vr::check(ok, "stereo-frames-published", cat(l.size(), " of ", want.size(), d));
        for (std::size_t i = 0; ok && i < want.size(); ++i) {
            ok = l[i]->header.stamp == T(st[i]) && rr[i]->header.stamp == T(st[i]) && li[i]->header.stamp == T(st[i]) && ri[i]->header.stamp == T(st[i]);
            vr::check(ok, "stereo-stamp", cat("frame ", i, d));
            const bool same = l[i]->data == want[i]->l.data && rr[i]->data == want[i]->r.data && li[i]->K[0] == want[i]->li.K[0] && ri[i]->K[0] == want[i]->ri.K[0] && l[i]->header.frame_id == "left" &&
                              rr[i]->header.frame_id == "right" && l[i]->encoding == "mono8" && li[i]->header.frame_id == "left" && ri[i]->header.frame_id == "right" && l[i]->width == 3 && rr[i]->height == 2;
            vr::check(same, "stereo-content", cat("frame ", i, d));
            vr::event(w.only_graph ? "graph_stereo_frames_compared" : "stereo_frames_compared");
        }
    }
    // pressure
    if (w.baro) {
        auto b = vros::received<sensor_msgs::FluidPressure>(BARO);
        if (vr::check((int)b.size() == n, "one-pressure-per-state", cat(b.size(), " for ", n, d))) {
            for (int k = 0; k < n; ++k) {
                vr::check(b[k]->header.stamp == T(w.state[k]), "pressure-stamp", cat("state ", k, d));
                double p, v;
                auto var = [&](const sensor_msgs::FluidPressure& x) { return w.overwrite_baro ? w.baro_noise * w.baro_noise : x.variance; };
                if (w.pressure[0].header.stamp > T(w.state[k])) {
                    p = w.pressure[0].fluid_pressure, v = var(w.pressure[0]);
                    vr::event("states_before_barometer_data");
                } else {
                    std::size_t i = 0;
                    while (w.pressure[i + 1].header.stamp < T(w.state[k])) ++i;
                    const auto &x = w.pressure[i], &y = w.pressure[i + 1];
                    const double f = (double)(w.state[k] - x.header.stamp.toNSec()) / (double)(y.header.stamp.toNSec() - x.header.stamp.toNSec());
                    p = x.fluid_pressure + f * (y.fluid_pressure - x.fluid_pressure);
                    v = var(x) + f * (var(y) - var(x));
                }
                vr::check(std::abs(b[k]->fluid_pressure - p) < 1e-3 && std::abs(b[k]->variance - v) < 1e-6, "pressure-at-state", cat("state ", k, ": ", b[k]->fluid_pressure, " expected ", p, d));
                vr::event("pressures_compared");
            }
        }
    }
    // output pose and transform of base_link
    auto po = vros::received<geometry_msgs::PoseWithCovarianceStamped>(POSE);
    std::vector<geometry_msgs::TransformStamped> tf;
    for (const auto& m : vros::received<tf2_msgs::TFMessage>("/tf")) for (const auto& t : m->transforms) if (t.header.frame_id == "the_map") tf.push_back(t);
    if (vr::check(po.size() == states.size() && tf.size() == states.size(), "one-output-pose-per-state", cat(po.size(), " poses ", tf.size(), " transforms ", states.size(), " states", d))) {
        for (std::size_t k = 0; k < states.size(); ++k) {
            const Iso want = e(states[k].nav.pose()) * w.b_base;
            vr::check(nc::apart(nc::from(po[k]->pose.pose), want) < 1e-6, "output-pose", cat("state ", k, d));
            vr::check(nc::apart(nc::from(tf[k].transform), want) < 1e-6 && tf[k].child_frame_id == "base_id", "output-transform", cat("state ", k, d));
            vr::check(po[k]->header.stamp == T(w.state[k]) && po[k]->header.frame_id == "the_map" && tf[k].header.stamp == T(w.state[k]), "output-stamp", cat("state ", k, d));
            const Iso inv = w.b_base.inverse();
            const V3 t = inv.translation();
            Eigen::Matrix3d sk;
            sk << 0, -t.z(), t.y(), t.z(), 0, -t.x(), -t.y(), t.x(), 0;
            M6 ad = M6::Zero();
            ad.block<3, 3>(0, 0) = ad.block<3, 3>(3, 3) = inv.linear();
            ad.block<3, 3>(3, 0) = sk * inv.linear();
            const M6 c = ad * states[k].cov * ad.transpose();
            double err = 0;
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) err = std::max(err, std::abs(po[k]->pose.covariance[i * 6 + j] - c((i + 3) % 6, (j + 3) % 6)));
            vr::check(err < 1e-8, "output-covariance", cat("state ", k, " off by ", err, d));
            vr::event(w.own_body ? "base_link_poses_compared" : "body_poses_compared");
        }
    }
    // IMU-rate odometry: every measurement after the first optimised state gives one prediction from the state in force
    auto od = vros::received<nav_msgs::Odometry>(ODOM);
    std::size_t i = 0;
    int latest = 0;
    for (const auto& o : od) {
        while (i < w.imu.size() && T(w.imu[i].header.stamp.toNSec()) < o->header.stamp) {
            // skipped measurement: only allowed if no state was known when it was processed
            vr::check(o == od.front() && imu_sent[i] < states[0].done, "imu-measurement-without-odometry", cat("measurement ", i, d));
            ++i;
        }
        if (!vr::check(i < w.imu.size() && w.imu[i].header.stamp == o->header.stamp, "odometry-stamp", d)) break;
        const auto& m = w.imu[i];
        int least = latest;
        for (std::size_t k = 0; k < states.size(); ++k) if (states[k].done <= imu_sent[i]) least = std::max(least, (int)k);
        double best = 1e9, bestv = 0, bestw = 0;
        int who = -1;
        for (int k = least; k < (int)states.size() && w.state[k] < m.header.stamp.toNSec(); ++k) {
            gtsam::PreintegratedCombinedMeasurements p(params_of(w), states[k].b);
            ns_t last = w.state[k];
            for (std::size_t j = 0; j <= i; ++j) {
                const ns_t t = w.imu[j].header.stamp.toNSec();
                if (t <= last) continue;
                p.integrateMeasurement(acc(w.imu[j]), gyr(w.imu[j]), (double)(t - last) * 1e-9);
                last = t;
            }
            const auto s = p.predict(states[k].nav, states[k].b);
            const double err = nc::apart(nc::from(o->pose.pose), e(s.pose()));
            if (err < best) {
                best = err; who = k;
                bestv = (s.velocity() - V3(o->twist.twist.linear.x, o->twist.twist.linear.y, o->twist.twist.linear.z)).norm();
                bestw = (w.b_imu.linear() * (gyr(m) - states[k].b.gyroscope()) - V3(o->twist.twist.angular.x, o->twist.twist.angular.y, o->twist.twist.angular.z)).norm();
            }
        }
        vr::maximum("odometry_error", best);
        if (!vr::check(best < 1e-5, "imu-rate-odometry", cat("measurement ", i, " not predicted from state ", least, " or later (closest off by ", best, ")", d))) break;
        vr::check(bestv < 1e-5, "imu-rate-velocity", cat("off by ", bestv, d));
        vr::check(bestw < 1e-6, "imu-rate-angular-velocity", cat("off by ", bestw, d));
        vr::check(o->header.frame_id == "the_map" && o->child_frame_id == (w.own_body ? "core_id" : "base_id"), "odometry-frames", d);
        latest = who;
        vr::event("odometries_compared");
        ++i;
    }
    for (; i < w.imu.size(); ++i) vr::check(imu_sent[i] < states[0].done, "imu-measurement-without-odometry", cat("measurement ", i, d));
}

static void mission(Rng& r) {
    vros::reset();
    World w;
    configure(r, w);
    const int n = r.integer(2, 6);
    make_world(r, w, n);
    jitter(r);
    auto* node = new serpent::Frontend();
    auto* spin = new vros::Spinner(r.integer(3, 6));
    std::atomic<bool> abort{false};
    std::vector<std::uint64_t> imu_sent(w.imu.size(), 0);
    std::vector<Frame> frames;
    for (auto t : w.stereo_t) frames.push_back(Frame{image(r, t, "left"), image(r, t, "right"), info(r, t, "left"), info(r, t, "right")});
    std::vector<State> states;
    for (int k = 0; k + 1 < n; ++k) states.push_back(estimate(r, w, k));
    static const int speeds[] = {0, 30, 150, 400};
    const int si = speeds[r.integer(0, 3)], ss = speeds[r.integer(0, 3)] * 8, sb = speeds[r.integer(0, 3)] * 8, sd = speeds[r.integer(0, 3)] * 10;
    // at least the measurement before the first state is there before the clouds come
    std::size_t head = 0;
    while (head < w.imu.size() && w.imu[head].header.stamp.toNSec() <= w.clouds[0].header.stamp * 1000) { vros::send("/serpent/input/imu", w.imu[head]); imu_sent[head] = seq_now(); ++head; }
    nc::poll([&] { return drained("/serpent/input/imu"); });
    Rng ri(r.next()), rs(r.next()), rb(r.next());
    std::thread ti([&] {
        for (std::size_t i = head; i < w.imu.size() && !abort; ++i) { imu_sent[i] = seq_now(); vros::send("/serpent/input/imu", w.imu[i]); pause(ri, si); }
    });
    std::thread ts([&] {
        for (std::size_t i = 0; i < frames.size() && !abort; ++i) {
            int order[4] = {0, 1, 2, 3};
            for (int a = 3; a > 0; --a) std::swap(order[a], order[rs.integer(0, a)]);
            for (int a : order) {
                if (a == 0) vros::send("/serpent/input/stereo/left/image", frames[i].l);
                if (a == 1) vros::send("/serpent/input/stereo/right/image", frames[i].r);
                if (a == 2) vros::send("/serpent/input/stereo/left/camera_info", frames[i].li);
                if (a == 3) vros::send("/serpent/input/stereo/right/camera_info", frames[i].ri);
            }
            nc::poll([&] {
                for (const char* t : {"left/image", "right/image", "left/camera_info", "right/camera_info"}) if (!drained(std::string("/serpent/input/stereo/") + t)) return abort.load();
                return true;
            });
            pause(rs, ss);
        }
    });
    std::thread tb([&] {
        for (std::size_t i = 0; i < w.pressure.size() && !abort; ++i) {
            vros::send("/serpent/input/barometer", w.pressure[i]);
            nc::poll([&] { return drained("/serpent/input/barometer") || abort; });
            pause(rb, sb);
        }
    });
    std::string stuck;
    auto until = [&](auto f, const std::string& what) {
        if (!stuck.empty()) return false;
        if (nc::poll([&] { return f() || !spin->exceptions().empty(); }, 40000) && spin->exceptions().empty()) return true;
        stuck = what;
        return false;
    };
    // clouds, and the back end answering with a state once its measurements are published
    vros::send("/serpent/formatter/formatted_pointcloud", w.clouds[0]);
    int ahead = 0;  // the sensor does not wait for the back end: the cloud that was sent before its turn
    for (int k = 0; k + 1 < n && stuck.empty(); ++k) {
        until([&] { return ahead == k + 1 || drained("/serpent/formatter/formatted_pointcloud"); }, cat("cloud ", k, " not accepted"));
        if (ahead != k + 1) vros::send("/serpent/formatter/formatted_pointcloud", w.clouds[k + 1]);
        if (k == 0) until([&] { return nc::count<nav_msgs::Odometry>(INIT) >= 1; }, "no initial odometry");
        else until([&] { return (int)nc::count<sensor_msgs::PointCloud2>(CLOUD) >= k + 1 && (int)nc::count<serpent::ImuArray>(S2S) >= k; }, cat("no cloud for state ", k));
        if (!stuck.empty()) break;
        if (k && k + 2 < n && r.chance(0.5)) {
            vros::send("/serpent/formatter/formatted_pointcloud", w.clouds[k + 2]);
            ahead = k + 2;
            vr::event("clouds_before_the_state");
            if (r.chance(0.5)) pause(r, 300);
            else pause(r, sd);
        } else {
            pause(r, sd);
        }
        states[k].sent = seq_now();
        if (r.chance(0.5)) vros::send("/serpent/optimisation/odometry", states[k].odom), vros::send("/serpent/optimisation/imu_biases", states[k].bias);
        else vros::send("/serpent/optimisation/imu_biases", states[k].bias), vros::send("/serpent/optimisation/odometry", states[k].odom);
        until([&] { return drained("/serpent/optimisation/odometry") && drained("/serpent/optimisation/imu_biases"); }, cat("state ", k, " not accepted"));
        states[k].done = seq_now();
        if (k == 0) until([&] { return nc::count<sensor_msgs::PointCloud2>(CLOUD) >= 1; }, "no cloud for the initial state");
    }
    if (!stuck.empty()) abort = true;
    ti.join(); ts.join(); tb.join();
    const auto ex = spin->exceptions();
    for (const auto& x : ex) vr::check(false, "exception", x + w.d);
    if (ex.empty() && !stuck.empty()) vr::check(false, "stalled", stuck + w.d);
    const bool idle = stuck.empty() && spin->wait_idle(30000);
    if (stuck.empty()) vr::check(idle, "stalled", "callbacks still waiting after everything was delivered" + w.d);
    if (idle && ex.empty()) {
        compare(r, w, states, frames, imu_sent);
        vr::event("missions_completed");
        vr::observe_state("configurations", w.stereo + 2 * w.baro + 4 * w.only_graph + 8 * w.own_body + 16 * w.mdc_r + 32 * w.mdc_t + 64 * w.times);
    }
    ros::shutdown();
    if (spin->wait_idle(15000)) { delete spin; delete node; }
    ros::vr_sleep_hook() = nullptr;
    for (const auto& x : vros::Bus::get().errors) vr::check(false, "transport", x);
    vr::check(vros::Bus::get().dropped == 0, "harness-dropped", "");
    vr::nontrivial(r.next());
}

static void stopping(Rng& r) {
    vros::reset();
    World w;
    configure(r, w);
    make_world(r, w, 3);
    jitter(r);
    auto* node = new serpent::Frontend();
    auto* spin = new vros::Spinner(4);
    const bool imu = r.chance(0.7), st = r.chance(0.5), od = imu && r.chance(0.5);
    if (imu) for (auto& m : w.imu) vros::send("/serpent/input/imu", m);
    auto stereo = [&] {
        for (std::size_t i = 0; i < w.stereo_t.size() && i < 5; ++i) {
            vros::send("/serpent/input/stereo/left/image", image(r, w.stereo_t[i], "left"));
            vros::send("/serpent/input/stereo/right/image", image(r, w.stereo_t[i], "right"));
            vros::send("/serpent/input/stereo/left/camera_info", info(r, w.stereo_t[i], "left"));
            vros::send("/serpent/input/stereo/right/camera_info", info(r, w.stereo_t[i], "right"));
        }
    };
    if (st) stereo();
    nc::poll([&] { return drained("/serpent/input/imu"); });
    vros::send("/serpent/formatter/formatted_pointcloud", w.clouds[0]);
    nc::poll([&] { return drained("/serpent/formatter/formatted_pointcloud"); });
    vros::send("/serpent/formatter/formatted_pointcloud", w.clouds[1]);
    if (od && !w.stereo) {
        const State s = estimate(r, w, 0);
        vros::send("/serpent/optimisation/imu_biases", s.bias);
        vros::send("/serpent/optimisation/odometry", s.odom);
    }
    pause(r, 3000);
    ros::shutdown();
    if (r.chance(0.7)) { stereo(); if (w.baro) vros::send("/serpent/input/barometer", w.pressure[0]); if (!imu) vros::send("/serpent/input/imu", w.imu.back()); vr::event("messages_during_shutdown"); }
    const bool idle = spin->wait_idle(15000);
    vr::event(w.stereo ? "shutdowns_stereo" : "shutdowns");
    if (!vr::check(idle, "shutdown-hangs", "callbacks did not return after shutdown" + w.d)) return;
    for (const auto& x : spin->exceptions()) vr::check(false, "shutdown-exception", x + w.d);
    delete spin;
    delete node;
    ros::vr_sleep_hook() = nullptr;
    vr::nontrivial(r.next());
}

static void refuse(Rng& r) {
    vros::reset();
    World w;
    configure(r, w);
    make_world(r, w, 3);
    const int kind = r.integer(0, 3);
    auto construct = [&](const char* what) {
        vr::expect_throw([&] { serpent::Frontend o; }, "misconfiguration-accepted", what);
        vr::event("misconfigurations");
    };
    if (kind == 0) {
        XmlRpc::XmlRpcValue all, body, fs;
        fs["imu"] = nc::frame_param(w.b_imu, "imu_id");
        fs["lidar"] = nc::frame_param(w.b_lidar, "lidar_id");
        body["frames"] = fs;
        all["core"] = body;
        vros::set_param("serpent/body_frames", all);
        construct("no base_link");
    } else if (kind == 1) {
        vros::set_param("serpent/optimisation/factors/stereo", true);
        vros::set_param(r.chance(0.5) ? "serpent/mdc/rotation" : "serpent/mdc/translation", false);
        construct("stereo without motion distortion correction");
    } else if (kind == 2) {
        vros::set_param("serpent/barometer/noise/overwrite", true);
        vros::set_param("serpent/barometer/noise/barometer", 0.0);
        construct("zero barometer noise");
    } else {
        serpent::Frontend node;
        vr::check(node.output_pointcloud_topic() == CLOUD, "cloud-topic", node.output_pointcloud_topic());
        Cloud c = w.clouds[0];
        c.data.clear();
        c.width = c.row_step = 0;
        vros::send("/serpent/formatter/formatted_pointcloud", c);
        vr::expect_throw([&] { vros::spin_all(); }, "empty-cloud-accepted", w.d);
        vr::event("empty_clouds");
    }
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"mission", mission}, {"shutdown", stopping}, {"refuse", refuse}}); }
