// C30: the assembled node follows a known motion through a known room.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>
#include <pcl/point_types.h>
#include <vr_config.hpp>

#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/FluidPressure.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/Imu.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_srvs/Empty.h>
#include <tf2_msgs/TFMessage.h>
#include <serpent/PoseGraph.h>
#include "node_common.hpp"
#include "vr.hpp"

using nc::Iso;
using nc::T;
using vr::cat;
using vr::Rng;
typedef Eigen::Vector3d V3;
int serpent_node_main(int argc, char** argv);

static const std::uint64_t T0 = 100000000000ULL;
static const double SWEEP = 0.08;

struct World {
    V3 half;                 // the room
    std::vector<V3> points;  // on its walls
    Iso start;
    V3 velocity, swing, spin, phase;
    double gravity = 9.81;
    bool rest;
    Iso imu, lidar, stereo;  // in the body frame
    bool ned = true;
    double fx = 90, baseline = 0.25;
    int rows = 72, cols = 96;
    std::uint32_t texture = 1;

    double u(double s, double w) const { const double x = std::max(0.0, s - 0.12); return x - std::sin(w * x) / w; }
    Iso body(double s) const {
        const V3 d(swing[0] * u(s, 3.1), swing[1] * u(s, 2.3), swing[2] * u(s, 4.0));
        const V3 r(spin[0] * u(s, 2.7), spin[1] * u(s, 3.3), spin[2] * u(s, 2.1));
        Iso m = start;
        m.translation() += d + velocity * s;
        m.linear() = start.linear() * nc::rot(r).toRotationMatrix();
        return m;
    }
    V3 body_velocity(double s) const { const double h = 1e-5; return (body(s + h).translation() - body(s - h).translation()) / (2 * h); }
    sensor_msgs::Imu measure(std::uint64_t ns) const {
        const double s = 1e-9 * (static_cast<double>(ns) - static_cast<double>(T0)), h = 2e-4;
        auto at = [&](double x) { return Iso(body(x) * imu); };
        const Iso m = at(s), a = at(s + h), b = at(s - h);
        const V3 acc = (a.translation() - 2 * m.translation() + b.translation()) / (h * h);
        const V3 f = m.linear().transpose() * (acc + V3(0, 0, gravity));
        const Eigen::AngleAxisd dr(Eigen::Matrix3d(b.linear().transpose() * a.linear()));
        const V3 w = dr.axis() * dr.angle() / (2 * h);
        Eigen::Quaterniond q(m.linear());
        if (ned) q = Eigen::Quaterniond(Eigen::AngleAxisd(M_PI, V3::UnitX())) * q;
        sensor_msgs::Imu o;
        o.header.stamp = T(ns); o.header.frame_id = "imu";
        o.linear_acceleration.x = f[0]; o.linear_acceleration.y = f[1]; o.linear_acceleration.z = f[2];
        o.angular_velocity.x = w[0]; o.angular_velocity.y = w[1]; o.angular_velocity.z = w[2];
        o.orientation.w = q.w(); o.orientation.x = q.x(); o.orientation.y = q.y(); o.orientation.z = q.z();
        for (int i = 0; i < 3; ++i) { o.linear_acceleration_covariance[4 * i] = 1e-4; o.angular_velocity_covariance[4 * i] = 1e-6; o.orientation_covariance[4 * i] = 1e-4; }
        return o;
    }
    // brightness of the wall at a point
    double bright(int wall, double a, double b) const {
        auto cell = [&](int i, int j) {
            std::uint32_t x = texture + 7919u * wall + 104729u * static_cast<std::uint32_t>(i + 5000) + 1299709u * static_cast<std::uint32_t>(j + 5000);
            x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16;
            return static_cast<double>(x & 255);
        };
        a *= 2.5; b *= 2.5;
        const double i = std::floor(a), j = std::floor(b), x = a - i, y = b - j;
        const int I = static_cast<int>(i), J = static_cast<int>(j);
        return (1 - x) * (1 - y) * cell(I, J) + x * (1 - y) * cell(I + 1, J) + (1 - x) * y * cell(I, J + 1) + x * y * cell(I + 1, J + 1);
    }
    sensor_msgs::Image view(std::uint64_t ns, bool right) const {
        const double s = 1e-9 * (static_cast<double>(ns) - static_cast<double>(T0));
        const Iso cam = body(s) * stereo * (right ? Iso(Eigen::Translation3d(baseline, 0, 0)) : Iso::Identity());
        sensor_msgs::Image m;
        m.header.stamp = T(ns); m.header.frame_id = right ? "right" : "left";
        m.encoding = "mono8"; m.width = cols; m.height = rows; m.step = cols;
        m.data.resize(static_cast<std::size_t>(rows) * cols);
        for (int v = 0; v < rows; ++v)
            for (int x = 0; x < cols; ++x) {
                const V3 d = cam.linear() * V3((x - cols / 2) / fx, (v - rows / 2) / fx, 1);
                double best = 1e9;
                int wall = 0;
                for (int k = 0; k < 3; ++k) {
                    if (std::abs(d[k]) < 1e-12) continue;
                    const double l = ((d[k] > 0 ? half[k] : -half[k]) - cam.translation()[k]) / d[k];
                    if (l < best) { best = l; wall = 2 * k + (d[k] > 0); }
                }
                const V3 p = cam.translation() + best * d;
                m.data[static_cast<std::size_t>(v) * cols + x] = static_cast<unsigned char>(bright(wall, p[(wall / 2 + 1) % 3], p[(wall / 2 + 2) % 3]));
            }
        return m;
    }
    sensor_msgs::CameraInfo info(std::uint64_t ns, bool right) const {
        sensor_msgs::CameraInfo i;
        i.header.stamp = T(ns); i.header.frame_id = right ? "right" : "left";
        i.width = cols; i.height = rows;
        i.K[0] = i.K[4] = fx; i.K[2] = cols / 2; i.K[5] = rows / 2; i.K[8] = 1;
        i.P[0] = i.P[5] = fx; i.P[2] = cols / 2; i.P[6] = rows / 2; i.P[10] = 1; i.P[3] = right ? -fx * baseline : 0;
        i.R[0] = i.R[4] = i.R[8] = 1;
        i.D.assign(5, 0.0);
        i.distortion_model = "plumb_bob";
        return i;
    }
    sensor_msgs::FluidPressure pressure(std::uint64_t ns, double ground) const {
        const double s = 1e-9 * (static_cast<double>(ns) - static_cast<double>(T0)), h = body(s).translation().z() + ground;
        sensor_msgs::FluidPressure p;
        p.header.stamp = T(ns); p.header.frame_id = "barometer";
        p.fluid_pressure = 1000 * 101.29 * std::pow((-0.00649 * h + 15.04 + 273.1) / 288.08, 5.256);
        p.variance = 1e-4;
        return p;
    }
    // ouster: as the driver publishes; otherwise x y z t
    sensor_msgs::PointCloud2 scan(Rng& g, std::uint64_t ns, bool ouster, bool named_time) const {
        static const std::vector<std::tuple<const char*, int, int>> OUSTER = {{"x", 7, 0}, {"y", 7, 4}, {"z", 7, 8}, {"intensity", 7, 16}, {"t", 6, 20}, {"reflectivity", 4, 24}, {"ring", 2, 26}, {"ambient", 4, 28}, {"range", 6, 32}};
        sensor_msgs::PointCloud2 c;
        c.header.stamp = T(ns); c.header.frame_id = "sensor";
        c.height = 1; c.width = static_cast<std::uint32_t>(points.size());
        c.point_step = ouster ? 48 : 16; c.row_step = c.point_step * c.width;
        auto field = [&](const std::string& n, int t, int o) { sensor_msgs::PointField f; f.name = n; f.datatype = t; f.count = 1; f.offset = o; c.fields.push_back(f); };
        if (ouster) for (auto& f : OUSTER) field(std::get<0>(f), std::get<1>(f), std::get<2>(f));
        else { field("x", 7, 0); field("y", 7, 4); field("z", 7, 8); field(named_time ? "time" : "t", 7, 12); }
        c.data.assign(c.row_step, 0);
        std::vector<int> order(points.size());
        for (std::size_t i = 0; i < order.size(); ++i) order[i] = static_cast<int>(i);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.integer(0, static_cast<int>(i) - 1)]);
        for (std::size_t i = 0; i < order.size(); ++i) {
            const double dt = i + 1 == order.size() ? SWEEP : SWEEP * static_cast<double>(i) / static_cast<double>(order.size());
            const std::uint32_t off = static_cast<std::uint32_t>(dt * 1e9);
            const double s = 1e-9 * (static_cast<double>(ns) - static_cast<double>(T0) + off);
            const V3 p = (body(s) * lidar).inverse() * points[order[i]];
            unsigned char* b = &c.data[i * c.point_step];
            for (int k = 0; k < 3; ++k) { const float f = static_cast<float>(p[k]); std::memcpy(b + 4 * k, &f, 4); }
            if (ouster) {
                const std::uint32_t r = static_cast<std::uint32_t>(p.norm() * 1000);
                std::memcpy(b + 20, &off, 4); std::memcpy(b + 32, &r, 4);
            } else { const float f = static_cast<float>(1e-9 * off); std::memcpy(b + 12, &f, 4); }
        }
        c.is_dense = true;
        return c;
    }
};

static World world(Rng& g, bool shipped) {
    World w;
    w.half = V3(g.uniform(3.5, 5), g.uniform(3, 4.5), g.uniform(2, 2.8));
    w.texture = static_cast<std::uint32_t>(g.next());
    for (int tries = 0; tries < 6000 && w.points.size() < 450; ++tries) {
        const int wall = g.integer(0, 5);
        V3 p(g.uniform(-1, 1) * w.half[0], g.uniform(-1, 1) * w.half[1], g.uniform(-1, 1) * w.half[2]);
        p[wall / 2] = wall % 2 ? w.half[wall / 2] : -w.half[wall / 2];
        bool ok = true;
        for (auto& q : w.points) ok = ok && (p - q).norm() > 0.3;
        if (ok) w.points.push_back(p);
    }
    w.start = nc::iso(nc::rot(V3(g.uniform(-0.3, 0.3), g.uniform(-0.3, 0.3), g.uniform(-3, 3))), V3(g.uniform(-0.8, 0.8), g.uniform(-0.8, 0.8), g.uniform(-0.4, 0.4)));
    w.velocity = V3::Zero();
    for (int i = 0; i < 3; ++i) { w.swing[i] = g.uniform(-0.7, 0.7); w.spin[i] = g.uniform(-0.4, 0.4); }
    w.imu = w.lidar = w.stereo = Iso::Identity();
    if (!shipped) {
        w.imu = nc::random_iso(g, 1.0, 0.2);
        w.lidar = nc::random_iso(g, 1.0, 0.4);
        w.stereo = nc::random_iso(g, 1.0, 0.3);
    }
    return w;
}

static void run(Rng& g, bool shipped) {
    vros::reset();
    World w = world(g, shipped);
    vr_config::load();
    struct { void operator()(const std::string& n, std::int64_t v) const { vros::set_param("/serpent/" + n, static_cast<int>(v)); }
             void operator()(const std::string& n, bool v) const { vros::set_param("/serpent/" + n, v); }
             void operator()(const std::string& n, double v) const { vros::set_param("/serpent/" + n, v); }
             void operator()(const std::string& n, const std::string& v) const { vros::set_param("/serpent/" + n, v); } } set;
    bool stereo = true, baro = true, ouster = true;
    std::string name;
    if (!shipped) {
        nc::body_frames("serpent", {{"imu", w.imu}, {"lidar", w.lidar}, {"stereo", w.stereo}});
        stereo = g.chance(0.4); baro = g.chance(0.4); ouster = g.chance(0.5); w.ned = g.chance(0.5);
        set("optimisation/factors/stereo", stereo); set("optimisation/factors/barometer", baro);
        set("pointcloud_type", std::string(ouster ? "OUSTER" : "CUSTOM"));
        set("imu/reference_frame", std::string(w.ned ? "NED" : "NWU"));
        set("map_frame_id", std::string("world"));
        if (!stereo && g.chance(0.7)) w.velocity = V3(g.uniform(-0.5, 0.5), g.uniform(-0.5, 0.5), g.uniform(-0.2, 0.2));
        if (g.chance(0.5)) { w.gravity = g.uniform(1.5, 12); set("gravity", w.gravity); }
        const std::string reg = g.pick(std::vector<std::string>{"icp", "fast_gicp", "fast_vgicp"});
        set("s2s/method", reg); set("s2m/method", reg);
        const bool s2m = g.chance(0.6), unit = g.chance(0.4), voxel = g.chance(0.5), marg = g.chance(0.3);
        set("s2m/enabled", s2m);
        const std::string cov = unit ? "CENSI" : g.pick(std::vector<std::string>{"CONSTANT", "CENSI", "LLS"});
        set("registration_covariance/method", cov);
        set("registration_covariance/point_covariance/method", std::string(unit ? (g.chance(0.5) ? "RANGE" : "RANGE_BIAS") : "CONSTANT"));
        set("voxel_grid_filter/enabled", voxel);
        if (g.chance(0.3) || !ouster) set("range_filter/enabled", false);
        if (g.chance(0.3)) { set("body_filter/enabled", true); for (const char* a : {"x", "y", "z"}) { set(cat("body_filter/min/", a), -0.2); set(cat("body_filter/max/", a), 0.2); } }
        set("optimisation/marginalisation/enabled", marg && !stereo);
        set("optimisation/marginalisation/window_size", g.integer(3, 5));
        set("isam2/optimization", std::string(g.chance(0.3) ? "Dogleg" : "GaussNewton"));
        set("threads", g.integer(4, 8));
        name = cat(reg, s2m ? " s2m " : " ", cov, unit ? " unit" : "", voxel ? " voxel" : "", stereo ? " stereo" : "", baro ? " baro" : "", marg && !stereo ? " window" : "", w.ned ? " NED" : " NWU");
    } else name = "shipped configuration";
    // far points have no usable disparity in so small a picture
    set("stereo_tracking/stereo_distance_filter/enabled", true); set("stereo_tracking/stereo_distance_filter/min_distance", 0.5); set("stereo_tracking/stereo_distance_filter/max_distance", 15.0);
    const int n = g.integer(3, 6);
    // state times
    std::vector<std::uint64_t> clouds, frames;
    for (int k = 0; k < n; ++k) clouds.push_back(T0 + 100000000ULL * k + 1000ULL * g.integer(0, 2000));
    const std::uint64_t end = clouds.back() + 90000000ULL;
    if (stereo) for (std::uint64_t t = T0 + 1000ULL * g.integer(0, 20000); t < end; t += 50000000ULL + 1000ULL * g.integer(0, 900)) frames.push_back(t);
    std::vector<std::uint64_t> states;
    for (int k = 0; k + 1 < n; ++k) {
        std::uint64_t t = clouds[k];
        for (auto f : frames) if (f >= clouds[k]) { if (f < clouds[k + 1]) t = f; break; }
        states.push_back(t);
    }
    const V3 p0 = w.body(1e-9 * (states[0] - T0)).translation(), v0 = w.body_velocity(1e-9 * (states[0] - T0));
    const char* AX[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) { set(cat("pose/position/", AX[i]), static_cast<double>(p0[i])); set(cat("velocity/linear/", AX[i]), static_cast<double>(v0[i])); }
    // everything the sensors send, in order
    struct Event { std::uint64_t at; int kind; std::uint64_t stamp; };
    std::vector<Event> events;
    for (std::uint64_t t = T0 - 30000000ULL + 1000ULL * g.integer(0, 4000); t < end; t += 5000000ULL) events.push_back({t, 0, t});
    for (auto t : clouds) events.push_back({t + 81000000ULL, 1, t});
    for (auto t : frames) events.push_back({t + 4000000ULL, 2, t});
    if (baro) for (std::uint64_t t = T0 - 20000000ULL + 1000ULL * g.integer(0, 9000); t < end; t += 25000000ULL) events.push_back({t, 3, t});
    std::stable_sort(events.begin(), events.end(), [](const Event& a, const Event& b) { return a.at < b.at; });
    const double ground = g.uniform(0, 300);
    const bool named = g.chance(0.5);
    bool stuck = false, ran = false;
    std::vector<std::string> errors;
    int threads = 0;
    bool served = false;
    const std::string map_id = shipped ? "map" : "world";
    ros::vr_on_wait() = [&](int count) {
        ran = true;
        threads = count;
        vros::Spinner spin(count);
        int sent = 0;
        // Nothing is under way except what may go on waiting: registration against the map for the next cloud,
        // pressures and stereo features for the state after them.
        auto settle = [&] {
            int quiet = 0;
            return nc::poll([&] {
                std::lock_guard<std::mutex> l(vros::Bus::get().m);
                bool busy = false;
                for (auto& t : vros::Bus::get().subs)
                    for (auto& q : t.second)
                        busy = busy || (t.first.find("local_map") == std::string::npos && t.first.find("barometer") == std::string::npos && t.first.find("stereo") == std::string::npos && (q->busy || !q->queue.empty()));
                quiet = busy ? 0 : quiet + 1;
                return quiet > 20 || !spin.exceptions().empty();
            }, 60000);
        };
        for (auto& e : events) {
            ros::Time::vr_now() = e.at;
            if (e.kind == 0) vros::send("/serpent/input/imu", w.measure(e.stamp));
            else if (e.kind == 3) vros::send("/serpent/input/barometer", w.pressure(e.stamp, ground));
            else if (e.kind == 2) {
                vros::send("/serpent/input/stereo/left/image", w.view(e.stamp, false)); vros::send("/serpent/input/stereo/right/image", w.view(e.stamp, true));
                vros::send("/serpent/input/stereo/left/camera_info", w.info(e.stamp, false)); vros::send("/serpent/input/stereo/right/camera_info", w.info(e.stamp, true));
            } else {
                vros::send("/serpent/input/pointcloud", w.scan(g, e.stamp, ouster, named));
                // the state of the cloud before this one is due now; a real sensor leaves time for it
                if (!sent && !settle()) { stuck = true; break; }
                if (sent++ && !nc::poll([&] { return vros::received<nav_msgs::Odometry>("/serpent/optimisation/odometry").size() >= static_cast<std::size_t>(sent - 1) || !spin.exceptions().empty(); }, 60000)) { stuck = true; break; }
            }
        }
        if (!stuck) stuck = !settle() && spin.exceptions().empty();
        if (!stuck && spin.exceptions().empty()) {
            std_srvs::Empty s;
            served = vros::call("/serpent/publish_map", s) && vros::call("/serpent/publish_pose_graph", s);
        }
        // callbacks may wait for the next cloud
        ros::shutdown();
        stuck = !spin.wait_idle(60000) || stuck;
        errors = spin.exceptions();
    };
    int code = -1;
    std::string thrown;
    char arg0[] = "serpent";
    char* argv[] = {arg0, nullptr};
    try { code = serpent_node_main(1, argv); } catch (const std::exception& e) { thrown = e.what(); }
    ros::vr_on_wait() = nullptr;
    const std::string d = cat(name, " ", n, " clouds ", threads, " threads");
    if (!vr::check(thrown.empty() && ran && code == 0, "system-start", cat(d, ": ", thrown))) return;
    if (!vr::check(errors.empty(), "system-error", cat(d, ": ", errors.empty() ? "" : errors[0]))) return;
    if (!vr::check(!stuck, "system-stuck", d)) return;
    auto truth = [&](const ros::Time& t) { return w.body(1e-9 * (static_cast<double>(t.toNSec()) - static_cast<double>(T0))); };
    const double scale = stereo ? 1.5 : 1;
    // one optimised state per cloud, in order, near the truth
    const auto odom = vros::received<nav_msgs::Odometry>("/serpent/optimisation/odometry");
    if (!vr::check(odom.size() == states.size(), "system-states", cat(d, ": ", odom.size(), " of ", states.size()))) return;
    for (std::size_t k = 0; k < states.size(); ++k) {
        vr::check(odom[k]->header.stamp == T(states[k]) && odom[k]->header.frame_id == map_id && odom[k]->child_frame_id == "base_link", "system-state-header", cat(d, " state ", k));
        const double e = nc::apart(nc::from(odom[k]->pose.pose), truth(odom[k]->header.stamp));
        const auto& l = odom[k]->twist.twist.linear;
        const double ev = (V3(l.x, l.y, l.z) - w.body_velocity(1e-9 * (states[k] - T0))).norm();
        vr::maximum(stereo ? "state_error_stereo" : "state_error", e);
        vr::maximum(stereo ? "velocity_error_stereo" : "velocity_error", ev);
        vr::check(e < 0.08 * scale, "system-state", cat(d, " state ", k, " off by ", e));
        vr::check(ev < 0.25 * scale, "system-velocity", cat(d, " state ", k, " off by ", ev));
        vr::event("states_compared");
    }
    const auto paths = vros::received<nav_msgs::Path>("/serpent/output/path");
    if (vr::check(!paths.empty(), "system-path", d)) {
        const auto& p = *paths.back();
        if (vr::check(p.poses.size() == states.size() && p.header.frame_id == map_id, "system-path-size", cat(d, ": ", p.poses.size(), " of ", states.size())))
            for (std::size_t k = 0; k < states.size(); ++k)
                vr::check(p.poses[k].header.stamp == T(states[k]) && nc::apart(nc::from(p.poses[k].pose), truth(p.poses[k].header.stamp)) < 0.08 * scale, "system-path-pose", cat(d, " state ", k));
    }
    // odometry at the rate of the inertial unit
    ros::Time last;
    for (auto& o : vros::received<nav_msgs::Odometry>("/serpent/output/odometry")) {
        const double e = nc::apart(nc::from(o->pose.pose), truth(o->header.stamp));
        vr::maximum(stereo ? "fast_error_stereo" : "fast_error", e);
        vr::check(o->header.stamp > last && o->header.frame_id == map_id && o->child_frame_id == "base_link", "fast-odometry-header", d);
        vr::check(e < 0.15 * scale, "fast-odometry", cat(d, " off by ", e));
        last = o->header.stamp;
        vr::event("fast_odometry_compared");
    }
    const auto poses = vros::received<geometry_msgs::PoseWithCovarianceStamped>("/serpent/output/pose");
    vr::check(poses.size() == odom.size(), "system-poses", cat(d, ": ", poses.size(), " of ", odom.size()));
    for (std::size_t k = 0; k < std::min(poses.size(), odom.size()); ++k)
        vr::check(poses[k]->header.stamp == odom[k]->header.stamp && nc::apart(nc::from(poses[k]->pose.pose), nc::from(odom[k]->pose.pose)) < 1e-6, "system-pose", cat(d, " state ", k));
    std::size_t body = 0;
    std::map<std::string, Iso> mounted;
    for (const char* topic : {"/tf", "/tf_static"})
        for (const auto& m : vros::received<tf2_msgs::TFMessage>(topic))
            for (const auto& t : m->transforms) {
                if (t.header.frame_id == map_id && t.child_frame_id == "base_link") ++body;
                else if (t.header.frame_id == "base_link") mounted[t.child_frame_id] = nc::from(t.transform);
            }
    vr::check(body == odom.size(), "system-transforms", cat(d, ": ", body, " of ", odom.size()));
    for (auto& f : std::map<std::string, Iso>{{"imu", w.imu}, {"lidar", w.lidar}, {"stereo", w.stereo}})
        vr::check(mounted.count(f.first) && nc::apart(mounted[f.first], f.second) < 1e-6, "system-mounting", cat(d, " ", f.first));
    // the map is the room
    if (vr::check(served, "system-map-service", d)) {
        const auto maps = vros::received<sensor_msgs::PointCloud2>("/serpent/output/global_map");
        if (vr::check(!maps.empty() && maps.back()->header.frame_id == map_id, "system-map", d)) {
            const auto map = vros::Canon<pcl::PointCloud<pcl::PointXYZ>>::from(*maps.back());
            std::vector<double> cover(w.points.size(), 1e9);
            double worst = 0;
            for (auto& p : *map) {
                double best = 1e9;
                for (std::size_t i = 0; i < w.points.size(); ++i) {
                    const double e = (w.points[i] - V3(p.x, p.y, p.z)).norm();
                    best = std::min(best, e);
                    cover[i] = std::min(cover[i], e);
                }
                worst = std::max(worst, best);
            }
            vr::maximum(stereo ? "map_error_stereo" : "map_error", worst);
            vr::check(worst < 0.1 * scale, "system-map-point", cat(d, " off by ", worst));
            const double gap = *std::max_element(cover.begin(), cover.end());
            vr::check(gap < 0.1 * scale, "system-map-gap", cat(d, " a wall point is ", gap, " from the map"));
            vr::event("map_points_compared", map->size());
        }
        const auto graphs = vros::received<serpent::PoseGraph>("/serpent/output/pose_graph");
        if (vr::check(!graphs.empty() && !graphs.back()->clouds.empty() && graphs.back()->clouds.size() == graphs.back()->poses.size(), "system-pose-graph", d))
            for (auto& p : graphs.back()->poses) vr::check(nc::apart(nc::from(p.pose.pose), truth(p.header.stamp) * w.lidar) < 0.08 * scale, "system-pose-graph-pose", d);
    }
    vr::event(stereo ? "missions_with_cameras" : "missions_without_cameras");
    vr::observe_state("system_configurations", vr::hash_str(name));
    vr::nontrivial(g.next());
}
static void mission(Rng& g) { run(g, false); }
static void shipped(Rng& g) { run(g, true); }

int main(int argc, char** argv) {
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    return vr::run(argc, argv, {{"mission", mission}, {"shipped", shipped}});
}
