// C21: the back end turns every synchronised set of measurements into exactly one optimised state.
#include <ros/ros.h>

#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/nonlinear/GaussNewtonOptimizer.h>
#include <gtsam/nonlinear/Marginals.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <serpent/back_end/optimisation.hpp>
#include <serpent/ImuBiases.h>
#include "node_common.hpp"
#include "vr.hpp"

using gtsam::symbol_shorthand::B;
using gtsam::symbol_shorthand::P;
using gtsam::symbol_shorthand::S;
using gtsam::symbol_shorthand::V;
using gtsam::symbol_shorthand::X;
using nc::Iso;
using nc::T;
using vr::Rng;
using vr::cat;
typedef gtsam::imuBias::ConstantBias Bias;
typedef std::uint64_t ns_t;

static const char* ODOM = "/serpent/optimisation/odometry";
static const char* PATH = "/serpent/output/path";
static const char* BIAS = "/serpent/optimisation/imu_biases";
static const char* TF = "/serpent/optimisation/imu_transform";

static gtsam::Pose3 g(const Iso& m) { return gtsam::Pose3(gtsam::Rot3(Eigen::Matrix3d(m.linear())), Eigen::Vector3d(m.translation())); }
static Iso e(const gtsam::Pose3& p) { Iso m = Iso::Identity(); m.linear() = p.rotation().matrix(); m.translation() = p.translation(); return m; }
static Eigen::MatrixXd spd(Rng& r, int n, double s) {
    Eigen::MatrixXd a(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) a(i, j) = r.gauss();
    Eigen::MatrixXd m = a * a.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n);
    return 0.5 * s * s * (m + m.transpose());
}

struct World {
    bool imu, reg, stereo, baro;
    Iso b_imu, b_lidar, b_stereo;
    std::string cam_frame;
    double gravity;
    boost::shared_ptr<gtsam::PreintegrationCombinedParams> params;
    Eigen::Matrix3d acc_cov, gyr_cov;
    double prior_acc, prior_gyr, prior_baro, baro_bias_noise;
    double nlx, nrx, ny;
    boost::shared_ptr<gtsam::Cal3_S2Stereo> K;
    std::vector<ns_t> t;
    std::vector<serpent::ImuArray> arrays;  // arrays[k]: from t[k-1] to t[k]
    std::vector<gtsam::NavState> truth;
    std::map<int, gtsam::Point3> points;
};

static void configure(Rng& r, World& w) {
    w.b_imu = nc::random_iso(r, 0.5, 0.2);
    w.b_lidar = nc::random_iso(r, 0.8, 0.4);
    w.b_stereo = nc::iso(Eigen::Quaterniond(0.5, -0.5, 0.5, -0.5), nc::vec(r, 0.2)) * nc::random_iso(r, 0.1, 0.05);
    w.cam_frame = r.chance(0.5) ? "stereo" : "left_cam";
    nc::body_frames("serpent", {{"imu", w.b_imu}, {"lidar", w.b_lidar}, {w.cam_frame, w.b_stereo}});
    w.gravity = r.chance(0.5) ? 9.81 : r.uniform(1.6, 10);
    if (w.gravity != 9.81 || r.chance(0.5)) vros::set_param("serpent/gravity", w.gravity);
    vros::set_param("serpent/optimisation/factors/imu", w.imu);
    vros::set_param("serpent/optimisation/factors/registration", w.reg);
    vros::set_param("serpent/optimisation/factors/stereo", w.stereo);
    vros::set_param("serpent/optimisation/factors/barometer", w.baro);
    vros::set_param("serpent/map_frame_id", std::string("world"));
    vros::set_param("serpent/stereo_factors/left_cam_frame", w.cam_frame);
    vros::set_param("serpent/isam2/relinearize_threshold", 1e-9);
    vros::set_param("serpent/isam2/relinearize_skip", 1);
    vros::set_param("serpent/isam2/factorization", std::string("QR"));  // Cholesky can fail numerically inside GTSAM
    vros::set_param("serpent/isam2/gauss_newton_params/wildfire_threshold", 0.0);
    vros::set_param("serpent/debug/optimisation/on_crash/print", false);
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(w.gravity);
    auto sig = [&](const char* name, double lo, double hi) {
        const double v = std::pow(10.0, r.uniform(lo, hi));
        vros::set_param(std::string("serpent/") + name, v);
        return v;
    };
    const double in = sig("imu/noise/integration", -3, -2), ib = sig("imu/noise/integration_bias", -4, -3), ab = sig("imu/noise/accelerometer_bias", -3, -2), gb = sig("imu/noise/gyroscope_bias", -4, -3);
    p->setIntegrationCovariance(Eigen::Matrix3d::Identity() * in * in);
    p->setBiasAccOmegaInit(Eigen::Matrix<double, 6, 6>::Identity() * ib * ib);
    p->setBiasAccCovariance(Eigen::Matrix3d::Identity() * ab * ab);
    p->setBiasOmegaCovariance(Eigen::Matrix3d::Identity() * gb * gb);
    p->setBodyPSensor(g(w.b_imu));
    w.acc_cov = spd(r, 3, 0.05);
    w.gyr_cov = spd(r, 3, 0.01);
    p->setAccelerometerCovariance(w.acc_cov);
    p->setGyroscopeCovariance(w.gyr_cov);
    w.params = p;
    w.prior_acc = sig("prior_noise/accelerometer_bias", -3, -2);
    w.prior_gyr = sig("prior_noise/gyroscope_bias", -3, -2);
    w.prior_baro = sig("prior_noise/barometer_bias", -3, -1);
    w.baro_bias_noise = sig("barometer/noise/barometer_bias", -3, -1);
    w.nlx = sig("stereo_factors/noise/left_x", -0.5, 0.5);
    w.nrx = sig("stereo_factors/noise/right_x", -0.5, 0.5);
    w.ny = sig("stereo_factors/noise/y", -0.5, 0.5);
    vros::set_param("serpent/stereo_factors/robust/enabled", false);
}

static gtsam::PreintegratedCombinedMeasurements preintegrate(const World& w, int k, const Bias& b) {
    gtsam::PreintegratedCombinedMeasurements pim(w.params, b);
    const auto& a = w.arrays[k];
    const ns_t s = w.t[k - 1], f = w.t[k];
    for (std::size_t i = 0; i < a.measurements.size(); ++i) {
        const ns_t from = std::max<ns_t>(s, a.measurements[i].header.stamp.toNSec());
        const ns_t to = i + 1 < a.measurements.size() ? std::min<ns_t>(f, a.measurements[i + 1].header.stamp.toNSec()) : f;
        if (to <= from) continue;
        const auto& m = a.measurements[i];
        pim.integrateMeasurement(Eigen::Vector3d(m.linear_acceleration.x, m.linear_acceleration.y, m.linear_acceleration.z),
                Eigen::Vector3d(m.angular_velocity.x, m.angular_velocity.y, m.angular_velocity.z), (to - from) * 1e-9);
    }
    return pim;
}

static void make_world(Rng& r, World& w, int n) {
    w.t.push_back(1600000000000000000ull + r.next() % 1000000000000ull);
    w.arrays.resize(1);
    w.truth.push_back(gtsam::NavState(g(nc::iso(nc::rot(nc::vec(r, 0.4)), Eigen::Vector3d(r.gauss(), r.gauss(), 0.05 * r.gauss()))), nc::vec(r, 0.5)));
    // gravity compensation so that speeds stay moderate
    for (int k = 1; k <= n; ++k) {
        w.t.push_back(w.t[k - 1] + 50000000ull + r.next() % 150000000ull);
        serpent::ImuArray a;
        a.start_timestamp = T(w.t[k - 1]);
        a.end_timestamp = T(w.t[k]);
        ns_t s = w.t[k - 1] - (r.chance(0.3) ? 0 : r.next() % 9000000ull);
        const Eigen::Vector3d up = (Eigen::Matrix3d(w.truth[k - 1].pose().rotation().matrix()) * w.b_imu.linear()).transpose() * Eigen::Vector3d(0, 0, w.gravity);
        const Eigen::Vector3d acc = up + nc::vec(r, 0.5), gyr = nc::vec(r, 0.15);
        int cnt = 0;
        while (s < w.t[k] || cnt < 2) {
            sensor_msgs::Imu m;
            m.header.stamp = T(s);
            m.header.frame_id = "imu";
            m.orientation.w = 1;
            const Eigen::Vector3d ai = acc + nc::vec(r, 0.2), wi = gyr + nc::vec(r, 0.05);
            m.linear_acceleration.x = ai.x(); m.linear_acceleration.y = ai.y(); m.linear_acceleration.z = ai.z();
            m.angular_velocity.x = wi.x(); m.angular_velocity.y = wi.y(); m.angular_velocity.z = wi.z();
            for (int i = 0; i < 9; ++i) {
                m.linear_acceleration_covariance[i] = w.acc_cov(i / 3, i % 3);
                m.angular_velocity_covariance[i] = w.gyr_cov(i / 3, i % 3);
            }
            a.measurements.push_back(m);
            ++cnt;
            s += 5000000ull + r.next() % 10000000ull;
        }
        w.arrays.push_back(a);
        const auto pim = preintegrate(w, k, Bias());
        w.truth.push_back(pim.predict(w.truth[k - 1], Bias()));
    }
    const double fx = r.uniform(350, 700), fy = fx * r.uniform(0.9, 1.1), cx = r.uniform(300, 360), cy = r.uniform(200, 260), bl = r.uniform(0.2, 0.5);
    w.K = boost::make_shared<gtsam::Cal3_S2Stereo>(fx, fy, 0.0, cx, cy, bl);
}

static nav_msgs::Odometry initial(Rng& r, const World& w, Eigen::MatrixXd& pose_cov, Eigen::MatrixXd& vel_cov) {
    nav_msgs::Odometry o;
    o.header.stamp = T(w.t[0]);
    o.header.frame_id = "world";
    o.child_frame_id = "base_link";
    o.pose.pose = nc::to_pose(e(w.truth[0].pose()));
    const auto v = w.truth[0].velocity();
    o.twist.twist.linear.x = v.x(); o.twist.twist.linear.y = v.y(); o.twist.twist.linear.z = v.z();
    pose_cov = spd(r, 6, 0.02);  // (rotation, translation)
    vel_cov = spd(r, 3, 0.05);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) o.pose.covariance[6 * i + j] = pose_cov((i + 3) % 6, (j + 3) % 6);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) o.twist.covariance[6 * i + j] = vel_cov(i, j);
    for (int i = 3; i < 6; ++i) o.twist.covariance[7 * i] = 1.0;
    return o;
}

static gtsam::Values solve(const gtsam::NonlinearFactorGraph& graph, const gtsam::Values& init, int iterations = 12) {
    gtsam::GaussNewtonParams p;
    p.setRelativeErrorTol(0);
    p.setAbsoluteErrorTol(0);
    p.setMaxIterations(iterations);
    return gtsam::GaussNewtonOptimizer(graph, init, p).optimize();
}

// random delays around the waits of the node
static void jitter(Rng& r) {
    static std::atomic<std::uint64_t> s{1};
    s = r.next();
    ros::vr_sleep_hook() = [](std::int64_t) {
        const std::uint64_t v = (s += 0x9e3779b97f4a7c15ull);
        std::this_thread::sleep_for(std::chrono::microseconds(20 + (v >> 33) % 300));
    };
}

struct Reference {
    gtsam::NonlinearFactorGraph graph;
    gtsam::Values init;
    template<typename TV>
    void set(gtsam::Key k, const TV& v) {
        if (init.exists(k)) init.update(k, v);
        else init.insert(k, v);
    }
};

// Observed: every robust noise model the code under test asks the library for.
static std::vector<gtsam::noiseModel::Robust::shared_ptr> made_robust;
namespace gtsam {
namespace noiseModel {
Robust::shared_ptr Robust::Create(const RobustModel::shared_ptr& robust, const NoiseModel::shared_ptr noise) {
    auto m = shared_ptr(new Robust(robust, noise));
    made_robust.push_back(m);
    return m;
}
}
}

// A robust kernel, configured in the parameters and built here from its definition.
static gtsam::noiseModel::mEstimator::Base::shared_ptr robust(Rng& r, std::string& type, bool any = false) {
    namespace me = gtsam::noiseModel::mEstimator;
    static const char* types[] = {"huber", "cauchy", "dcs", "fair", "geman_mcclure", "l2_with_dead_zone", "tukey", "welsch", "null"};
    int t;
    do t = r.integer(0, 8); while (!any && (t == 5 || t == 6 || t == 7));  // these can leave states undetermined
    type = types[t];
    const std::string base = "serpent/stereo_factors/robust/";
    vros::set_param(base + "enabled", true);  // also the default
    if (t != 0 || r.chance(0.5)) vros::set_param(base + "type", type);
    static const double usual[] = {1.345, 0.1, 1.0, 1.3998, 1.0, 1.0, 4.6851, 2.9846, 0};
    double k = usual[t];
    if (t != 8 && ((!any && (t == 1 || t == 2 || t == 4)) || r.chance(0.6))) {
        k = any ? std::exp(r.uniform(-5, 3)) : r.uniform(0.5, 4.0);
        vros::set_param(base + type + (t == 0 || t == 1 || t == 5 ? "/k" : "/c"), k);
    }
    auto scheme = me::Base::Block;
    if (t != 8 && r.chance(0.5)) {
        if (r.chance(0.5)) scheme = me::Base::Scalar;
        vros::set_param(base + type + "/reweight_scheme", std::string(scheme == me::Base::Scalar ? "SCALAR" : "BLOCK"));
    }
    switch (t) {
        case 0: return me::Huber::Create(k, scheme);
        case 1: return me::Cauchy::Create(k, scheme);
        case 2: return me::DCS::Create(k, scheme);
        case 3: return me::Fair::Create(k, scheme);
        case 4: return me::GemanMcClure::Create(k, scheme);
        case 5: return me::L2WithDeadZone::Create(k, scheme);
        case 6: return me::Tukey::Create(k, scheme);
        case 7: return me::Welsch::Create(k, scheme);
        default: return me::Null::Create();
    }
}

// The kernel and the noise that stereo factors are weighted with are those configured.
static void kernel(Rng& r) {
    vros::reset();
    World w;
    w.imu = r.chance(0.5); w.reg = r.chance(0.5); w.stereo = true; w.baro = r.chance(0.3);
    configure(r, w);
    Eigen::Vector3d s(w.nlx, w.nrx, w.ny);
    if (r.chance(0.2)) {
        vros::Bus::get().params.erase("/serpent/stereo_factors/noise/left_x"); vros::Bus::get().params.erase("/serpent/stereo_factors/noise/right_x"); vros::Bus::get().params.erase("/serpent/stereo_factors/noise/y");
        s << 5, 5, 10;
    }
    std::string type = "none";
    gtsam::noiseModel::mEstimator::Base::shared_ptr want;
    if (r.chance(0.9)) {
        want = robust(r, type, true);
        if (r.chance(0.3)) vros::Bus::get().params.erase("/serpent/stereo_factors/robust/enabled");
    }
    made_robust.clear();
    { serpent::Optimisation node; }
    vr::check(made_robust.empty() || want, "C21:kernel-not-asked-for", cat(made_robust.size()));
    if (!want) { vr::event("without_kernel"); return; }
    if (made_robust.empty()) { vr::event("kernels_not_observed"); return; }
    const auto& m = *made_robust.back();
    bool same = m.robust() && m.robust()->reweightScheme() == want->reweightScheme();
    for (int i = -40; same && i <= 40; ++i) {
        const double x = 0.37 * i * std::abs(i) / 10.0;
        same = std::abs(m.robust()->weight(x) - want->weight(x)) < 1e-12 && std::abs(m.robust()->loss(x) - want->loss(x)) < 1e-9;
    }
    vr::check(same, "C21:kernel", type);
    auto base = boost::dynamic_pointer_cast<gtsam::noiseModel::Gaussian>(m.noise());
    vr::check(base && (base->covariance() - Eigen::MatrixXd(s.cwiseProduct(s).asDiagonal())).norm() < 1e-9 * (1 + s.squaredNorm()), "C21:kernel-noise", type);
    vr::event("kernels_compared");
    vr::observe_state("kernels", std::hash<std::string>()(type));
    vr::nontrivial(r.next());
}

static void history(Rng& r) {
    vros::reset();
    World w;
    do {
        w.imu = r.chance(0.6);
        w.reg = r.chance(0.6);
        w.stereo = r.chance(0.4);
        w.baro = r.chance(0.4);
    } while (!w.imu && !w.reg && !w.stereo);
    configure(r, w);
    const bool points = w.stereo && r.chance(0.5);
    std::string kernel;
    gtsam::noiseModel::mEstimator::Base::shared_ptr kernel_model;
    if (w.stereo && r.chance(0.4)) kernel_model = robust(r, kernel);
    if (points) vros::set_param("serpent/debug/optimisation/publish_stereo_points", true);
    const int n = r.integer(2, 6);
    make_world(r, w, n);
    jitter(r);
    const std::string conf = cat(w.imu ? " imu" : "", w.reg ? " registration" : "", w.stereo ? " stereo " : "", kernel, w.baro ? " barometer" : "");
    auto node = std::make_unique<serpent::Optimisation>();
    auto spin = std::make_unique<vros::Spinner>(5);
    auto count = [](const char* t) { return nc::count<nav_msgs::Odometry>(t); };
    Reference ref;
    std::string stuck;
    const gtsam::Pose3 b_t_c = g(w.b_stereo);
    gtsam::SharedNoiseModel stereo_noise = gtsam::noiseModel::Diagonal::Sigmas(gtsam::Vector3(w.nlx, w.nrx, w.ny));
    if (kernel_model) stereo_noise = gtsam::noiseModel::Robust::Create(kernel_model, stereo_noise);
    // stereo tracks
    std::map<int, gtsam::StereoPoint2> prev;
    int prev_key = -1, next_id = r.integer(0, 4);
    std::set<int> created;
    std::set<int> alive;
    Eigen::MatrixXd pc, vc;
    const auto odo0 = initial(r, w, pc, vc);

    auto send_stereo = [&](int k) {
        serpent::StereoFeatures m;
        m.header.stamp = T(w.t[k]);
        m.header.frame_id = "stereo";
        const gtsam::Pose3 cam = w.truth[k].pose() * b_t_c;
        for (auto it = alive.begin(); it != alive.end();) {
            const gtsam::Point3 q = cam.transformTo(w.points[*it]);
            const bool seen = q.z() > 1.5 && std::abs(q.x() / q.z()) < 0.8 && std::abs(q.y() / q.z()) < 0.8;
            if (!seen || r.chance(alive.size() > 14 ? 0.15 : 0.0)) it = alive.erase(it);
            else ++it;
        }
        while (alive.size() < 16) {
            const double z = r.uniform(3, std::min(15.0, w.K->fx() * w.K->baseline() / 8));
            w.points[next_id] = cam.transformFrom(gtsam::Point3(z * r.uniform(-0.5, 0.5), z * r.uniform(-0.5, 0.5), z));
            alive.insert(next_id++);
        }
        std::map<int, gtsam::StereoPoint2> f;
        for (int id : alive) {
            const gtsam::Point3 q = cam.transformTo(w.points[id]);
            serpent::StereoFeature s;
            s.id = id;
            s.left_x = w.K->fx() * q.x() / q.z() + w.K->px() + 0.03 * r.gauss();
            s.right_x = w.K->fx() * (q.x() - w.K->baseline()) / q.z() + w.K->px() + 0.03 * r.gauss();
            s.left_y = w.K->fy() * q.y() / q.z() + w.K->py() + 0.03 * r.gauss();
            s.right_y = w.K->fy() * q.y() / q.z() + w.K->py() + 0.03 * r.gauss();
            m.features.push_back(s);
            f[id] = gtsam::StereoPoint2(s.left_x, s.right_x, 0.5 * (s.left_y + s.right_y));
        }
        m.left_info.K[0] = w.K->fx(); m.left_info.K[2] = w.K->px(); m.left_info.K[4] = w.K->fy(); m.left_info.K[5] = w.K->py(); m.left_info.K[8] = 1;
        m.right_info.K = m.left_info.K;
        m.right_info.P[0] = w.K->fx(); m.right_info.P[3] = -w.K->fx() * w.K->baseline(); m.right_info.P[2] = w.K->px();
        vros::send("/serpent/stereo/features", m);
        // reference
        if (prev_key >= 0) {
            for (const auto& kv : f) {
                const auto it = prev.find(kv.first);
                if (it == prev.end()) continue;
                typedef gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3> SF;
                if (created.insert(kv.first).second) ref.graph.push_back(SF(it->second, stereo_noise, X(prev_key), S(kv.first), w.K, b_t_c));
                ref.graph.push_back(SF(kv.second, stereo_noise, X(k), S(kv.first), w.K, b_t_c));
                ref.set(S(kv.first), w.points[kv.first]);
            }
            if (prev_key != k - 1) vr::event("stereo_frames_missed");
        }
        prev = f;
        prev_key = k;
        vr::event("stereo_frames");
        if (kernel_model) vr::event("stereo_frames_with_kernel");
    };
    const gtsam::BarometricFactor probe(X(0), P(0), 100.0, gtsam::noiseModel::Isotropic::Sigma(1, 1.0));
    int last_baro = -1;
    bool baro_started = false;
    const double baro_offset = r.uniform(0, 500);
    auto send_baro = [&](int k) {
        sensor_msgs::FluidPressure m;
        m.header.stamp = T(w.t[k]);
        const double z = w.truth[k].pose().z() - w.truth[0].pose().z() + baro_offset + 0.01 * r.gauss();
        double lo = 20, hi = 120;
        for (int i = 0; i < 80; ++i) (probe.heightOut(0.5 * (lo + hi)) > z ? lo : hi) = 0.5 * (lo + hi);
        m.fluid_pressure = lo * 1e3;
        m.variance = r.uniform(0.5, 2.0);
        vros::send("/serpent/frontend/barometer", m);
        const double kpa = m.fluid_pressure * 1e-3;
        ref.graph.push_back(gtsam::BarometricFactor(X(k), P(k), kpa, gtsam::noiseModel::Isotropic::Variance(1, m.variance)));
        if (!baro_started) {
            const double h = probe.heightOut(kpa);
            ref.set(P(0), h);
            ref.graph.push_back(gtsam::PriorFactor<double>(P(k), h, gtsam::noiseModel::Isotropic::Sigma(1, w.prior_baro)));
            baro_started = true;
            last_baro = 0;
            if (k > 0) vr::event("barometer_started_late");
        }
        for (int j = last_baro + 1; j <= k; ++j) {
            ref.graph.push_back(gtsam::BetweenFactor<double>(P(j - 1), P(j), 0.0, gtsam::noiseModel::Isotropic::Sigma(1, w.baro_bias_noise)));
            ref.set(P(j), ref.init.at<double>(P(j - 1)));
        }
        if (k > last_baro) last_baro = k;
        vr::event("pressures_sent");
    };

    const int imu_early = r.integer(0, 2);  // how many inertial arrays run ahead
    int imu_sent = 0;
    auto send_imu = [&](int k) {
        while (imu_sent < std::min(n, k)) vros::send("/serpent/frontend/imu_s2s", w.arrays[++imu_sent]);
    };
    if (imu_early && r.chance(0.5)) {
        send_imu(1);
        vr::event("imu_before_initial_state");
        std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, 1500)));
    }
    if (w.stereo && r.chance(0.4)) send_stereo(0), vr::event("stereo_before_initial_state");
    vros::send("/serpent/frontend/initial_odometry", odo0);
    if (w.stereo && prev_key < 0) send_stereo(0);
    if (w.baro && r.chance(0.5)) send_baro(0);
    // priors
    ref.set(X(0), w.truth[0].pose());
    ref.graph.push_back(gtsam::PriorFactor<gtsam::Pose3>(X(0), g(nc::from(odo0.pose.pose)), gtsam::noiseModel::Gaussian::Covariance(pc)));
    if (w.imu) {
        ref.set(V(0), gtsam::Velocity3(w.truth[0].velocity()));
        ref.set(B(0), Bias());
        ref.graph.push_back(gtsam::PriorFactor<gtsam::Velocity3>(V(0), gtsam::Velocity3(w.truth[0].velocity()), gtsam::noiseModel::Gaussian::Covariance(vc)));
        ref.graph.push_back(gtsam::PriorFactor<Bias>(B(0), Bias(), gtsam::noiseModel::Diagonal::Sigmas((gtsam::Vector(6) << w.prior_acc, w.prior_acc, w.prior_acc, w.prior_gyr, w.prior_gyr, w.prior_gyr).finished())));
    }
    bool ok = true;
    std::vector<gtsam::NavState> published;
    std::vector<Bias> published_bias;
    bool pending_missed = false;
    for (int k = 0; k <= n && ok; ++k) {
        if (k > 0) {
            const bool drained = k == n;  // before the last state everything sent so far has taken effect
            if (drained && w.baro) {
                ok = nc::poll([&] { return imu_sent >= n || spin->wait_idle(1); }, 30000);
                if (!ok) { stuck = "callbacks did not finish"; break; }
            }
            send_imu(std::min(w.baro ? std::max(k, std::min(k + imu_early, n - 1)) : n, k + imu_early));
            const bool sent = prev_key >= k;  // announced early because the frame before was missed
            const bool may_miss = w.stereo && !sent && (w.imu || w.reg) && k < (w.baro ? n - 1 : n);
            const bool miss = may_miss && r.chance(0.3);
            const bool stereo_first = r.chance(0.5);
            if (w.stereo && !sent && !miss && stereo_first) send_stereo(k), vr::event("stereo_before_state");
            // inertial prediction of this state (also drives the registration)
            ok = nc::poll([&] { return nc::count<geometry_msgs::TransformStamped>(TF) > (std::size_t)k; });
            if (!ok) { stuck = cat("no inertial transform for state ", k); break; }
            const auto tfs = vros::received<geometry_msgs::TransformStamped>(TF);
            const auto pim = preintegrate(w, k, published_bias[k - 1]);
            const auto pred = pim.predict(published[k - 1], published_bias[k - 1]);
            const Iso rel = e(published[k - 1].pose().between(pred.pose()));
            const Iso want = w.b_lidar.inverse() * rel * w.b_lidar;
            vr::check_lazy(nc::apart(nc::from(tfs[k]->transform), want) < 1e-7, "C21:inertial-transform",
                    [&] { return cat("state ", k, conf, " got\n", nc::from(tfs[k]->transform).matrix(), "\nwant\n", want.matrix()); });
            vr::check(tfs[k]->header.stamp == T(w.t[k]), "C21:inertial-transform-stamp", cat("state ", k));
            vr::event("inertial_transforms_compared");
            ref.set(X(k), pred.pose());
            if (w.imu) {
                ref.set(V(k), gtsam::Velocity3(pred.velocity()));
                ref.set(B(k), published_bias[k - 1]);
                ref.graph.push_back(gtsam::CombinedImuFactor(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), pim));
            }
            if (w.reg) {
                geometry_msgs::PoseWithCovarianceStamped m;
                m.header.stamp = T(w.t[k]);
                m.header.frame_id = "base_link";
                const Iso z = e(w.truth[k - 1].pose().between(w.truth[k].pose())) * nc::random_iso(r, 0.0007, 0.001);
                m.pose.pose = nc::to_pose(z);
                const Eigen::MatrixXd cov = spd(r, 6, 0.02);
                for (int i = 0; i < 6; ++i)
                    for (int j = 0; j < 6; ++j) m.pose.covariance[6 * i + j] = cov((i + 3) % 6, (j + 3) % 6) * (i < j ? 1.0 + 1e-13 : 1.0);
                vros::send("/serpent/registration/transform", m);
                ref.graph.push_back(gtsam::BetweenFactor<gtsam::Pose3>(X(k - 1), X(k), g(nc::from(m.pose.pose)), gtsam::noiseModel::Gaussian::Covariance(cov)));
                vr::event("registrations_sent");
            }
            if (w.stereo && !sent && !miss && !stereo_first) send_stereo(k);
            if (w.stereo && miss) {
                // the frame of this state never comes; the next one does, early
                pending_missed = true;
                serpent::StereoFeatures late;
                late.header.stamp = T(w.t[0] - 1000);
                if (r.chance(0.5)) vros::send("/serpent/stereo/features", late), vr::event("stale_stereo_frames");
                // state k waits for news from the stereo side: announce k+1 now
                const int kk = k + 1;
                send_stereo(kk);
            }
            if (w.baro && k < n && r.chance(0.5)) send_baro(k);
            if (miss) {
                // finish state k, then handle state k+1 here without another stereo frame
                ok = nc::poll([&] { return count(ODOM) > (std::size_t)k; });
                if (!ok) { stuck = cat("state ", k, " was not optimised after its stereo frame was missed"); break; }
            }
        }
        ok = nc::poll([&] { return count(ODOM) > (std::size_t)k && nc::count<nav_msgs::Path>(PATH) > (std::size_t)k && nc::count<serpent::ImuBiases>(BIAS) > (std::size_t)k; });
        if (!ok) { stuck = cat("state ", k, " was not optimised"); break; }
        const auto od = vros::received<nav_msgs::Odometry>(ODOM);
        const auto pa = vros::received<nav_msgs::Path>(PATH);
        const auto bi = vros::received<serpent::ImuBiases>(BIAS);
        const auto& o = *od[k];
        vr::check(o.header.stamp == T(w.t[k]) && o.header.frame_id == "world" && o.child_frame_id == "base_link", "C21:odometry-header", cat("state ", k, conf));
        vr::check(bi[k]->header.stamp == T(w.t[k]), "C21:bias-stamp", cat("state ", k));
        bool path_ok = (int)pa[k]->poses.size() == k + 1 && pa[k]->header.stamp == T(w.t[k]) && pa[k]->header.frame_id == "world";
        for (int j = 0; path_ok && j <= k; ++j) path_ok = pa[k]->poses[j].header.stamp == T(w.t[j]);
        if (!vr::check(path_ok, "C21:path", cat("state ", k, conf))) break;
        const Iso xk = nc::from(o.pose.pose);
        vr::check(nc::apart(xk, nc::from(pa[k]->poses[k].pose)) < 1e-9, "C21:path-end", cat("state ", k));
        const gtsam::Velocity3 vk(o.twist.twist.linear.x, o.twist.twist.linear.y, o.twist.twist.linear.z);
        const Bias bk(Eigen::Vector3d(bi[k]->accelerometer_bias.x, bi[k]->accelerometer_bias.y, bi[k]->accelerometer_bias.z),
                Eigen::Vector3d(bi[k]->gyroscope_bias.x, bi[k]->gyroscope_bias.y, bi[k]->gyroscope_bias.z));
        published.push_back(gtsam::NavState(g(xk), vk));
        published_bias.push_back(bk);
        if (!w.imu && k > 0) {
            const Eigen::Vector3d want = (xk.translation() - nc::from(pa[k]->poses[k - 1].pose).translation()) / ((w.t[k] - w.t[k - 1]) * 1e-9);
            vr::check((want - vk).norm() < 1e-6 * (1 + want.norm()), "C21:velocity-from-poses", cat("state ", k, conf, " got ", vk.transpose(), " want ", want.transpose()));
            vr::check(bk.vector().norm() == 0, "C21:bias-without-imu");
            vr::event("velocities_from_poses");
        }
        // the estimate; barometer factors may join a state late, so with them only the drained last state is compared
        if (pending_missed) { pending_missed = false; continue; }
        if (!w.baro || k == n) {
            gtsam::Values init;
            for (const auto& kv : ref.init)
                init.insert(kv.key, kv.value);
            gtsam::NonlinearFactorGraph graph;
            for (const auto& f : ref.graph) {
                bool in = true;
                for (auto key : f->keys()) in &= !(gtsam::Symbol(key).chr() != 's' && (int)gtsam::Symbol(key).index() > k);
                if (in) graph.push_back(f);
            }
            gtsam::Values used;
            for (auto key : graph.keys()) used.insert(key, init.at(key));
            gtsam::Values est;
            try {
                est = solve(graph, used, kernel_model ? 50 : 12);
            } catch (const std::exception& ex) {
                vr::event("reference_not_solvable");
                continue;
            }
            double d = 0;
            for (int j = 0; j <= k; ++j) d = std::max(d, nc::apart(nc::from(pa[k]->poses[j].pose), e(est.at<gtsam::Pose3>(X(j)))));
            vr::maximum(kernel_model ? "pose_error_" + kernel : w.stereo ? "pose_error_stereo" : w.baro ? "pose_error_baro" : "pose_error", d);
            vr::check(d < (kernel_model ? 1e-2 : w.stereo ? 2e-3 : 3e-4), "C21:not-the-map-estimate", cat("state ", k, conf, " poses differ by ", d));
            if (points) {
                // the published landmarks are the estimated ones, all of them and no others
                const std::string topic = "/serpent/debug/stereo_points";
                if (vr::check(nc::poll([&] { return nc::count<sensor_msgs::PointCloud2>(topic) > (std::size_t)k; }), "C21:stereo-points-missing", cat("state ", k))) {
                    const auto cloud = vros::received<sensor_msgs::PointCloud2>(topic)[k];
                    vr::check(cloud->header.frame_id == "world" && std::abs((cloud->header.stamp - T(w.t[k])).toSec()) < 2e-6, "C21:stereo-points-header", cat("state ", k, " frame ", cloud->header.frame_id));
                    pcl::PointCloud<pcl::PointXYZ> got;
                    pcl::PCLPointCloud2 raw;
                    vr_pcl::toPCL(*cloud, raw);
                    pcl::fromPCLPointCloud2(raw, got);
                    std::size_t want = 0;
                    double worst = 0;
                    for (auto key : graph.keys()) {
                        if (gtsam::Symbol(key).chr() != 's') continue;
                        ++want;
                        const gtsam::Point3 p = est.at<gtsam::Point3>(key);
                        double best = 1e9;
                        for (const auto& q : got) best = std::min(best, (p - q.getVector3fMap().cast<double>()).norm());
                        worst = std::max(worst, best / (1 + (p - est.at<gtsam::Pose3>(X(k)).translation()).norm()));
                    }
                    vr::check(got.size() == want, "C21:stereo-points-count", cat("state ", k, " published ", got.size(), " of ", want));
                    vr::maximum(kernel_model ? "landmark_error_kernel" : "landmark_error", worst);
                    vr::check(worst < (kernel_model ? 5e-2 : 1e-2), "C21:landmarks-not-the-map-estimate", cat("state ", k, conf, " relative ", worst));
                    vr::event("landmarks_compared", want);
                }
            }
            if (w.imu) {
                const double dv = (vk - est.at<gtsam::Velocity3>(V(k))).norm(), db = (bk.vector() - est.at<Bias>(B(k)).vector()).norm();
                vr::maximum(kernel_model ? "velocity_error_kernel" : "velocity_error", dv);
                vr::check(dv < (kernel_model ? 4e-2 : 2e-3), "C21:velocity-not-the-map-estimate", cat("state ", k, conf, " by ", dv));
                vr::check(db < (kernel_model ? 2e-2 : 1e-3), "C21:bias-not-the-map-estimate", cat("state ", k, conf, " by ", db));
            }
            if (!w.stereo) {
                Eigen::MatrixXd got(6, 6);
                for (int i = 0; i < 36; ++i) got(i / 6, i % 6) = o.pose.covariance[i];
                const Eigen::MatrixXd c = gtsam::Marginals(graph, est).marginalCovariance(X(k));
                Eigen::MatrixXd want(6, 6);
                for (int i = 0; i < 6; ++i)
                    for (int j = 0; j < 6; ++j) want(i, j) = c((i + 3) % 6, (j + 3) % 6);
                const double rel = (got - want).norm() / want.norm();
                vr::maximum("covariance_error", rel);
                vr::check_lazy(rel < 0.02, "C21:pose-covariance", [&] { return cat("state ", k, conf, " relative ", rel, "\n", got, "\nwant\n", want); });
                vr::event("covariances_compared");
            }
            vr::event("estimates_compared");
        }
    }
    for (const auto& x : spin->exceptions()) {
        vr::check(false, "C21:exception", x + conf);
        stuck.clear();
    }
    if (!stuck.empty()) vr::fail("C21:stalled", stuck + conf);
    if (ok) {
        const bool idle = spin->wait_idle(20000);
        vr::check(idle, "C21:stalled", "callbacks still waiting after everything was delivered" + conf);
        vr::check(count(ODOM) == (std::size_t)n + 1, "C21:one-odometry-per-state", cat(count(ODOM), " odometries for ", n + 1, " states", conf));
        vr::check(nc::count<geometry_msgs::TransformStamped>(TF) == (std::size_t)n + 1, "C21:one-transform-per-state", conf);
        if (points) vr::event("stereo_points_published", nc::count<sensor_msgs::PointCloud2>("/serpent/debug/stereo_points"));
        vr::event("histories_completed");
        vr::observe_state("configurations", w.imu + 2 * w.reg + 4 * w.stereo + 8 * w.baro);
    }
    ros::shutdown();
    spin.reset();
    node.reset();
    ros::vr_sleep_hook() = nullptr;
    for (const auto& x : vros::Bus::get().errors) vr::check(false, "C21:transport", x);
    vr::nontrivial(r.next());
}

// ---- shutdown while callbacks wait -------------------------------------------------------------------------------------
static void stopping(Rng& r) {
    vros::reset();
    World w;
    w.imu = w.reg = true;
    w.stereo = r.chance(0.7);
    w.baro = r.chance(0.7);
    configure(r, w);
    make_world(r, w, 3);
    jitter(r);
    auto* node = new serpent::Optimisation();
    auto* spin = new vros::Spinner(5);
    Eigen::MatrixXd pc, vc;
    const bool started = r.chance(0.6);
    if (started) {
        vros::send("/serpent/frontend/initial_odometry", initial(r, w, pc, vc));
        vros::send("/serpent/frontend/imu_s2s", w.arrays[1]);
    }
    vros::send("/serpent/frontend/imu_s2s", w.arrays[2]);
    serpent::StereoFeatures f;
    f.header.stamp = T(w.t[3]);
    if (w.stereo) vros::send("/serpent/stereo/features", f);
    sensor_msgs::FluidPressure b;
    b.header.stamp = T(w.t[3]);
    b.variance = 1;
    b.fluid_pressure = 1e5;
    if (w.baro) vros::send("/serpent/frontend/barometer", b);
    std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, 4000)));
    ros::shutdown();
    // more work arriving during shutdown must not hang either
    if (r.chance(0.5)) vros::send("/serpent/frontend/initial_odometry", initial(r, w, pc, vc)), vr::event("messages_during_shutdown");
    const bool idle = spin->wait_idle(15000);
    vr::event("shutdowns");
    if (!vr::check(idle, "C21:shutdown-hangs", cat("callbacks did not return after shutdown", started ? "" : " (before the initial state)"))) return;  // leaks the stuck node
    for (const auto& x : spin->exceptions()) vr::check(false, "C21:shutdown-exception", x);
    delete spin;
    delete node;
    ros::vr_sleep_hook() = nullptr;
    vr::nontrivial(r.next());
}

// ---- refused configurations and measurements ----------------------------------------------------------------------------
static void refuse(Rng& r) {
    vros::reset();
    World w;
    w.imu = w.reg = w.stereo = w.baro = true;
    const int kind = r.integer(0, 15);
    if (kind >= 8) w.stereo = kind == 9 || kind == 10;
    configure(r, w);
    make_world(r, w, 2);
    auto construct = [&](const char* what) {
        vr::expect_throw([&] { serpent::Optimisation o; }, "C21:misconfiguration-accepted", what);
        vr::event("misconfigurations");
    };
    if (kind < 8) {
        vros::set_param("serpent/stereo_factors/robust/enabled", true);
        static const char* types[] = {"huber", "cauchy", "dcs", "fair", "geman_mcclure", "l2_with_dead_zone", "tukey", "welsch", "null"};
        const std::string type = types[r.integer(0, 8)];
        vros::set_param("serpent/stereo_factors/robust/type", type);
        switch (kind) {
            case 0: vros::set_param("serpent/isam2/optimization", std::string("Newton")); return construct("optimisation method");
            case 1: vros::set_param("serpent/stereo_factors/robust/type", std::string("hubber")); return construct("robust type");
            case 2:
                if (type == "null") return;
                vros::set_param("serpent/stereo_factors/robust/" + type + "/reweight_scheme", std::string("block"));
                return construct("reweight scheme");
            case 3: vros::set_param("serpent/barometer/noise/barometer_bias", 0.0); return construct("zero barometer bias noise");
            case 4: vros::set_param("serpent/optimisation/marginalisation/enabled", true); vros::set_param("serpent/optimisation/marginalisation/window_size", -1); return construct("negative window");
            default:
                if (type != "null" && r.chance(0.5)) vros::set_param("serpent/stereo_factors/robust/" + type + "/reweight_scheme", std::string(r.chance(0.5) ? "SCALAR" : "BLOCK"));
                if (r.chance(0.5)) vros::set_param("serpent/isam2/optimization", std::string("Dogleg"));
                vr::expect_no_throw([&] { serpent::Optimisation o; }, "C21:configuration-refused", type);
                vr::event("configurations_accepted");
                return;
        }
    }
    serpent::Optimisation node;
    Eigen::MatrixXd pc, vc;
    auto odo = initial(r, w, pc, vc);
    auto deliver = [&](const char* what) {
        bool thrown = false;
        try {
            vros::spin_all();
        } catch (const std::exception&) {
            thrown = true;
        }
        vr::check(thrown, "C21:bad-input-accepted", what);
        vr::event("bad_inputs");
    };
    if (kind == 8) {
        for (int i = 0; i < 36; ++i) odo.pose.covariance[i] = 0;
        vros::send("/serpent/frontend/initial_odometry", odo);
        return deliver("zero prior pose noise");
    }
    vros::send("/serpent/frontend/initial_odometry", odo);
    vros::spin_all();
    if (kind == 9 || kind == 10) {
        serpent::StereoFeatures f;
        f.header.stamp = T(w.t[0]);
        f.left_info.K[0] = f.left_info.K[4] = 500;
        f.right_info.P[0] = 500;
        f.right_info.P[3] = kind == 9 ? r.uniform(0, 100) : -100;
        serpent::StereoFeature s;
        s.id = 4;
        f.features = {s, s};
        vros::send("/serpent/stereo/features", f);
        return deliver(kind == 9 ? "non-positive baseline" : "repeated feature id");
    }
    if (kind == 11) {
        sensor_msgs::FluidPressure b;
        b.header.stamp = T(w.t[0]);
        b.fluid_pressure = 1e5;
        b.variance = r.chance(0.5) ? 0.0 : -1.0;
        vros::send("/serpent/frontend/barometer", b);
        return deliver("non-positive barometer variance");
    }
    if (kind == 12) {
        auto a = w.arrays[1];
        a.measurements.clear();
        vros::send("/serpent/frontend/imu_s2s", a);
        return deliver("empty inertial array");
    }
    if (kind == 13) {
        auto a = w.arrays[1];
        for (auto& m : a.measurements)
            for (int i = 0; i < 9; ++i) m.linear_acceleration_covariance[i] = 0;
        vros::send("/serpent/frontend/imu_s2s", a);
        return deliver("zero accelerometer noise");
    }
    vros::send("/serpent/frontend/imu_s2s", w.arrays[1]);
    vros::spin_all();
    geometry_msgs::PoseWithCovarianceStamped m;
    m.header.stamp = T(w.t[1]);
    m.pose.pose = nc::to_pose(Iso::Identity());
    Eigen::MatrixXd cov = spd(r, 6, 0.02);
    std::string what;
    if (kind == 14) {
        m.header.stamp = T(w.t[1] + 1);
        what = "registration of another time";
    } else {
        const int k = r.integer(0, 2);
        if (k == 0) cov(2, 2) = -cov(2, 2), what = "registration covariance with a negative variance";
        else if (k == 1) cov(1, 4) += 0.5 * cov(1, 1), what = "asymmetric registration covariance";
        else cov(3, 3) = std::numeric_limits<double>::quiet_NaN(), what = "registration covariance with NaN";
    }
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) m.pose.covariance[6 * i + j] = cov(i, j);
    vros::send("/serpent/registration/transform", m);
    deliver(what.c_str());
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"history", history}, {"kernel", kernel}, {"shutdown", stopping}, {"refuse", refuse}}); }
