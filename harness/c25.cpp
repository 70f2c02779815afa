// C25: the registration node publishes, for each cloud after the first, the refined body motion with its covariance.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>

#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/registration.hpp>
#include <serpent/front_end/lidar/registration_methods.hpp>
#include "node_common.hpp"
#include "vr.hpp"

using nc::Iso;
using nc::T;
using vr::cat;
using vr::Rng;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 6> M6;

static const char* CLOUD = "/serpent/normal_estimation/pointcloud";
static const char* GUESS = "/serpent/optimisation/imu_transform";
static const char* MAP = "/serpent/mapping/local_map";
static const char* OUT = "/serpent/registration/transform";

template<typename P> struct Unit { static void put(P&, const V3&) {} static V3 get(const P&) { return V3::Zero(); } static constexpr bool has = false; };
template<> struct Unit<PointNormalUnit> {
    static void put(PointNormalUnit& p, const V3& u) { p.ux = u.x(); p.uy = u.y(); p.uz = u.z(); }
    static V3 get(const PointNormalUnit& p) { return V3(p.ux, p.uy, p.uz); }
    static constexpr bool has = true;
};

struct Method { std::string name; int iterations; double max_distance; bool reciprocal; };
struct Config {
    bool s2m, clouds, alt, unit, check;
    Method a, b;
    std::string cov, model, point;
    double rot_noise, trans_noise, constant, leaf, range, bias;
    Iso lidar;
    std::string d;
};

static Method method(Rng& r, const std::string& prefix) {
    Method m;
    m.name = r.pick(std::vector<std::string>{"icp", "icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt"});
    m.iterations = r.integer(5, 20);
    m.max_distance = r.uniform(0.5, 2);
    m.reciprocal = r.chance(0.3);
    vros::set_param("serpent/" + prefix + "/method", m.name);
    vros::set_param("serpent/" + prefix + "/base/maximum_iterations", m.iterations);
    vros::set_param("serpent/" + prefix + "/base/max_correspondence_distance", m.max_distance);
    vros::set_param("serpent/" + prefix + "/icp/use_reciprocal_correspondences", m.reciprocal);
    return m;
}

// the same method, configured by hand
template<typename P>
static typename pcl::Registration<P, P>::Ptr reference(const Method& m) {
    typename pcl::Registration<P, P>::Ptr g;
    if (m.name == "gicp") {
        auto x = std::make_shared<pcl::GeneralizedIterativeClosestPoint<P, P>>();
        x->setUseReciprocalCorrespondences(m.reciprocal);
        x->setRotationEpsilon(2e-3);
        x->setCorrespondenceRandomness(20);
        x->setMaximumOptimizerIterations(20);
        g = x;
    } else if (m.name == "ndt") {
        auto x = std::make_shared<pcl::NormalDistributionsTransform<P, P>>();
        x->setResolution(1.0f);
        x->setStepSize(0.1);
        x->setOulierRatio(0.55);
        g = x;
    } else {
        auto x = std::make_shared<pcl::IterativeClosestPoint<P, P>>();
        if (m.name == "icp") x->setUseReciprocalCorrespondences(m.reciprocal);
        g = x;
    }
    g->setMaximumIterations(m.iterations);
    g->setRANSACIterations(0);
    g->setRANSACOutlierRejectionThreshold(0.05);
    g->setMaxCorrespondenceDistance(m.max_distance);
    g->setTransformationEpsilon(0);
    g->setTransformationRotationEpsilon(0);
    g->setEuclideanFitnessEpsilon(0);
    return g;
}

static Config configure(Rng& r) {
    Config c;
    c.lidar = nc::random_iso(r, 1.0, 0.8);
    nc::body_frames("serpent", {{"lidar", c.lidar}, {"imu", nc::random_iso(r, 0.3, 0.3)}});
    c.s2m = r.chance(0.6);
    vros::set_param("serpent/s2m/enabled", c.s2m);
    c.a = method(r, "s2s");
    c.b = method(r, "s2m");
    c.clouds = r.chance(0.4);
    c.alt = r.chance(0.5);
    c.check = r.chance(0.3);
    vros::set_param("serpent/debug/registration/publish_clouds", c.clouds);
    vros::set_param("serpent/debug/registration/publish_clouds_alt", c.alt);
    vros::set_param("serpent/debug/registration/check_normals", c.check);
    c.unit = r.chance(0.5);
    c.cov = r.pick(std::vector<std::string>{"CONSTANT", "CENSI", "CENSI", "LLS"});
    c.model = r.pick(std::vector<std::string>{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"});
    c.point = r.pick(c.cov == "CENSI" && c.unit ? std::vector<std::string>{"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"} : std::vector<std::string>{"CONSTANT", "VOXEL_SIZE"});
    c.rot_noise = r.uniform(0.001, 0.1); c.trans_noise = r.uniform(0.001, 0.3); c.constant = r.uniform(0.01, 0.2);
    if (r.chance(0.2)) { const double k = std::pow(10.0, r.uniform(-2, 2)); c.rot_noise *= k; c.trans_noise *= k; c.constant *= k; }  // any scale of noise
    c.leaf = r.uniform(0.05, 0.5); c.range = r.uniform(0.01, 0.1); c.bias = r.uniform(0.01, 0.1);
    vros::set_param("serpent/registration_covariance/method", c.cov);
    vros::set_param("serpent/registration_covariance/model", c.model);
    vros::set_param("serpent/registration_covariance/constant/rotation", c.rot_noise);
    vros::set_param("serpent/registration_covariance/constant/translation", c.trans_noise);
    vros::set_param("serpent/registration_covariance/point_covariance/method", c.point);
    vros::set_param("serpent/registration_covariance/point_covariance/constant", c.constant);
    vros::set_param("serpent/registration_covariance/point_covariance/range_noise", c.range);
    vros::set_param("serpent/registration_covariance/point_covariance/range_bias_noise", c.bias);
    vros::set_param("serpent/voxel_grid_filter/leaf_size", c.leaf);
    if (c.point == "VOXEL_SIZE" || r.chance(0.5)) vros::set_param("serpent/voxel_grid_filter/enabled", true);
    c.d = cat(" [", c.s2m ? "s2m " + c.a.name + "/" + c.b.name : "s2s " + c.a.name, " ", c.cov, " ", c.model, " ", c.point, c.unit ? " unit]" : "]");
    return c;
}

template<typename Model, typename P>
static M6 model_covariance(const Config& c, pcl::Registration<P, P, float>& reg) {
    int n = 0;
    if (c.cov == "LLS") return serpent::lls_iid_covariance<Model, float>(reg, std::pow(c.point == "CONSTANT" ? c.constant : c.leaf, 2), n);
    if (c.point == "CONSTANT") return serpent::censi_iid_covariance<Model, float>(reg, c.constant * c.constant, n);
    if (c.point == "VOXEL_SIZE") return serpent::censi_iid_covariance<Model, float>(reg, c.leaf * c.leaf, n);
    if (c.point == "RANGE") return serpent::censi_range_covariance<Model, float>(reg, c.range * c.range, n);
    return serpent::censi_range_bias_covariance<Model, float>(reg, c.range * c.range, c.bias * c.bias, n);
}
template<typename P>
static M6 covariance(const Config& c, pcl::Registration<P, P, float>& reg) {
    if (c.cov == "CONSTANT") {
        Eigen::Matrix<double, 6, 1> v;
        v << V3::Constant(c.rot_noise * c.rot_noise), V3::Constant(c.trans_noise * c.trans_noise);
        return v.asDiagonal();
    }
    if (c.model == "POINT_TO_POINT_LINEARISED") return model_covariance<serpent::PointToPointIcpLinearisedModel<P, P>, P>(c, reg);
    if (c.model == "POINT_TO_POINT_NONLINEAR") return model_covariance<serpent::PointToPointIcpNonlinearModel<P, P>, P>(c, reg);
    if (c.model == "POINT_TO_PLANE_LINEARISED") return model_covariance<serpent::PointToPlaneIcpLinearisedModel<P, P>, P>(c, reg);
    return model_covariance<serpent::PointToPlaneIcpNonlinearModel<P, P>, P>(c, reg);
}

template<typename P>
struct Run {
    typedef pcl::PointCloud<P> Cloud;
    typedef std::shared_ptr<Cloud> Ptr;
    // landmarks in the world seen from a lidar pose
    static Ptr see(const std::vector<V3>& world, const std::vector<V3>& normals, const Iso& pose, std::uint64_t stamp_us, const std::string& frame) {
        auto c = std::make_shared<Cloud>();
        c->header.stamp = stamp_us;
        c->header.frame_id = frame;
        for (std::size_t i = 0; i < world.size(); ++i) {
            const V3 p = pose.inverse() * world[i], n = pose.linear().transpose() * normals[i];
            P q;
            q.x = p.x(); q.y = p.y(); q.z = p.z();
            q.normal_x = n.x(); q.normal_y = n.y(); q.normal_z = n.z();
            q.curvature = i;
            Unit<P>::put(q, p.normalized());
            c->push_back(q);
        }
        return c;
    }
    static std::vector<Ptr> clouds(const std::string& topic) {
        std::vector<Ptr> r;
        for (const auto& m : vros::received<sensor_msgs::PointCloud2>("/serpent/debug/" + topic)) r.push_back(vros::Canon<Cloud>::from(*m));
        return r;
    }
    // got is `from` moved by m (points; normals and unit vectors too if all)
    static void moved(const Cloud& got, const Cloud& from, const Eigen::Matrix4d& m, bool all, std::uint64_t stamp, const std::string& key, const std::string& d) {
        vr::check(got.header.stamp == stamp && got.header.frame_id == "lidar", key + "-header", cat(got.header.stamp, " in ", got.header.frame_id, d));
        if (!vr::check(got.size() == from.size(), key + "-size", d)) return;
        for (std::size_t i = 0; i < got.size(); ++i) {
            const P &a = got[i], &b = from[i];
            const V3 w = (m * V3(b.x, b.y, b.z).homogeneous()).template head<3>();
            if (!vr::check((V3(a.x, a.y, a.z) - w).norm() < 2e-4 * (1 + w.norm()), key + "-point", cat("point ", i, d))) return;
            if (all) {
                const V3 n = m.topLeftCorner<3, 3>() * V3(b.normal_x, b.normal_y, b.normal_z), u = m.topLeftCorner<3, 3>() * Unit<P>::get(b);
                if (!vr::check((V3(a.normal_x, a.normal_y, a.normal_z) - n).norm() < 1e-3 && (Unit<P>::get(a) - u).norm() < 1e-3, key + "-directions", cat("point ", i, d))) return;
            }
        }
        vr::event("debug_clouds_compared");
    }

    static void history(Rng& r, const Config& c) {
        const int n = r.integer(2, 5);
        std::vector<V3> world, normals;
        const int np = c.a.name == "ndt" || c.b.name == "ndt" || c.a.name == "gicp" || c.b.name == "gicp" ? r.integer(60, 120) : r.integer(25, 60);
        while ((int)world.size() < np) {  // landmarks at least 0.9 m apart
            const V3 p = nc::vec(r, 1).normalized() * r.uniform(2, 7);
            bool ok = true;
            for (auto& q : world) ok = ok && (q - p).norm() > 0.9;
            if (ok) { world.push_back(p); normals.push_back(nc::vec(r, 1).normalized()); }
        }
        struct Step { Ptr cloud, map; Iso motion, guess; std::uint64_t us; bool lost, matched; };
        std::vector<Step> steps;
        Iso pose = nc::random_iso(r, 0.5, 0.2);
        std::uint64_t us = 9000000;
        int previous = -1;
        for (int k = 0; k < n; ++k) {
            Step s;
            s.us = us += r.integer(50000, 150000);
            s.motion = k ? nc::iso(nc::rot(nc::vec(r, 0.1)), nc::vec(r, 0.3)) : Iso::Identity();
            const Iso before = pose;
            pose = pose * s.motion;
            s.lost = k && r.chance(0.08);
            s.matched = k == 0 || !r.chance(0.1);  // otherwise no guess arrives for this cloud
            s.guess = s.motion * nc::iso(nc::rot(nc::vec(r, 0.005)), nc::vec(r, 0.03));
            if (s.lost) s.guess.translation() += nc::vec(r, 1).normalized() * 200;
            s.cloud = see(world, normals, pose, s.us, "lidar");
            if (!s.matched) { pose = before; s.cloud = see(world, normals, before * nc::random_iso(r, 0.1, 0.2), s.us, "lidar"); }
            else {
                std::vector<V3> more = world, mn = normals;
                for (int i = r.integer(0, 20); i > 0; --i) { more.push_back(world[r.integer(0, np - 1)] + nc::vec(r, 1).normalized() * 20); mn.push_back(nc::vec(r, 1).normalized()); }
                if (previous >= 0) s.map = see(more, mn, before, steps[previous].us, "lidar");
                previous = k;
            }
            steps.push_back(s);
        }
        auto node = std::make_unique<serpent::Registration<P>>();
        auto spin = std::make_unique<vros::Spinner>(r.integer(3, 6));
        // maps follow their clouds or come first; streams are independent
        auto stream = [&](std::uint64_t seed, auto&& f) {
            return std::thread([&steps, seed, f] {
                Rng q(seed);
                for (auto& s : steps) {
                    if (q.chance(0.6)) std::this_thread::sleep_for(std::chrono::microseconds(q.integer(0, 3000)));
                    f(s);
                }
            });
        };
        std::thread t1 = stream(r.next(), [](Step& s) { vros::send(CLOUD, *s.cloud); });
        std::thread t2 = stream(r.next(), [](Step& s) {
            if (!s.matched) return;
            geometry_msgs::TransformStamped g;
            g.header.stamp = T(s.us * 1000);
            g.transform = nc::to_transform(s.guess);
            vros::send(GUESS, g);
        });
        const bool s2m = c.s2m;
        std::thread t3 = stream(r.next(), [s2m](Step& s) { if (s2m && s.map) vros::send(MAP, *s.map); });
        t1.join(); t2.join(); t3.join();
        const bool idle = spin->wait_idle(30000);
        for (const auto& x : spin->exceptions()) vr::check(false, "exception", x + c.d);
        if (!vr::check(idle, "stalled", c.d) || !spin->exceptions().empty()) { ros::shutdown(); spin->wait_idle(5000); return; }
        vr::check(vros::Bus::get().dropped == 0 && vros::Bus::get().errors.empty(), "harness-transport", vros::Bus::get().errors.empty() ? "" : vros::Bus::get().errors[0]);
        auto got = vros::received<geometry_msgs::PoseWithCovarianceStamped>(OUT);
        std::vector<Step> want;
        std::vector<Ptr> prev;
        Ptr last;
        for (auto& s : steps) {
            if (!s.matched) { vr::event("clouds_without_guess"); continue; }
            if (last) { want.push_back(s); prev.push_back(last); }
            last = s.cloud;
        }
        auto ref_a = reference<P>(c.a), ref_b = reference<P>(c.b);
        if (vr::check(got.size() == want.size(), "transforms", cat(got.size(), " of ", want.size(), c.d)))
            for (std::size_t k = 0; k < want.size(); ++k) {
                const Step& s = want[k];
                const std::string d = cat(" cloud ", k + 1, s.lost ? " lost" : "", c.d);
                Cloud out;
                const Eigen::Matrix4f guess = s.guess.matrix().template cast<float>();
                ref_a->setInputSource(s.cloud);
                ref_a->setInputTarget(prev[k]);
                ref_a->align(out, guess);
                const Eigen::Matrix4f a = ref_a->getFinalTransformation();
                Eigen::Matrix4f f = a;
                typename pcl::Registration<P, P>::Ptr used = ref_a;
                if (c.s2m) {
                    ref_b->setInputSource(s.cloud);
                    ref_b->setInputTarget(s.map);
                    ref_b->align(out, a);
                    f = ref_b->getFinalTransformation();
                    used = ref_b;
                }
                Iso lidar;
                lidar.matrix() = f.template cast<double>();
                const Iso body = c.lidar * lidar * c.lidar.inverse();
                const auto& m = *got[k];
                vr::check(m.header.stamp == T(s.us * 1000) && m.header.frame_id == "base_link", "transform-header", cat(m.header.stamp.toNSec(), " ", m.header.frame_id, d));
                const bool exact = !s.lost && (c.s2m ? c.b.name : c.a.name) != "ndt" && (c.s2m ? c.b.name : c.a.name) != "gicp";
                const Iso published = nc::from(m.pose.pose);
                const double e = nc::apart(published, body) / (1 + (s.lost ? 200 : 0));
                vr::maximum("reference_error", e);
                if (!vr::check(e < 2e-4, "transform", cat("off by ", e, d))) break;
                if (exact && !(c.s2m && (c.a.name == "ndt" || c.a.name == "gicp"))) {
                    const double te = nc::apart(published, c.lidar * s.motion * c.lidar.inverse());
                    vr::maximum("true_motion_error", te);
                    vr::check(te < 2e-3, "true-motion", cat("off by ", te, d));
                    vr::event("true_motions_compared");
                }
                const M6 C = covariance<P>(c, *used);
                M6 pub;
                for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) pub(i, j) = m.pose.covariance[i * 6 + j];
                if (!C.allFinite()) {
                    bool inf = !pub.allFinite();  // never a number that could be used
                    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) inf = inf && (!std::isinf(C(i, j)) || pub((i + 3) % 6, (j + 3) % 6) == C(i, j));
                    vr::check(inf, "infinite-covariance", d);
                    vr::event("infinite_covariances");
                } else {
                    M6 adj = M6::Zero();
                    const Eigen::Matrix3d R = c.lidar.linear();
                    const V3 t = c.lidar.translation();
                    Eigen::Matrix3d tx;
                    tx << 0, -t.z(), t.y(), t.z(), 0, -t.x(), -t.y(), t.x(), 0;
                    adj.topLeftCorner<3, 3>() = R;
                    adj.bottomLeftCorner<3, 3>() = tx * R;
                    adj.bottomRightCorner<3, 3>() = R;
                    const M6 B = adj * C * adj.transpose();
                    M6 w;  // position first
                    w << B.bottomRightCorner<3, 3>(), B.bottomLeftCorner<3, 3>(), B.topRightCorner<3, 3>(), B.topLeftCorner<3, 3>();
                    const double ce = (w - pub).norm() / w.norm();
                    vr::maximum("covariance_error", ce);
                    vr::check(ce < 1e-6, "covariance", cat("off by ", ce, d));
                    vr::event("covariances_compared");
                }
                vr::event(s.lost ? "lost_clouds" : "transforms_compared");
            }
        if (c.clouds) {
            auto cur = clouds("current_pointcloud"), pre = clouds("previous_pointcloud"), imu = clouds("imu_guess_pointcloud"), s2s = clouds("s2s_transformed_pointcloud"), s2m_ = clouds("s2m_transformed_pointcloud"),
                 s2sa = clouds("s2s_transformed_pointcloud_alt"), s2ma = clouds("s2m_transformed_pointcloud_alt");
            const std::size_t k = want.size();
            vr::check(cur.size() == k && pre.size() == k && imu.size() == k && s2s.size() == k && s2m_.size() == (c.s2m ? k : 0) && s2sa.size() == (c.alt ? k : 0) && s2ma.size() == (c.alt && c.s2m ? k : 0), "debug-clouds",
                      cat(cur.size(), " ", pre.size(), " ", imu.size(), " ", s2s.size(), " ", s2m_.size(), " ", s2sa.size(), " ", s2ma.size(), " of ", k, c.d));
            for (std::size_t i = 0; i < k; ++i) {
                const Step& s = want[i];
                if (s.lost) continue;
                const std::uint64_t st = prev[i]->header.stamp;
                const Eigen::Matrix4d I = Eigen::Matrix4d::Identity();
                if (i < cur.size()) moved(*cur[i], *s.cloud, I, true, st, "debug-current", c.d);
                if (i < pre.size()) moved(*pre[i], *prev[i], I, true, st, "debug-previous", c.d);
                if (i < imu.size()) moved(*imu[i], *s.cloud, s.guess.matrix(), true, st, "debug-imu-guess", c.d);
                if (got.size() != k) continue;
                const Iso pub = c.lidar.inverse() * nc::from(got[i]->pose.pose) * c.lidar;
                auto& fin = c.s2m ? s2m_ : s2s;
                auto& fina = c.s2m ? s2ma : s2sa;
                const std::uint64_t fst = c.s2m ? s.map->header.stamp : st;
                if (i < fin.size()) moved(*fin[i], *s.cloud, pub.matrix(), false, fst, "debug-registered", c.d);
                if (i < fina.size()) moved(*fina[i], *s.cloud, pub.matrix(), true, fst, "debug-registered-alt", c.d);
            }
        }
        ros::shutdown();
        spin->wait_idle(5000);
    }

    static void stopping(Rng& r, const Config& c) {
        std::vector<V3> world, normals;
        for (int i = 0; i < 40; ++i) { world.push_back(nc::vec(r, 4)); normals.push_back(nc::vec(r, 1).normalized()); }
        auto* node = new serpent::Registration<P>();
        auto* spin = new vros::Spinner(4);
        auto send = [&](std::uint64_t us) {
            auto cl = see(world, normals, Iso::Identity(), us, "lidar");
            vros::send(CLOUD, *cl);
            geometry_msgs::TransformStamped g;
            g.header.stamp = T(us * 1000);
            g.transform = nc::to_transform(Iso::Identity());
            vros::send(GUESS, g);
        };
        const int before = r.integer(0, 2);
        for (int i = 0; i < before; ++i) send(9000000 + i);
        for (int i = r.integer(1, 2); i > 0; --i) vros::send(MAP, *see(world, normals, Iso::Identity(), 9000000, "lidar"));
        if (r.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, 15000)));
        ros::shutdown();
        std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, 15000)));
        for (int i = 0; i < 3; ++i) send(9000100 + i);  // callbacks already queued still run
        const bool idle = spin->wait_idle(8000);
        vr::event("shutdowns");
        if (!vr::check(idle, "shutdown-hangs", "callbacks did not return after shutdown" + c.d)) return;
        for (const auto& x : spin->exceptions()) vr::check(false, "shutdown-exception", x + c.d);
        delete spin;
        delete node;
    }
};

// every method is the one named and carries every configured parameter
template<typename P>
static void methods_of(Rng& r) {
    vros::reset();
    const std::string pre = r.pick(std::vector<std::string>{"s2s/", "s2m/"}), p = "serpent/" + pre;
    const std::string other = "serpent/" + std::string(pre == "s2s/" ? "s2m/" : "s2s/");
    const std::string name = r.pick(std::vector<std::string>{"", "icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt"});
    const bool fast = name.empty() || name.rfind("fast", 0) == 0;
    if (!name.empty()) vros::set_param(p + "method", name);
    vros::set_param(other + "method", std::string("nonsense"));
    auto num = [&](const std::string& k, double def, double lo, double hi) { if (r.chance(0.3)) return def; const double v = r.uniform(lo, hi); vros::set_param(p + k, v); return v; };
    auto whole = [&](const std::string& k, int def, int lo, int hi) { if (r.chance(0.3)) return def; const int v = (int)r.integer(lo, hi); vros::set_param(p + k, v); return v; };
    const int iterations = whole("base/maximum_iterations", name == "ndt" ? 35 : 10, 1, 90), ransac = whole("base/ransac_iterations", 0, 1, 9);
    const double outlier = num("base/ransac_outlier_rejection_threshold", 0.05, 0.01, 2), dist = num("base/max_correspondence_distance", std::numeric_limits<double>::max(), 0.1, 9), eps = num("base/transformation_epsilon", 0, 1e-6, 1e-2),
                 reps = num("base/transformation_rotation_epsilon", 0, 1e-6, 1e-2), fit = num("base/euclidean_fitness_epsilon", 0, 1e-6, 1e-2);
    const bool recip = r.chance(0.5);
    vros::set_param(p + "icp/use_reciprocal_correspondences", recip);
    const double grot = num("gicp/rotation_epsilon", 2e-3, 1e-4, 1e-2), lrot = num("lsq/rotation_epsilon", 2e-3, 1e-4, 1e-2), lambda = num("lsq/initial_lambda_factor", 1e-9, 1e-9, 1e-6);
    const int grand = whole("gicp/correspondence_randomness", 20, 5, 40), gopt = whole("gicp/maximum_optimizer_iterations", 20, 5, 40), threads = whole("fast_gicp/num_threads", 4, 1, 9), frand = whole("fast_gicp/correspondence_randomness", 20, 5, 40);
    const bool debug = r.chance(0.5);
    vros::set_param(p + "lsq/debug_print", debug);
    const std::vector<std::string> regs{"NONE", "MIN_EIG", "NORMALIZED_MIN_EIG", "PLANE", "FROBENIUS"}, acc{"ADDITIVE", "ADDITIVE_WEIGHTED", "MULTIPLICATIVE"}, srch{"DIRECT27", "DIRECT7", "DIRECT1", "DIRECT_RADIUS"};
    const int ri = r.integer(0, 4), ai = r.integer(0, 2), si = r.integer(0, 3);
    vros::set_param(p + "fast_gicp/regularization_method", regs[ri]);
    vros::set_param(p + "fast_vgicp/voxel_accumulation_mode", acc[ai]);
    vros::set_param(p + "fast_vgicp/neighbor_search_method", srch[si]);
    const double vres = num("fast_vgicp/resolution", 1.0, 0.1, 3), nres = num("ndt/resolution", 1.0, 0.1, 3), step = num("ndt/step_size", 0.1, 0.01, 1), orat = num("ndt/outlier_ratio", 0.55, 0.1, 0.9);
    const std::string d = " [" + name + "]";
    ros::NodeHandle nh("serpent");
    auto g = serpent::registration_method<P, P>(nh, pre);
    if (!vr::check(!!g, "method", d)) return;
    auto near = [](double a, double b) { return std::abs(a - b) <= 1e-6 * (1 + std::abs(b)) || a == b; };
    vr::check(g->getMaximumIterations() == iterations, "method-iterations", cat(g->getMaximumIterations(), " vs ", iterations, d));
    vr::check((int)g->getRANSACIterations() == ransac && near(g->getRANSACOutlierRejectionThreshold(), outlier), "method-ransac", d);
    vr::check(near(g->getMaxCorrespondenceDistance(), dist) || g->getMaxCorrespondenceDistance() == dist, "method-distance", cat(g->getMaxCorrespondenceDistance(), " vs ", dist, d));
    vr::check(g->getTransformationEpsilon() == eps && g->getTransformationRotationEpsilon() == reps && g->getEuclideanFitnessEpsilon() == fit, "method-epsilons", d);
    auto* icp = dynamic_cast<pcl::IterativeClosestPoint<P, P>*>(g.get());
    auto* gicp = dynamic_cast<pcl::GeneralizedIterativeClosestPoint<P, P>*>(g.get());
    auto* ndt = dynamic_cast<pcl::NormalDistributionsTransform<P, P>*>(g.get());
    auto* fg = dynamic_cast<fast_gicp::FastGICP<P, P>*>(g.get());
    auto* st = dynamic_cast<fast_gicp::FastGICPSingleThread<P, P>*>(g.get());
    auto* vg = dynamic_cast<fast_gicp::FastVGICP<P, P>*>(g.get());
    if (!vr::check((name == "icp" ? icp && !gicp && !fg : true) && (!!gicp == (name == "gicp")) && (!!ndt == (name == "ndt")) && (!!fg == fast) && (!!st == (name == "fast_gicp_st")) && (!!vg == (name == "fast_vgicp")), "method-type", d)) return;
    if (name == "icp" || name == "gicp") vr::check(icp && icp->getUseReciprocalCorrespondences() == recip, "method-reciprocal", d);
    if (gicp) vr::check(near(gicp->getRotationEpsilon(), grot) && gicp->getCorrespondenceRandomness() == grand && gicp->getMaximumOptimizerIterations() == gopt, "method-gicp", d);
    if (ndt) vr::check(near(ndt->getResolution(), nres) && near(ndt->getStepSize(), step) && near(ndt->getOulierRatio(), orat), "method-ndt", d);
    if (fg) vr::check(fg->threads == (st ? 1 : threads) && fg->randomness == frand && (int)fg->regularization == ri && fg->rotation_epsilon == lrot && fg->lambda == lambda && fg->debug == debug, "method-fast-gicp", d);
    if (vg) vr::check(near(vg->resolution, vres) && (int)vg->mode == ai && (int)vg->search == si, "method-fast-vgicp", d);
    vr::event("methods_inspected");
    vr::observe_state("methods", std::hash<std::string>()(name));
    vr::nontrivial(r.next());
}
// The two point types are compiled separately (c25_unit.cpp includes this file).
void history_unit(Rng& r, const Config& c);
void stopping_unit(Rng& r, const Config& c);
void methods_unit(Rng& r);
#ifndef VR_C25_UNIT
static void history(Rng& r) {
    vros::reset();
    ros::vr_sleep_hook() = nullptr;
    const Config c = configure(r);
    if (c.unit) history_unit(r, c); else Run<pcl::PointNormal>::history(r, c);
    vr::nontrivial(r.next());
}
static void stopping(Rng& r) {
    vros::reset();
    Config c = configure(r);
    c.s2m = true;
    vros::set_param("serpent/s2m/enabled", true);
    for (const char* s : {"s2s", "s2m"}) vros::set_param(cat("serpent/", s, "/method"), std::string("icp"));
    vros::set_param("serpent/registration_covariance/method", std::string("CONSTANT"));
    if (c.unit) stopping_unit(r, c); else Run<pcl::PointNormal>::stopping(r, c);
    vr::nontrivial(r.next());
}

static void methods(Rng& r) { if (r.chance(0.5)) methods_of<pcl::PointNormal>(r); else methods_unit(r); }

static void refuse(Rng& r) {
    vros::reset();
    Config c = configure(r);
    const int kind = r.integer(0, 12);
    const std::string s = "serpent/", rc = s + "registration_covariance/";
    std::string d = cat("kind ", kind, c.d);
    auto covariance_method = [&](const char* m, const char* p) { vros::set_param(rc + "method", std::string(m)); vros::set_param(rc + "point_covariance/method", std::string(p)); };
    switch (kind) {
        case 0: vros::set_param(s + "s2s/method", std::string(r.pick(std::vector<std::string>{"ICP", "", "lls"}))); break;
        case 1: vros::set_param(s + "s2m/enabled", true); vros::set_param(s + "s2m/method", std::string("cpd")); break;
        case 2: vros::set_param(rc + "method", std::string("BROSSARD")); break;
        case 3: covariance_method("CENSI", "CONSTANT"); vros::set_param(rc + "model", std::string("PLANE_TO_PLANE")); break;
        case 4: covariance_method("LLS", "SENSOR"); break;
        case 5: covariance_method("LLS", "RANGE"); break;
        case 6: covariance_method("LLS", "RANGE_BIAS"); break;
        case 7: covariance_method("CENSI", r.chance(0.5) ? "RANGE" : "RANGE_BIAS"); vros::set_param(rc + "point_covariance/range_noise", -r.uniform(0, 1) * (r.chance(0.3) ? 0 : 1)); break;
        case 8: covariance_method("CENSI", "RANGE_BIAS"); vros::set_param(rc + "point_covariance/range_bias_noise", -r.uniform(0, 1) * (r.chance(0.3) ? 0 : 1)); break;
        case 9: covariance_method(r.chance(0.5) ? "CENSI" : "LLS", "VOXEL_SIZE"); vros::set_param(s + "voxel_grid_filter/enabled", false); break;
        case 10: vros::set_param(s + "s2s/method", std::string("fast_gicp")); vros::set_param(s + "s2s/fast_gicp/regularization_method", std::string("plane")); break;
        case 11: vros::set_param(s + "s2s/method", std::string("fast_vgicp")); vros::set_param(s + (r.chance(0.5) ? "s2s/fast_vgicp/voxel_accumulation_mode" : "s2s/fast_vgicp/neighbor_search_method"), std::string("SOME")); break;
        default: {  // unnormalised normals are reported when asked to check, for the methods that use them
            vros::set_param(s + "debug/registration/check_normals", true);
            vros::set_param(s + "s2m/enabled", false);
            vros::set_param(s + "s2s/method", std::string("icp"));
            covariance_method(r.chance(0.5) ? "CENSI" : "LLS", "CONSTANT");
            const bool plane = r.chance(0.6), constant = r.chance(0.2), bad = r.chance(0.7);
            if (constant) vros::set_param(rc + "method", std::string("CONSTANT"));
            vros::set_param(rc + "model", std::string(plane ? "POINT_TO_PLANE_LINEARISED" : "POINT_TO_POINT_NONLINEAR"));
            typedef Run<pcl::PointNormal> R;
            std::vector<V3> world, normals;
            for (int i = 0; i < 40; ++i) { world.push_back(nc::vec(r, 4)); normals.push_back(nc::vec(r, 1).normalized()); }
            if (bad) normals[r.integer(0, 39)] *= r.chance(0.5) ? 1.2 : 0.5;
            serpent::Registration<pcl::PointNormal> node;
            bool threw = false;
            for (int k = 0; k < 2; ++k) {
                vros::send(CLOUD, *R::see(world, normals, Iso::Identity(), 9000000 + k, "lidar"));
                geometry_msgs::TransformStamped g;
                g.header.stamp = T((9000000 + k) * 1000ULL);
                g.transform = nc::to_transform(Iso::Identity());
                vros::send(GUESS, g);
                try { vros::spin_all(); } catch (const std::exception&) { threw = true; }
            }
            vr::check(threw == (bad && plane && !constant), "check-normals", cat(bad, plane, constant, " threw ", threw));
            vr::event("normal_checks");
            return;
        }
    }
    vr::expect_throw([&] { serpent::Registration<pcl::PointNormal> node; }, cat("misconfiguration-", kind), d);
    vr::event("misconfigurations");
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"history", history}, {"shutdown", stopping}, {"methods", methods}, {"refuse", refuse}}); }
#else
void history_unit(Rng& r, const Config& c) { Run<PointNormalUnit>::history(r, c); }
void stopping_unit(Rng& r, const Config& c) { Run<PointNormalUnit>::stopping(r, c); }
void methods_unit(Rng& r) { methods_of<PointNormalUnit>(r); }
#endif
