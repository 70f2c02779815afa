// C23: the map holds each key cloud at its latest pose; local and global maps are exactly the clouds they should contain.
#include <array>
#include <set>
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>

#include <nav_msgs/Path.h>
#include <pointcloud_tools/point_types.hpp>
#include <sensor_msgs/PointCloud2.h>
#include <serpent/PoseGraph.h>
#include <serpent/mapping/mapping.hpp>
#include <std_srvs/Empty.h>
#include "node_common.hpp"
#include "vr.hpp"

using nc::Iso;
using nc::T;
using vr::cat;
using vr::Rng;
typedef std::uint64_t ns_t;
typedef Eigen::Vector3d V3;

static const char* LOCAL = "/serpent/mapping/local_map";
static const char* GLOBAL = "/serpent/output/global_map";
static const char* GRAPH = "/serpent/output/pose_graph";

// Another translation unit of the same program may include the header too.
namespace serpent { FrameExtractionMethod other_unit(const std::string& m); }

struct Pt { V3 p, n, u; double id; };
struct Key { Iso pose; std::vector<Pt> pts; };

template<typename P> struct Unit { static void put(P&, const V3&) {} static bool same(const P&, const V3&) { return true; } };
template<> struct Unit<PointNormalUnit> {
    static void put(PointNormalUnit& p, const V3& u) { p.ux = u.x(); p.uy = u.y(); p.uz = u.z(); }
    static bool same(const PointNormalUnit& p, const V3& u) { return (V3(p.ux, p.uy, p.uz) - u).norm() < 1e-4; }
};

template<typename P>
static std::vector<std::shared_ptr<pcl::PointCloud<P>>> clouds(const char* topic) {
    std::vector<std::shared_ptr<pcl::PointCloud<P>>> r;
    for (const auto& m : vros::received<sensor_msgs::PointCloud2>(topic)) r.push_back(vros::Canon<pcl::PointCloud<P>>::from(*m));
    return r;
}

static std::vector<Pt> moved(const std::vector<Pt>& a, const Iso& m) {
    std::vector<Pt> r;
    for (const auto& p : a) r.push_back(Pt{m * p.p, m.linear() * p.n, m.linear() * p.u, p.id});
    return r;
}

// unfiltered: exactly the expected points; filtered: a voxel average of them
template<typename P>
static void same_points(const pcl::PointCloud<P>& got, const std::vector<Pt>& want, bool filtered, double leaf, const std::string& key, const std::string& d) {
    if (!filtered) {
        if (!vr::check(got.size() == want.size(), key + "-size", cat(got.size(), " points, expected ", want.size(), d))) return;
        std::map<double, const P*> by;
        for (const auto& p : got) by[p.curvature] = &p;
        for (const auto& w : want) {
            auto it = by.find((float)w.id);
            if (!vr::check(it != by.end(), key + "-points", cat("point ", w.id, " missing", d))) return;
            const P& p = *it->second;
            const double e = (V3(p.x, p.y, p.z) - w.p).norm();
            vr::maximum("map_point_error", e);
            if (!vr::check(e < 1e-3, key + "-points", cat("point ", w.id, " off by ", e, d))) return;
            if (!vr::check((V3(p.normal_x, p.normal_y, p.normal_z) - w.n).norm() < 1e-4 && Unit<P>::same(p, w.u), key + "-directions", cat("point ", w.id, d))) return;
        }
        vr::event("map_points_compared", want.size());
        return;
    }
    const double reach = leaf * std::sqrt(3.0) + 1e-3;
    vr::check(got.size() < want.size() && got.size() * 2 >= want.size() / 8, key + "-not-filtered", cat(got.size(), " points of ", want.size(), d));
    for (const auto& w : want) {
        bool near = false;
        for (const auto& p : got) near |= (V3(p.x, p.y, p.z) - w.p).norm() < reach;
        if (!vr::check(near, key + "-filtered-away", cat("point ", w.id, d))) return;
    }
    for (const auto& p : got) {
        bool near = false;
        for (const auto& w : want) near |= (V3(p.x, p.y, p.z) - w.p).norm() < reach;
        if (!vr::check(near, key + "-invented", d)) return;
    }
    // one point per voxel of the configured size (points near a voxel's border are left out)
    std::set<std::array<long, 3>> voxels;
    for (const auto& p : got) {
        const double c[3] = {p.x / leaf, p.y / leaf, p.z / leaf};
        std::array<long, 3> v;
        bool border = false;
        for (int i = 0; i < 3; ++i) {
            v[i] = std::lround(std::floor(c[i]));
            border |= std::abs(c[i] - std::round(c[i])) < 2e-3;
        }
        if (border) continue;
        if (!vr::check(voxels.insert(v).second, key + "-voxel-shared", cat("two points in voxel (", v[0], ", ", v[1], ", ", v[2], ") of size ", leaf, d))) return;
    }
    vr::event("voxels_occupied", voxels.size());
    vr::event("filtered_maps_compared");
}

template<typename P>
static void history_of(Rng& r) {
    vros::reset();
    const Iso b_lidar = nc::random_iso(r, 0.8, 0.4);
    nc::body_frames("serpent", {{"lidar", b_lidar}, {"imu", nc::random_iso(r, 0.3, 0.3)}});
    const bool past = r.chance(0.5), fl = r.chance(0.4), fg = r.chance(0.4);
    const int number = r.integer(1, 6);
    const double dist = r.uniform(0.3, 2), rot = r.uniform(0.2, 0.8), leaf = r.uniform(0.3, 0.6);
    vros::set_param("serpent/map_frame_id", std::string("the_map"));
    vros::set_param("serpent/mapping/distance_threshold", dist);
    vros::set_param("serpent/mapping/rotation_threshold", rot);
    vros::set_param("serpent/mapping/frame_extraction_number", number);
    vros::set_param("serpent/mapping/frame_extraction_method", std::string(past ? "PAST" : "NEARBY"));
    vros::set_param("serpent/mapping/voxel_grid_filter/enabled_local", fl);
    vros::set_param("serpent/mapping/voxel_grid_filter/enabled_global", fg);
    vros::set_param("serpent/mapping/voxel_grid_filter/leaf_size", leaf);
    serpent::Mapping<P> node;
    const std::string d = cat(past ? " [PAST " : " [NEARBY ", number, fl ? " local" : "", fg ? " global" : "", " filter]");
    std::map<ns_t, Key> map;
    std::map<ns_t, Iso> all;  // body poses, mapped or not
    Iso body = nc::random_iso(r, 1, 3);
    ns_t t = 5000000000ULL;
    double id = 0;
    std::size_t locals = 0;
    const int n = r.integer(3, 12);
    for (int k = 0; k < n; ++k) {
        if (r.chance(0.25)) {  // services at any time
            std_srvs::Empty s;
            if (!map.empty() || !fg) {
                vr::check(vros::call("/serpent/publish_map", s), "map-service", d);
                std::vector<Pt> want;
                for (auto& f : map) for (auto& p : moved(f.second.pts, f.second.pose)) want.push_back(p);
                auto got = clouds<P>(GLOBAL);
                if (vr::check(!got.empty(), "global-map-published", d)) {
                    same_points(*got.back(), want, fg, leaf, "global-map", d);
                    if (!map.empty()) vr::check(got.back()->header.frame_id == "the_map", "global-map-frame", got.back()->header.frame_id);
                }
                vr::event(map.empty() ? "empty_global_maps" : "global_maps_compared");
            }
            vr::check(vros::call("/serpent/publish_pose_graph", s), "graph-service", d);
            auto gr = vros::received<serpent::PoseGraph>(GRAPH);
            if (vr::check(!gr.empty() && gr.back()->poses.size() == map.size() && gr.back()->clouds.size() == map.size(), "pose-graph-size", d)) {
                std::size_t i = 0;
                for (auto& f : map) {
                    const auto& p = gr.back()->poses[i];
                    vr::check(p.header.stamp == T(f.first) && nc::apart(nc::from(p.pose.pose), f.second.pose) < 1e-6, "pose-graph-pose", cat("frame ", i, d));
                    auto c = vros::Canon<pcl::PointCloud<P>>::from(gr.back()->clouds[i]);
                    same_points(*c, f.second.pts, false, 0, "pose-graph-cloud", d);
                    vr::check(c->header.stamp == f.first / 1000, "pose-graph-cloud-stamp", d);
                    ++i;
                }
                vr::event("pose_graphs_compared");
            }
            continue;
        }
        const bool jump = r.chance(0.5);
        t += (ns_t)r.integer(50000, 400000) * 1000;
        // motion clearly below or above the thresholds
        Iso step = Iso::Identity();
        const V3 dir = nc::vec(r, 1).normalized();
        bool far_enough = jump;
        if (jump) {
            if (r.chance(0.5)) step.translation() = dir * dist * r.uniform(1.1, 4);
            else step.linear() = nc::rot(dir * std::min(3.0, rot * r.uniform(1.1, 3))).toRotationMatrix();
        } else {
            step.translation() = dir * dist * r.uniform(0, 0.2);
            step.linear() = nc::rot(nc::vec(r, 1).normalized() * rot * r.uniform(0, 0.2)).toRotationMatrix();
        }
        nav_msgs::Path path;
        path.header.stamp = T(t);
        path.header.frame_id = "the_map";
        const bool reject = r.chance(0.06);
        if (!reject)
            for (auto& a : all)
                if (r.chance(0.35)) {
                    a.second = a.second * nc::random_iso(r, 0.02, 0.05);
                    geometry_msgs::PoseStamped p;
                    p.header.stamp = T(a.first);
                    p.pose = nc::to_pose(a.second);
                    path.poses.push_back(p);
                    auto it = map.find(a.first);
                    if (it != map.end()) it->second.pose = a.second * b_lidar, vr::event("map_poses_corrected");
                }
        // lidar motion since the last key cloud decides
        if (!map.empty()) body = map.rbegin()->second.pose * step * b_lidar.inverse();
        if (!reject) {
            geometry_msgs::PoseStamped p;
            p.header.stamp = T(t);
            p.pose = nc::to_pose(body);
            path.poses.push_back(p);
            all[t] = body;
        } else if (r.chance(0.5)) {
            geometry_msgs::PoseStamped p;
            p.header.stamp = T(t + 7);
            path.poses.push_back(p);
        }
        Key key;
        key.pose = body * b_lidar;
        pcl::PointCloud<P> c;
        c.header.stamp = t / 1000;
        c.header.frame_id = "lidar";
        const int np = r.integer(4, 25);
        for (int i = 0; i < np; ++i) {
            V3 p = nc::vec(r, 4);
            if (i >= np / 2) p = key.pts[i - np / 2].p + nc::vec(r, 1e-3);  // neighbours that share a voxel
            key.pts.push_back(Pt{p, nc::vec(r, 1).normalized(), nc::vec(r, 1).normalized(), id++});
        }
        for (auto& q : key.pts) {
            P p;
            p.x = q.p.x(); p.y = q.p.y(); p.z = q.p.z();
            p.normal_x = q.n.x(); p.normal_y = q.n.y(); p.normal_z = q.n.z();
            p.curvature = q.id;
            Unit<P>::put(p, q.u);
            c.push_back(p);
        }
        if (r.chance(0.1)) {  // another cloud without a path, or the reverse
            pcl::PointCloud<P> x = c;
            x.header.stamp -= 3;
            vros::send("/serpent/normal_estimation/pointcloud", x);
            vr::event("unmatched_clouds");
        }
        if (r.chance(0.5)) vros::send("/serpent/normal_estimation/pointcloud", c), vros::send("/serpent/optimisation/path_changes", path);
        else vros::send("/serpent/optimisation/path_changes", path), vros::send("/serpent/normal_estimation/pointcloud", c);
        if (reject) {
            vr::expect_throw([&] { vros::spin_all(); }, "path-without-cloud-accepted", d);
            vros::spin_all();
            vr::event("paths_refused");
            continue;
        }
        vros::spin_random(r);
        const bool added = map.empty() || far_enough;
        const Iso query = key.pose;
        if (added) map[t] = key;
        vr::event(added ? "key_clouds_added" : "clouds_not_added");
        auto got = clouds<P>(LOCAL);
        if (!vr::check(got.size() == ++locals, "one-local-map-per-cloud", cat(got.size(), " of ", locals, d))) return;
        vr::check(got.back()->header.stamp == t / 1000 && got.back()->header.frame_id == "lidar", "local-map-header", cat(got.back()->header.stamp, " ", got.back()->header.frame_id, d));
        std::vector<const Key*> chosen;
        bool tie = false;
        if (past) {
            for (auto it = map.rbegin(); it != map.rend() && (int)chosen.size() < number; ++it) chosen.push_back(&it->second);
        } else {
            std::vector<std::pair<double, const Key*>> by;
            for (auto& f : map) by.push_back({(f.second.pose.translation() - query.translation()).norm(), &f.second});
            std::sort(by.begin(), by.end());
            if ((int)by.size() > number && by[number].first - by[number - 1].first < 1e-4) tie = true;
            for (int i = 0; i < number && i < (int)by.size(); ++i) chosen.push_back(by[i].second);
        }
        if (tie) { vr::event("ties_skipped"); continue; }
        std::vector<Pt> want;
        for (auto* f : chosen) for (auto& p : moved(f->pts, query.inverse() * f->pose)) want.push_back(p);
        same_points(*got.back(), want, fl, leaf, "local-map", cat(" of ", chosen.size(), " frames of ", map.size(), d));
        vr::event(past ? "past_maps_compared" : "nearby_maps_compared");
        if ((int)map.size() > number) vr::event("maps_larger_than_region");
    }
    for (const auto& x : vros::Bus::get().errors) vr::check(false, "transport", x);
    vr::nontrivial(r.next());
}

static void history(Rng& r) {
    if (r.chance(0.5)) history_of<pcl::PointNormal>(r);
    else history_of<PointNormalUnit>(r);
}

// Services called from one thread while clouds and corrections arrive on others: every answer is the map between two
// updates, not older than the updates finished before the call and not newer than those begun before its answer.
template<typename P>
static void concurrent_of(Rng& r) {
    vros::reset();
    const Iso b_lidar = nc::random_iso(r, 0.8, 0.4);
    nc::body_frames("serpent", {{"lidar", b_lidar}});
    vros::set_param("serpent/map_frame_id", std::string("the_map"));
    vros::set_param("serpent/mapping/distance_threshold", 1.0);
    vros::set_param("serpent/mapping/frame_extraction_number", static_cast<int>(r.integer(1, 6)));
    vros::set_param("serpent/mapping/frame_extraction_method", std::string(r.chance(0.5) ? "PAST" : "NEARBY"));
    vros::set_param("serpent/mapping/voxel_grid_filter/enabled_local", r.chance(0.5));
    vros::set_param("serpent/mapping/voxel_grid_filter/enabled_global", false);
    const int n = r.integer(4, 16), np = r.integer(2, 200);
    std::vector<pcl::PointCloud<P>> sent(n);
    auto pose = [&](int j, int k) { return nc::iso(nc::rot(V3(0, 0, 0.01 * j)), V3(2.0 * j, 0, k)); };  // of cloud j after update k
    for (int j = 0; j < n; ++j) {
        sent[j].header.stamp = (5000000000ULL + j * 100000000ULL) / 1000;
        sent[j].header.frame_id = "lidar";
        for (int i = 0; i < np; ++i) {
            P p;
            p.x = r.uniform(-5, 5); p.y = r.uniform(-5, 5); p.z = r.uniform(-5, 5);
            p.normal_x = 1; p.normal_y = p.normal_z = 0;
            p.curvature = j * np + i;
            Unit<P>::put(p, V3(1, 0, 0));
            sent[j].push_back(p);
        }
    }
    auto node = std::make_unique<serpent::Mapping<P>>();
    auto spin = std::make_unique<vros::Spinner>(r.integer(2, 4));
    std::atomic<int> begun{0};
    std::atomic<bool> done{false};
    const std::uint64_t seed = r.next();
    std::thread services([&] {
        Rng q(seed);
        std_srvs::Empty s;
        for (;;) {
            const bool last = done.load(std::memory_order_relaxed);
            const int before = (int)nc::count<sensor_msgs::PointCloud2>(LOCAL);
            const bool graph = q.chance(0.5);
            vr::check(vros::call(graph ? "/serpent/publish_pose_graph" : "/serpent/publish_map", s), "concurrent-service", "");
            const int after = begun.load(std::memory_order_relaxed);
            std::size_t clouds_in = 0;
            double worst = 0;
            if (graph) {
                const auto g = vros::received<serpent::PoseGraph>(GRAPH).back();
                clouds_in = g->poses.size();
                vr::check(g->clouds.size() == clouds_in, "concurrent-graph-torn", cat(g->clouds.size(), " clouds, ", clouds_in, " poses"));
                for (std::size_t j = 0; j < clouds_in; ++j)
                    worst = std::max(worst, nc::apart(nc::from(g->poses[j].pose.pose), pose(j, clouds_in - 1) * b_lidar));
            } else {
                const auto m = vros::Canon<pcl::PointCloud<P>>::from(*vros::received<sensor_msgs::PointCloud2>(GLOBAL).back());
                clouds_in = m->size() / np;
                vr::check(m->size() == clouds_in * np, "concurrent-map-torn", cat(m->size(), " points of clouds of ", np));
                for (const auto& p : *m) {
                    const int id = (int)std::lround(p.curvature), j = id / np;
                    if (!vr::check(id >= 0 && j < (int)clouds_in, "concurrent-map-torn", cat("point ", id, " among ", clouds_in, " clouds"))) break;
                    const V3 want = pose(j, clouds_in - 1) * b_lidar * sent[j][id % np].getVector3fMap().template cast<double>();
                    worst = std::max(worst, (want - p.getVector3fMap().template cast<double>()).norm());
                }
            }
            vr::check((int)clouds_in >= before && (int)clouds_in <= after, "concurrent-answer-order", cat(clouds_in, " clouds; ", before, " finished before the call, ", after, " begun before the answer"));
            vr::check(worst < 1e-3, "concurrent-answer-mixed", cat("poses of different updates in one answer: ", worst));
            vr::event(graph ? "concurrent_graphs" : "concurrent_maps");
            if ((int)clouds_in < n && clouds_in) vr::event("answers_during_mission");
            if (last) return;
            if (q.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(q.integer(1, 500)));
        }
    });
    for (int k = 0; k < n; ++k) {
        nav_msgs::Path path;
        path.header.stamp = T(sent[k].header.stamp * 1000);
        path.header.frame_id = "the_map";
        for (int j = 0; j <= k; ++j) {
            geometry_msgs::PoseStamped p;
            p.header.stamp = T(sent[j].header.stamp * 1000);
            p.pose = nc::to_pose(pose(j, k));
            path.poses.push_back(p);
        }
        begun.store(k + 1, std::memory_order_relaxed);
        vros::send("/serpent/normal_estimation/pointcloud", sent[k]);
        if (r.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.integer(1, 300)));
        vros::send("/serpent/optimisation/path_changes", path);
        // the node keeps ten of each
        if (!vr::check(nc::poll([&] { return (int)nc::count<sensor_msgs::PointCloud2>(LOCAL) + 4 > k; }), "concurrent-stalled", cat("cloud ", k, " of ", n))) break;
    }
    vr::check(nc::poll([&] { return (int)nc::count<sensor_msgs::PointCloud2>(LOCAL) >= n; }), "concurrent-stalled", cat(n, " clouds"));
    done.store(true, std::memory_order_relaxed);
    services.join();
    vr::check(spin->wait_idle(20000), "concurrent-stalled", "");
    for (const auto& x : spin->exceptions()) vr::check(false, "concurrent-exception", x);
    spin.reset();
    node.reset();
    for (const auto& x : vros::Bus::get().errors) vr::check(false, "transport", x);
    vr::event("concurrent_missions");
    vr::nontrivial(r.next());
}
static void concurrent(Rng& r) {
    if (r.chance(0.5)) concurrent_of<pcl::PointNormal>(r);
    else concurrent_of<PointNormalUnit>(r);
}

static void refuse(Rng& r) {
    vros::reset();
    nc::body_frames("serpent", {{"lidar", nc::random_iso(r, 0.8, 0.4)}});
    const int kind = r.integer(0, 2);
    if (kind == 0) vros::set_param("serpent/mapping/frame_extraction_number", -static_cast<int>(r.integer(0, 3)));
    if (kind == 1) vros::set_param("serpent/mapping/frame_extraction_method", std::string("nearby"));
    if (kind < 2) {
        vr::expect_throw([&] { serpent::Mapping<pcl::PointNormal> m; }, "misconfiguration-accepted", cat(kind));
        vr::event("misconfigurations");
    } else {
        vr::check(serpent::other_unit("PAST") == serpent::FrameExtractionMethod::PAST && serpent::to_frame_extraction_method("NEARBY") == serpent::FrameExtractionMethod::NEARBY, "method-names", "");
        // a cloud older than the map must not be mixed with newer frames
        const bool past = r.chance(0.5);
        vros::set_param("serpent/mapping/frame_extraction_method", std::string(past ? "PAST" : "NEARBY"));
        vros::set_param("serpent/mapping/distance_threshold", 1e6);
        serpent::Mapping<pcl::PointNormal> m;
        auto give = [&](ns_t t) {
            pcl::PointCloud<pcl::PointNormal> c;
            c.header.stamp = t / 1000;
            c.push_back(pcl::PointNormal());
            nav_msgs::Path path;
            path.header.stamp = T(t);
            geometry_msgs::PoseStamped p;
            p.header.stamp = T(t);
            p.pose = nc::to_pose(Iso::Identity());
            path.poses.push_back(p);
            vros::send("/serpent/normal_estimation/pointcloud", c);
            vros::send("/serpent/optimisation/path_changes", path);
        };
        give(5000000000ULL);
        vros::spin_all();
        give(4000000000ULL);
        vr::expect_throw([&] { vros::spin_all(); }, "older-cloud-mapped", past ? "PAST" : "NEARBY");
        vr::event("older_clouds");
    }
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"history", history}, {"concurrent", concurrent}, {"refuse", refuse}}); }
