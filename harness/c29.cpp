// C29: the point cloud tool nodes: distances between two clouds, statistics of a stream, files to topics and back.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>
#include <pcl/point_types.h>
#include <pcl/io/auto_io.h>

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <pointcloud_tools/compute_distances.hpp>
#include <pointcloud_tools/pointcloud_analyser.hpp>
#include <pointcloud_tools/pointcloud_file_converter.hpp>
#include "node_common.hpp"
#include "ref.hpp"
#include "vr.hpp"

using nc::T;
using vr::cat;
using vr::Rng;
typedef sensor_msgs::PointCloud2 Cloud;

static int bytes(int type) { static const int S[] = {0, 1, 1, 2, 2, 4, 4, 4, 8}; return S[type]; }
static double get(const Cloud& c, const sensor_msgs::PointField& f, std::size_t i) {
    const unsigned char* p = &c.data[(i / c.width) * c.row_step + (i % c.width) * c.point_step + f.offset];
#define GET(n, t) case n: { t v; std::memcpy(&v, p, sizeof v); return static_cast<double>(v); }
    switch (f.datatype) { GET(1, std::int8_t) GET(2, std::uint8_t) GET(3, std::int16_t) GET(4, std::uint16_t) GET(5, std::int32_t) GET(6, std::uint32_t) GET(7, float) default: { double v; std::memcpy(&v, p, 8); return v; } }
#undef GET
}
static void put(Cloud& c, const sensor_msgs::PointField& f, std::size_t i, double x) {
    unsigned char* p = &c.data[(i / c.width) * c.row_step + (i % c.width) * c.point_step + f.offset];
#define PUT(n, t) case n: { const t v = static_cast<t>(x); std::memcpy(p, &v, sizeof v); break; }
    switch (f.datatype) { PUT(1, std::int8_t) PUT(2, std::uint8_t) PUT(3, std::int16_t) PUT(4, std::uint16_t) PUT(5, std::int32_t) PUT(6, std::uint32_t) PUT(7, float) default: std::memcpy(p, &x, 8); }
#undef PUT
}
static double value(Rng& g, int type) {
    switch (type) {
        case 1: return g.integer(-128, 127);
        case 2: return g.integer(0, 255);
        case 3: return g.integer(-32768, 32767);
        case 4: return g.integer(0, 65535);
        case 5: return g.integer(-2000000000, 2000000000);
        case 6: return 4294967295.0 - g.integer(0, 2000000000);
        case 7: return static_cast<float>(g.uniform(-100, 100));
        default: return g.uniform(-1e6, 1e6);
    }
}
// A cloud of the given fields, with random gaps between fields and after each point when spaced.
static Cloud cloud(Rng& g, const std::vector<std::pair<std::string, int>>& fs, int height, int width, std::uint64_t stamp, const std::string& frame, bool spaced) {
    Cloud c;
    c.header.stamp = T(stamp); c.header.frame_id = frame;
    c.height = height; c.width = width;
    for (auto& f : fs) {
        sensor_msgs::PointField q;
        if (spaced) c.point_step += g.integer(0, 2);
        q.name = f.first; q.datatype = f.second; q.count = 1; q.offset = c.point_step;
        c.point_step += bytes(f.second);
        c.fields.push_back(q);
    }
    if (spaced) c.point_step += g.integer(0, 3);
    c.row_step = c.point_step * c.width;
    c.data.assign(static_cast<std::size_t>(c.row_step) * height, 0);
    for (auto& b : c.data) b = static_cast<unsigned char>(g.integer(0, 255));
    for (std::size_t i = 0; i < static_cast<std::size_t>(height) * width; ++i) for (auto& f : c.fields) put(c, f, i, value(g, f.datatype));
    c.is_dense = true;
    return c;
}

static void distances(Rng& g) {
    vros::reset();
    struct Pair { Cloud s, t; ref::M4 pose; bool sent[2]; };
    std::vector<Pair> seq;
    const int n = g.integer(1, 4);
    const std::vector<std::pair<std::string, int>> F = {{"x", 7}, {"y", 7}, {"z", 7}};
    static const char* FRAMES[] = {"lidar", "map", "body"};
    std::map<std::uint64_t, int> at;
    for (int k = 0; k < n; ++k) {
        Pair p;
        const std::uint64_t t = 5000000000ULL + 100000000ULL * k + 1000ULL * g.integer(0, 999);
        const std::string sf = FRAMES[g.integer(0, 2)], tf = FRAMES[g.integer(0, 2)];
        std::vector<std::pair<std::string, int>> fs = F;
        if (g.chance(0.3)) fs.push_back({"intensity", 7});
        p.s = cloud(g, fs, g.chance(0.25) ? g.integer(2, 4) : 1, g.integer(1, 60), t, sf, g.chance(0.3));
        p.t = cloud(g, F, g.chance(0.2) ? 2 : 1, g.integer(1, 60), t, tf, g.chance(0.3));
        const double spread = g.chance(0.3) ? 1 : 30;
        for (Cloud* c : {&p.s, &p.t}) for (std::size_t i = 0; i < static_cast<std::size_t>(c->width) * c->height; ++i) for (int a = 0; a < 3; ++a) put(*c, c->fields[a], i, g.uniform(-spread, spread));
        // points without a return, as organised clouds carry them; at least one target point is valid
        if (g.chance(0.2))
            for (Cloud* c : {&p.s, &p.t}) {
                for (std::size_t i = c == &p.t; i < static_cast<std::size_t>(c->width) * c->height; ++i)
                    if (g.chance(0.2)) put(*c, c->fields[g.integer(0, 2)], i, g.chance(0.7) ? std::nan("") : INFINITY);
                c->is_dense = false;
            }
        p.pose = sf == tf ? ref::M4(ref::M4::Identity()) : ref::hom(ref::exp_so3(ref::random_rotation_vector(g)), ref::V3(g.uniform(-20, 20), g.uniform(-20, 20), g.uniform(-20, 20)));
        const int missing = g.chance(0.2) ? g.integer(0, 1) : -1;
        for (int j = 0; j < 2; ++j) p.sent[j] = j != missing;
        at[t] = k;
        seq.push_back(std::move(p));
    }
    bool asked_wrong = false;
    vros::Bus::get().tf_lookup = [&](const std::string& target, const std::string& source, const ros::Time& t, void* out) {
        auto it = at.find(t.toNSec());
        if (it == at.end()) { asked_wrong = true; return false; }
        const Pair& p = seq[it->second];
        ref::M4 m;
        if (target == source) m = ref::M4::Identity();
        else if (target == p.s.header.frame_id && source == p.t.header.frame_id) m = p.pose;
        else if (source == p.s.header.frame_id && target == p.t.header.frame_id) m = p.pose.inverse();
        else { asked_wrong = true; return false; }
        auto* o = static_cast<geometry_msgs::TransformStamped*>(out);
        const Eigen::Quaterniond q(ref::M3(m.topLeftCorner<3, 3>()));
        o->header.frame_id = target; o->header.stamp = t; o->child_frame_id = source;
        o->transform.rotation.w = q.w(); o->transform.rotation.x = q.x(); o->transform.rotation.y = q.y(); o->transform.rotation.z = q.z();
        o->transform.translation.x = m(0, 3); o->transform.translation.y = m(1, 3); o->transform.translation.z = m(2, 3);
        return true;
    };
    pct::ComputePointToPointDistances<pcl::PointXYZ, pcl::PointXYZ> node;
    int pos[2] = {0, 0};
    while (pos[0] < n || pos[1] < n) {
        const int j = pos[0] == n ? 1 : pos[1] == n ? 0 : g.integer(0, 1);
        const Pair& p = seq[pos[j]++];
        if (!p.sent[j]) { vr::event("lone_clouds"); continue; }
        vros::send(j ? "/~/input_target" : "/~/input_source", j ? p.t : p.s);
        vros::spin_all();
    }
    vr::check(!asked_wrong, "distance-transform-time", "");
    const auto got = vros::received<Cloud>("/~/output");
    std::size_t k = 0;
    for (const Pair& p : seq) {
        if (!p.sent[0] || !p.sent[1]) continue;
        const std::string d = cat(p.s.width, "x", p.s.height, " to ", p.t.width * p.t.height, " points ", p.s.header.frame_id, " ", p.t.header.frame_id);
        if (!vr::check(k < got.size(), "distances-missing", d)) return;
        const Cloud& c = *got[k++];
        vr::check(c.header.frame_id == p.s.header.frame_id && c.header.stamp == p.s.header.stamp, "distances-header", d);
        static const char* N[] = {"x", "y", "z", "distance"};
        std::vector<const sensor_msgs::PointField*> f;
        for (const char* name : N) for (auto& q : c.fields) if (q.name == name && q.datatype == 7) f.push_back(&q);
        if (!vr::check(f.size() == 4 && c.width * c.height == p.s.width * p.s.height && c.data.size() == static_cast<std::size_t>(c.row_step) * c.height && c.row_step >= c.width * c.point_step, "distances-shape", d)) return;
        for (std::size_t i = 0; i < static_cast<std::size_t>(p.s.width) * p.s.height; ++i) {
            ref::V3 x;
            bool same = true;
            for (int a = 0; a < 3; ++a) { x(a) = get(p.s, p.s.fields[a], i); same = same && (get(c, *f[a], i) == x(a) || (std::isnan(x(a)) && std::isnan(get(c, *f[a], i)))); }
            vr::check(same, "distances-point", cat(d, " point ", i));
            if (!x.allFinite()) {
                vr::check(std::isnan(get(c, *f[3], i)) && !c.is_dense, "distance-of-invalid-point", cat(d, " point ", i, " ", get(c, *f[3], i)));
                vr::event("invalid_points");
                continue;
            }
            double best = 1e300;
            for (std::size_t j = 0; j < static_cast<std::size_t>(p.t.width) * p.t.height; ++j) {
                const ref::V3 y(get(p.t, p.t.fields[0], j), get(p.t, p.t.fields[1], j), get(p.t, p.t.fields[2], j));
                if (!y.allFinite()) continue;
                best = std::min(best, (p.pose.topLeftCorner<3, 3>() * y + p.pose.topRightCorner<3, 1>() - x).norm());
            }
            vr::check(std::abs(get(c, *f[3], i) - best) <= 1e-4, "distance", cat(d, " point ", i, " ", get(c, *f[3], i), " for ", best));
            vr::event("distances_compared");
        }
        if (p.s.header.frame_id != p.t.header.frame_id) vr::event("clouds_in_different_frames");
        vr::nontrivial(g.next());
    }
    vr::check(got.size() == k, "distances-extra", cat(got.size(), " of ", k));
}

static void analyse(Rng& g) {
    vros::reset();
    pct::PointcloudAnalyser node;
    const int n = g.integer(1, 4);
    for (int k = 0; k < n; ++k) {
        std::vector<std::pair<std::string, int>> fs;
        const bool normals = g.chance(0.5);
        for (const char* s : {"x", "y", "z"}) fs.push_back({s, g.chance(0.8) ? 7 : 8});
        if (normals) for (const char* s : {"normal_x", "normal_y", "normal_z"}) fs.push_back({s, 7});
        const int extra = g.integer(0, 4);
        for (int i = 0; i < extra; ++i) fs.push_back({cat("f", i), g.integer(1, 8)});
        for (std::size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[g.integer(0, (int)i - 1)]);
        const std::uint64_t t = 5000000000ULL + 100000000ULL * k + 1000ULL * g.integer(0, 999);
        const Cloud c = cloud(g, fs, g.integer(1, 3), g.integer(1, 20), t, cat("frame", g.integer(0, 9)), g.chance(0.5));
        vros::send("/~/input", c);
        vros::spin_all();
        const auto got = vros::received<statistics_msgs::SummaryStatisticsArray>("/~/output_statistics");
        if (!vr::check(got.size() == static_cast<std::size_t>(k) + 1, "statistics-missing", cat(got.size(), " of ", k + 1))) return;
        const auto& a = *got.back();
        vr::check(a.header.frame_id == c.header.frame_id && a.header.stamp == c.header.stamp, "statistics-header", "");
        if (!vr::check(a.statistics.size() == fs.size(), "statistics-fields", cat(a.statistics.size(), " of ", fs.size()))) return;
        const std::size_t m = static_cast<std::size_t>(c.width) * c.height;
        for (std::size_t i = 0; i < fs.size(); ++i) {
            const auto& s = a.statistics[i];
            double lo = 1e300, hi = -1e300, sum = 0, sq = 0;
            for (std::size_t j = 0; j < m; ++j) { const double v = get(c, c.fields[i], j); lo = std::min(lo, v); hi = std::max(hi, v); sum += v; }
            for (std::size_t j = 0; j < m; ++j) { const double e = get(c, c.fields[i], j) - sum / m; sq += e * e; }
            const double scale = std::max(std::abs(lo), std::abs(hi)) + 1e-9;
            vr::check(s.label == fs[i].first && s.count == m && s.min == lo && s.max == hi && std::abs(s.mean - sum / m) <= 1e-9 * scale && std::abs(s.variance - sq / m) <= 1e-9 * scale * scale, "statistics",
                      cat(s.label, " type ", fs[i].second, " ", s.count, " ", s.min, " ", s.max, " ", s.mean, " ", s.variance, " for ", m, " ", lo, " ", hi, " ", sum / m, " ", sq / m));
            vr::event("statistics_compared");
        }
        if (normals) vr::event("clouds_with_normals");
        vr::nontrivial(g.next());
    }
}

// A directory of this process, removed with its files at the end.
struct Dir {
    std::string path;
    Dir() {
        char b[] = "/tmp/vr_c29_XXXXXX";
        path = mkdtemp(b) ? b : "";
    }
    ~Dir() {
        if (path.empty()) return;
        if (DIR* d = opendir(path.c_str())) {
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
            closedir(d);
        }
        rmdir(path.c_str());
    }
};
static void files(Rng& g) {
    vros::reset();
    Dir dir;
    if (!vr::check(!dir.path.empty(), "scratch-directory", "")) return;
    pct::PointcloudFileConverter node;
    ros::NodeHandle out("~");
    const int n = g.integer(1, 4);
    std::vector<Cloud> saved;
    std::vector<std::string> names;
    // save
    for (int k = 0; k < n; ++k) {
        std::vector<std::pair<std::string, int>> fs = {{"x", 7}, {"y", 7}, {"z", 7}};
        const int extra = g.integer(0, 4);
        for (int i = 0; i < extra; ++i) fs.push_back({cat("f", i), g.integer(1, 8)});
        const Cloud c = cloud(g, fs, g.chance(0.3) ? g.integer(2, 4) : 1, g.integer(1, 40), 5000000000ULL + 1000ULL * g.integer(0, 999), "sensor", g.chance(0.5));
        const std::string topic = cat("cloud", g.integer(0, 2)), path = cat(dir.path, "/c", k, g.chance(0.6) ? ".pcd" : ".ply");
        const bool as_pcl = g.chance(0.5);
        ros::Publisher p = out.advertise<Cloud>(topic, 1, true);
        p.publish(c);
        pointcloud_tools::message_to_file s;
        s.request.filepath = path; s.request.topic = topic; s.request.timeout = 0.1; s.request.is_pcl_type = as_pcl;
        bool ok = false;
        try { ok = vros::call("/~/save_pointcloud", s); } catch (const std::exception& e) { vr::check(false, "save-error", e.what()); return; }
        if (!vr::check(ok && s.response.result_msg.find(cat("(", c.width * c.height, " points)")) != std::string::npos && s.response.result_msg.find(path) != std::string::npos, "save-answer", s.response.result_msg)) return;
        saved.push_back(c);
        names.push_back(path);
    }
    // load in any order, some twice, some topics shared
    std::map<std::string, std::size_t> count;
    for (int k = 0, m = n + g.integer(0, 3); k < m; ++k) {
        const int j = g.integer(0, n - 1);
        const Cloud& c = saved[j];
        pointcloud_tools::file_to_message l;
        l.request.filepath = names[j]; l.request.topic = cat("loaded", g.integer(0, 2)); l.request.frame_id = cat("frame", g.integer(0, 9));
        l.request.latch = g.chance(0.5); l.request.as_pcl_type = g.chance(0.5);
        ros::Time::vr_now() = 7000000000ULL + 1000000000ULL * k + 1000ULL * g.integer(0, 999999);
        bool ok = false;
        try { ok = vros::call("/~/load_pointcloud", l); } catch (const std::exception& e) { vr::check(false, "load-error", e.what()); return; }
        const std::string topic = "/~/" + l.request.topic, d = cat(names[j].substr(names[j].size() - 3), " ", l.request.as_pcl_type ? "pcl" : "ros", " ", c.width, "x", c.height);
        const auto got = vros::received<Cloud>(topic);
        if (!vr::check(ok && got.size() == ++count[topic], "load-published", cat(d, " ", got.size(), " of ", count[topic]))) return;
        vr::check(l.response.result_msg.find(cat("(", c.width * c.height, " points)")) != std::string::npos && l.response.result_msg.find(l.request.topic) != std::string::npos, "load-answer", l.response.result_msg);
        const Cloud& q = *got.back();
        vr::check(q.header.frame_id == l.request.frame_id && q.header.stamp.toNSec() == ros::Time::vr_now().load(), "load-header", d);
        if (!vr::check(q.width == c.width && q.height == c.height && q.data.size() == static_cast<std::size_t>(q.row_step) * q.height && q.row_step >= q.point_step * q.width, "load-shape", cat(d, " ", q.width, "x", q.height))) return;
        for (auto& f : c.fields) {
            const sensor_msgs::PointField* h = nullptr;
            for (auto& x : q.fields) if (x.name == f.name) h = &x;
            if (!vr::check(h && h->datatype == f.datatype && h->offset + bytes(h->datatype) <= q.point_step, "load-field", cat(d, " ", f.name, " type ", (int)f.datatype))) return;
            for (std::size_t i = 0; i < static_cast<std::size_t>(c.width) * c.height; ++i)
                vr::check(get(q, *h, i) == get(c, f, i), "load-value", cat(d, " ", f.name, " type ", (int)f.datatype, " point ", i));
            vr::event("fields_restored");
        }
        vr::event(names[j].back() == 'd' ? "pcd_files" : "ply_files");
        vr::nontrivial(g.next());
    }
    // unusable requests
    const int kind = g.integer(0, 3);
    bool refused = false;
    try {
        if (kind < 2) {
            pointcloud_tools::message_to_file s;
            s.request.filepath = cat(dir.path, kind ? "/z.unknown" : "/z.pcd"); s.request.topic = kind ? "ready" : "never"; s.request.timeout = 0.05; s.request.is_pcl_type = g.chance(0.5);
            ros::Publisher p = out.advertise<Cloud>("ready", 1, true);
            p.publish(saved[0]);
            refused = !vros::call("/~/save_pointcloud", s);
        } else {
            pointcloud_tools::file_to_message l;
            l.request.filepath = kind == 2 ? dir.path + "/absent.pcd" : dir.path; l.request.topic = "bad"; l.request.frame_id = "f"; l.request.as_pcl_type = g.chance(0.5);
            refused = !vros::call("/~/load_pointcloud", l);
        }
    } catch (const std::exception&) { refused = true; }
    vr::check(refused && vros::received<Cloud>("/~/bad").empty() && access((dir.path + "/z.pcd").c_str(), F_OK) != 0, cat("refused-", kind), "");
    vr::event("refusals");
}

int main(int argc, char** argv) {
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    return vr::run(argc, argv, {{"distances", distances}, {"analyse", analyse}, {"files", files}});
}
