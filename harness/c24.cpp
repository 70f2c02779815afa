// C24: what the lidar pipeline hands to registration is the sensor's own points: formatted, filtered as configured, with directions and normals.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>

#include <pointcloud_tools/point_types.hpp>
#include <sensor_msgs/PointCloud2.h>
#include <serpent/front_end/lidar/pointcloud_add_unit_vectors.hpp>
#include <serpent/front_end/lidar/pointcloud_filter.hpp>
#include <serpent/front_end/lidar/pointcloud_formatter.hpp>
#include <serpent/front_end/lidar/pointcloud_normal_estimation.hpp>
#include <cstring>
#include <Eigen/Eigenvalues>
#include "node_common.hpp"
#include "vr.hpp"

using nc::T;
using vr::cat;
using vr::Rng;
typedef sensor_msgs::PointCloud2 Msg;
typedef Eigen::Vector3d V3;

static const char* IN = "/serpent/input/pointcloud";
static const char* FORMATTED = "/serpent/formatter/formatted_pointcloud";
static const char* FINAL = "/serpent/filter/filtered_pointcloud";
static const char* UNIT = "/serpent/add_unit_vectors/pointcloud";
static const char* NORMALS = "/serpent/normal_estimation/pointcloud";

// ---- reading a cloud through its field table, independently of pointcloud_tools
enum { I8 = 1, U8, I16, U16, I32, U32, F32, F64 };
static int width(int t) { static const int w[] = {0, 1, 1, 2, 2, 4, 4, 4, 8}; return w[t]; }
static const sensor_msgs::PointField* field(const Msg& m, const std::string& n) {
    for (const auto& f : m.fields) if (f.name == n) return &f;
    return nullptr;
}
template<typename X> static double as(const unsigned char* p) { X x; std::memcpy(&x, p, sizeof x); return (double)x; }
static double read(const unsigned char* p, int t) {
    switch (t) {
        case I8: return as<std::int8_t>(p);
        case U8: return as<std::uint8_t>(p);
        case I16: return as<std::int16_t>(p);
        case U16: return as<std::uint16_t>(p);
        case I32: return as<std::int32_t>(p);
        case U32: return as<std::uint32_t>(p);
        case F32: return as<float>(p);
        default: return as<double>(p);
    }
}
static void write(unsigned char* p, int t, double v) {
    switch (t) {
        case U8: { std::uint8_t x = (std::uint8_t)v; std::memcpy(p, &x, 1); break; }
        case U16: { std::uint16_t x = (std::uint16_t)v; std::memcpy(p, &x, 2); break; }
        case U32: { std::uint32_t x = (std::uint32_t)v; std::memcpy(p, &x, 4); break; }
        case F32: { float x = (float)v; std::memcpy(p, &x, 4); break; }
        default: { std::memcpy(p, &v, 8); break; }
    }
}
static std::size_t points(const Msg& m) { return (std::size_t)m.width * m.height; }
static double get(const Msg& m, std::size_t i, const std::string& n) {
    const auto* f = field(m, n);
    return f ? read(&m.data[i * m.point_step + f->offset], f->datatype) : std::nan("");
}
static V3 xyz(const Msg& m, std::size_t i) { return V3(get(m, i, "x"), get(m, i, "y"), get(m, i, "z")); }

struct Field { std::string name; int type; };
// A cloud with these fields, in a random layout; values come from fill(point, field).
template<typename F>
static Msg make(Rng& r, std::vector<Field> fields, std::size_t n, F&& fill) {
    Msg m;
    if (r.chance(0.5)) for (std::size_t i = fields.size(); i > 3; --i) std::swap(fields[i - 1], fields[3 + r.integer(0, (int)i - 4)]);
    std::uint32_t off = 0;
    for (const auto& f : fields) {
        if (f.name != "x" && f.name != "y" && f.name != "z" && r.chance(0.3)) off += 4 * r.integer(1, 2);
        sensor_msgs::PointField p;
        off = (off + width(f.type) - 1) / width(f.type) * width(f.type);
        p.name = f.name; p.offset = off; p.datatype = f.type; p.count = 1;
        off += width(f.type);
        m.fields.push_back(p);
    }
    m.point_step = (off + 3) / 4 * 4 + (r.chance(0.4) ? 4 * r.integer(1, 3) : 0);
    m.height = 1;
    for (int h : {2, 4, 3}) if (n % h == 0 && n && r.chance(0.2)) { m.height = h; break; }
    m.width = n / m.height;
    m.row_step = m.point_step * m.width;
    m.data.resize(m.point_step * n);
    m.is_dense = 1;
    for (std::size_t i = 0; i < n; ++i)
        for (const auto& f : m.fields) write(&m.data[i * m.point_step + f.offset], f.datatype, fill(i, f.name));
    return m;
}

static std::string errors() {
    std::string s;
    for (const auto& e : vros::Bus::get().errors) s += e + "; ";
    return s;
}

// every field of point i of a is point j of b, except those excluded
static bool same_point(const Msg& a, std::size_t i, const Msg& b, std::size_t j, std::initializer_list<const char*> except = {}) {
    for (const auto& f : a.fields) {
        bool skip = false;
        for (auto e : except) skip |= f.name == e;
        if (skip) continue;
        const auto* g = field(b, f.name);
        if (!g || g->datatype != f.datatype) return false;
        if (std::memcmp(&a.data[i * a.point_step + f.offset], &b.data[j * b.point_step + g->offset], width(f.datatype)) != 0) return false;
    }
    return true;
}

static void same_header(const Msg& out, const Msg& in, const std::string& frame, const std::string& key) {
    vr::check(out.header.stamp.toNSec() == in.header.stamp.toNSec() / 1000 * 1000, key + "-stamp", cat(out.header.stamp.toNSec(), " vs ", in.header.stamp.toNSec()));
    vr::check(out.header.frame_id == frame, key + "-frame", out.header.frame_id);
}

static bool one_thread_or_many(Rng& r) {
    if (r.chance(0.7)) { vros::spin_all(); return true; }
    vros::spin_random(r);
    return true;
}

// ------------------------------------------------------------------ formatter
static void formatter(Rng& r) {
    vros::reset();
    const bool ouster = r.chance(0.5), tmax = r.chance(0.5), first = r.chance(0.3);
    const double max = r.uniform(0.02, 0.09);
    nc::body_frames("serpent", {{"lidar", nc::random_iso(r, 0.3, 0.3)}, {"imu", nc::random_iso(r, 0.3, 0.3)}});
    if (!ouster || r.chance(0.5)) vros::set_param("serpent/pointcloud_type", std::string(ouster ? "OUSTER" : "CUSTOM"));
    vros::set_param("serpent/time_field_filter/enabled", tmax);
    vros::set_param("serpent/time_field_filter/max", max);
    vros::set_param("serpent/first_pointcloud_removal/enabled", first);
    serpent::PointcloudFormatter node;
    std::vector<Msg> sent;
    const int n = r.integer(1, 4);
    const int naming = r.integer(0, 2);  // custom: "t", "time" or both
    for (int k = 0; k < n; ++k) {
        std::vector<Field> f{{"x", F32}, {"y", F32}, {"z", F32}, {"intensity", F32}, {"ring", U8}};
        if (ouster) { f.push_back({"t", U32}); f.push_back({"range", U32}); f.push_back({"reflectivity", U16}); }
        else {
            if (naming != 1) f.push_back({"t", F32});
            if (naming != 0) f.push_back({"time", F32});
            if (r.chance(0.5)) f.push_back({"range", F32});
        }
        const std::size_t np = r.chance(0.1) ? 0 : r.integer(1, 60);
        const double span = r.chance(0.2) ? 4.0 : 0.1;
        Msg m = make(r, f, np, [&](std::size_t, const std::string& name) -> double {
            if (name == "t" || name == "time") return ouster ? std::floor(r.uniform(0, span) * 1e9) : r.uniform(0, span);
            if (name == "range") return ouster ? (double)r.integer(0, 200000) : r.uniform(0, 200);
            if (name == "ring") return r.integer(0, 127);
            if (name == "reflectivity") return r.integer(0, 65535);
            return r.uniform(-80, 80);
        });
        m.header.stamp = T(7000000000ULL + k * 100000000ULL + r.integer(0, 999999));
        m.header.frame_id = "os_sensor";
        sent.push_back(m);
        vros::send(IN, m);
        if (r.chance(0.5)) one_thread_or_many(r);
    }
    vros::spin_all();
    vr::check(errors().empty(), "formatter-error", errors());
    auto got = vros::received<Msg>(FORMATTED);
    if (first) sent.erase(sent.begin()), vr::event("first_clouds_removed");
    const std::string d = cat(ouster ? " [OUSTER" : " [CUSTOM", tmax ? cat(", max ", max) : "", "]");
    if (!vr::check(got.size() == sent.size(), "formatted-clouds", cat(got.size(), " of ", sent.size(), d))) return;
    for (std::size_t k = 0; k < sent.size(); ++k) {
        const Msg &a = sent[k], &b = *got[k];
        same_header(b, a, "lidar", "formatted");
        const std::string tin = ouster ? "t" : (field(a, "t") ? "t" : "time");
        const double ts = ouster ? 1e-9 : 1, rs = ouster ? 1e-3 : 1;
        if (!vr::check(field(b, "t") && field(b, "t")->datatype == F32 && (!field(a, "range") || field(b, "range")->datatype == F32), "formatted-fields", d)) return;
        if (!vr::check(b.data.size() == points(b) * b.point_step, "formatted-size", d)) return;
        std::size_t j = 0;
        for (std::size_t i = 0; i < points(a); ++i) {
            const double t = get(a, i, tin) * ts;
            if (tmax && t > max * (1 + 1e-6)) { vr::event("late_points"); continue; }
            if (tmax && t > max * (1 - 1e-6)) {  // on the limit in single precision: either
                if (j >= points(b) || (xyz(b, j) - xyz(a, i)).norm() > 0) continue;
            }
            if (!vr::check(j < points(b), "formatted-points-lost", cat("cloud ", k, " point ", i, d))) return;
            vr::check(std::abs(get(b, j, "t") - t) <= 1e-6 * std::abs(t) + 1e-12, "formatted-time", cat(get(b, j, "t"), " vs ", t, d));
            if (field(a, "range")) vr::check(std::abs(get(b, j, "range") - get(a, i, "range") * rs) <= 1e-6 * get(a, i, "range") * rs, "formatted-range", cat(get(b, j, "range"), " vs ", get(a, i, "range"), d));
            const bool same = ouster ? same_point(a, i, b, j, {"t", "range"}) : tin == "time" ? same_point(a, i, b, j, {"time"}) : same_point(a, i, b, j);
            if (!vr::check(same, "formatted-point", cat("cloud ", k, " point ", i, d))) return;
            ++j;
            vr::event("points_formatted");
        }
        vr::check(j == points(b), "formatted-points-kept", cat("cloud ", k, ": ", points(b), " points, expected ", j, d));
        if (!points(a)) vr::event("empty_clouds");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ filters
static void filters(Rng& r) {
    vros::reset();
    bool on[5];
    for (auto& b : on) b = r.chance(0.45);
    if (!(on[0] || on[1] || on[2] || on[3] || on[4])) on[r.integer(0, 4)] = true;
    const bool voxel = on[0], body = on[1], range = on[2], sor = on[3], sample = on[4];
    const double scale = r.chance(0.6) ? 1.0 : std::pow(10.0, r.uniform(-0.5, 1.8));  // a desk to an open field
    const double leaf = scale * r.uniform(0.3, 1.2);
    const int min_points = r.chance(0.5) ? 1 : r.integer(1, 3);
    V3 lo, hi, bt, br;
    for (int i = 0; i < 3; ++i) {
        const double a = scale * r.uniform(-3, 3), b = scale * r.uniform(-3, 3);
        lo[i] = std::min(a, b) - 0.5 * scale; hi[i] = std::max(a, b) + 0.5 * scale;
        bt[i] = scale * r.uniform(-1, 1); br[i] = r.chance(0.5) ? 0 : r.uniform(-1, 1);
    }
    const bool unlimited = r.chance(0.15);  // no maximum range configured
    const double rmin = scale * r.uniform(0, 2), rmax = unlimited ? 1e300 : scale * r.uniform(3, 9);
    const int k = r.integer(2, 8), samples = r.integer(0, 60), seed = r.integer(0, 1000);
    const double mul = r.uniform(0, 2);
    const std::string s = "serpent/";
    vros::set_param(s + "voxel_grid_filter/enabled", voxel);
    vros::set_param(s + "voxel_grid_filter/leaf_size", leaf);
    vros::set_param(s + "voxel_grid_filter/minimum_points_number_per_voxel", min_points);
    vros::set_param(s + "body_filter/enabled", body);
    const char* ax[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) {
        vros::set_param(s + "body_filter/min/" + ax[i], lo[i]);
        vros::set_param(s + "body_filter/max/" + ax[i], hi[i]);
        vros::set_param(s + "body_filter/translation/" + ax[i], bt[i]);
        vros::set_param(s + "body_filter/rotation/r" + ax[i], br[i]);
    }
    vros::set_param(s + "range_filter/enabled", range);
    vros::set_param(s + "range_filter/min", rmin);
    if (!unlimited) vros::set_param(s + "range_filter/max", rmax);
    vros::set_param(s + "statistical_outlier_removal/enabled", sor);
    vros::set_param(s + "statistical_outlier_removal/mean_k", k);
    vros::set_param(s + "statistical_outlier_removal/stddev_mul_thresh", mul);
    vros::set_param(s + "random_sample_filter/enabled", sample);
    vros::set_param(s + "random_sample_filter/sample_size", samples);
    vros::set_param(s + "random_sample_filter/random_seed", seed);
    serpent::PointcloudFilter node("formatter/formatted_pointcloud");
    vr::check(node.output_topic() == "filter/filtered_pointcloud", "filter-output-topic", node.output_topic());
    std::vector<Msg> sent;
    const int n = r.integer(1, 3);
    for (int c = 0; c < n; ++c) {
        std::vector<Field> f{{"x", F32}, {"y", F32}, {"z", F32}, {"t", F32}, {"range", F32}, {"intensity", F32}};
        if (!voxel && r.chance(0.5)) f.push_back({"ring", U8});
        const std::size_t np = r.chance(0.1) ? r.integer(150, 900) : r.integer(20, 150);
        std::vector<V3> p(np);
        for (std::size_t i = 0; i < np; ++i) p[i] = i && r.chance(0.3) ? V3(p[i - 1] + nc::vec(r, 0.1 * scale)) : nc::vec(r, scale * (r.chance(0.05) ? 12 : 2.5));
        Msg m = make(r, f, np, [&](std::size_t i, const std::string& name) -> double {
            if (name == "x") return p[i].x();
            if (name == "y") return p[i].y();
            if (name == "z") return p[i].z();
            if (name == "range") return p[i].norm();
            if (name == "t") return i * 1e-3;
            if (name == "ring") return r.integer(0, 127);
            return r.uniform(0, 1000);
        });
        m.header.stamp = T(7000000000ULL + c * 100000000ULL);
        m.header.frame_id = "lidar";
        sent.push_back(m);
        vros::send(FORMATTED, m);
        if (r.chance(0.5)) one_thread_or_many(r);
    }
    vros::spin_all();
    vr::check(errors().empty(), "filter-error", errors());
    // stage by stage, on what the stage before published
    const char* mid[] = {"/serpent/filter/voxel_filtered_pointcloud", "/serpent/filter/body_filtered_pointcloud", "/serpent/filter/range_filtered_pointcloud", "/serpent/filter/sor_filtered_pointcloud", FINAL};
    const char* names[] = {"voxel", "body", "range", "outlier", "sample"};
    std::vector<Msg> in = sent;
    for (int st = 0; st < 5; ++st) {
        if (!on[st]) continue;
        bool later = false;
        for (int q = st + 1; q < 5; ++q) later |= on[q];
        std::vector<Msg> out;
        for (const auto& m : vros::received<Msg>(later ? mid[st] : FINAL)) out.push_back(*m);
        const std::string key = names[st];
        if (!vr::check(out.size() == in.size(), key + "-clouds", cat(out.size(), " of ", in.size(), later ? " (then others)" : " (last)"))) return;
        for (std::size_t c = 0; c < in.size(); ++c) {
            const Msg &a = in[c], &b = out[c];
            same_header(b, a, "lidar", key);
            if (!vr::check(b.data.size() == points(b) * b.point_step, key + "-size", "")) return;
            if (st == 0) {
                std::map<std::tuple<int, int, int>, std::vector<std::size_t>> cells;
                bool tie = false;
                for (std::size_t i = 0; i < points(a); ++i) {
                    const V3 q = xyz(a, i) / leaf;
                    for (int x = 0; x < 3; ++x) tie |= std::abs(q[x] - std::round(q[x])) < 1e-5;
                    cells[std::make_tuple((int)std::floor(q.x()), (int)std::floor(q.y()), (int)std::floor(q.z()))].push_back(i);
                }
                if (tie) { vr::event("points_on_a_cell_boundary"); continue; }
                for (auto it = cells.begin(); it != cells.end();) it = (int)it->second.size() < min_points ? cells.erase(it) : std::next(it);
                if (!vr::check(points(b) == cells.size(), "voxel-count", cat(points(b), " cells, expected ", cells.size(), " min points ", min_points))) return;
                for (std::size_t j = 0; j < points(b); ++j) {
                    const V3 q = xyz(b, j);
                    bool ok = false;
                    for (const auto& cell : cells) {
                        double e = 0;
                        for (const char* nme : {"x", "y", "z", "t", "range", "intensity"}) {
                            double mean = 0;
                            for (auto i : cell.second) mean += get(a, i, nme);
                            mean /= cell.second.size();
                            e = std::max(e, std::abs(mean - get(b, j, nme)) / (1 + std::abs(mean)));
                        }
                        ok |= e < 1e-4;
                    }
                    if (!vr::check(ok, "voxel-average", cat("point ", j, " at ", q.transpose(), " is not the average of a cell"))) return;
                    vr::event("cells_compared");
                }
                continue;
            }
            // the others keep points unchanged and in order
            std::vector<int> keep(points(a), 1);
            if (st == 1) {
                Eigen::Affine3d box = Eigen::Translation3d(bt) * Eigen::AngleAxisd(br.z(), V3::UnitZ()) * Eigen::AngleAxisd(br.y(), V3::UnitY()) * Eigen::AngleAxisd(br.x(), V3::UnitX());
                for (std::size_t i = 0; i < points(a); ++i) {
                    const V3 q = box.inverse() * xyz(a, i);
                    const double inside = std::min((q - lo).minCoeff(), (hi - q).minCoeff());
                    keep[i] = std::abs(inside) < 1e-4 * std::max(scale, 1.0) ? -1 : inside < 0;
                    vr::event(inside > 0 ? "body_points_removed" : "points_outside_body");
                }
            } else if (st == 2) {
                for (std::size_t i = 0; i < points(a); ++i) {
                    const double q = get(a, i, "range");
                    keep[i] = std::min(std::abs(q - rmin), std::abs(q - rmax)) < 1e-5 * std::max(scale, 1.0) ? -1 : q > rmin && q < rmax;
                    if (!keep[i]) vr::event("points_out_of_range");
                }
            } else if (st == 3) {
                if ((int)points(a) <= k + 1) { vr::event("clouds_too_small_for_outliers"); continue; }
                // PCL counts the point itself among the mean_k neighbours; counting mean_k others is as good a reading
                int agree = 0;
                for (int others : {k - 1, k}) {
                    std::vector<double> dist(points(a));
                    double sum = 0, sq = 0;
                    for (std::size_t i = 0; i < points(a); ++i) {
                        std::vector<double> ds;
                        for (std::size_t j = 0; j < points(a); ++j) if (j != i) ds.push_back((xyz(a, i) - xyz(a, j)).norm());
                        std::sort(ds.begin(), ds.end());
                        for (int q = 0; q < others; ++q) dist[i] += ds[q] / others;
                        sum += dist[i]; sq += dist[i] * dist[i];
                    }
                    const double nn = (double)points(a), sd = std::sqrt(std::max(0.0, (sq - sum * sum / nn) / (nn - 1))), limit = sum / nn + mul * sd;
                    std::size_t j = 0, gone = 0;
                    bool ok = true;
                    for (std::size_t i = 0; i < points(a) && ok; ++i) {
                        const bool here = j < points(b) && same_point(a, i, b, j), close = std::abs(dist[i] - limit) < 1e-4 * (1 + limit);
                        if (here) ++j; else ++gone;
                        ok = close || here == (dist[i] < limit);
                    }
                    if (ok && j == points(b)) { if (!agree++) vr::event("outliers_removed", gone), vr::event("points_kept", j); }
                }
                vr::check(agree > 0, "outlier-points", cat(points(b), " of ", points(a), " kept, mean_k ", k, " threshold ", mul));
                continue;
            } else {
                std::size_t j = 0;
                const std::size_t want = std::min<std::size_t>(samples, points(a));
                vr::check(points(b) == want, "sample-size", cat(points(b), " of ", points(a), ", expected ", want));
                for (std::size_t i = 0; i < points(a) && j < points(b); ++i) if (same_point(a, i, b, j)) ++j;
                vr::check(j == points(b), "sample-points", cat("only ", j, " of ", points(b), " are points of the cloud, in order"));
                vr::event("samples_drawn");
                continue;
            }
            std::size_t j = 0;
            for (std::size_t i = 0; i < points(a); ++i) {
                if (keep[i] == 0) continue;
                if (keep[i] < 0 && (j >= points(b) || !same_point(a, i, b, j))) continue;
                if (!vr::check(j < points(b) && same_point(a, i, b, j), key + "-points", cat("point ", i, " of ", points(a), " at ", xyz(a, i).transpose(), " lost or changed; ", points(b), " kept"))) return;
                ++j;
                vr::event("points_kept");
            }
            vr::check(j == points(b), key + "-kept", cat(points(b), " points, expected ", j));
        }
        in = out;
    }
    vr::check(vros::received<Msg>(FINAL).size() == sent.size(), "filter-final", "");
    vr::nontrivial(r.next());
    vr::event("chains_checked");
}

// ------------------------------------------------------------------ directions and normals
static void normals(Rng& r) {
    vros::reset();
    const bool unit = r.chance(0.5), knn = r.chance(0.6);
    const int k = r.integer(5, 20);
    const double radius = r.uniform(0.4, 1.2);
    V3 view = r.chance(0.5) ? V3(V3::Zero()) : nc::vec(r, 3);
    const std::string s = "serpent/normal_estimation/";
    vros::set_param(s + "method", std::string(knn ? "knn" : "radius"));
    vros::set_param(s + "k", k);
    vros::set_param(s + "radius", radius);
    vros::set_param(s + "threads", (int)r.integer(1, 4));
    vros::set_param(s + "viewpoint/x", view.x());
    vros::set_param(s + "viewpoint/y", view.y());
    vros::set_param(s + "viewpoint/z", view.z());
    std::unique_ptr<serpent::PointcloudAddUnitVectors> add;
    std::unique_ptr<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>> plain;
    std::unique_ptr<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>> full;
    if (unit) {
        add = std::make_unique<serpent::PointcloudAddUnitVectors>("filter/filtered_pointcloud");
        full = std::make_unique<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>>(add->output_topic());
    } else plain = std::make_unique<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>>("filter/filtered_pointcloud");
    std::vector<Msg> sent;
    const int n = r.integer(1, 3);
    for (int c = 0; c < n; ++c) {
        const std::size_t np = r.integer(25, 90);
        std::vector<V3> p(np);
        // a few noisy planes, away from the sensor
        V3 o, e1, e2;
        for (std::size_t i = 0; i < np; ++i) {
            if (i % 30 == 0) { o = nc::vec(r, 6); e1 = nc::vec(r, 1).normalized(); e2 = nc::vec(r, 1).normalized(); }
            p[i] = o + e1 * r.uniform(-1.5, 1.5) + e2 * r.uniform(-1.5, 1.5) + nc::vec(r, 0.03);
        }
        Msg m = make(r, {{"x", F32}, {"y", F32}, {"z", F32}, {"t", F32}, {"intensity", F32}}, np, [&](std::size_t i, const std::string& name) -> double {
            return name == "x" ? p[i].x() : name == "y" ? p[i].y() : name == "z" ? p[i].z() : r.uniform(0, 10);
        });
        m.header.stamp = T(7000000000ULL + c * 100000000ULL);
        m.header.frame_id = "lidar";
        sent.push_back(m);
        vros::send(FINAL, m);
        if (r.chance(0.5)) one_thread_or_many(r);
    }
    vros::spin_all();
    vr::check(errors().empty(), "normals-error", errors());
    if (unit) {
        auto u = vros::received<Msg>(UNIT);
        if (!vr::check(u.size() == sent.size(), "unit-clouds", cat(u.size(), " of ", sent.size()))) return;
        for (std::size_t c = 0; c < sent.size(); ++c) {
            same_header(*u[c], sent[c], "lidar", "unit");
            if (!vr::check(points(*u[c]) == points(sent[c]), "unit-points", "")) return;
            for (std::size_t i = 0; i < points(sent[c]); ++i) {
                const V3 want = xyz(sent[c], i).normalized(), got(get(*u[c], i, "ux"), get(*u[c], i, "uy"), get(*u[c], i, "uz"));
                if (!vr::check(same_point(sent[c], i, *u[c], i) && (want - got).norm() < 1e-5, "unit-vector", cat("point ", i, ": ", got.transpose(), " vs ", want.transpose()))) return;
                vr::event("directions_added");
            }
        }
    }
    auto got = vros::received<Msg>(NORMALS);
    if (!vr::check(got.size() == sent.size(), "normal-clouds", cat(got.size(), " of ", sent.size()))) return;
    for (std::size_t c = 0; c < sent.size(); ++c) {
        const Msg &a = sent[c], &b = *got[c];
        same_header(b, a, "lidar", "normals");
        if (!vr::check(points(b) == points(a), "normal-points", cat(points(b), " of ", points(a)))) return;
        for (std::size_t i = 0; i < points(a); ++i) {
            const V3 p = xyz(a, i), g(get(b, i, "normal_x"), get(b, i, "normal_y"), get(b, i, "normal_z"));
            if (!vr::check((p - xyz(b, i)).norm() == 0, "normal-point-moved", cat("point ", i))) return;
            if (unit) vr::check((V3(get(b, i, "ux"), get(b, i, "uy"), get(b, i, "uz")) - p.normalized()).norm() < 1e-5, "normal-unit-vector", cat("point ", i));
            std::vector<std::pair<double, std::size_t>> ds;
            for (std::size_t j = 0; j < points(a); ++j) ds.emplace_back((xyz(a, j) - p).norm(), j);
            std::sort(ds.begin(), ds.end());
            std::vector<V3> nb;
            bool tie = false;
            for (std::size_t j = 0; j < ds.size(); ++j)
                if (knn ? (int)j < k : ds[j].first < radius) nb.push_back(xyz(a, ds[j].second));
                else { tie = knn ? j > 0 && ds[j].first - ds[j - 1].first < 1e-5 : false; break; }
            if (!knn) for (auto& q : ds) tie |= std::abs(q.first - radius) < 1e-5;
            if (tie) { vr::event("neighbour_ties"); continue; }
            if (nb.size() < 3) {
                vr::event("isolated_points");
                continue;
            }
            V3 mean = V3::Zero();
            for (auto& q : nb) mean += q / nb.size();
            Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
            for (auto& q : nb) cov += (q - mean) * (q - mean).transpose() / nb.size();
            Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
            const V3 w = es.eigenvalues();
            if (w[1] - w[0] < 0.02 * w[2] || nb.size() < 4 || w[0] < 1e-6) { vr::event("undetermined_normals"); continue; }
            V3 want = es.eigenvectors().col(0);
            const double side = want.dot(view - p);
            if (side < 0) want = -want;
            const double tol = 2e-3;
            if (std::abs(side) > 1e-3 * (view - p).norm()) {
                vr::maximum("normal_error", (g - want).norm());
                if (!vr::check((g - want).norm() < tol, "normal", cat("point ", i, ": ", g.transpose(), " vs ", want.transpose(), knn ? " knn" : " radius"))) return;
                vr::event("normals_compared");
            }
            const double curv = w[0] / w.sum();
            vr::check(std::abs(get(b, i, "curvature") - curv) < 2e-3, "curvature", cat(get(b, i, "curvature"), " vs ", curv));
        }
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ all nodes together
static void pipeline(Rng& r) {
    vros::reset();
    nc::body_frames("serpent", {{"lidar", nc::random_iso(r, 0.3, 0.3)}, {"imu", nc::random_iso(r, 0.3, 0.3)}});
    const bool unit = r.chance(0.5);
    vros::set_param("serpent/pointcloud_type", std::string("OUSTER"));
    vros::set_param("serpent/voxel_grid_filter/enabled", false);
    vros::set_param("serpent/range_filter/min", 1.0);
    vros::set_param("serpent/range_filter/max", 50.0);
    vros::set_param("serpent/normal_estimation/k", 8);
    serpent::PointcloudFormatter formatter;
    serpent::PointcloudFilter filter("formatter/formatted_pointcloud");
    std::unique_ptr<serpent::PointcloudAddUnitVectors> add;
    std::unique_ptr<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>> plain;
    std::unique_ptr<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>> full;
    if (unit) {
        add = std::make_unique<serpent::PointcloudAddUnitVectors>(filter.output_topic());
        full = std::make_unique<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>>(add->output_topic());
    } else plain = std::make_unique<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>>(filter.output_topic());
    const int n = r.integer(2, 6);
    std::vector<std::vector<V3>> want(n);
    {
        vros::Spinner spin(r.integer(2, 6));
        for (int c = 0; c < n; ++c) {
            const std::size_t np = r.integer(20, 50);
            std::vector<V3> p(np);
            for (auto& q : p) { q = nc::vec(r, 1).normalized() * r.uniform(0.2, 60); }
            for (auto& q : p) if (q.norm() > 1.001 && q.norm() < 49.99) want[c].push_back(q);
                else if (q.norm() > 0.998 && q.norm() < 50.01) q *= 0.01;
            Msg m = make(r, {{"x", F32}, {"y", F32}, {"z", F32}, {"t", U32}, {"range", U32}}, np, [&](std::size_t i, const std::string& name) -> double {
                return name == "x" ? p[i].x() : name == "y" ? p[i].y() : name == "z" ? p[i].z() : name == "t" ? 1000.0 * i : std::floor(p[i].norm() * 1000);
            });
            m.header.stamp = T(7000000000ULL + c * 100000000ULL);
            m.header.frame_id = "os_sensor";
            vros::send(IN, m);
            if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.integer(0, 300)));
        }
        spin.wait_idle();
        vr::check(spin.exceptions().empty(), "pipeline-error", spin.exceptions().empty() ? "" : spin.exceptions()[0]);
    }
    auto got = vros::received<Msg>(NORMALS);
    if (!vr::check((int)got.size() == n, "pipeline-clouds", cat(got.size(), " of ", n))) return;
    for (int c = 0; c < n; ++c) {
        const Msg& b = *got[c];
        if (!vr::check(b.header.stamp == T(7000000000ULL + c * 100000000ULL) && b.header.frame_id == "lidar", "pipeline-order", cat("cloud ", c))) return;
        if (!vr::check(points(b) == want[c].size(), "pipeline-points", cat(points(b), " of ", want[c].size()))) return;
        for (std::size_t i = 0; i < points(b); ++i) if (!vr::check((xyz(b, i) - want[c][i]).norm() < 1e-4, "pipeline-point", cat("cloud ", c, " point ", i))) return;
    }
    vr::event("pipelines_checked");
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ refusals
static void refuse(Rng& r) {
    vros::reset();
    nc::body_frames("serpent", {{"lidar", nc::random_iso(r, 0.3, 0.3)}});
    const int kind = r.integer(0, 7);
    std::vector<Field> f{{"x", F32}, {"y", F32}, {"z", F32}};
    auto cloud = [&] { return make(r, f, 12, [&](std::size_t, const std::string&) { return r.uniform(1, 9); }); };
    bool refused = false;
    std::string d = cat("kind ", kind);
    try {
        if (kind == 0) { vros::set_param("serpent/pointcloud_type", std::string(r.chance(0.5) ? "VELODYNE" : "")); serpent::PointcloudFormatter n; }
        else if (kind <= 3) {
            if (kind == 1 || kind == 2) vros::set_param("serpent/pointcloud_type", std::string("CUSTOM"));
            vros::set_param("serpent/time_field_filter/enabled", kind != 3);
            if (kind == 2) f.push_back({"t", F64});
            if (kind == 3 && r.chance(0.5)) f.push_back({r.chance(0.5) ? "t" : "range", U32});
            serpent::PointcloudFormatter n;
            vros::send(IN, cloud());
            vros::spin_all();
        } else if (kind == 4) {
            vros::set_param("serpent/voxel_grid_filter/enabled", false);
            serpent::PointcloudFilter n;
            vros::send(IN, cloud());
            vros::spin_all();
        } else if (kind <= 6) {
            vros::set_param("serpent/random_sample_filter/enabled", true);
            vros::set_param(kind == 5 ? "serpent/random_sample_filter/sample_size" : "serpent/random_sample_filter/random_seed", -(int)r.integer(1, 100));
            serpent::PointcloudFilter n;
        } else {
            vros::set_param("serpent/normal_estimation/method", std::string(r.chance(0.5) ? "KNN" : "nearest"));
            serpent::PointcloudNormalEstimation<> n;
        }
    } catch (const std::exception& e) { refused = true; }
    vr::check(refused && vros::received<Msg>(FORMATTED).empty() && vros::received<Msg>(FINAL).empty(), cat("refused-", kind), d);
    vr::event("refusals");
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"formatter", formatter}, {"filters", filters}, {"normals", normals}, {"pipeline", pipeline}, {"refuse", refuse}});
}
