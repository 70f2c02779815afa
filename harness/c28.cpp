// C28: the stereo pipeline node publishes, for every complete stereo frame, exactly the tracked features of the configured tracker.
#include <ros/ros.h>
#include <pcl_ros/point_cloud.h>

#include <serpent/front_end/stereo/stereo_factor_finder.hpp>
#include <opencv2/imgproc.hpp>
#include "node_common.hpp"
#include "vr.hpp"

using nc::T;
using vr::cat;
using vr::Rng;
typedef sensor_msgs::Image Image;
typedef sensor_msgs::CameraInfo Info;
typedef serpent::StereoFeatureTracker Tracker;
static const char* IN[4] = {"/serpent/stereo/left/image", "/serpent/stereo/right/image", "/serpent/stereo/left/camera_info", "/serpent/stereo/right/camera_info"};
static const char* FEATURES = "/serpent/stereo/features";
static const char* DEBUG[7] = {"left/extracted_keypoints", "right/extracted_keypoints", "left/sof_matches", "right/sof_matches", "stereo_filtered_matches", "new_matches", "tracked_matches"};

template<typename X>
static void param(const std::string& n, const X& v) { vros::set_param("/serpent/" + n, v); }

// A tracker configured by hand; every value is also set as the documented parameter.
struct Config {
    cv::Ptr<cv::Feature2D> detector;
    cv::Ptr<cv::SparseOpticalFlow> flow;
    cv::Ptr<serpent::StereoMatchFilter> filter;
    cv::Ptr<serpent::StereoKeyPointMatcher> matcher;
    float near;
    double cost;
    cv::Rect2i roi;
    bool range = false;
    float max_range, min_range;
    std::string name;
};
static Config config(Rng& g, int rows, int cols) {
    Config c;
    const std::string d = "stereo_tracking/detector/", f = "stereo_tracking/sparse_optical_flow/", k = "stereo_tracking/stereo_keypoint_matcher/";
    const int det = g.integer(0, 3);
    // all groups are set; only the one selected counts
    {
        const int thr = g.integer(5, 40), type = g.integer(0, 2);
        const bool nms = g.chance(0.7);
        static const char* TYPES[] = {"TYPE_5_8", "TYPE_7_12", "TYPE_9_16"};
        param(d + "fast/threshold", thr); param(d + "fast/nonmax_suppression", nms); param(d + "fast/type", std::string(TYPES[type]));
        if (det == 0) c.detector = cv::FastFeatureDetector::create(thr, nms, (cv::FastFeatureDetector::DetectorType)type);
    }
    {
        const int n = g.integer(5, 150), block = 2 * g.integer(1, 3) + 1;
        const double q = g.uniform(0.005, 0.2), dist = g.uniform(1, 8), kk = g.uniform(0.03, 0.08);
        const bool harris = g.chance(0.4);
        param(d + "gftt/max_corners", n); param(d + "gftt/quality_level", q); param(d + "gftt/min_distance", dist); param(d + "gftt/block_size", block);
        param(d + "gftt/use_harris_detector", harris); param(d + "gftt/k", kk);
        if (det == 1) c.detector = cv::GFTTDetector::create(n, q, dist, block, harris, kk);
    }
    {
        const int n = g.integer(20, 150), levels = g.integer(1, 5), edge = g.integer(4, 12), first = levels > 1 ? g.integer(0, 1) : 0, wta = g.integer(2, 4), patch = g.integer(5, 13), fast = g.integer(5, 30);
        const double scale = g.uniform(1.1, 1.6);
        const bool harris = g.chance(0.5);
        param(d + "orb/num_features", n); param(d + "orb/scale_factor", scale); param(d + "orb/num_levels", levels); param(d + "orb/edge_threshold", edge); param(d + "orb/first_level", first);
        param(d + "orb/wta_k", wta); param(d + "orb/score_type", std::string(harris ? "HARRIS_SCORE" : "FAST_SCORE")); param(d + "orb/patch_size", patch); param(d + "orb/fast_threshold", fast);
        if (det == 2) c.detector = cv::ORB::create(n, (float)scale, levels, edge, first, wta, harris ? cv::ORB::HARRIS_SCORE : cv::ORB::FAST_SCORE, patch, fast);
    }
    {
        const int n = g.integer(10, 100), layers = g.integer(2, 4);
        const double contrast = g.uniform(0.005, 0.12), edge = g.uniform(4, 20), sigma = g.uniform(1.0, 2.0);
        param(d + "sift/num_features", n); param(d + "sift/num_octave_layers", layers); param(d + "sift/contrast_threshold", contrast); param(d + "sift/edge_threshold", edge); param(d + "sift/sigma", sigma);
        if (det == 3) c.detector = cv::SIFT::create(n, layers, contrast, edge, sigma);
    }
    static const char* DET[] = {"FAST", "GFTT", "ORB", "SIFT"};
    param(d + "type", std::string(DET[det]));
    c.name = DET[det];
    {
        const int w = 2 * g.integer(2, 9) + 1, h = 2 * g.integer(2, 9) + 1, level = g.integer(0, 3), type = g.integer(0, 4), count = g.integer(1, 30), flags = g.chance(0.3) ? cv::OPTFLOW_LK_GET_MIN_EIGENVALS : 0;
        const double eps = g.uniform(0.001, 0.3), eig = std::exp(g.uniform(-12, -3));
        static const char* TYPES[] = {"COUNT", "MAX_ITER", "EPS", "COUNT+EPS", "MAX_ITER+EPS"};
        static const int CV[] = {cv::TermCriteria::COUNT, cv::TermCriteria::COUNT, cv::TermCriteria::EPS, cv::TermCriteria::COUNT + cv::TermCriteria::EPS, cv::TermCriteria::COUNT + cv::TermCriteria::EPS};
        param(f + "type", std::string("PyrLK"));
        param(f + "pyrlk/win_size", std::vector<int>{w, h}); param(f + "pyrlk/max_level", level); param(f + "pyrlk/term_criteria/type", std::string(TYPES[type])); param(f + "pyrlk/term_criteria/max_count", count);
        param(f + "pyrlk/term_criteria/epsilon", eps); param(f + "pyrlk/flags", flags); param(f + "pyrlk/min_eig_threshold", eig);
        c.flow = cv::SparsePyrLKOpticalFlow::create(cv::Size(w, h), level, cv::TermCriteria(CV[type], count, eps), flags, eig);
    }
    {
        const double v = g.uniform(0.3, 2.0);
        param("stereo_tracking/stereo_match_filter/vertical_pixel_threshold", v);
        c.filter = serpent::StereoMatchFilter::create((float)v);
    }
    {
        const cv::Size w(2 * g.integer(1, 4) + 1, 2 * g.integer(1, 4) + 1);
        const double v = g.uniform(0.3, 2.5), ratio = g.uniform(0.3, 0.98);
        const int cost = g.integer(0, 4), mf = g.integer(0, 2);
        static const char* COST[] = {"SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"};
        static const char* MF[] = {"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"};
        typedef serpent::StereoKeyPointMatcher::MatchingFilter F;
        static const F FS[] = {F::UNIDIRECTIONAL, F::BIDIRECTIONAL, F::RATIO_TEST};
        c.cost = cost == 4 ? g.uniform(-1, 1) : std::exp(g.uniform(3, 12));
        param(k + "window_size/width", w.width); param(k + "window_size/height", w.height); param(k + "cost_function", std::string(COST[cost])); param(k + "vertical_pixel_threshold", v);
        param(k + "matching_filter", std::string(MF[mf])); param(k + "ratio", ratio); param(k + "cost_threshold", c.cost);
        const float vf = (float)v;
        if (cost == 0) c.matcher = serpent::SADStereoKeyPointMatcher::create(w, vf, FS[mf], ratio);
        else if (cost == 1) c.matcher = serpent::SSDStereoKeyPointMatcher::create(w, vf, FS[mf], ratio);
        else if (cost == 2) c.matcher = serpent::ZeroMeanSADStereoKeyPointMatcher::create(w, vf, FS[mf], ratio);
        else if (cost == 3) c.matcher = serpent::LocallyScaledSADStereoKeyPointMatcher::create(w, vf, FS[mf], ratio);
        else c.matcher = serpent::NCCStereoKeyPointMatcher::create(w, vf, FS[mf], ratio);
        c.name += cat(" ", COST[cost], " ", MF[mf]);
        vr::observe_state("pipeline_configurations", vr::hash_str(c.name));
    }
    const double near = g.uniform(1, 12);
    c.near = (float)near;
    param("stereo_tracking/new_feature_dist_threshold", near);
    const bool mask = g.chance(0.3);
    if (mask || g.chance(0.3)) {
        const int w = g.integer(cols / 2, cols), h = g.integer(rows / 2, rows), x = g.integer(0, cols - w), y = g.integer(0, rows - h);
        param("stereo_mask/enabled", mask);
        param("stereo_mask/width", w); param("stereo_mask/height", h); param("stereo_mask/top_left_x", x); param("stereo_mask/top_left_y", y);
        if (mask) { c.roi = cv::Rect2i(x, y, w, h); vr::event("masks"); }
    }
    c.range = g.chance(0.3);
    c.max_range = g.uniform(8, 40); c.min_range = g.uniform(0, 8);
    if (c.range || g.chance(0.3)) {
        param("stereo_tracking/stereo_distance_filter/enabled", c.range);
        param("stereo_tracking/stereo_distance_filter/max_distance", (double)c.max_range);
        param("stereo_tracking/stereo_distance_filter/min_distance", (double)c.min_range);
    }
    return c;
}

struct Scene {
    int rows, cols;
    cv::Mat scene;
    cv::Point pos{40, 40};
    int disparity;
    explicit Scene(Rng& g) : rows(g.integer(56, 80)), cols(g.integer(80, 120)), disparity(g.integer(2, 9)) {
        scene = cv::Mat(rows + 80, cols + 100, CV_8U);
        for (int y = 0; y < scene.rows; ++y) for (int x = 0; x < scene.cols; ++x) scene.at<unsigned char>(y, x) = g.integer(40, 60);
        for (int k = 0; k < 110; ++k)
            cv::rectangle(scene, cv::Rect(g.integer(0, scene.cols - 14), g.integer(0, scene.rows - 14), g.integer(3, 13), g.integer(3, 13)), cv::Scalar((double)g.integer(0, 255)), -1);
        cv::GaussianBlur(scene, scene, cv::Size(3, 3), 0.7);
    }
    void move(Rng& g) { pos += cv::Point(g.integer(-3, 3), g.integer(-2, 2)); }
    cv::Mat left() const { return scene(cv::Rect(pos.x, pos.y, cols, rows)).clone(); }
    cv::Mat right() const { return scene(cv::Rect(pos.x + disparity, pos.y, cols, rows)).clone(); }
};
static Image message(Rng& g, const cv::Mat& m, std::uint64_t stamp, const std::string& frame) {
    Image i;
    i.header.stamp = T(stamp); i.header.frame_id = frame;
    i.encoding = "mono8"; i.width = m.cols; i.height = m.rows; i.step = m.cols + (g.chance(0.5) ? g.integer(1, 9) : 0);
    i.data.assign((std::size_t)i.step * i.height, 0xAB);
    for (int y = 0; y < m.rows; ++y) std::memcpy(&i.data[(std::size_t)y * i.step], m.ptr(y), m.cols);
    return i;
}
static Info info(Rng& g, std::uint64_t stamp, double fx, double baseline, const std::string& frame) {
    Info i;
    i.header.stamp = T(stamp); i.header.frame_id = frame;
    i.K[0] = fx; i.K[4] = fx * 1.1; i.K[2] = 50; i.K[5] = 30; i.K[8] = 1;
    i.P[0] = fx; i.P[5] = fx * 1.1; i.P[3] = -fx * baseline; i.P[10] = 1;
    i.D.assign(5, g.uniform(-1, 1));
    i.distortion_model = "plumb_bob";
    return i;
}
static bool same(const Info& a, const Info& b) {
    return a.header.stamp == b.header.stamp && a.header.frame_id == b.header.frame_id && a.K == b.K && a.P == b.P && a.R == b.R && a.D == b.D && a.width == b.width && a.height == b.height && a.distortion_model == b.distortion_model;
}

static void mission(Rng& g) {
    vros::reset();
    Scene s(g);
    Config c = config(g, s.rows, s.cols);
    const bool stats = g.chance(0.4), images = g.chance(0.3), points = g.chance(0.5);
    if (stats || g.chance(0.3)) param("debug/stereo/publish_stats", stats);
    if (images || g.chance(0.3)) param("debug/stereo/publish_intermediate_results", images);
    if (points || g.chance(0.3)) param("debug/stereo/publish_points", points);
    if (g.chance(0.3)) param("debug/stereo/print_stats", g.chance(0.5));
    if (g.chance(0.3)) { param("debug/stereo/rich_keypoints", g.chance(0.5)); param("debug/stereo/rich_matches", g.chance(0.5)); }
    const double fx = g.uniform(60, 300), baseline = g.uniform(0.05, 0.6);
    struct Frame { cv::Mat l, r; Image im[2]; Info in[2]; bool here[4]; bool all() const { return here[0] && here[1] && here[2] && here[3]; } };
    std::vector<Frame> seq;
    const int n = g.integer(1, 6);
    for (int k = 0; k < n; ++k) {
        Frame f;
        s.move(g);
        f.l = s.left(); f.r = s.right();
        const std::uint64_t t = 8000000000ULL + 50000000ULL * k + g.integer(0, 999);
        f.im[0] = message(g, f.l, t, "left"); f.im[1] = message(g, f.r, t, "right");
        f.in[0] = info(g, t, fx, 0, "left"); f.in[1] = info(g, t, fx, baseline, "right");
        const int missing = g.chance(0.2) ? g.integer(0, 3) : -1;
        for (int j = 0; j < 4; ++j) f.here[j] = j != missing;
        seq.push_back(std::move(f));
    }
    {
        serpent::StereoFactorFinder node;
        auto deliver = [&](auto&& after) {
            int at[4] = {0, 0, 0, 0};
            for (;;) {
                std::vector<int> can;
                const int slow = *std::min_element(at, at + 4);
                for (int j = 0; j < 4; ++j) if (at[j] < n && at[j] < slow + 4) can.push_back(j);
                if (can.empty()) break;
                const int j = g.pick(can);
                const Frame& f = seq[at[j]++];
                if (!f.here[j]) continue;
                if (j < 2) vros::send(IN[j], f.im[j]); else vros::send(IN[j], f.in[j - 2]);
                after();
            }
        };
        if (g.chance(0.5)) deliver([] { vros::spin_all(); });
        else {
            vros::Spinner spin(g.integer(1, 4));
            deliver([&] { spin.wait_idle(); });
            spin.wait_idle();
            if (!vr::check(spin.exceptions().empty(), "pipeline-error", spin.exceptions().empty() ? "" : spin.exceptions()[0])) return;
            vr::event("threaded_missions");
        }
    }
    // reference
    Tracker ref(c.detector, c.flow, c.filter, c.matcher, c.near, c.cost, c.range ? serpent::StereoDistanceFilter::create((float)fx, (float)baseline, c.max_range, c.min_range) : nullptr, c.roi);
    auto got = vros::received<serpent::StereoFeatures>(FEATURES);
    auto st = vros::received<serpent::StereoTrackerStatistics>("/serpent/stereo/statistics");
    std::vector<std::shared_ptr<pcl::PointCloud<pcl::PointXYZ>>> clouds;
    for (const auto& m : vros::received<sensor_msgs::PointCloud2>("/serpent/stereo/track_points")) clouds.push_back(vros::Canon<pcl::PointCloud<pcl::PointXYZ>>::from(*m));
    std::size_t k = 0, total = 0;
    for (const Frame& f : seq) {
        if (!f.all()) { vr::event("incomplete_frames"); continue; }
        Tracker::Statistics rs;
        const auto want = ref.process(f.l, f.r, rs);
        const std::string d = cat(c.name, " frame ", k);
        if (!vr::check(k < got.size(), "frame-missing", cat(d, " of ", got.size()))) return;
        const auto& m = *got[k];
        vr::check(m.header.stamp == f.im[0].header.stamp && m.header.frame_id == "left", "features-header", d);
        vr::check(same(m.left_info, f.in[0]) && same(m.right_info, f.in[1]), "features-camera-info", d);
        if (!vr::check(m.features.size() == want.size(), "features-count", cat(d, " ", m.features.size(), " of ", want.size()))) return;
        for (std::size_t i = 0; i < want.size(); ++i) {
            const auto& l = want.keypoints[0][want.matches[i].queryIdx].pt;
            const auto& r = want.keypoints[1][want.matches[i].trainIdx].pt;
            const auto& q = m.features[i];
            vr::check(q.left_x == l.x && q.left_y == l.y && q.right_x == r.x && q.right_y == r.y && q.id == want.match_ids[i], "feature", cat(d, " feature ", i));
        }
        total += want.size();
        vr::event("features_compared", want.size());
        if (stats) {
            if (!vr::check(k < st.size(), "statistics-missing", d)) return;
            const auto& q = *st[k];
            bool ok = q.header.stamp == m.header.stamp && q.frame_number == rs.frame_number && q.max_match_id == rs.max_match_id && q.longest_tracked_match_id == rs.longest_tracked_match_id &&
                      (std::size_t)q.tracked_match_count == rs.tracked_match_count && (std::size_t)q.new_match_count == rs.new_match_count && (std::size_t)q.total_match_count == rs.total_match_count &&
                      q.match_ids.size() == rs.match_ids.size() && std::equal(rs.match_ids.begin(), rs.match_ids.end(), q.match_ids.begin());
            for (int lr = 0; lr < 2; ++lr)
                ok = ok && (std::size_t)q.tracked_kp_count[lr] == rs.tracked_kp_count[lr] && (std::size_t)q.extracted_kp_count[lr] == rs.extracted_kp_count[lr] &&
                     (std::size_t)q.filtered_extracted_kp_count[lr] == rs.filtered_extracted_kp_count[lr];
            vr::check(ok, "statistics", d);
            vr::event("statistics_compared");
        }
        if (points) {
            if (!vr::check(k < clouds.size(), "points-missing", d)) return;
            const auto& p = *clouds[k];
            vr::check(p.header.frame_id == "left" && p.header.stamp == f.im[0].header.stamp.toNSec() / 1000, "points-header", d);
            std::size_t j = 0;
            for (std::size_t i = 0; i < want.size(); ++i) {
                const auto& l = want.keypoints[0][want.matches[i].queryIdx].pt;
                const auto& r = want.keypoints[1][want.matches[i].trainIdx].pt;
                if (l.x == r.x) continue;
                if (!vr::check(j < p.size(), "points-count", d)) return;
                const double z = fx * baseline / ((double)l.x - r.x), x = (l.x - 50.0) * z / fx, y = ((l.y + r.y) / 2.0 - 30.0) * z / (fx * 1.1);
                const auto& a = p[j++];
                vr::check(std::abs(a.x - x) + std::abs(a.y - y) + std::abs(a.z - z) <= 1e-4 * (std::abs(x) + std::abs(y) + std::abs(z) + 1), "point", cat(d, " feature ", i, " ", a.x, " ", a.y, " ", a.z, " for ", x, " ", y, " ", z));
                vr::event("points_compared");
            }
            vr::check(j == p.size(), "points-count", d);
        }
        if (images)
            for (const char* topic : DEBUG) {
                auto im = vros::received<Image>(cat("/serpent/stereo/", topic, "/image"));
                if (!vr::check(im.size() > k && im[k]->header.stamp == m.header.stamp, "debug-image", cat(d, " ", topic))) return;
                vr::event("debug_images");
            }
        ++k;
    }
    vr::check(got.size() == k, "frames-extra", cat(got.size(), " of ", k));
    vr::check(st.size() == (stats ? k : 0) && clouds.size() == (points ? k : 0), "debug-count", cat(st.size(), " ", clouds.size(), " of ", k));
    vr::event("frames_compared", k);
    if (c.range) vr::event("range_limited");
    if (total) vr::nontrivial(g.next());
}

static void refuse(Rng& g) {
    vros::reset();
    Scene s(g);
    config(g, s.rows, s.cols);
    param("stereo_tracking/stereo_distance_filter/enabled", false);
    const int kind = g.integer(0, 11);
    const std::string t = "stereo_tracking/";
    double fl = 100, fr = 100, baseline = 0.2;
    const std::string bad = g.chance(0.5) ? "Other" : "sad";
    bool size = false;
    switch (kind) {
        case 0: param(t + "detector/type", bad); break;
        case 1: param(t + "detector/type", std::string("FAST")); param(t + "detector/fast/type", bad); break;
        case 2: param(t + "detector/type", std::string("ORB")); param(t + "detector/orb/score_type", bad); break;
        case 3: param(t + "sparse_optical_flow/type", std::string(g.chance(0.5) ? "RLOF" : "lk")); break;
        case 4: param(t + "sparse_optical_flow/pyrlk/term_criteria/type", bad); break;
        case 5: param(t + "stereo_keypoint_matcher/cost_function", bad); break;
        case 6: param(t + "stereo_keypoint_matcher/matching_filter", bad); break;
        case 7: param(t + "sparse_optical_flow/pyrlk/win_size", std::vector<int>(g.integer(0, 1), 21)); break;
        case 8: param(t + "stereo_distance_filter/enabled", true); baseline = g.chance(0.5) ? 0.0 : -g.uniform(0.01, 1); break;
        case 9: param(t + "stereo_distance_filter/enabled", true); fr = g.uniform(101, 200); break;
        case 10: param("debug/stereo/publish_points", true); baseline = g.chance(0.5) ? 0.0 : -g.uniform(0.01, 1); break;
        default: size = true; break;
    }
    bool refused = false;
    try {
        serpent::StereoFactorFinder node;
        cv::Mat l = s.left(), r = s.right();
        if (size) r = r(cv::Rect(0, 0, r.cols - g.integer(1, 5), r.rows - g.integer(0, 5))).clone();
        vros::send(IN[0], message(g, l, 1000, "left"));
        vros::send(IN[1], message(g, r, 1000, "right"));
        vros::send(IN[2], info(g, 1000, fl, 0, "left"));
        vros::send(IN[3], info(g, 1000, fr, baseline, "right"));
        vros::spin_all();
    } catch (const std::exception& e) { refused = true; }
    vr::check(refused && vros::received<serpent::StereoFeatures>(FEATURES).empty(), cat("refused-", kind), "");
    vr::event("refusals");
    vr::nontrivial(g.next());
}

int main(int argc, char** argv) {
    cv::setNumThreads(1);
    return vr::run(argc, argv, {{"mission", mission}, {"refuse", refuse}});
}
