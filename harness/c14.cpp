// C14: the stereo feature tracker, driven frame by frame by a scripted detector and a scripted optical flow, against a model of its tracks.
#include "serpent/front_end/stereo/stereo_feature_tracker.hpp"
#include <opencv2/imgproc.hpp>
#include <algorithm>
#include <tuple>
#include "stereo_ref.hpp"
using vr::cat;
using vr::check;
using Tracker = serpent::StereoFeatureTracker;

struct Frame {
    cv::Mat img[2];
    std::vector<cv::KeyPoint> kps[2];
};
static std::uint64_t fingerprint(const cv::Mat& m) {
    std::uint64_t h = 7;
    for (int r = 0; r < m.rows; ++r) h = vr::hash_bytes(m.ptr(r), m.cols * m.elemSize(), h);
    return h;
}
// Returns the keypoints scripted for the image it is given (identified by content), honouring the mask as OpenCV detectors do.
struct Script {
    std::map<std::uint64_t, const std::vector<cv::KeyPoint>*> by_image;
    std::map<std::uint64_t, std::pair<int, int>> where;  // image content -> (frame, side)
    std::uint64_t salt = 0;
    int flow_calls = 0;
    std::vector<std::tuple<int, int, int, int>> flow_pairs;  // previous frame, side, next frame, side
};
struct Detector : cv::Feature2D {
    Script* s;
    explicit Detector(Script* s) : s(s) {}
    void detect(cv::InputArray image, std::vector<cv::KeyPoint>& out, cv::InputArray mask) CV_OVERRIDE {
        out.clear();
        auto it = s->by_image.find(fingerprint(image.getMat()));
        if (it == s->by_image.end()) { vr::fail("tracker-detects-in-an-unknown-image", ""); return; }
        const cv::Mat m = mask.getMat();
        for (auto& k : *it->second) if (m.empty() || m.at<unsigned char>((int)k.pt.y, (int)k.pt.x) != 0) out.push_back(k);
    }
};
// Motion of a point: a pure function of the point, the side and the two frames.
static bool flow(const Script& s, int side, int next, const cv::Point2f& p, cv::Point2f& q) {
    std::uint64_t h = vr::hash_mix(vr::hash_mix(s.salt, side * 1000 + next), vr::hash_bytes(&p, sizeof p));
    vr::Rng g(h);
    // the right image moves like the left one, up to a little vertical noise, so most tracks survive the stereo filter
    q = p + cv::Point2f(g.integer(-6, 6) / 4.f, g.integer(-2, 2) / 4.f);
    if (g.chance(0.05)) q = p + cv::Point2f(g.integer(-60, 60) / 4.f, g.integer(-20, 20) / 4.f);
    return g.chance(0.85);
}
struct Flow : cv::SparseOpticalFlow {
    Script* s;
    explicit Flow(Script* s) : s(s) {}
    void calc(cv::InputArray prev, cv::InputArray next, cv::InputArray pp, cv::InputOutputArray np, cv::OutputArray status, cv::OutputArray err) CV_OVERRIDE {
        ++s->flow_calls;
        auto a = s->where.find(fingerprint(prev.getMat())), b = s->where.find(fingerprint(next.getMat()));
        if (a == s->where.end() || b == s->where.end()) { vr::fail("tracker-flow-on-an-unknown-image", ""); throw std::runtime_error("unknown image"); }
        s->flow_pairs.emplace_back(a->second.first, a->second.second, b->second.first, b->second.second);
        const cv::Mat m = pp.getMat();
        const int n = (int)m.total();
        np.create(n, 1, CV_32FC2);
        status.create(n, 1, CV_8UC1);
        if (err.needed()) err.create(n, 1, CV_32FC1);
        cv::Mat o = np.getMat(), st = status.getMat();
        for (int i = 0; i < n; ++i) {
            cv::Point2f q;
            const bool ok = flow(*s, b->second.second, b->second.first, m.at<cv::Point2f>(i), q);
            st.at<unsigned char>(i) = ok;
            o.at<cv::Point2f>(i) = ok ? q : cv::Point2f(-1e4f, 1e6f);
        }
    }
};
typedef std::tuple<float, float, float, float, float, float, float, float, int, int> Pair;  // positions and detector attributes of both sides
static Pair pair_of(const cv::KeyPoint& l, const cv::KeyPoint& r) {
    return Pair(l.pt.x, l.pt.y, r.pt.x, r.pt.y, l.size, r.size, l.response, r.response, l.class_id, r.class_id);
}
static std::string show(const Pair& p) { return cat("(", std::get<0>(p), ",", std::get<1>(p), ")-(", std::get<2>(p), ",", std::get<3>(p), ")"); }
struct Track { cv::KeyPoint l, r; };

static std::vector<cv::KeyPoint> detections(vr::Rng& g, int rows, int cols, int n, int cls) {
    std::vector<cv::KeyPoint> v;
    for (int i = 0; i < n; ++i)
        v.emplace_back(cv::Point2f(g.integer(0, 4 * (cols - 1)) / 4.f, g.chance(0.7) ? (float)g.integer(rows / 3, rows / 2) : g.integer(0, 4 * (rows - 1)) / 4.f),
                       (float)g.integer(1, 9), (float)g.integer(0, 359), (float)g.unit(), (int)g.integer(0, 3), cls * 100000 + i);
    return v;
}
static void tracks(vr::Rng& g) {
    const bool crowded = g.chance(0.1);  // hundreds of features per frame
    const int rows = g.integer(12, 40) * (crowded ? 4 : 1), cols = g.integer(20, 70) * (crowded ? 4 : 1), frames = !crowded && g.chance(0.03) ? g.integer(20, 60) : g.integer(2, crowded ? 5 : 9);
    Script script;
    script.salt = g.next();
    std::vector<Frame> F(frames);
    for (int f = 0; f < frames; ++f) {
        const bool empty_scene = g.chance(0.08);
        for (int s = 0; s < 2; ++s) {
            F[f].img[s] = sref::random_image(g, rows, cols, 1, 254).mat;
            F[f].kps[s] = detections(g, rows, cols, empty_scene ? 0 : g.integer(0, 25) + (crowded ? 150 : 0), f * 2 + s);
        }
        if (g.chance(0.6))  // shifted right image, so that good stereo matches exist, and matching detections
            for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) F[f].img[1].ptr<unsigned char>(y)[x] = F[f].img[0].ptr<unsigned char>(y)[std::min(cols - 1, x + 3)] / 2 + f;
        for (auto& k : F[f].kps[0]) if (g.chance(0.5) && k.pt.x >= 3) { auto r = k; r.pt.x -= 3; r.class_id += 5000; r.size += 1; F[f].kps[1].push_back(r); }
    }
    for (int f = 0; f < frames; ++f) for (int s = 0; s < 2; ++s) {
        const std::uint64_t h = fingerprint(F[f].img[s]);
        script.by_image[h] = &F[f].kps[s];
        script.where[h] = {f, s};
    }
    if (script.where.size() != (std::size_t)frames * 2) return;  // two images with the same content
    const float vthr = g.integer(0, 8) / 4.f + 0.1f, mthr = g.integer(0, 8) / 4.f + 0.1f;
    const float near = g.integer(0, 8) + 0.1f;
    const double cost_thr = g.chance(0.2) ? 1e-6 : g.chance(0.3) ? (double)g.integer(1, 400) : g.uniform(5, 3000);
    const cv::Size win(2 * g.integer(0, 2) + 1, 2 * g.integer(0, 1) + 1);
    const auto mf = (serpent::StereoKeyPointMatcher::MatchingFilter)g.integer(0, 2);
    auto make_matcher = [&] { return serpent::SADStereoKeyPointMatcher::create(win, mthr, mf, 0.8); };
    auto matcher = make_matcher(), reference_matcher = make_matcher();
    auto sfilter = serpent::StereoMatchFilter::create(vthr);
    const float fx = 100.f, baseline = 0.25f;
    cv::Ptr<serpent::StereoDistanceFilter> dfilter;
    float dmin = g.integer(0, 3) + 0.013f, dmax = dmin + g.integer(1, 60) + 0.017f;
    const bool with_distance = g.chance(0.5), late_distance = g.chance(0.3);
    if (with_distance) dfilter = serpent::StereoDistanceFilter::create(fx, baseline, dmax, dmin);
    cv::Rect2i roi;
    if (g.chance(0.4)) { roi.x = g.integer(0, cols / 2); roi.y = g.integer(0, rows / 2); roi.width = g.integer(1, cols - roi.x); roi.height = g.integer(1, rows - roi.y); vr::event("runs_with_roi"); }
    cv::Ptr<cv::Feature2D> det(new Detector(&script));
    cv::Ptr<cv::SparseOpticalFlow> sof(new Flow(&script));
    Tracker tracker(det, sof, sfilter, matcher, near, cost_thr, late_distance ? cv::Ptr<serpent::StereoDistanceFilter>() : dfilter, roi);
    check(tracker.frame_number() == -1, "tracker-frame-number-starts-at-minus-one");
    bool have_distance = with_distance && !late_distance;
    const int late_frame = g.integer(0, frames - 1);

    std::map<int, Track> model;
    int max_id = -1;
    Tracker::Statistics reused{};
    const bool reuse = g.chance(0.5);
    for (int f = 0; f < frames; ++f) {
        const std::string at = cat("frame ", f);
        if (g.chance(0.15)) {  // a frame pair of different sizes is refused and leaves the tracker as it was
            vr::expect_throw([&] { tracker.process(F[f].img[0], F[f].img[1](cv::Rect(0, 0, cols - 1, rows))); }, "tracker-size-mismatch-refused", at);
            check(tracker.frame_number() == f - 1, "tracker-refused-frame-not-counted", at);
            vr::event("frames_refused");
        }
        if (with_distance && late_distance && f == late_frame) { tracker.set_stereo_distance_filter(dfilter); have_distance = true; }
        // ---- model
        std::vector<cv::KeyPoint> nk[2];
        for (int s = 0; s < 2; ++s)
            for (auto& k : F[f].kps[s])
                if (roi == cv::Rect2i{} || ((int)k.pt.x >= roi.x && (int)k.pt.y >= roi.y && (int)k.pt.x < roi.x + roi.width && (int)k.pt.y < roi.y + roi.height)) nk[s].push_back(k);
        const std::size_t extracted[2] = {nk[0].size(), nk[1].size()};
        std::map<int, Track> hyp, expected;
        for (auto& t : model) {
            Track n = t.second;
            if (flow(script, 0, f, t.second.l.pt, n.l.pt) & flow(script, 1, f, t.second.r.pt, n.r.pt)) hyp[t.first] = n;
        }
        for (int s = 0; s < 2; ++s) {
            std::vector<cv::KeyPoint> keep;
            for (auto& k : nk[s]) {
                bool close = false;
                for (auto& h : hyp) {
                    const cv::Point2f d = (s ? h.second.r.pt : h.second.l.pt) - k.pt;
                    close |= (double)d.x * d.x + (double)d.y * d.y < (double)near * near;
                }
                if (!close) keep.push_back(k);
            }
            nk[s] = keep;
        }
        auto in_range = [&](const cv::KeyPoint& l, const cv::KeyPoint& r) {
            const double d = (double)l.pt.x - r.pt.x;
            return d > 0 && (double)fx * baseline / d >= dmin && (double)fx * baseline / d <= dmax;
        };
        std::uint64_t lost_flow = model.size() - hyp.size(), lost_stereo = 0;
        for (auto& h : hyp) {
            const auto &l = h.second.l, &r = h.second.r;
            if (l.pt.x > r.pt.x && std::abs(l.pt.y - r.pt.y) <= vthr && (!have_distance || in_range(l, r))) expected[h.first] = h.second;
            else ++lost_stereo;
        }
        std::vector<double> costs;
        const std::vector<int> ri = reference_matcher->keypoint_indices_in_other_image(nk[0], nk[1], F[f].img[0], F[f].img[1], true, costs);
        std::multiset<Pair> fresh;
        for (std::size_t i = 0; i < nk[0].size(); ++i)
            if (ri[i] >= 0 && costs[i] < cost_thr && (!have_distance || in_range(nk[0][i], nk[1][ri[i]]))) fresh.insert(pair_of(nk[0][i], nk[1][ri[i]]));
        // ---- real
        Tracker::Statistics own;
        std::memset(&own.frame_number, 0x5a, sizeof(int) * 3);
        for (int s = 0; s < 2; ++s) own.tracked_kp_count[s] = own.extracted_kp_count[s] = own.filtered_extracted_kp_count[s] = 7777777;
        own.tracked_match_count = own.new_match_count = own.total_match_count = 7777777;
        Tracker::Statistics& st = reuse ? reused : own;
        Tracker::IntermediateImages ii;
        const bool with_stats = g.chance(0.7), with_images = g.chance(0.25);
        script.flow_pairs.clear();
        Tracker::LRKeyPointMatches out = tracker.process(F[f].img[0], F[f].img[1],
                with_stats ? std::optional<std::reference_wrapper<Tracker::Statistics>>(st) : std::nullopt,
                with_images ? std::optional<std::reference_wrapper<Tracker::IntermediateImages>>(ii) : std::nullopt);
        vr::event("frames_processed");
        check(tracker.frame_number() == f, "tracker-frame-number", at);
        for (auto& p : script.flow_pairs)
            check(std::get<0>(p) == f - 1 && std::get<2>(p) == f && std::get<1>(p) == std::get<3>(p), "tracker-flow-between-consecutive-images-of-one-camera", at);
        // ---- oracle
        if (!check(out.matches.size() == out.match_ids.size() && out.size() == out.matches.size(), "tracker-one-id-per-match", at)) return;
        std::map<int, Track> now;
        std::multiset<Pair> got_fresh;
        int new_max = max_id;
        std::size_t n_tracked = 0;
        for (std::size_t i = 0; i < out.size(); ++i) {
            const int id = out.match_ids[i], q = out.matches[i].queryIdx, t = out.matches[i].trainIdx;
            if (!check(q >= 0 && q < (int)out.keypoints[0].size() && t >= 0 && t < (int)out.keypoints[1].size(), "tracker-match-index-in-range", at)) return;
            const Track tr{out.keypoints[0][q], out.keypoints[1][t]};
            check(!now.count(id), "tracker-id-unique-in-frame", cat(at, " id ", id));
            now[id] = tr;
            if (id <= max_id) {
                ++n_tracked;
                auto e = expected.find(id);
                if (!check(e != expected.end(), "tracker-id-never-reused-or-wrongly-kept", cat(at, " id ", id, model.count(id) ? " was tracked before but lost or fails the stereo geometry" : " did not exist in the previous frame"))) continue;
                check(pair_of(e->second.l, e->second.r) == pair_of(tr.l, tr.r), "tracker-id-names-the-same-feature",
                      cat(at, " id ", id, " expected ", show(pair_of(e->second.l, e->second.r)), " got ", show(pair_of(tr.l, tr.r))));
            } else {
                new_max = std::max(new_max, id);
                got_fresh.insert(pair_of(tr.l, tr.r));
                for (int s = 0; s < 2; ++s) for (auto& h : hyp) {
                    const cv::Point2f d = (s ? h.second.r.pt - tr.r.pt : h.second.l.pt - tr.l.pt);
                    check(std::sqrt((double)d.x * d.x + (double)d.y * d.y) >= near, "tracker-new-feature-away-from-tracked-ones", at);
                }
            }
        }
        check(n_tracked == expected.size(), "tracker-no-track-lost", cat(at, " expected ", expected.size(), " tracked, got ", n_tracked));
        check(got_fresh == fresh, "tracker-new-matches", cat(at, " expected ", fresh.size(), " got ", got_fresh.size(), fresh.empty() ? "" : " first expected " + show(*fresh.begin()), got_fresh.empty() ? "" : " first got " + show(*got_fresh.begin())));
        check(new_max - max_id == (int)got_fresh.size(), "tracker-new-ids-consecutive", at);
        if (with_stats) {
            vr::event("statistics_checked");
            check(st.frame_number == f, "stats-frame-number", at);
            check(st.max_match_id == new_max, "stats-max-match-id", cat(at, " ", st.max_match_id, " expected ", new_max));
            check(st.longest_tracked_match_id == (expected.empty() ? -1 : expected.begin()->first), "stats-longest-tracked-id", cat(at, " ", st.longest_tracked_match_id));
            for (int s = 0; s < 2; ++s) {
                check(st.tracked_kp_count[s] == hyp.size(), "stats-tracked-keypoints", cat(at, " ", st.tracked_kp_count[s], " expected ", hyp.size()));
                check(st.extracted_kp_count[s] == extracted[s], "stats-extracted-keypoints", at);
                check(st.filtered_extracted_kp_count[s] == nk[s].size(), "stats-filtered-keypoints", cat(at, " ", st.filtered_extracted_kp_count[s], " expected ", nk[s].size()));
            }
            check(st.tracked_match_count == expected.size(), "stats-tracked-matches", at);
            check(st.new_match_count == fresh.size(), "stats-new-matches", at);
            check(st.total_match_count == expected.size() + fresh.size() && st.total_match_count == out.size(), "stats-total-matches", at);
            std::multiset<int> ids(st.match_ids.begin(), st.match_ids.end()), real(out.match_ids.begin(), out.match_ids.end());
            check(ids == real, "stats-match-ids", cat(at, " ", ids.size(), " ids for ", real.size(), " matches"));
        }
        vr::event("features_tracked", expected.size());
        vr::event("features_new", fresh.size());
        vr::event("features_lost_by_flow", lost_flow);
        vr::event("features_lost_by_stereo", lost_stereo);
        vr::observe_state("track_sets", vr::hash_mix(script.salt, f * 131 + now.size()));
        // a caller may change what it was given
        for (int s = 0; s < 2; ++s) for (auto& k : out.keypoints[s]) k.pt = {-5, -5};
        model = now;
        max_id = new_max;
        if (!expected.empty()) vr::nontrivial(vr::hash_mix(script.salt, f));
    }
}
// The real detector and the real optical flow on a textured scene that slides past: the invariants that need no model.
static void realistic(vr::Rng& g) {
    const int rows = 60, cols = 110, frames = 6, margin = 40;
    cv::Mat scene(rows + 2 * margin, cols + 2 * margin, CV_8U);
    for (int y = 0; y < scene.rows; ++y) for (int x = 0; x < scene.cols; ++x) scene.at<unsigned char>(y, x) = g.integer(40, 60);
    for (int k = 0; k < 90; ++k)
        cv::rectangle(scene, cv::Rect(g.integer(0, scene.cols - 12), g.integer(0, scene.rows - 12), g.integer(3, 11), g.integer(3, 11)), cv::Scalar((double)g.integer(0, 255)), -1);
    cv::GaussianBlur(scene, scene, cv::Size(3, 3), 0.7);
    const int disparity = g.integer(2, 8);
    const float vthr = 1.6f, near = 4.1f;
    Tracker tracker(cv::FastFeatureDetector::create(g.integer(8, 25)), cv::SparsePyrLKOpticalFlow::create(cv::Size(11, 11), 2), serpent::StereoMatchFilter::create(vthr),
                    serpent::SADStereoKeyPointMatcher::create(cv::Size(7, 5), 1.1f, (serpent::StereoKeyPointMatcher::MatchingFilter)g.integer(0, 2), 0.9), near, 3000.0);
    std::map<int, Track> prev;
    int max_id = -1;
    cv::Point2f pos(0, 0);
    for (int f = 0; f < frames; ++f) {
        pos += cv::Point2f((float)g.integer(-3, 3), (float)g.integer(-2, 2));
        cv::Mat l = scene(cv::Rect(margin + (int)pos.x, margin + (int)pos.y, cols, rows)).clone();
        cv::Mat r = scene(cv::Rect(margin + (int)pos.x + disparity, margin + (int)pos.y, cols, rows)).clone();
        Tracker::Statistics st;
        auto out = tracker.process(l, r, st);
        std::map<int, Track> now;
        int nm = max_id;
        if (!check(out.match_ids.size() == out.matches.size(), "real-one-id-per-match")) return;
        std::size_t kept = 0, fresh = 0;
        for (std::size_t i = 0; i < out.size(); ++i) {
            const int id = out.match_ids[i];
            const Track t{out.keypoints[0].at(out.matches[i].queryIdx), out.keypoints[1].at(out.matches[i].trainIdx)};
            check(now.emplace(id, t).second, "real-id-unique");
            if (id <= max_id) {
                ++kept;
                check(prev.count(id) > 0, "real-id-never-reused", cat("id ", id));
                check(t.l.pt.x > t.r.pt.x && std::abs(t.l.pt.y - t.r.pt.y) <= vthr, "real-tracked-satisfies-stereo-geometry");
                if (prev.count(id)) check(prev[id].l.size == t.l.size && prev[id].l.response == t.l.response && prev[id].r.response == t.r.response, "real-attributes-follow-the-track");
            } else { ++fresh; nm = std::max(nm, id); }
        }
        check(nm - max_id == (int)fresh, "real-new-ids-consecutive");
        check(st.total_match_count == st.tracked_match_count + st.new_match_count && st.total_match_count == out.size() && st.tracked_match_count == kept && st.new_match_count == fresh, "real-total-is-tracked-plus-new");
        for (auto& a : now) if (a.first > max_id) for (auto& b : now) if (b.first <= max_id) {
            const cv::Point2f d = a.second.l.pt - b.second.l.pt, e = a.second.r.pt - b.second.r.pt;
            check(d.dot(d) > near * near * 0.999 && e.dot(e) > near * near * 0.999, "real-new-features-away-from-tracked");
        }
        vr::event("real_features_tracked", kept);
        vr::event("real_features_new", fresh);
        if (kept) vr::nontrivial(vr::hash_mix(fingerprint(l), f));
        prev = now;
        max_id = nm;
    }
}
int main(int argc, char** argv) { return vr::run(argc, argv, {{"tracks", tracks}, {"realistic", realistic}}); }
