// C11: stereo keypoint matching.
#include "serpent/front_end/stereo/stereo_keypoint_matcher.hpp"
#include "stereo_ref.hpp"
using namespace sref;
using vr::check;
using vr::cat;
using Matcher = serpent::StereoKeyPointMatcher;
using Filter = Matcher::MatchingFilter;

static cv::Ptr<Matcher> make(Cost c, cv::Size w, float v, Filter f, double r, bool create) {
    switch (c) {
        case Cost::SAD: if (create) return serpent::SADStereoKeyPointMatcher::create(w, v, f, r); return cv::makePtr<serpent::SADStereoKeyPointMatcher>(w, v, f, r);
        case Cost::SSD: if (create) return serpent::SSDStereoKeyPointMatcher::create(w, v, f, r); return cv::makePtr<serpent::SSDStereoKeyPointMatcher>(w, v, f, r);
        case Cost::ZMSAD: if (create) return serpent::ZeroMeanSADStereoKeyPointMatcher::create(w, v, f, r); return cv::makePtr<serpent::ZeroMeanSADStereoKeyPointMatcher>(w, v, f, r);
        case Cost::LSSAD: if (create) return serpent::LocallyScaledSADStereoKeyPointMatcher::create(w, v, f, r); return cv::makePtr<serpent::LocallyScaledSADStereoKeyPointMatcher>(w, v, f, r);
        default: if (create) return serpent::NCCStereoKeyPointMatcher::create(w, v, f, r); return cv::makePtr<serpent::NCCStereoKeyPointMatcher>(w, v, f, r);
    }
}
static const char* fname(Filter f) { return f == Filter::UNIDIRECTIONAL ? "unidirectional" : f == Filter::BIDIRECTIONAL ? "bidirectional" : "ratio"; }

struct World {
    Image left, right;
    int w, h;
    float vthr;
    double ratio;
    Cost c;
    Filter f;
    cv::Ptr<Matcher> m;
};
static World world(vr::Rng& g) {
    World o;
    const bool wide = g.chance(0.04);  // disparities of hundreds of pixels
    const int rows = wide ? g.integer(5, 9) : g.integer(5, 30), cols = wide ? g.integer(300, 700) : g.integer(8, 40);
    if (wide) vr::event("wide_images");
    o.left = random_image(g, rows, cols, 1, 254);
    o.right = random_image(g, rows, cols, 1, 254);
    if (g.chance(0.6)) {  // the right image is the left one shifted, plus noise: good matches exist
        const int d = wide ? g.integer(0, cols - 20) : g.integer(0, 6), noise = g.integer(0, 12);
        for (int y = 0; y < rows; ++y)
            for (int x = 0; x < cols; ++x)
                o.right.mat.ptr<unsigned char>(y)[x] = (unsigned char)std::min(254, std::max(1, (x + d < cols ? o.left.at(y, x + d) : 7) + (int)g.integer(-noise, noise)));
        o.right.sync();
        vr::event("shifted_pairs");
    }
    o.w = 2 * g.integer(0, 3) + 1;
    o.h = 2 * g.integer(0, 2) + 1;
    if (!wide && g.chance(0.05)) o.w = 2 * g.integer(0, 10) + 1, o.h = 2 * g.integer(0, 7) + 1;  // large windows
    o.vthr = g.integer(0, 12) / 4.f;
    o.ratio = g.uniform(0.2, 0.98);
    o.c = (Cost)g.integer(0, 4);
    do o.f = (Filter)g.integer(0, 2); while (o.f == Filter::RATIO_TEST && o.c == Cost::NCC);  // a ratio of negative costs has no documented meaning
    o.m = make(o.c, {o.w, o.h}, o.vthr, o.f, o.ratio, g.chance(0.5));
    return o;
}
static std::vector<cv::KeyPoint> keypoints(vr::Rng& g, const Image& im, int n) {
    std::vector<cv::KeyPoint> v;
    for (int i = 0; i < n; ++i) {
        float x = g.chance(0.5) ? (float)g.integer(-1, im.cols) : g.integer(-4, 4 * im.cols) / 4.f;
        float y = g.chance(0.5) ? (float)g.integer(-1, im.rows) : g.integer(-4, 4 * im.rows) / 4.f;
        if (g.chance(0.5)) y = std::floor(im.rows / 2.f) + g.integer(-4, 4) / 4.f;  // crowd one epipolar line
        v.emplace_back(cv::Point2f(x, y), g.uniform(1, 9), g.uniform(0, 360), g.uniform(0, 1), g.integer(0, 3), g.integer(0, 9));
    }
    return v;
}
// Outcome of matching one keypoint against a list of candidates.
struct Outcome {
    int best = -1;
    double cost = std::numeric_limits<double>::max(), second = std::numeric_limits<double>::max();
    int valid = 0;
    bool tie = false;       // second within rounding of best
    bool ambiguous = false; // the ratio is within rounding of the threshold
};
static Outcome match_one(const World& W, const cv::KeyPoint& kp, const std::vector<cv::KeyPoint>& cand, bool in_right) {
    const Image &A = in_right ? W.left : W.right, &B = in_right ? W.right : W.left;
    Outcome o;
    const Window wa = centred(kp.pt, W.w, W.h);
    if (!inside(A, wa)) return o;
    for (std::size_t i = 0; i < cand.size(); ++i) {
        const cv::Point2f p = cand[i].pt;
        if (std::abs(p.y - kp.pt.y) > W.vthr) continue;
        if (in_right ? p.x > kp.pt.x : p.x < kp.pt.x) continue;
        const Window wb = centred(p, W.w, W.h);
        if (!inside(B, wb)) continue;
        ++o.valid;
        const double c = cost(W.c, A, wa, B, wb);
        if (c < o.cost) { o.second = o.cost; o.cost = c; o.best = i; }
        else if (c < o.second) o.second = c;
    }
    o.tie = o.valid > 1 && o.second - o.cost <= 1e-9 * (1 + std::abs(o.cost));
    return o;
}
static int resolve_ratio(const World& W, Outcome& o) {
    if (W.f != Filter::RATIO_TEST || o.valid < 2) return o.best;
    if (o.second <= 0) { o.ambiguous = true; return o.best; }  // 0/0
    const double r = o.cost / o.second;
    o.ambiguous = std::abs(r - W.ratio) < 1e-9;
    return r < W.ratio ? o.best : -1;
}

static void indices(vr::Rng& g) {
    const World W = world(g);
    const bool crowded = g.chance(0.004);
    if (crowded) vr::event("crowded_keypoint_lists");
    const auto lk = keypoints(g, W.left, crowded ? g.integer(200, 600) : g.integer(0, 14)), rk = keypoints(g, W.right, crowded ? g.integer(260, 700) : g.integer(0, 14));
    const bool in_right = g.chance(0.5);
    const auto &src = in_right ? lk : rk, &dst = in_right ? rk : lk;
    const std::string k = std::string(name(W.c)) + "-" + fname(W.f);
    vr::observe_state("matcher_configurations", vr::hash_str(k) + in_right);
    vr::nontrivial(vr::hash_bytes(W.left.px.data(), W.left.px.size() * 4, vr::hash_bytes(W.right.px.data(), W.right.px.size() * 4)));
    vr::sample(cat(k, " ", W.w, "x", W.h, " window, ", lk.size(), " left and ", rk.size(), " right keypoints, threshold ", W.vthr, ", ratio ", W.ratio));
    std::vector<double> costs(g.integer(0, 20), -77.0);
    const auto out = W.m->keypoint_indices_in_other_image(lk, rk, W.left.mat, W.right.mat, in_right, costs);
    check(out.size() == src.size() && costs.size() == src.size(), "size", cat(out.size(), " results for ", src.size(), " keypoints"));
    if (out.size() != src.size() || costs.size() != src.size()) return;
    for (std::size_t i = 0; i < src.size(); ++i) {
        Outcome o = match_one(W, src[i], dst, in_right);
        int want = resolve_ratio(W, o);
        bool unclear = o.tie || o.ambiguous;
        if (W.f == Filter::BIDIRECTIONAL && want >= 0) {
            Outcome r = match_one(W, dst[want], src, !in_right);
            unclear = unclear || r.tie;
            if (r.best != (int)i) { want = -1; vr::event("bidirectional_rejections"); }
        }
        const auto in = [&] {
            return cat(k, in_right ? " left->right" : " right->left", " keypoint ", i, " at ", src[i].pt, ": got ", out[i], " want ", want, ", ", o.valid, " valid candidates, best cost ",
                    o.cost, " second ", o.second, " ratio threshold ", W.ratio);
        };
        vr::event("keypoints_matched_against_candidates");
        check(out[i] >= -1 && out[i] < (int)dst.size(), "index-range", in());
        if (unclear) { vr::event("ties_skipped"); continue; }
        vr::check_lazy(out[i] == want, "index-" + k, in);
        vr::event(want >= 0 ? "keypoints_matched" : "keypoints_unmatched");
        if (W.f == Filter::RATIO_TEST && o.valid > 1) vr::event(want >= 0 ? "ratio_accepted" : "ratio_rejected");
        if (out[i] >= 0) vr::check_lazy(vr::close(costs[i], o.cost, 1e-9), "cost-" + k, [&] { return cat(in(), " reported cost ", costs[i]); });
        // the single-keypoint call
        double c1 = -77;
        const int one = W.m->keypoint_index_in_other_image(src[i], dst, W.left.mat, W.right.mat, in_right, c1);
        Outcome o1 = match_one(W, src[i], dst, in_right);
        const int want1 = resolve_ratio(W, o1);
        vr::check_lazy(one == want1, "single-index-" + k, [&] { return cat(in(), " single call got ", one, " want ", want1); });
        if (one >= 0) vr::check_lazy(vr::close(c1, o1.cost, 1e-9), "single-cost-" + k, in);
    }
}

static void scan(vr::Rng& g) {
    const World W = world(g);
    const bool in_right = g.chance(0.5);
    const Image &A = in_right ? W.left : W.right, &B = in_right ? W.right : W.left;
    const auto kps = keypoints(g, A, g.integer(1, 8));
    const std::string k = std::string(name(W.c)) + "-" + fname(W.f);
    vr::observe_state("scan_configurations", vr::hash_str(k) + in_right);
    vr::nontrivial(vr::hash_bytes(W.left.px.data(), W.left.px.size() * 4, vr::hash_bytes(W.right.px.data(), W.right.px.size() * 4)));
    std::vector<double> costs;
    std::vector<bool> matched;
    const auto out = W.m->keypoints_in_other_image(kps, W.left.mat, W.right.mat, in_right, costs, matched);
    check(out.size() == kps.size() && costs.size() == kps.size() && matched.size() == kps.size(), "scan-size");
    if (out.size() != kps.size() || costs.size() != kps.size() || matched.size() != kps.size()) return;
    for (std::size_t i = 0; i < kps.size(); ++i) {
        const Window wa = centred(kps[i].pt, W.w, W.h);
        double c1 = -77;
        union { unsigned char raw; bool b; } m1;
        m1.raw = 1;  // must be written for a keypoint whose window leaves the image
        const cv::KeyPoint one = W.m->keypoint_in_other_image(kps[i], W.left.mat, W.right.mat, in_right, c1, m1.b);
        check(m1.b == matched[i] && (!m1.b || (one.pt == out[i].pt && vr::close(c1, costs[i], 1e-9))), "scan-single-agrees", cat(k, " keypoint ", kps[i].pt));
        if (!inside(A, wa)) {
            check(!matched[i] && !m1.b, "scan-border-unmatched", cat(k, " keypoint ", kps[i].pt, " window leaves the image"));
            vr::event("border_keypoints");
            continue;
        }
        double best = std::numeric_limits<double>::max(), second = best;
        int bx = -1, n = 0;
        for (int x = wa.x; in_right ? x >= 0 : x + W.w <= B.cols; x += in_right ? -1 : 1) {
            const double c = cost(W.c, A, wa, B, {x, wa.y, W.w, W.h});
            ++n;
            if (c < best) { second = best; best = c; bx = x; }
            else if (c < second) second = c;
        }
        const bool tie = n > 1 && second - best <= 1e-9 * (1 + std::abs(best));
        bool want = true, unclear = tie;
        if (W.f == Filter::RATIO_TEST && n > 1) {
            if (second <= 0) unclear = true;
            else { unclear = unclear || std::abs(best / second - W.ratio) < 1e-9; want = best / second < W.ratio; }
        }
        if (W.f == Filter::BIDIRECTIONAL) {
            for (int x = bx; in_right ? x + W.w <= A.cols : x >= 0; x += in_right ? 1 : -1) {
                if (x == wa.x) continue;
                const double c = cost(W.c, A, {x, wa.y, W.w, W.h}, B, {bx, wa.y, W.w, W.h});
                if (std::abs(c - best) <= 1e-9 * (1 + std::abs(best))) unclear = true;
                if (c < best) want = false;
            }
        }
        if (unclear) { vr::event("ties_skipped"); continue; }
        const auto in = [&] { return cat(k, in_right ? " left->right" : " right->left", " keypoint ", kps[i].pt, " best x ", bx, " cost ", best, " second ", second, " got ", out[i].pt, " cost ", costs[i], " matched ", (int)matched[i]); };
        vr::event("epipolar_scans");
        vr::event(want ? "scan_matched" : "scan_unmatched");
        vr::check_lazy(matched[i] == want, "scan-matched-" + k, in);
        if (!want) continue;
        vr::check_lazy(vr::close(costs[i], best, 1e-9), "scan-cost-" + k, in);
        // the keypoint lies in the middle of the pixel at the centre of the best window
        vr::check_lazy(std::abs(out[i].pt.x - (bx + W.w / 2.0)) < 1e-3 && std::abs(out[i].pt.y - (wa.y + W.h / 2.0)) < 1e-3, "scan-position-" + k, in);
        check(out[i].size == kps[i].size && out[i].octave == kps[i].octave && out[i].angle == kps[i].angle, "scan-keeps-attributes");
    }
}

static void config(vr::Rng& g) {
    const int w = g.integer(-3, 9), h = g.integer(-3, 9);
    const double r = g.pick(std::vector<double>{-0.5, 0.0, 1e-9, 0.3, 0.5, 0.999999, 1.0, 1.5});
    const bool ok = w > 0 && h > 0 && w % 2 == 1 && h % 2 == 1 && r > 0 && r < 1;
    const Cost c = (Cost)g.integer(0, 4);
    const bool create = g.chance(0.5);
    vr::nontrivial(vr::hash_mix(w * 100 + h, (std::uint64_t)(std::int64_t)(r * 1e6)) + (int)c);
    const auto f = [&] { (void)make(c, {w, h}, 1.f, Filter::RATIO_TEST, r, create); };
    if (ok) vr::expect_no_throw(f, "valid-configuration", cat(w, "x", h, " ratio ", r));
    else vr::expect_throw(f, "invalid-configuration", cat(w, "x", h, " ratio ", r));
    vr::event(ok ? "configurations_accepted" : "configurations_refused");
    check(serpent::to_matching_filter("UNIDIRECTIONAL") == Filter::UNIDIRECTIONAL && serpent::to_matching_filter("BIDIRECTIONAL") == Filter::BIDIRECTIONAL &&
            serpent::to_matching_filter("RATIO_TEST") == Filter::RATIO_TEST, "filter-names");
    static const std::vector<std::string> bad = {"", "unidirectional", "RATIO", "RATIO_TEST ", "BIDIRECTIONAL_", "NONE"};
    vr::expect_throw([&] { (void)serpent::to_matching_filter(g.pick(bad)); }, "unknown-filter-name");
    // images of different sizes are refused
    const auto m = make(c, {3, 3}, 1.f, Filter::UNIDIRECTIONAL, 0.5, true);
    const Image a = random_image(g, 12, 14, 1, 254), b = random_image(g, g.chance(0.5) ? 12 : 13, 15, 1, 254);
    double cost;
    bool matched;
    const std::vector<cv::KeyPoint> kp{cv::KeyPoint(6.f, 6.f, 1.f)};
    vr::expect_throw([&] { (void)m->keypoint_in_other_image(kp[0], a.mat, b.mat, g.chance(0.5), cost, matched); }, "scan-size-mismatch");
    vr::expect_throw([&] { (void)m->keypoint_index_in_other_image(kp[0], kp, a.mat, b.mat, g.chance(0.5), cost); }, "index-size-mismatch");
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"indices", indices}, {"scan", scan}, {"config", config}}); }
