// C10: stereo windows and cost functions. C12: match filters. C13: stereo equations.
#include <Eigen/Core>
#include <opencv2/core/mat.hpp>
#include "serpent/front_end/stereo/match_filters.hpp"
#include "serpent/front_end/stereo/stereo_cost_functions.hpp"
#include "serpent/front_end/stereo/stereo_equations.hpp"
#include "serpent/front_end/stereo/window_functions.hpp"
#include "stereo_ref.hpp"
using namespace sref;
using vr::check;
using vr::cat;

// Leave recognisable garbage on the stack: an accumulator that is never initialised then shows.
static void __attribute__((noinline)) poison_stack() {
    volatile double junk[512];
    for (int i = 0; i < 512; ++i) junk[i] = 1.2345e7 + i;
    (void)junk[0];
}

static void windows(vr::Rng& g) {
    const bool big = g.chance(0.1);  // windows whose sums need more than 16 bits and sums of squares more than 24
    const bool huge = big && g.chance(0.06);  // windows of more than 65536 pixels
    const int rows = g.integer(1, 30) + (huge ? 270 : 30 * big), cols = g.integer(1, 30) + (huge ? 270 : 30 * big);
    if (huge) vr::event("huge_windows");
    Image im = random_image(g, rows, cols);
    if (big) { im.mat = cv::Scalar(255) - im.mat / (int)g.integer(1, 8); im.sync(); }
    vr::nontrivial(vr::hash_bytes(im.px.data(), im.px.size() * 4));
    vr::sample(cat(rows, "x", cols, " image, first pixel ", im.px[0]));
    for (int k = 0; k < (huge ? 4 : 30); ++k) {
        Window w{(int)g.integer(-4, cols + 3), (int)g.integer(-4, rows + 3), (int)g.integer(1, 9), (int)g.integer(1, 9)};
        if (big) w = {(int)g.integer(-1, 20), (int)g.integer(-1, 20), (int)g.integer(1, 41), (int)g.integer(1, 41)};
        if (big && g.chance(0.2)) w = {(int)g.integer(-1, 1), (int)g.integer(-1, 1), cols - (int)g.integer(0, 1), rows - (int)g.integer(0, 1)};  // nearly the whole image
        if (g.chance(0.3)) w.x = cols - w.w + g.integer(-1, 1);  // on the border
        if (g.chance(0.3)) w.y = rows - w.h + g.integer(-1, 1);
        if (g.chance(0.2)) w.x = g.integer(-1, 0);
        if (g.chance(0.2)) w.y = g.integer(-1, 0);
        const bool want = inside(im, w);
        const cv::Point2i tl(w.x, w.y);
        const cv::Size sz(w.w, w.h);
        const auto in = [&] { return cat("image ", rows, "x", cols, " window at (", w.x, ",", w.y, ") size ", w.w, "x", w.h); };
        vr::check_lazy(serpent::window_within_image(im.mat, tl, sz) == want, "window-within-image", in);
        vr::event(want ? "windows_inside" : "windows_outside");
        if (!want) continue;
        const double s = sum(im, w), q = sum2(im, w), n = (double)w.w * w.h;
        poison_stack();
        vr::check_lazy(vr::close(serpent::window_sum(im.mat, tl, sz), s, 1e-12), "window-sum", in);
        poison_stack();
        vr::check_lazy(vr::close(serpent::window_mean(im.mat, tl, sz), s / n, 1e-12), "window-mean", in);
        poison_stack();
        vr::check_lazy(vr::close(serpent::window_sum_squares(im.mat, tl, sz), q, 1e-12), "window-sum-squares", in);
    }
}

static void costs(vr::Rng& g) {
    const bool big = g.chance(0.05), huge = big && g.chance(0.1);
    const int rows = g.integer(3, 24) + (huge ? 260 : 30 * big), cols = g.integer(3, 24) + (huge ? 260 : 30 * big), rows2 = huge || g.chance(0.7) ? rows : g.integer(3, 24) + 30 * big, cols2 = huge || g.chance(0.7) ? cols : g.integer(3, 24) + 30 * big;
    const int lo = g.chance(0.5) ? 1 : 0;
    Image a = random_image(g, rows, cols, lo);
    Image b = random_image(g, rows2, cols2, lo);
    if (huge) {  // a bright image against a dark one: the largest sums
        a.mat = cv::Scalar(255) - a.mat / 8;
        b.mat = b.mat / 8;
        a.sync();
        b.sync();
        vr::event("huge_cost_windows");
    } else if (g.chance(0.1)) {  // almost black
        for (Image* i : {&a, &b})
            if (g.chance(0.6)) { i->mat = i->mat / (int)g.integer(60, 250); i->sync(); }
        vr::event("dark_images");
    }
    if (g.chance(0.15) && rows2 == rows && cols2 == cols) { a.mat.copyTo(b.mat); b.sync(); }
    vr::nontrivial(vr::hash_bytes(a.px.data(), a.px.size() * 4, vr::hash_bytes(b.px.data(), b.px.size() * 4)));
    vr::sample(cat(rows, "x", cols, " and ", rows2, "x", cols2));
    for (int k = 0; k < (huge ? 2 : 12); ++k) {
        const int w = huge ? std::min(cols, cols2) - k : g.integer(1, std::min({cols, cols2, big ? 41 : 9})), h = huge ? std::min(rows, rows2) - k : g.integer(1, std::min({rows, rows2, big ? 41 : 9}));
        const Window wa{(int)g.integer(0, cols - w), (int)g.integer(0, rows - h), w, h}, wb{(int)g.integer(0, cols2 - w), (int)g.integer(0, rows2 - h), w, h};
        const cv::Point2i ta(wa.x, wa.y), tb(wb.x, wb.y);
        const cv::Size sz(w, h);
        const auto in = [&] { return cat("windows (", wa.x, ",", wa.y, ") and (", wb.x, ",", wb.y, ") size ", w, "x", h); };
        const auto cmp = [&](const std::string& n, double got, double want) {
            vr::event("costs_compared");
            if (!std::isfinite(want)) return;  // a black window has no scale or norm
            vr::check_lazy(vr::close(got, want, 1e-9), n, [&] { return cat(in(), ": got ", got, " want ", want); });
        };
        const double mean = sum(a, wa) / ((double)w * h);
        poison_stack();
        cmp("sad", serpent::sum_of_absolute_differences(a.mat, b.mat, ta, tb, sz), cost(Cost::SAD, a, wa, b, wb));
        poison_stack();
        cmp("ssd", serpent::sum_of_squared_differences(a.mat, b.mat, ta, tb, sz), cost(Cost::SSD, a, wa, b, wb));
        poison_stack();
        cmp("zmsad", serpent::zero_mean_sum_of_absolute_differences(a.mat, b.mat, ta, tb, sz), cost(Cost::ZMSAD, a, wa, b, wb));
        poison_stack();
        cmp("zmsad-mean", serpent::zero_mean_sum_of_absolute_differences(a.mat, b.mat, ta, tb, sz, mean), cost(Cost::ZMSAD, a, wa, b, wb));
        poison_stack();
        cmp("lssad", serpent::locally_scaled_sum_of_absolute_differences(a.mat, b.mat, ta, tb, sz), cost(Cost::LSSAD, a, wa, b, wb));
        poison_stack();
        cmp("lssad-mean", serpent::locally_scaled_sum_of_absolute_differences(a.mat, b.mat, ta, tb, sz, mean), cost(Cost::LSSAD, a, wa, b, wb));
        poison_stack();
        const double ncc = serpent::negative_normalised_cross_correlation(a.mat, b.mat, ta, tb, sz);
        cmp("ncc", ncc, cost(Cost::NCC, a, wa, b, wb));
        poison_stack();
        cmp("ncc-squares", serpent::negative_normalised_cross_correlation(a.mat, b.mat, ta, tb, sz, sum2(a, wa)), cost(Cost::NCC, a, wa, b, wb));
        if (std::isfinite(ncc)) check(ncc >= -1.0 - 1e-9 && ncc <= 1e-9, "ncc-range", in());
        // identical windows cost nothing
        check(serpent::sum_of_absolute_differences(a.mat, a.mat, ta, ta, sz) == 0 && serpent::sum_of_squared_differences(a.mat, a.mat, ta, ta, sz) == 0, "self-cost-zero", in());
    }
    // images of another type are refused by every cost function
    static const int types[] = {CV_8S, CV_16U, CV_32F, CV_8UC3, CV_64F};
    const cv::Mat bad = cv::Mat::zeros(rows, cols, types[g.integer(0, 4)]);
    const cv::Mat good = cv::Mat::ones(rows, cols, CV_8U);
    const bool first = g.chance(0.5);
    const cv::Mat &m1 = first ? bad : good, &m2 = first ? good : bad;
    const cv::Point2i o(0, 0);
    const cv::Size sz(1, 1);
    vr::expect_throw([&] { serpent::sum_of_absolute_differences(m1, m2, o, o, sz); }, "type-sad");
    vr::expect_throw([&] { serpent::sum_of_squared_differences(m1, m2, o, o, sz); }, "type-ssd");
    vr::expect_throw([&] { serpent::zero_mean_sum_of_absolute_differences(m1, m2, o, o, sz); }, "type-zmsad");
    vr::expect_throw([&] { serpent::zero_mean_sum_of_absolute_differences(m1, m2, o, o, sz, 1.0); }, "type-zmsad-mean");
    vr::expect_throw([&] { serpent::locally_scaled_sum_of_absolute_differences(m1, m2, o, o, sz); }, "type-lssad");
    vr::expect_throw([&] { serpent::locally_scaled_sum_of_absolute_differences(m1, m2, o, o, sz, 1.0); }, "type-lssad-mean");
    vr::expect_throw([&] { serpent::negative_normalised_cross_correlation(m1, m2, o, o, sz); }, "type-ncc");
    vr::expect_throw([&] { serpent::negative_normalised_cross_correlation(m1, m2, o, o, sz, 1.0); }, "type-ncc-squares");
    vr::event("foreign_types_refused");
}

struct MatchSet {
    std::vector<cv::KeyPoint> q, t;
    std::vector<cv::DMatch> m;
};
static MatchSet random_matches(vr::Rng& g) {
    MatchSet s;
    const bool many = g.chance(0.01);
    const int nq = many ? g.integer(200, 900) : g.integer(1, 20), nt = many ? g.integer(200, 900) : g.integer(1, 20), nm = many ? g.integer(260, 1500) : g.chance(0.05) ? 0 : g.integer(1, 40);
    if (many) vr::event("large_match_sets");
    for (int i = 0; i < nq; ++i) s.q.emplace_back(cv::Point2f(g.integer(0, 200) / 4.f, g.integer(0, 40) / 4.f), 1.f);
    for (int i = 0; i < nt; ++i) s.t.emplace_back(cv::Point2f(g.integer(0, 200) / 4.f, g.integer(0, 40) / 4.f), 1.f);
    for (int i = 0; i < nm; ++i) {
        const int a = g.integer(0, nq - 1), b = g.integer(0, nt - 1);
        if (g.chance(0.25)) s.t[b].pt.y = s.q[a].pt.y + g.integer(-8, 8) / 4.f;
        if (g.chance(0.05)) s.t[b].pt.x = s.q[a].pt.x - static_cast<float>(g.magnitude(-5, -0.5));  // far away: a fraction of a pixel
        s.m.emplace_back(a, b, (int)g.integer(-1, 3), g.integer(0, 100) / 4.f);
    }
    return s;
}
static bool same(const cv::DMatch& a, const cv::DMatch& b) { return a.queryIdx == b.queryIdx && a.trainIdx == b.trainIdx && a.imgIdx == b.imgIdx && a.distance == b.distance; }
template<typename Pred>
static void judge(const std::string& k, const MatchSet& s, const std::vector<cv::DMatch>& out, const std::vector<std::size_t>& idx, Pred pass) {
    std::vector<std::size_t> want;
    for (std::size_t i = 0; i < s.m.size(); ++i) if (pass(s.m[i])) want.push_back(i);
    const auto list = [](const std::vector<std::size_t>& v) { std::string o; for (auto x : v) o += std::to_string(x) + " "; return o; };
    vr::check_lazy(idx == want, k + "-indices", [&] { return cat("got ", list(idx), " want ", list(want)); });
    bool ok = out.size() == want.size();
    for (std::size_t i = 0; ok && i < want.size(); ++i) ok = same(out[i], s.m[want[i]]);
    vr::check_lazy(ok, k + "-matches", [&] { return cat(out.size(), " matches returned, ", want.size(), " pass: ", list(want)); });
    vr::event("matches_judged", s.m.size());
    vr::event("matches_passed", want.size());
    vr::event("matches_rejected", s.m.size() - want.size());
}
static void filters(vr::Rng& g) {
    // one filter object serves many calls: state of a call must not leak into the next
    float dthr = g.integer(0, 100) / 4.f, vthr = g.integer(0, 16) / 4.f;
    auto df = g.chance(0.5) ? serpent::DistanceMatchFilter::create(dthr) : cv::makePtr<serpent::DistanceMatchFilter>(dthr);
    auto sf = g.chance(0.5) ? serpent::StereoMatchFilter::create(vthr) : cv::makePtr<serpent::StereoMatchFilter>(vthr);
    double fx = g.uniform(100, 900), b = g.uniform(0.05, 1.0), mx = g.uniform(5, 60), mn = g.uniform(0, 10);
    const bool exact = g.chance(0.3);  // limits that some disparities meet exactly
    if (exact) { fx = 256 << g.integer(0, 1); b = 0.125 * (1 << g.integer(0, 2)); mx = fx * b / (g.chance(0.5) ? 1 : 2); mn = fx * b / (g.chance(0.5) ? 4 : 8); }
    const bool defaults = !exact && g.chance(0.2);
    auto stf = defaults ? serpent::StereoDistanceFilter::create(fx, b) : serpent::StereoDistanceFilter::create(fx, b, mx, mn);
    if (defaults) { mx = std::numeric_limits<float>::max(); mn = 0; }
    serpent::DistanceMatchFilter ddef;
    check(serpent::StereoMatchFilter().vertical_pixel_threshold() == 1.0f && serpent::StereoMatchFilter::create()->vertical_pixel_threshold() == 1.0f, "stereo-default-threshold");
    for (int call = 0; call < 5; ++call) {
        const MatchSet s = random_matches(g);
        std::uint64_t h = 7;
        for (auto& m : s.m) h = vr::hash_mix(h, (std::uint64_t)m.queryIdx * 131 + m.trainIdx * 7 + (std::uint64_t)(m.distance * 4));
        vr::nontrivial(h);
        vr::sample(cat(s.m.size(), " matches between ", s.q.size(), " and ", s.t.size(), " keypoints; thresholds ", dthr, ", ", vthr));
        auto out = df->filter(s.m);
        judge("distance", s, out, df->indices(), [&](const cv::DMatch& m) { return m.distance <= dthr; });
        std::vector<std::size_t> idx{9, 9, 9};
        const float other = g.integer(0, 100) / 4.f;
        out = serpent::DistanceMatchFilter::filter(s.m, other, idx);
        judge("distance-static", s, out, idx, [&](const cv::DMatch& m) { return m.distance <= other; });
        out = ddef.filter(s.m);
        judge("distance-default", s, out, ddef.indices(), [&](const cv::DMatch&) { return true; });
        if (g.chance(0.3)) {
            vthr = g.integer(0, 16) / 4.f;
            sf->set_vertical_pixel_threshold(vthr);
        }
        check(sf->vertical_pixel_threshold() == vthr, "stereo-threshold-getter");
        out = sf->filter(s.q, s.t, s.m);
        const auto stereo = [&](float thr) {
            return [&s, thr](const cv::DMatch& m) { return s.q[m.queryIdx].pt.x > s.t[m.trainIdx].pt.x && std::abs(s.q[m.queryIdx].pt.y - s.t[m.trainIdx].pt.y) <= thr; };
        };
        judge("stereo", s, out, sf->indices(), stereo(vthr));
        idx.assign(3, 9);
        out = serpent::StereoMatchFilter::filter(s.q, s.t, s.m, vthr + 0.5f, idx);
        judge("stereo-static", s, out, idx, stereo(vthr + 0.5f));
        if (!exact && g.chance(0.3)) { fx = g.uniform(100, 900); stf->set_fx(fx); vr::event("focal_length_updates"); }
        if (!exact && g.chance(0.3)) { b = g.uniform(0.05, 1.0); stf->set_baseline(b); vr::event("baseline_updates"); }
        MatchSet clear = s;  // drop matches whose distance is within rounding of a bound
        clear.m.clear();
        const auto dist = [&](const cv::DMatch& m) { return fx * b / ((double)s.q[m.queryIdx].pt.x - s.t[m.trainIdx].pt.x); };
        for (auto& m : s.m)
            if (exact && (dist(m) == mx || dist(m) == mn)) { clear.m.push_back(m); vr::event("matches_exactly_at_limit"); }
            else if (std::abs(dist(m) - mx) > 1e-4 * mx && std::abs(dist(m) - mn) > 1e-4 * (mn + 1e-9)) clear.m.push_back(m);
        out = stf->filter(clear.q, clear.t, clear.m);
        judge("stereo-distance", clear, out, stf->indices(), [&](const cv::DMatch& m) {
            return s.q[m.queryIdx].pt.x > s.t[m.trainIdx].pt.x && dist(m) >= mn && dist(m) <= mx;
        });
        // the inputs of an index outside the keypoints are refused
        if (g.chance(0.1)) {
            MatchSet bad = s;
            const bool q = g.chance(0.5);
            bad.m.emplace_back(q ? (int)s.q.size() : 0, q ? 0 : (int)s.t.size(), 0.f);
            vr::expect_throw([&] { sf->filter(bad.q, bad.t, bad.m); }, "stereo-index-refused");
            vr::expect_throw([&] { stf->filter(bad.q, bad.t, bad.m); }, "stereo-distance-index-refused");
            vr::event("bad_indices_refused");
        }
    }
}

template<typename S>
static void equations_t(vr::Rng& g, double tol) {
    using V = Eigen::Matrix<S, 3, 1>;
    Eigen::Matrix<S, 3, 3> K = Eigen::Matrix<S, 3, 3>::Identity();
    K(0, 0) = g.uniform(100, 1200);
    K(1, 1) = g.uniform(100, 1200);
    K(0, 2) = g.uniform(50, 900);
    K(1, 2) = g.uniform(50, 900);
    if (g.chance(0.3)) K(0, 1) = g.uniform(-5, 5);  // skew is documented to be ignored
    const S b = g.uniform(0.01, 2);
    // memory around the point is not zero
    struct { V before, p, after; } buf;
    buf.before.setConstant(S(-3)); buf.after.setConstant(S(g.uniform(-5, 5)));
    const S z = g.uniform(0.2, 80);
    buf.p = V(g.uniform(-1, 1) * z, g.uniform(-1, 1) * z, z);
    const V s = serpent::stereo_project<S>(buf.p, K, b);
    const double fx = K(0, 0), fy = K(1, 1), cx = K(0, 2), cy = K(1, 2), x = buf.p(0), y = buf.p(1), zz = buf.p(2);
    Eigen::Vector3d want(cx + fx * x / zz, cx + fx * (x - (double)b) / zz, cy + fy * y / zz);
    vr::event("points_projected");
    vr::nontrivial(vr::hash_bytes(&buf.p, sizeof(S) * 3));
    vr::sample(cat("point ", buf.p.transpose(), " -> ", s.transpose()));
    const std::string k = sizeof(S) == 8 ? "-d" : "-f";
    check(vr::mat_close(s, want, tol), "project" + k, cat("point ", buf.p.transpose(), " got ", s.transpose(), " want ", want.transpose()));
    // back-projection inverts projection
    const V back = serpent::stereo_backproject<S>(want.cast<S>(), K, b);
    const double disp = fx * b / zz;
    const double rt = tol * (1 + 1500 / disp) * (1 + std::abs(zz));
    check((back.template cast<double>() - Eigen::Vector3d(x, y, zz)).cwiseAbs().maxCoeff() <= rt, "round-trip" + k, cat("point ", buf.p.transpose(), " came back as ", back.transpose()));
    // back-projection against its definition, for any coordinate (positive or negative disparity)
    V c(g.uniform(0, 1000), 0, g.uniform(0, 1000));
    c(1) = c(0) - S(g.uniform(0.5, 200) * (g.chance(0.2) ? -1 : 1));
    const double d = (double)c(0) - (double)c(1), Z = fx * b / d;
    const Eigen::Vector3d wb((c(0) - cx) * Z / fx, (c(2) - cy) * Z / fy, Z);
    check(vr::mat_close(serpent::stereo_backproject<S>(c, K, b), wb, tol * 10), "backproject" + k, cat("coordinate ", c.transpose(), " want ", wb.transpose()));
    vr::event("coordinates_backprojected");
    // refused: zero disparity; points on or behind the image plane, whatever lies next to the point in memory
    c(1) = c(0);
    vr::expect_throw([&] { (void)serpent::stereo_backproject<S>(c, K, b); }, "zero-disparity-refused" + k);
    buf.after.setConstant(S(5));
    buf.p(2) = g.chance(0.3) ? S(0) : S(-g.uniform(1e-3, 50));
    vr::expect_throw([&] { (void)serpent::stereo_project<S>(buf.p, K, b); }, "behind-refused" + k);
}
static void equations(vr::Rng& g) {
    if (g.chance(0.5)) equations_t<double>(g, 1e-10); else equations_t<float>(g, 2e-5);
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"windows", windows}, {"costs", costs}, {"filters", filters}, {"equations", equations}});
}
