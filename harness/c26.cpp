// C26: camera tools publish the configured region, turned as configured, with a camera model that fits it.
#include <cv_bridge/cv_bridge.h>
#include <camera_tools/change_frame_id.hpp>
#include <camera_tools/publish_info.hpp>
#include <camera_tools/split_image.hpp>

#include "node_common.hpp"
#include "vr.hpp"

using nc::T;
using vr::cat;
using vr::Rng;
typedef sensor_msgs::Image Image;
typedef sensor_msgs::CameraInfo Info;
typedef XmlRpc::XmlRpcValue X;

struct Enc { const char* name; int bytes; };
static const Enc ENC[] = {{"mono8", 1}, {"bgr8", 3}, {"mono16", 2}, {"rgba8", 4}, {"32FC1", 4}};

static Image image(Rng& r, const Enc& e, int w, int h, std::uint64_t stamp) {
    Image m;
    m.header.stamp = T(stamp);
    m.header.frame_id = "camera";
    m.header.seq = r.integer(0, 1000);
    m.encoding = e.name;
    m.width = w; m.height = h;
    m.step = w * e.bytes + (r.chance(0.4) ? 4 * r.integer(1, 4) : 0);
    m.data.resize((std::size_t)m.step * h);
    for (auto& b : m.data) b = (unsigned char)r.integer(0, 255);
    if (e.bytes == 4 && std::string(e.name) == "32FC1")
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float v = (float)r.uniform(-9, 9); std::memcpy(&m.data[(std::size_t)y * m.step + x * 4], &v, 4); }
    return m;
}

// A picture as a table of pixels; the reference for the operations.
struct Pic {
    int w, h;
    std::vector<std::string> px;
    const std::string& at(int x, int y) const { return px[(std::size_t)y * w + x]; }
};
static Pic crop(const Image& m, int bytes, int u, int v, int w, int h) {
    Pic p{w, h, {}};
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p.px.emplace_back((const char*)&m.data[(std::size_t)(v + y) * m.step + (u + x) * bytes], bytes);
    return p;
}
struct Model { double fx, fy, cx, cy; };
template<typename F>
static Pic remap(const Pic& p, int w, int h, F&& source) {
    Pic q{w, h, {}};
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto s = source(x, y); q.px.push_back(p.at(s.first, s.second)); }
    return q;
}
static void mirror_x(Pic& p, Model& k) { p = remap(p, p.w, p.h, [&](int x, int y) { return std::make_pair(p.w - 1 - x, y); }); k.cx = p.w - 0.5 - k.cx; }
static void mirror_y(Pic& p, Model& k) { p = remap(p, p.w, p.h, [&](int x, int y) { return std::make_pair(x, p.h - 1 - y); }); k.cy = p.h - 0.5 - k.cy; }
static void transpose(Pic& p, Model& k) { p = remap(p, p.h, p.w, [&](int x, int y) { return std::make_pair(y, x); }); std::swap(k.fx, k.fy); std::swap(k.cx, k.cy); }
static void clockwise(Pic& p, Model& k, int quarters) {
    for (int i = 0; i < quarters; ++i) { transpose(p, k); mirror_x(p, k); }
}

struct Op { std::string name, dir; int deg; };
static void apply(const Op& o, Pic& p, Model& k) {
    if (o.name == "rotate_cw") clockwise(p, k, o.deg / 90 % 4);
    else if (o.name == "rotate_acw") clockwise(p, k, (4 - o.deg / 90 % 4) % 4);
    else { if (o.dir != "vert") mirror_x(p, k); if (o.dir != "horiz") mirror_y(p, k); }
}
static X number(Rng& r, double v) { return v == std::floor(v) && r.chance(0.7) ? X((int)v) : X(v); }

struct Cfg { std::string topic, info, frame, model; int u, v, w, h; std::vector<Op> ops; double D[5]; Model k; };
static X region(int u, int v, int w, int h) { X g; g["u"] = u; g["v"] = v; g["w"] = w; g["h"] = h; return g; }
static X value(Rng& r, const Cfg& c) {
    X x, d, k;
    x["topic"] = c.topic; x["frame_id"] = c.frame; x["info_topic"] = c.info;
    x["region"] = region(c.u, c.v, c.w, c.h);
    d["model"] = c.model;
    const char* names[] = {"k1", "k2", "t1", "t2", "k3"};
    for (int i = 0; i < 5; ++i) d[names[i]] = number(r, c.D[i]);
    k["fx"] = number(r, c.k.fx); k["fy"] = number(r, c.k.fy); k["cx"] = number(r, c.k.cx); k["cy"] = number(r, c.k.cy);
    x["distortion"] = d; x["intrinsic"] = k;
    if (!c.ops.empty()) {
        X o;
        for (const auto& op : c.ops) o[op.name] = op.name == "flip" ? X(op.dir) : X(op.deg);
        x["operations"] = o;
    }
    return x;
}
static Cfg config(Rng& r, int i, int W, int H) {
    Cfg c;
    c.topic = cat("/part", i, "/image_raw"); c.info = cat("/part", i, "/camera_info"); c.frame = cat("part", i);
    c.model = r.chance(0.8) ? "plumb_bob" : "rational_polynomial";
    const bool whole = r.chance(0.15);
    c.w = whole ? W : r.integer(1, W); c.h = whole ? H : r.integer(1, H);
    c.u = r.integer(0, W - c.w); c.v = r.integer(0, H - c.h);
    for (double& d : c.D) d = r.chance(0.3) ? (double)r.integer(-2, 2) : r.uniform(-0.5, 0.5);
    const bool fractions = r.chance(0.5);
    auto near = [&](double v) { return fractions ? v : std::round(v); };
    c.k = Model{near(r.uniform(50, 900)), near(r.uniform(50, 900)), near(r.uniform(0, c.w)), near(r.uniform(0, c.h))};
    static const char* DIR[] = {"horiz", "vert", "both"};
    if (r.chance(0.45)) c.ops.push_back({"flip", DIR[r.integer(0, 2)], 0});
    if (r.chance(0.35)) c.ops.push_back({"rotate_acw", "", 90 * (int)r.integer(0, 3)});
    if (r.chance(0.45)) c.ops.push_back({"rotate_cw", "", 90 * (int)r.integer(0, 3)});
    return c;
}

static void split(Rng& r) {
    vros::reset();
    const Enc& e = ENC[r.integer(0, 4)];
    const int W = r.integer(2, 40), H = r.integer(2, 30), n = r.integer(1, 3), frames = r.integer(1, 3);
    std::vector<Cfg> cfg;
    X images;
    for (int i = 0; i < n; ++i) { cfg.push_back(config(r, i, W, H)); images[i] = value(r, cfg[i]); }
    vros::set_param("/~/images", images);
    std::vector<Image> sent;
    for (int f = 0; f < frames; ++f) sent.push_back(image(r, e, W, H, 5000000000ULL + f * 50000000ULL + r.integer(0, 999)));
    camera_tools::ImageSplitter node;
    for (auto& m : sent) vros::send("/~/input/image", m);
    vros::spin_all();
    for (const Cfg& c : cfg) {
        std::string d = cat(e.name, " ", W, "x", H, " region ", c.u, " ", c.v, " ", c.w, " ", c.h, " ops");
        for (const auto& o : c.ops) d += cat(" ", o.name, " ", o.dir, o.deg);
        auto im = vros::received<Image>(c.topic);
        auto in = vros::received<Info>(c.info);
        if (!vr::check((int)im.size() == frames && (int)in.size() == frames, "split-count", cat(im.size(), " ", in.size(), " of ", frames, " ", d))) return;
        for (int f = 0; f < frames; ++f) {
            const Image& a = *im[f];
            const Info& b = *in[f];
            vr::check(a.header.stamp == sent[f].header.stamp && b.header.stamp == sent[f].header.stamp && a.header.frame_id == c.frame && b.header.frame_id == c.frame, "split-header", d);
            vr::check(a.encoding == e.name && a.width == b.width && a.height == b.height && a.step >= a.width * e.bytes && a.data.size() == (std::size_t)a.step * a.height, "split-shape", d);
            if (a.step < a.width * e.bytes || a.data.size() < (std::size_t)a.step * a.height) return;
            const Pic got = crop(a, e.bytes, 0, 0, a.width, a.height);
            std::vector<int> order;
            for (int i = 0; i < (int)c.ops.size(); ++i) order.push_back(i);
            bool pixels = false, both = false;
            std::string best;
            do {
                Pic p = crop(sent[f], e.bytes, c.u, c.v, c.w, c.h);
                Model k = c.k;
                for (int i : order) apply(c.ops[i], p, k);
                if (p.w != got.w || p.h != got.h || p.px != got.px) continue;
                pixels = true;
                const double tol = 1e-9 + 2.0 * c.ops.size();
                best = cat("K ", b.K[0], " ", b.K[4], " ", b.K[2], " ", b.K[5], " reference ", k.fx, " ", k.fy, " ", k.cx, " ", k.cy);
                both = both || (b.K[0] == k.fx && b.K[4] == k.fy && std::abs(b.K[2] - k.cx) <= tol && std::abs(b.K[5] - k.cy) <= tol);
            } while (std::next_permutation(order.begin(), order.end()));
            vr::check(pixels, "split-pixels", d);
            vr::check(both || !pixels, "split-model", cat(best, " ", d));
            vr::check(b.K[1] == 0 && b.K[3] == 0 && b.K[6] == 0 && b.K[7] == 0 && b.K[8] == 1, "split-model-rest", d);
            if (c.ops.empty()) {
                bool same = b.distortion_model == c.model && b.D.size() == 5;
                for (int i = 0; same && i < 5; ++i) same = b.D[i] == c.D[i];
                same = same && b.P[0] == c.k.fx && b.P[5] == c.k.fy && b.P[2] == c.k.cx && b.P[6] == c.k.cy && b.P[10] == 1;
                vr::check(same, "split-distortion-projection", d);
                vr::event("plain_regions");
            }
            for (const auto& o : c.ops) vr::event(o.name == "flip" ? cat("flips_", o.dir) : cat("turns_", o.deg));
            if (c.ops.size() > 1) vr::event("several_operations");
            vr::event("images_compared");
        }
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ operations on their own, any size
static void operations(Rng& r) {
    const Enc& e = ENC[r.integer(0, 4)];
    const int W = r.integer(1, 60), H = r.integer(1, 60);
    auto m = boost::make_shared<Image>(image(r, e, W, H, 1));
    Info in;
    in.width = W; in.height = H;
    in.K[0] = r.uniform(1, 900); in.K[4] = r.uniform(1, 900); in.K[2] = r.uniform(0, W); in.K[5] = r.uniform(0, H); in.K[8] = 1;
    in.D.assign(5, 0.25); in.distortion_model = "plumb_bob"; in.header.frame_id = "f"; in.header.stamp = T(r.integer(1, 1000000000));
    Op o;
    std::shared_ptr<camera_tools::ImageOperation> op;
    if (r.chance(0.5)) {
        const int q = r.integer(0, 11);
        o = {"rotate_cw", "", 90 * (q % 4)};
        static const cv::RotateFlags FLAG[] = {cv::ROTATE_90_CLOCKWISE, cv::ROTATE_180, cv::ROTATE_90_COUNTERCLOCKWISE};
        if (q % 4 && r.chance(0.4)) op = std::make_shared<camera_tools::Rotate>(FLAG[q % 4 - 1]);
        else op = std::make_shared<camera_tools::Rotate>(90 * q);
    } else {
        static const char* DIR[] = {"horiz", "vert", "both"};
        const int q = r.integer(0, 2);
        o = {"flip", DIR[q], 0};
        op = std::make_shared<camera_tools::Flip>((camera_tools::Flip::Option)q);
    }
    Pic p = crop(*m, e.bytes, 0, 0, W, H);
    Model k{in.K[0], in.K[4], in.K[2], in.K[5]};
    apply(o, p, k);
    auto cv = cv_bridge::toCvShare(m);
    const std::vector<unsigned char> before = m->data;
    cv_bridge::CvImage out{m->header, m->encoding, op->apply(cv->image)};
    auto a = out.toImageMsg();
    const Info b = op->apply(in);
    const std::string d = cat(o.name, " ", o.dir, o.deg, " of ", W, "x", H);
    vr::check(m->data == before, "operation-input-changed", d);
    const Pic got = crop(*a, e.bytes, 0, 0, a->width, a->height);
    vr::check(got.w == p.w && got.h == p.h && got.px == p.px, "operation-pixels", d);
    vr::check((int)b.width == p.w && (int)b.height == p.h, "operation-size", d);
    vr::check(b.K[0] == k.fx && b.K[4] == k.fy && std::abs(b.K[2] - k.cx) <= 0.5 + 1e-9 + (o.deg == 180 || o.dir == "both" ? 0.5 : 0) && std::abs(b.K[5] - k.cy) <= 1 + 1e-9, "operation-model",
              cat("K ", b.K[0], " ", b.K[4], " ", b.K[2], " ", b.K[5], " reference ", k.fx, " ", k.fy, " ", k.cx, " ", k.cy, " ", d));
    vr::check(b.header.stamp == in.header.stamp && b.header.frame_id == "f", "operation-header", d);
    vr::event("operations_compared");
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ camera info for an image stream
static void info(Rng& r) {
    vros::reset();
    double K[4], P[5];
    std::vector<double> D;
    const bool set = r.chance(0.9);
    const char* n[] = {"fx", "fy", "cx", "cy", "baseline"};
    for (int i = 0; i < 4; ++i) { K[i] = set ? r.uniform(1, 900) : 0; if (set && r.chance(0.25)) { K[i] = r.integer(-900, 900); vros::set_param(cat("/~/K/", n[i]), (int)K[i]); } else if (set) vros::set_param(cat("/~/K/", n[i]), K[i]); }
    for (int i = 0; i < 5; ++i) {
        P[i] = set && (i < 4 || r.chance(0.6)) ? (i == 4 ? r.uniform(-1, 1) : r.uniform(1, 900)) : 0;
        if (P[i] != 0) vros::set_param(cat("/~/P/", n[i]), P[i]);
    }
    std::string model;
    if (r.chance(0.8)) { model = "plumb_bob"; vros::set_param("/~/distortion_model", model); }
    if (r.chance(0.7)) { for (int i = r.integer(0, 8); i > 0; --i) D.push_back(r.uniform(-1, 1)); vros::set_param("/~/distortion_coefficients", D); }
    camera_tools::PublishInfo node;
    const int count = r.integer(1, 6);
    std::vector<Image> sent;
    for (int i = 0; i < count; ++i) {
        sent.push_back(image(r, ENC[r.integer(0, 4)], r.integer(1, 20), r.integer(1, 20), 3000000000ULL + 1000003ULL * i));
        sent.back().header.frame_id = cat("cam", r.integer(0, 2));
        vros::send("/~/input/image", sent.back());
        if (r.chance(0.5)) vros::spin_all();
    }
    vros::spin_all();
    auto got = vros::received<Info>("/~/output/camera_info");
    if (!vr::check((int)got.size() == count, "info-count", cat(got.size(), " of ", count))) return;
    for (int i = 0; i < count; ++i) {
        const Info& b = *got[i];
        vr::check(b.header.stamp == sent[i].header.stamp && b.header.frame_id == sent[i].header.frame_id, "info-header", cat("image ", i));
        vr::check(b.width == sent[i].width && b.height == sent[i].height, "info-size", cat("image ", i));
        const double wk[9] = {K[0], 0, K[2], 0, K[1], K[3], 0, 0, 1}, wr[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        const double wp[12] = {P[0], 0, P[2], -P[0] * P[4], 0, P[1], P[3], 0, 0, 0, 1, 0};
        for (int j = 0; j < 9; ++j) vr::check(b.K[j] == wk[j] && b.R[j] == wr[j], "info-K-R", cat("entry ", j));
        for (int j = 0; j < 12; ++j) vr::check(std::abs(b.P[j] - wp[j]) <= 1e-9, "info-P", cat("entry ", j, " ", b.P[j], " ", wp[j]));
        vr::check(b.D == D && b.distortion_model == model, "info-distortion", "");
        vr::event("infos_compared");
        if (P[4] != 0) vr::event("baselines");
    }
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ change of frame id
static void frame(Rng& r) {
    vros::reset();
    const bool named = r.chance(0.8);
    if (named) vros::set_param("/~/frame_id", std::string("new_frame"));
    camera_tools::ChangeFrameId node;
    const int n = r.integer(1, 12);
    struct Item { bool img, inf; Image i; Info c; };
    std::vector<Item> seq;
    for (int k = 0; k < n; ++k) {
        Item t;
        t.img = r.chance(0.85); t.inf = r.chance(0.85);
        const std::uint64_t s = 1000000000ULL + 33333333ULL * k;
        t.i = image(r, ENC[r.integer(0, 4)], r.integer(1, 8), r.integer(1, 8), s);
        t.c.header.stamp = T(s); t.c.header.seq = r.integer(0, 100000); t.c.header.frame_id = "old";
        t.c.width = t.i.width; t.c.height = t.i.height;
        for (auto& x : t.c.K) x = r.uniform(0, 9);
        for (auto& x : t.c.P) x = r.uniform(0, 9);
        for (auto& x : t.c.R) x = r.uniform(0, 9);
        t.c.D.assign(r.integer(0, 5), 0.5);
        t.c.distortion_model = "m";
        seq.push_back(t);
    }
    // Either stream may run up to 6 messages ahead.
    int a = 0, b = 0;
    while (a < n || b < n) {
        const bool ia = a < n && (b >= n || (a - b < 6 && (b - a >= 6 || r.chance(0.5))));
        if (ia) { if (seq[a].img) vros::send("/~/input/image", seq[a].i); ++a; }
        else { if (seq[b].inf) vros::send("/~/input/camera_info", seq[b].c); ++b; }
        vros::spin_all();
    }
    auto im = vros::received<Image>("/~/output/image");
    auto in = vros::received<Info>("/~/output/camera_info");
    const std::string id = named ? "new_frame" : "CHANGED_FRAME_ID_DEFAULT";
    std::size_t k = 0;
    for (const auto& t : seq) {
        if (!t.img || !t.inf) { vr::event("unpaired"); continue; }
        if (!vr::check(k < im.size() && k < in.size(), "frame-missing", cat(k, " of ", im.size(), " ", in.size()))) return;
        const Image& x = *im[k];
        const Info& y = *in[k];
        vr::check(x.header.frame_id == id && y.header.frame_id == id, "frame-id", x.header.frame_id);
        vr::check(x.header.stamp == t.i.header.stamp && y.header.stamp == t.i.header.stamp, "frame-stamp", cat("pair ", k));
        vr::check(x.data == t.i.data && x.width == t.i.width && x.height == t.i.height && x.step == t.i.step && x.encoding == t.i.encoding && x.is_bigendian == t.i.is_bigendian, "frame-image", cat("pair ", k));
        vr::check(y.D == t.c.D && y.K == t.c.K && y.P == t.c.P && y.R == t.c.R && y.width == t.c.width && y.height == t.c.height && y.distortion_model == t.c.distortion_model, "frame-info", cat("pair ", k));
        ++k;
        vr::event("pairs_compared");
    }
    vr::check(im.size() == k && in.size() == k, "frame-extra", cat(k, " expected ", im.size(), " ", in.size()));
    vr::nontrivial(r.next());
}

// ------------------------------------------------------------------ refusals
static void refuse(Rng& r) {
    vros::reset();
    const int kind = r.integer(0, 7);
    const int W = 20, H = 16;
    Cfg c = config(r, 0, W, H);
    X images, x = value(r, c);
    bool refused = false;
    std::string d = cat("kind ", kind);
    if (kind == 0) { if (r.chance(0.5)) images = r.chance(0.5) ? X("all") : X(3); }
    else if (kind == 1) images[0] = X(4);
    else if (kind == 2) { x["region"] = X(5); images[0] = x; }
    else if (kind == 3) { X y = value(r, Cfg(c)), o; o["flip"] = X(r.chance(0.5) ? "sideways" : "HORIZ"); y["operations"] = o; images[0] = y; }
    else if (kind == 4) { X y = value(r, Cfg(c)), o; o[r.chance(0.5) ? "rotate" : "scale"] = X(90); y["operations"] = o; images[0] = y; }
    else if (kind == 5 || kind == 6) {
        X y = value(r, Cfg(c)), o;
        int deg; do deg = r.integer(1, 359); while (deg % 90 == 0);
        o[kind == 5 ? "rotate_cw" : "rotate_acw"] = X(deg); d += cat(" degrees ", deg);
        y["operations"] = o; images[0] = y;
    } else {
        const int over = r.integer(1, 9);
        switch (r.integer(0, 3)) {
            case 0: c.u = W - c.w + over; break;
            case 1: c.v = H - c.h + over; break;
            case 2: c.u = -over; break;
            default: c.v = -over; break;
        }
        images[0] = value(r, c);
    }
    if (kind != 0 || images.getType() != X::TypeInvalid) vros::set_param("/~/images", images);
    try {
        camera_tools::ImageSplitter node;
        vros::send("/~/input/image", image(r, ENC[0], W, H, 77));
        vros::spin_all();
    } catch (const std::exception& e) { refused = true; }
    vr::check(refused && vros::received<Image>(c.topic).empty() && vros::received<Info>(c.info).empty(), cat("refused-", kind), d);
    vr::event("refusals");
    vr::nontrivial(r.next());
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"split", split}, {"operations", operations}, {"info", info}, {"frame", frame}, {"refuse", refuse}});
}
