// C20: body frame tree from parameters, its transforms, and their publication.
#include <ros/ros.h>

#include <eigen_ros/body_frames.hpp>
#include <eigen_ros/body_frames_tf.hpp>
#include <eigen_ros/eigen_ros.hpp>
#include "ref.hpp"
#include "vr.hpp"

using vr::Rng;
typedef XmlRpc::XmlRpcValue X;

struct Frame {
    std::string name, id, parent;
    bool dynamic = false, lookup = false;
    std::vector<std::string> aliases;
    ref::M4 rel;                      // pose in the parent frame (dynamic: at time zero)
    ref::V3 spin = ref::V3::Zero();   // dynamic frames turn with time
};
struct World {
    std::vector<Frame> f;  // f[0] is the body
    const Frame& at(const std::string& n) const { for (auto& x : f) if (x.name == n) return x; throw std::logic_error(n); }
    const Frame* by_id(const std::string& id) const {
        for (auto& x : f) { if (x.id == id) return &x; for (auto& a : x.aliases) if (a == id) return &x; }
        return nullptr;
    }
    ref::M4 pose(const Frame& x, double t) const {
        if (x.parent.empty()) return ref::M4::Identity();
        ref::M4 r = x.rel;
        if (x.dynamic) r = r * ref::hom(ref::exp_so3(x.spin * t), x.spin * (0.1 * t));
        return pose(at(x.parent), t) * r;
    }
    ref::M4 between(const Frame& a, const Frame& b, double t) const { return ref::inv(pose(a, t)) * pose(b, t); }
};

static ref::V3 vec(Rng& r, double s) { return ref::V3(s * r.gauss(), s * r.gauss(), s * r.gauss()); }

static X node(Rng& r, Frame& f) {
    X n;
    n["vr_note"] = X(std::string("x"));
    if (f.id != f.name || r.chance(0.3)) n["frame_id"] = X(f.id);
    if (f.dynamic) { n["dynamic"] = X(true); return n; }
    if (r.chance(0.2)) n["dynamic"] = X(false);
    if (!f.aliases.empty() || r.chance(0.2)) {
        X a;
        a.setSize(0);
        for (std::size_t i = 0; i < f.aliases.size(); ++i) a[static_cast<int>(i)] = X(f.aliases[i]);
        n["aliases"] = a;
    }
    if (f.lookup) n["lookup_tf"] = X(true);
    else if (r.chance(0.2)) n["lookup_tf"] = X(false);
    ref::V3 t = ref::V3::Zero();
    ref::M3 R = ref::M3::Identity();
    if (r.chance(0.85)) {
        X tr;
        tr["vr_note"] = X(0.0);
        const char* k[3] = {"x", "y", "z"};
        for (int i = 0; i < 3; ++i) if (r.chance(0.8)) { t[i] = 5 * r.gauss(); tr[k[i]] = X(t[i]); }
        n["translation"] = tr;
    }
    if (r.chance(0.85)) {
        Eigen::Vector4d q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
        q /= q.norm();
        R = Eigen::Quaterniond(q[0], q[1], q[2], q[3]).toRotationMatrix();
        q *= r.chance(0.5) ? 1.0 : r.uniform(0.5, 3.0);  // configuration need not be normalised
        X ro;
        ro["w"] = X(q[0]); ro["x"] = X(q[1]); ro["y"] = X(q[2]); ro["z"] = X(q[3]);
        n["rotation"] = ro;
    }
    // with lookup_tf the configured transform is ignored
    f.rel = f.lookup ? ref::hom(ref::exp_so3(vec(r, 1)), vec(r, 4)) : ref::hom(R, t);
    return n;
}

static int counter;
static X tree(Rng& r, World& w, const std::string& parent, int depth, X n) {
    X frames;
    const int k = depth >= 3 ? 0 : static_cast<int>(r.integer(0, depth == 0 ? 4 : 2));
    if (k == 0) return n;
    for (int i = 0; i < k; ++i) {
        Frame f;
        f.name = "frame" + std::to_string(counter++);
        f.id = r.chance(0.5) ? f.name : "robot/" + f.name + "_link";
        f.parent = parent;
        f.dynamic = r.chance(0.2);
        f.lookup = !f.dynamic && r.chance(0.25);
        if (f.dynamic) { f.rel = ref::hom(ref::exp_so3(vec(r, 1)), vec(r, 4)); f.spin = vec(r, 0.2); }
        else for (int a = r.integer(0, 2); a > 0; --a) f.aliases.push_back("alias" + std::to_string(counter++));
        const std::string name = f.name;
        const bool dynamic = f.dynamic;
        X c = node(r, f);
        w.f.push_back(f);
        frames[name] = dynamic ? c : tree(r, w, name, depth + 1, c);
    }
    n["frames"] = frames;
    return n;
}

static X config(Rng& r, World& w, X* body_out = nullptr) {
    counter = r.integer(0, 100);
    Frame b;
    b.name = r.chance(0.5) ? "body" : "base_link";
    b.id = r.chance(0.5) ? b.name : "robot/base";
    b.rel = ref::M4::Identity();
    w.f.push_back(b);
    X n;
    n["vr_note"] = X(std::string("x"));
    if (b.id != b.name) n["frame_id"] = X(b.id);
    n = tree(r, w, b.name, 0, n);
    if (body_out) *body_out = n;
    X all;
    all[b.name] = n;
    return all;
}

static std::uint64_t lookups;
static void install(const World& w) {
    lookups = 0;
    vros::Bus::get().tf_lookup = [&w](const std::string& target, const std::string& source, const ros::Time& t, void* out) {
        ++lookups;
        const Frame* a = w.by_id(target);
        const Frame* b = w.by_id(source);
        if (!a || !b) return false;
        const ref::M4 m = w.between(*a, *b, t.toSec());
        auto* o = static_cast<geometry_msgs::TransformStamped*>(out);
        o->header.frame_id = target;
        o->header.stamp = t;
        o->child_frame_id = source;
        const Eigen::Quaterniond q(ref::M3(m.topLeftCorner<3, 3>()));
        o->transform.rotation.w = q.w(); o->transform.rotation.x = q.x(); o->transform.rotation.y = q.y(); o->transform.rotation.z = q.z();
        o->transform.translation.x = m(0, 3); o->transform.translation.y = m(1, 3); o->transform.translation.z = m(2, 3);
        return true;
    };
}
static bool same(const Eigen::Isometry3d& a, const ref::M4& b) { return vr::mat_close(a.matrix(), b, 1e-7); }
static bool same(const geometry_msgs::Transform& t, const ref::M4& b) {
    const ref::M3 R = Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z).toRotationMatrix();
    return vr::mat_close(ref::hom(R, ref::V3(t.translation.x, t.translation.y, t.translation.z)), b, 1e-7);
}

static void lookup(Rng& r) {
    vros::reset();
    World w;
    const X c = config(r, w);
    vros::set_param("robot/body_frames", c);
    install(w);
    eigen_ros::BodyFrames bf("robot");
    const Frame& body = w.f[0];
    vr::check(bf.body_frame() == body.name && bf.body_frame_id() == body.id, "body-name");
    const std::vector<std::string> frames_list = bf.frames();
    std::vector<std::string> want, got = frames_list;
    for (auto& f : w.f) want.push_back(f.name);
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    vr::check(got == want, "frame-list", vr::cat(got.size(), " vs ", want.size()));
    vr::observe_state("tree_sizes", w.f.size());
    for (auto& f : w.f) {
        const double t = r.chance(0.3) ? 0.0 : 0.001 * r.integer(1, 60000);
        ros::Time st; st.fromSec(t);
        const double tt = st.toSec();
        const std::string d = vr::cat(f.name, " parent ", f.parent, " dynamic ", f.dynamic, " lookup ", f.lookup, " t ", t);
        vr::check(bf.has_frame(f.name), "has-frame", d);
        vr::check(bf.frame_id(f.name) == f.id && bf.frame(f.id) == f.name, "frame-id", d);
        vr::check(bf.is_dynamic(f.name) == f.dynamic && bf.lookedup_tf(f.name) == f.lookup, "frame-kind", d);
        std::vector<std::string> al = bf.aliases(f.id), aw = f.aliases;
        std::sort(al.begin(), al.end());
        std::sort(aw.begin(), aw.end());
        vr::check(al == aw, "aliases", d);
        for (auto& a : f.aliases) { vr::check(bf.frame(a) == f.name, "alias-frame", d); vr::event("aliases_resolved"); }
        const ref::M4 bt = w.between(body, f, tt);
        const std::uint64_t before = lookups;
        vr::check_lazy(same(bf.body_to_frame(f.name, st), bt), "body-to-frame", [&] { return vr::cat(d, "\n", bf.body_to_frame(f.name, st).matrix(), "\nexpected\n", bt); });
        vr::check_lazy(same(bf.frame_to_body(f.name, st), ref::inv(bt)), "frame-to-body", [&] { return vr::cat(d, "\n", bf.frame_to_body(f.name, st).matrix()); });
        if (!f.dynamic) vr::check(lookups == before, "static-frame-looked-up-again", d);
        vr::event(f.dynamic ? "dynamic_transforms" : f.lookup ? "looked_up_transforms" : "configured_transforms");
        const Frame& g = w.f[r.integer(0, w.f.size() - 1)];
        vr::check_lazy(same(bf.frame_to_frame(f.name, g.name, st), w.between(f, g, tt)), "frame-to-frame", [&] { return vr::cat(d, " to ", g.name); });
        if (!f.dynamic && !g.dynamic) vr::check(same(bf.frame_to_frame(f.name, g.name), w.between(f, g, 0)), "frame-to-frame-default-time", d);
        vr::nontrivial(vr::hash_bytes(bt.data(), sizeof(double) * 16));
    }
    vr::check(!bf.has_frame("nowhere"), "has-unknown-frame");
    vr::expect_throw([&] { bf.frame_id("nowhere"); }, "unknown-frame-id");
    vr::expect_throw([&] { bf.frame("nowhere"); }, "unknown-frame");
    vr::expect_throw([&] { bf.body_to_frame("nowhere"); }, "unknown-body-to-frame");
    vr::expect_throw([&] { bf.frame_to_body("nowhere"); }, "unknown-frame-to-body");
    vr::expect_throw([&] { bf.frame_to_frame(body.name, "nowhere"); }, "unknown-frame-to-frame");
    vr::expect_throw([&] { bf.frame_to_frame("nowhere", body.name); }, "unknown-frame-to-frame");
    // TF failures surface
    bool has_lookup = false;
    for (auto& f : w.f) has_lookup |= f.lookup;
    vros::Bus::get().tf_lookup = [](const std::string&, const std::string&, const ros::Time&, void*) { return false; };
    for (auto& f : w.f) if (f.dynamic) { vr::expect_throw([&] { bf.body_to_frame(f.name); }, "tf-failure-hidden"); vr::event("tf_failures"); }
    if (has_lookup) { vr::expect_throw([&] { eigen_ros::BodyFrames x("robot"); }, "tf-failure-hidden-at-start"); vr::event("tf_failures"); }
}

static void publish(Rng& r) {
    vros::reset();
    World w;
    const X c = config(r, w);
    vros::set_param("robot/body_frames", c);
    install(w);
    eigen_ros::BodyFramesTf tf("robot");
    std::map<std::string, geometry_msgs::TransformStamped> edge;
    int duplicates = 0;
    for (auto& m : vros::received<tf2_msgs::TFMessage>("/tf_static"))
        for (auto& t : m->transforms) duplicates += !edge.emplace(t.child_frame_id, t).second;
    vr::check(duplicates == 0, "static-duplicated");
    std::size_t expected = 0;
    for (auto& f : w.f) {
        const bool own = !f.parent.empty() && !f.lookup && !f.dynamic;
        const std::string d = vr::cat(f.name, " dynamic ", f.dynamic, " lookup ", f.lookup);
        if (f.dynamic) vr::check(!edge.count(f.id), "dynamic-frame-published-static", d);
        else vr::check(edge.count(f.id) == (own ? 1u : 0u), "static-set", d);
        expected += own;
        if (own && edge.count(f.id)) {
            // the transform relative to whatever parent was chosen
            const Frame* p = w.by_id(edge[f.id].header.frame_id);
            vr::check(p && same(edge[f.id].transform, w.between(*p, f, 0)), "static-transform", d);
            vr::event("static_transforms");
        }
        for (auto& a : f.aliases) {
            ++expected;
            if (!vr::check(edge.count(a) == 1, "alias-not-published", d)) continue;
            const Frame* p = w.by_id(edge[a].header.frame_id);
            vr::check(p && same(edge[a].transform, w.between(*p, f, 0)), "alias-transform", d);
            vr::event("alias_transforms");
        }
        if (f.dynamic) vr::event("dynamic_frames_in_published_trees");
    }
    for (auto& e : edge) vr::check(w.by_id(e.first) != nullptr, "static-unknown-frame", e.first);
    vr::check(edge.count(w.f[0].id) == 0, "body-given-a-parent");
    for (int i = 0; i < 4; ++i) {
        const Frame& a = w.f[r.integer(0, w.f.size() - 1)];
        const Frame& b = w.f[r.integer(0, w.f.size() - 1)];
        eigen_ros::lookup_transform srv;
        srv.request.source_frame = a.name;
        srv.request.target_frame = b.name;
        vr::check(vros::call("robot/lookup_transform", srv) && same(srv.response.transform, w.between(a, b, 0)), "service", vr::cat(a.name, " -> ", b.name));
        vr::event("service_calls");
    }
    vr::check(vros::Bus::get().errors.empty(), "bus-errors", vros::Bus::get().errors.empty() ? "" : vros::Bus::get().errors[0]);
    vr::nontrivial(vr::hash_mix(w.f.size(), r.next()));
}

static void refuse(Rng& r) {
    vros::reset();
    World w;
    X body;
    X all = config(r, w, &body);
    install(w);
    const int kind = r.integer(0, 10);
    X leaf, other;
    leaf["vr_note"] = X(0.0);
    other["vr_note"] = X(0.0);
    X& frames = body["frames"];
    auto child = [&](const char* k) -> X& { return frames[k]; };
    switch (kind) {
        case 0: { X n; n["frames"]["twin"] = leaf; child("twin") = n; break; }                        // same name nested
        case 1: other["frame_id"] = X(w.f[r.integer(0, w.f.size() - 1)].id); child("zz") = other; break;  // frame_id in use
        case 2: { X a; a[0] = X(w.f[0].id); other["aliases"] = a; child("zz") = other; break; }        // alias in use
        case 3: { X a; a[0] = X(std::string("q")); a[1] = X(std::string("q")); other["aliases"] = a; child("zz") = other; break; }
        case 4: other["aliases"] = X(std::string("notalist")); child("zz") = other; break;
        case 5: { X a; a[0] = X(3); other["aliases"] = a; child("zz") = other; break; }
        case 6: {
            const char* bad[] = {"aliases", "lookup_tf", "translation", "rotation", "frames"};
            const char* k = bad[r.integer(0, 4)];
            other["dynamic"] = X(true);
            if (std::string(k) == "lookup_tf") other[k] = X(r.chance(0.5));
            else if (std::string(k) == "aliases") other[k].setSize(0);
            else other[k] = leaf;
            child("zz") = other;
            break;
        }
        case 7: other["rotation"]["w"] = X(1.0); other["rotation"]["x"] = X(std::string("a")); child("zz") = other; break;  // wrong type
        case 8: all["second"] = leaf; break;
        case 9: all = X(std::string("text")); break;
        default: all = X(); break;
    }
    if (kind < 8) { all = X(); all[w.f[0].name] = body; }
    if (kind != 10) vros::set_param("robot/body_frames", all);
    vr::expect_throw([&] { eigen_ros::BodyFrames x("robot"); }, "misconfiguration-accepted-" + std::to_string(kind));
    vr::event("misconfigurations_refused");
    vr::observe_state("misconfiguration_kinds", kind);
    vr::nontrivial(vr::hash_mix(kind, r.next()));
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"lookup", lookup}, {"publish", publish}, {"refuse", refuse}}); }
