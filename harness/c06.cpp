// C06: point types and typed cloud utilities.
#include <pcl/conversions.h>
#include "clouds.hpp"
#include "pointcloud_tools/pclpointcloud_utilities.hpp"
using namespace ref;
using vr::check;
using vr::cat;

struct TimePointF { float x, y, z, t; };
struct TimePointD { float x, y, z; double t; };

static std::vector<float> fields(const PointUnit& p) { return {p.x, p.y, p.z, p.ux, p.uy, p.uz}; }
static std::vector<float> fields(const PointNormalUnit& p) { return {p.x, p.y, p.z, p.normal_x, p.normal_y, p.normal_z, p.curvature, p.ux, p.uy, p.uz}; }
static std::vector<float> fields(const PointCovariance& p) { return {p.x, p.y, p.z, p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz}; }
static std::vector<float> fields(const PointNormalCovariance& p) {
    return {p.x, p.y, p.z, p.normal_x, p.normal_y, p.normal_z, p.curvature, p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz};
}
static std::vector<float> fields(const PointAngleAxis& p) { return {p.x, p.y, p.z, p.rx, p.ry, p.rz}; }

// The fourth, unnamed element of each vector of four.
static std::vector<float> padding(const PointUnit& p) { return {p.data_u[3]}; }
static std::vector<float> padding(const PointNormalUnit& p) { return {p.data_n[3], p.data_u[3]}; }
static std::vector<float> padding(const PointCovariance&) { return {}; }
static std::vector<float> padding(const PointNormalCovariance& p) { return {p.data_n[3]}; }
static std::vector<float> padding(const PointAngleAxis& p) { return {p.data_r[3]}; }

template<typename P, typename Base>
void in_dirty_memory(vr::Rng& g, const std::string& k, const P& value) {
    alignas(16) unsigned char memory[sizeof(P)];
    const int dirt = g.integer(1, 255);
    std::memset(memory, dirt, sizeof(P));
    const P* z = new (memory) P();
    bool ok = z->data[3] == 1.f;
    for (float f : fields(*z)) ok = ok && f == 0.f;
    for (float f : padding(*z)) ok = ok && f == 0.f;
    check(ok, k + "-default-in-used-memory");
    alignas(16) unsigned char source[sizeof(Base)];
    std::memcpy(source, static_cast<const Base*>(&value), sizeof(Base));
    Base* b = reinterpret_cast<Base*>(source);
    b->data[3] = g.uniform(-5, 5);
    std::memset(memory, dirt, sizeof(P));
    const P* c = new (memory) P(*b);
    ok = c->data[3] == 1.f && fields(*c) == fields(value);
    for (float f : padding(*c)) ok = ok && f == 0.f;
    check(ok, k + "-copy-in-used-memory");
    // Shown as its fields in order (the curvature may be left out).
    std::ostringstream os;
    os << value;
    const std::string text = os.str();
    std::vector<double> shown;
    for (const char* t = text.c_str(); *t;) {
        char* end;
        const double v = std::strtod(t, &end);
        if (end != t) { shown.push_back(v); t = end; } else ++t;
    }
    auto want = fields(value);
    if (shown.size() + 1 == want.size() && want.size() > 7) want.erase(want.begin() + 6);
    ok = shown.size() == want.size();
    for (std::size_t i = 0; ok && i < want.size(); ++i) ok = std::abs(shown[i] - want[i]) <= 1e-3 * std::abs(want[i]) + 1e-30;
    check(ok, k + "-shown", text);
    vr::event("points_shown");
}

template<typename P, typename Base>
void type(vr::Rng& g, const std::string& k, const std::vector<std::string>& names) {
    const P zero;
    bool ok = true;
    for (float f : fields(zero)) ok = ok && f == 0.f;
    check(ok && zero.data[3] == 1.f, k + "-default-zero");
    P p;
    gen::fill(g, p);
    // construct from the plain struct
    const Base& b = p;
    const P q(b);
    check(fields(q) == fields(p) && q.data[3] == 1.f, k + "-copy");
    in_dirty_memory<P, Base>(g, k, p);
    // Round trip through the serialised form, all fields present under their names
    auto c = gen::cloud<P>(g, false);
    pcl::PCLPointCloud2 blob;
    pcl::toPCLPointCloud2(c, blob);
    std::set<std::string> have;
    for (auto& f : blob.fields) have.insert(f.name);
    for (auto& n : names) check(have.count(n) == 1, k + "-field-registered", n);
    // Read each field by name straight from the blob.
    for (std::size_t i = 0; i < c.points.size(); ++i) {
        const auto want = fields(c.points[i]);
        for (std::size_t j = 0; j < names.size(); ++j)
            for (auto& f : blob.fields)
                if (f.name == names[j]) {
                    float v;
                    std::memcpy(&v, &blob.data[i * blob.point_step + f.offset], 4);
                    check(v == want[j] && f.datatype == pcl::PCLPointField::FLOAT32, k + "-field-value", cat(f.name, " got ", v, " want ", want[j]));
                }
    }
    pcl::PointCloud<P> back;
    pcl::fromPCLPointCloud2(blob, back);
    ok = back.size() == c.size() && back.width == c.width && back.height == c.height;
    for (std::size_t i = 0; ok && i < c.size(); ++i) ok = fields(back[i]) == fields(c[i]);
    check(ok, k + "-blob-roundtrip");
    vr::event("typed_clouds_round_tripped");
    vr::nontrivial(vr::hash_bytes(p.data, 12, c.size()));
    // Unit
    if constexpr (std::is_same<P, PointUnit>::value || std::is_same<P, PointNormalUnit>::value) {
        const V3 u(p.ux, p.uy, p.uz);
        check(vr::mat_close(p.get_unit_outer_product(), M3(u * u.transpose()), 1e-6), k + "-outer-product");
        check(vr::mat_close(p.getUnitVector3fMap(), u, 0), k + "-unit-map");
        auto uv = pct::extract_unit_vectors(c);
        bool good = uv.cols() == (long)c.size() && uv.rows() == 3;
        for (std::size_t i = 0; good && i < c.size(); ++i) good = uv(0, i) == c[i].ux && uv(1, i) == c[i].uy && uv(2, i) == c[i].uz;
        check(good, k + "-extract-unit-vectors");
        p.getUnitVector3fMap() = Eigen::Vector3f(1, 2, 3);
        check(p.ux == 1 && p.uy == 2 && p.uz == 3 && p.data_u[0] == 1, k + "-unit-map-writes");
    }
    if constexpr (std::is_same<P, PointCovariance>::value || std::is_same<P, PointNormalCovariance>::value) {
        const Eigen::Matrix3f C = p.getCovarianceMatrix();
        check(C == C.transpose() && C(0, 0) == p.covariance_xx && C(0, 1) == p.covariance_xy && C(0, 2) == p.covariance_xz && C(1, 1) == p.covariance_yy &&
                      C(1, 2) == p.covariance_yz && C(2, 2) == p.covariance_zz, k + "-covariance-matrix", cat(C));
        P r;
        r.setCovariance(C);
        check(r.getCovarianceMatrix() == C, k + "-set-covariance", cat("set\n", C, "\ngot\n", r.getCovarianceMatrix()));
        const auto v6 = p.getCovarianceVector6fMap();
        check(v6(0) == p.covariance_xx && v6(1) == p.covariance_xy && v6(2) == p.covariance_xz && v6(3) == p.covariance_yy && v6(4) == p.covariance_yz && v6(5) == p.covariance_zz,
                k + "-covariance-vector");
    }
}

static void types(vr::Rng& g) {
    const std::vector<std::string> xyz = {"x", "y", "z"}, n = {"normal_x", "normal_y", "normal_z", "curvature"}, u = {"ux", "uy", "uz"},
        c = {"covariance_xx", "covariance_xy", "covariance_xz", "covariance_yy", "covariance_yz", "covariance_zz"}, r = {"rx", "ry", "rz"};
    auto join = [](std::vector<std::vector<std::string>> v) {
        std::vector<std::string> o;
        for (auto& x : v) o.insert(o.end(), x.begin(), x.end());
        return o;
    };
    switch (g.integer(0, 4)) {
        case 0: type<PointUnit, _PointUnit>(g, "PointUnit", join({xyz, u})); break;
        case 1: type<PointNormalUnit, _PointNormalUnit>(g, "PointNormalUnit", join({xyz, n, u})); break;
        case 2: type<PointCovariance, _PointCovariance>(g, "PointCovariance", join({xyz, c})); break;
        case 3: type<PointNormalCovariance, _PointNormalCovariance>(g, "PointNormalCovariance", join({xyz, n, c})); break;
        default: type<PointAngleAxis, _PointAngleAxis>(g, "PointAngleAxis", join({xyz, r}));
    }
}

static void angle_axis(vr::Rng& g) {
    const V3 rv = random_rotation_vector(g);
    const M3 R = exp_so3(rv);
    const V3 t = gen::position(g);
    const M4 T = hom(R, t);
    vr::nontrivial(hash(T));
    vr::sample(cat("rotation vector ", rv.transpose(), " position ", t.transpose()));
    const auto T_f = iso<float>(T);
    const Eigen::Matrix3f Rf = R.cast<float>();
    const Eigen::Quaternionf q{Rf};
    const Eigen::AngleAxisf aa{Rf};
    const Eigen::Vector3f tf = t.cast<float>();
    const Eigen::Translation<float, 3> tr{tf};
    auto verify = [&](PointAngleAxis p, const std::string& k) {
        const V3 r(p.rx, p.ry, p.rz);
        check(vr::mat_close(exp_so3(r), R, 2e-5), "pose-rotation-" + k, cat("r=", r.transpose(), " want ", rv.transpose()));
        check(p.x == tf(0) && p.y == tf(1) && p.z == tf(2), "pose-position-" + k);
        check(p.data[3] == 1.f, "pose-homogeneous-" + k, cat("data[3]=", p.data[3]));
        check(p.data_r[3] == 0.f, "pose-padding-" + k, cat("data_r[3]=", p.data_r[3]));
        check(vr::close(p.angle(), r.norm(), 1e-5), "pose-angle-" + k);
        check(p.angle() <= M_PI + 1e-3, "pose-minimal-" + k);
        check(vr::mat_close(p.getRotationMatrix(), R, 2e-5), "pose-get-matrix-" + k);
        check(vr::mat_close(p.getQuaternion().toRotationMatrix(), R, 2e-5), "pose-get-quaternion-" + k);
        check(vr::mat_close(p.getAngleAxis().toRotationMatrix(), R, 2e-5), "pose-get-angleaxis-" + k);
        const Eigen::Isometry3f I = p.getIsometry();
        check(vr::mat_close(I.linear(), R, 2e-5) && vr::mat_close(I.translation(), t, 1e-5), "pose-get-isometry-" + k);
        vr::event("pose_points");
    };
    verify(PointAngleAxis(T_f), "isometry");
    verify(PointAngleAxis(tf, aa), "vec-angleaxis");
    verify(PointAngleAxis(tf, q), "vec-quaternion");
    verify(PointAngleAxis(tr, q), "trans-quaternion");
    verify(PointAngleAxis(tr, Rf), "trans-matrix");
    PointAngleAxis p;
    gen::fill(g, p);
    p.setPose(T_f);
    verify(p, "set-isometry");
    gen::fill(g, p);
    p.setPose(tf, Rf);
    verify(p, "set-matrix");
    gen::fill(g, p);
    p.setPose(tr, q);
    verify(p, "set-trans-quaternion");
    gen::fill(g, p);
    p.x = tf(0); p.y = tf(1); p.z = tf(2);
    p.setAngleAxis(q);
    verify(p, "set-aa-quaternion");
    gen::fill(g, p);
    p.x = tf(0); p.y = tf(1); p.z = tf(2);
    p.setAngleAxis(Rf);
    verify(p, "set-aa-matrix");
}

template<typename P>
void seconds(vr::Rng& g, const std::string& k, double tol) {
    pcl::PointCloud<P> c;
    const int n = g.chance(0.03) ? g.integer(30, 3000) : g.integer(0, 30);
    std::vector<double> want;
    for (int i = 0; i < n; ++i) {
        P p{};
        p.t = g.chance(0.1) ? 0 : std::floor(g.uniform(0, 1e8)) * (g.chance(0.1) ? 40 : 1);
        p.x = g.uniform(-1, 1);
        want.push_back(p.t * 1e-9);
        c.points.push_back(p);
    }
    c.width = n;
    c.height = 1;
    pct::convert_ns_to_s(c);
    bool ok = (int)c.points.size() == n;
    for (int i = 0; ok && i < n; ++i) ok = std::abs(c.points[i].t - want[i]) <= tol * (1e-12 + want[i]);
    check(ok, "ns-to-s-" + k);
    vr::event("time_conversions", n);
    if (n) vr::nontrivial(vr::hash_bytes(&want[0], 8 * n));
}

static void utilities(vr::Rng& g) {
    if (g.chance(0.5)) seconds<TimePointF>(g, "float", 1e-6);
    else seconds<TimePointD>(g, "double", 1e-12);
    // check_normals counts exactly the normals whose length deviates by more than the threshold
    auto c = gen::cloud<PointNormalUnit>(g);
    const float thr = g.chance(0.3) ? 1e-6f * 1000 : g.uniform(1e-3, 0.5);
    int want = 0;
    for (auto& p : c.points) {
        V3 n = random_unit(g);
        if (g.chance(0.4)) {
            double f = g.chance(0.5) ? 1 + thr * g.uniform(1.05, 3) : 1 - thr * g.uniform(1.05, 1.9);
            if (g.chance(0.1)) f = 0;
            n *= f;
            ++want;
        } else {
            n *= 1 + thr * g.uniform(-0.9, 0.9);
        }
        gen::set_normal(p, n);
        vr::event("normals_judged");
    }
    const int got = pct::check_normals(c, thr);
    check(got == want, "check-normals-count", cat("threshold ", thr, " size ", c.size(), " got ", got, " want ", want));
    auto u = gen::cloud<pcl::PointNormal>(g);
    check(pct::check_normals(u, 1e-5f) == 0, "check-normals-valid");
    vr::nontrivial(vr::hash_mix(want, g.next()));
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"types", types}, {"angle_axis", angle_axis}, {"utilities", utilities}});
}
