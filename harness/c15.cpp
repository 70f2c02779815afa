// C15: editing and analysing serialised point clouds; C16: deskewing them.
#include <ros/ros.h>

#include <pointcloud_tools/pclpointcloud2_utilities.hpp>
#include "ref.hpp"
#include "vr.hpp"

using vr::Rng;
typedef pcl::PCLPointCloud2 Cloud;
typedef pcl::PCLPointField F;

static int size_of(int t) {
    switch (t) { case F::INT8: case F::UINT8: return 1; case F::INT16: case F::UINT16: return 2; case F::INT32: case F::UINT32: case F::FLOAT32: return 4; default: return 8; }
}
static const std::vector<int> TYPES{F::INT8, F::UINT8, F::INT16, F::UINT16, F::INT32, F::UINT32, F::FLOAT32, F::FLOAT64};
template<typename T> T raw(const Cloud& c, const F& f, std::size_t i) { T t; std::memcpy(&t, c.data.data() + i * c.point_step + f.offset, sizeof t); return t; }
template<typename T> void put_raw(Cloud& c, const F& f, std::size_t i, T t) { std::memcpy(c.data.data() + i * c.point_step + f.offset, &t, sizeof t); }
static double value(const Cloud& c, const F& f, std::size_t i) {
    switch (f.datatype) {
        case F::INT8: return raw<std::int8_t>(c, f, i); case F::UINT8: return raw<std::uint8_t>(c, f, i);
        case F::INT16: return raw<std::int16_t>(c, f, i); case F::UINT16: return raw<std::uint16_t>(c, f, i);
        case F::INT32: return raw<std::int32_t>(c, f, i); case F::UINT32: return raw<std::uint32_t>(c, f, i);
        case F::FLOAT32: return raw<float>(c, f, i); default: return raw<double>(c, f, i);
    }
}
static void put(Cloud& c, const F& f, std::size_t i, double v) {
    switch (f.datatype) {
        case F::INT8: put_raw<std::int8_t>(c, f, i, v); break; case F::UINT8: put_raw<std::uint8_t>(c, f, i, v); break;
        case F::INT16: put_raw<std::int16_t>(c, f, i, v); break; case F::UINT16: put_raw<std::uint16_t>(c, f, i, v); break;
        case F::INT32: put_raw<std::int32_t>(c, f, i, v); break; case F::UINT32: put_raw<std::uint32_t>(c, f, i, v); break;
        case F::FLOAT32: put_raw<float>(c, f, i, v); break; default: put_raw<double>(c, f, i, v);
    }
}
// value representable in every signed/unsigned type concerned
static double any(Rng& r, int t) {
    switch (t) {
        case F::INT8: return r.integer(-128, 127); case F::UINT8: return r.integer(0, 255);
        case F::INT16: return r.integer(-32768, 32767); case F::UINT16: return r.integer(0, 65535);
        case F::INT32: return r.chance(0.2) ? r.integer(-2147483647L - 1, 2147483647L) : r.integer(-1000, 1000);
        case F::UINT32: return r.chance(0.2) ? r.integer(0, 4294967295L) : r.integer(0, 1000);
        case F::FLOAT32: return static_cast<float>(r.chance(0.2) ? r.magnitude(-6, 6) : r.uniform(-100, 100));
        default: return r.chance(0.2) ? r.magnitude(-6, 6) : r.uniform(-100, 100);
    }
}

// Random layout: gaps, trailing padding, field list not in offset order, multi-element fields; garbage everywhere else.
static Cloud cloud(Rng& r, std::vector<std::pair<std::string, int>> wanted, bool points = true) {
    Cloud c;
    c.header.stamp = 1000000 + r.next() % 2000000000000000ull;
    c.header.frame_id = "lidar" + std::to_string(r.integer(0, 3));
    c.header.seq = r.integer(0, 1000);
    for (int i = r.integer(0, 3); i > 0; --i) wanted.push_back({"extra" + std::to_string(i), r.pick(TYPES)});
    for (std::size_t i = wanted.size(); i > 1; --i) std::swap(wanted[i - 1], wanted[r.integer(0, i - 1)]);
    std::uint32_t off = r.chance(0.3) ? r.integer(0, 7) : 0;
    for (auto& w : wanted) {
        F f;
        f.name = w.first; f.datatype = w.second; f.offset = off;
        f.count = w.first.compare(0, 5, "extra") == 0 ? r.integer(1, 3) : 1;
        off += size_of(w.second) * f.count + (r.chance(0.3) ? r.integer(1, 5) : 0);
        c.fields.push_back(f);
    }
    if (r.chance(0.5)) for (std::size_t i = c.fields.size(); i > 1; --i) std::swap(c.fields[i - 1], c.fields[r.integer(0, i - 1)]);
    c.point_step = off + (r.chance(0.4) ? r.integer(1, 8) : 0);
    c.height = r.chance(0.3) ? r.integer(2, 4) : 1;
    c.width = points ? (r.chance(0.02) ? r.integer(100, 3000) : r.chance(0.1) ? r.integer(12, 100) : r.integer(1, 12)) : 0;
    if (r.chance(0.07)) c.width = 0;
    c.row_step = c.width * c.point_step;
    c.is_dense = r.integer(0, 1);
    c.is_bigendian = 0;
    c.data.resize(c.row_step * c.height);
    for (auto& b : c.data) b = static_cast<std::uint8_t>(r.next());
    for (auto& f : c.fields) for (std::size_t i = 0; i < c.width * c.height; ++i)
        for (std::uint32_t k = 0; k < f.count; ++k) { F e = f; e.offset += k * size_of(f.datatype); put(c, e, i, any(r, f.datatype)); }
    return c;
}
static std::size_t n_of(const Cloud& c) { return static_cast<std::size_t>(c.width) * c.height; }
static bool field_eq(const F& a, const F& b) { return a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count; }
static const F& named(const Cloud& c, const std::string& n) { for (auto& f : c.fields) if (f.name == n) return f; throw std::logic_error("no field " + n); }
static bool meta_eq(const Cloud& a, const Cloud& b) {
    return a.header.stamp == b.header.stamp && a.header.frame_id == b.header.frame_id && a.header.seq == b.header.seq && a.height == b.height && a.width == b.width && a.is_bigendian == b.is_bigendian && a.is_dense == b.is_dense;
}
static std::string layout(const Cloud& c) {
    std::ostringstream o;
    o << c.width << "x" << c.height << " step " << c.point_step << ":";
    for (auto& f : c.fields) o << " " << f.name << "@" << f.offset << "/t" << int(f.datatype) << "x" << f.count;
    return o.str();
}
// every byte outside [off, off+len) of each point is as before
static bool others_kept(const Cloud& a, const Cloud& b, std::uint32_t off, std::uint32_t len) {
    if (a.data.size() != b.data.size() || a.point_step != b.point_step) return false;
    for (std::size_t i = 0; i < a.data.size(); ++i) {
        const std::uint32_t p = i % a.point_step;
        if ((p < off || p >= off + len) && a.data[i] != b.data[i]) return false;
    }
    return true;
}

static void layout_edits(Rng& r) {
    Cloud src = r.chance(0.05) ? Cloud() : cloud(r, {{"x", F::FLOAT32}, {"y", F::FLOAT32}, {"z", F::FLOAT32}});
    const Cloud before = src;
    const std::string d = layout(src);
    // append
    std::vector<std::string> names;
    for (int i = r.integer(1, 4); i > 0; --i) names.push_back("new" + std::to_string(i));
    const int type = r.pick(TYPES);
    const std::uint32_t count = r.integer(1, 3);
    const Cloud dst = names.size() == 1 && r.chance(0.5) ? pct::add_field(src, names[0], static_cast<F::PointFieldTypes>(type), count) : pct::add_fields(src, names, static_cast<F::PointFieldTypes>(type), count);
    const std::string e = d + " -> " + layout(dst);
    vr::check(meta_eq(src, dst), "append-metadata", e);
    vr::check(dst.row_step == dst.width * dst.point_step && dst.data.size() == static_cast<std::size_t>(dst.row_step) * dst.height, "append-size", e);
    bool ok = dst.fields.size() == src.fields.size() + names.size();
    for (std::size_t i = 0; ok && i < src.fields.size(); ++i) ok = field_eq(dst.fields[i], src.fields[i]);
    for (std::size_t i = 0; ok && i < names.size(); ++i) { const F& f = dst.fields[src.fields.size() + i]; ok = f.name == names[i] && f.datatype == type && f.count == count; }
    vr::check(ok, "append-fields", e);
    std::vector<int> used(dst.point_step, 0);
    for (auto& f : dst.fields) for (std::uint32_t k = 0; k < size_of(f.datatype) * f.count; ++k) {
        if (f.offset + k >= dst.point_step) { ok = false; break; }
        ++used[f.offset + k];
    }
    for (int u : used) ok = ok && u <= 1;
    vr::check(ok, "append-overlap", e);
    if (ok) for (std::size_t i = 0; ok && i < n_of(src); ++i) for (auto& f : src.fields)
        ok = ok && std::memcmp(dst.data.data() + i * dst.point_step + f.offset, src.data.data() + i * src.point_step + f.offset, size_of(f.datatype) * f.count) == 0;
    vr::check(ok, "append-values", e);
    vr::event("clouds_extended");
    vr::nontrivial(vr::hash_bytes(src.data.data(), src.data.size(), src.point_step));
    // names and lookups
    for (auto& f : src.fields) { vr::check(pct::has_field(src, f.name) && field_eq(pct::get_field(static_cast<const Cloud&>(src), f.name), f), "lookup", d); }
    vr::check(!pct::has_field(src, "absent"), "lookup-absent", d);
    vr::expect_throw([&] { pct::get_field(src, "absent"); }, "lookup-absent", d);
    vr::expect_throw([&] { pct::change_field_name(src, "absent", "q"); }, "rename-absent", d);
    if (!src.fields.empty()) {
        Cloud c = src;
        const std::size_t k = r.integer(0, c.fields.size() - 1);
        pct::change_field_name(c, c.fields[k].name, "renamed");
        ok = c.data == src.data && meta_eq(c, src);
        for (std::size_t i = 0; i < c.fields.size(); ++i) { F f = src.fields[i]; if (i == k) f.name = "renamed"; ok = ok && field_eq(f, c.fields[i]); }
        vr::check(ok, "rename", d);
    }
    // sizes
    vr::check(pct::size_points(src) == n_of(src) && pct::size_bytes(src) == src.data.size() && pct::empty(src) == (n_of(src) == 0) && pct::row_step(src) == src.width * src.point_step, "sizes", d);
    Cloud c = src;
    const std::uint32_t w = r.integer(0, 14), h = r.integer(1, 3);
    pct::resize(c, w, h);
    ok = c.width == w && c.height == h && c.row_step == w * c.point_step && c.data.size() == static_cast<std::size_t>(w) * h * c.point_step && c.fields.size() == src.fields.size();
    for (std::size_t i = 0; ok && i < std::min(c.data.size(), src.data.size()); ++i) ok = c.data[i] == src.data[i];
    vr::check(ok, "resize", d);
    vr::check(src.data == before.data && src.point_step == before.point_step && meta_eq(src, before), "source-modified", d);
}

template<typename T> void access_as(Rng& r, Cloud& c, const F& f, const std::string& d) {
    auto get = pct::create_get_field_data_function<T>(f);
    auto set = pct::create_set_field_data_function<T>(f);
    for (std::size_t i = 0; i < n_of(c); ++i) {
        const double v = value(c, f, i);
        // only conversions that are exact or truncating within range are defined
        const bool fits = std::is_floating_point<T>::value || (v > static_cast<double>(std::numeric_limits<T>::lowest()) - 1 && v < static_cast<double>(std::numeric_limits<T>::max()) + 1);
        if (fits) {
            vr::check(get(c, i) == static_cast<T>(v) && pct::field_data<T>(c, f, i) == static_cast<T>(v), "read", vr::cat(d, " field ", f.name, " point ", i));
            vr::event("values_read");
        }
    }
    const std::size_t i = r.integer(0, n_of(c) - 1);
    const double v = std::is_floating_point<T>::value ? r.uniform(0, 100) : r.integer(0, 100);
    const Cloud before = c;
    if (r.chance(0.5)) set(c, i, static_cast<T>(v)); else pct::set_field_data<T>(c, f, i, static_cast<T>(v));
    Cloud want = before;
    put(want, f, i, static_cast<double>(static_cast<T>(v)));
    vr::check(c.data == want.data, "write", vr::cat(d, " field ", f.name, " point ", i));
    vr::event("values_written");
}

template<int TO> void cast_to(Rng& r, Cloud c, const std::string& name, const std::string& d) {
    typedef typename pcl::traits::asType<TO>::type T;
    const F f = named(c, name);
    const bool allowed = size_of(f.datatype) == size_of(TO);
    const bool scaled = r.chance(0.5) && f.datatype != TO;
    const double scale = scaled ? (r.chance(0.5) ? 1e-3 : r.uniform(0.1, 2)) : 1.0;
    // keep values inside the range of the new type
    for (std::size_t i = 0; i < n_of(c); ++i) {
        double v = value(c, f, i) * scale;
        if (!std::is_floating_point<T>::value && !(v > static_cast<double>(std::numeric_limits<T>::lowest()) - 1 && v < static_cast<double>(std::numeric_limits<T>::max()) + 1)) put(c, f, i, r.integer(0, 50));
    }
    const Cloud src = c;
    auto go = [&] { if (scaled) pct::cast_field_with_scale<TO>(c, name, scale); else pct::cast_field<TO>(c, name); };
    if (!allowed) {
        vr::expect_throw(go, "cast-depth-accepted", vr::cat(d, " ", name, " to ", TO));
        vr::check(c.data == src.data && named(c, name).datatype == f.datatype, "refused-cast-changed-cloud", d);
        vr::event("casts_refused");
        return;
    }
    go();
    bool ok = c.fields.size() == src.fields.size() && meta_eq(c, src);
    for (std::size_t i = 0; ok && i < c.fields.size(); ++i) { F w = src.fields[i]; if (w.name == name) w.datatype = TO; ok = field_eq(w, c.fields[i]); }
    vr::check(ok, "cast-metadata", vr::cat(d, " ", name, " to ", TO));
    vr::check(others_kept(src, c, f.offset, size_of(TO)), "cast-touched-other-data", vr::cat(d, " ", name, " to ", TO));
    for (std::size_t i = 0; i < n_of(c); ++i) {
        const double v = value(src, f, i) * scale;
        const T got = raw<T>(c, f, i);
        const double want = static_cast<double>(static_cast<T>(v));
        const double tol = std::is_floating_point<T>::value ? 1e-6 * (1 + std::abs(v)) : (scaled && std::abs(v - std::round(v)) < 1e-9 ? 1.0 : 0.0);
        vr::check(std::abs(static_cast<double>(got) - want) <= tol, scaled ? "cast-scaled-value" : "cast-value", vr::cat(d, " ", name, " to ", TO, ": ", v, " -> ", double(got)));
    }
    vr::event("casts");
}

static void values(Rng& r) {
    Cloud c = cloud(r, {{"a", r.pick(TYPES)}, {"b", r.pick(TYPES)}});
    const std::string d = layout(c);
    const F f = named(c, r.chance(0.5) ? "a" : "b");
    vr::nontrivial(vr::hash_bytes(c.data.data(), c.data.size(), c.point_step));
    if (n_of(c)) {
        access_as<double>(r, c, f, d);
        access_as<float>(r, c, f, d);
        access_as<std::int32_t>(r, c, f, d);
        access_as<std::uint8_t>(r, c, f, d);
        // typed access refuses another type
        const bool is_f = f.datatype == F::FLOAT32;
        if (is_f) { auto g = pct::create_get_field_data_function<float, float>(f); vr::check(g(c, 0) == raw<float>(c, f, 0), "typed-read", d); }
        else { vr::expect_throw([&] { pct::create_get_field_data_function<float, float>(f); }, "typed-read-accepted", d); vr::expect_throw([&] { pct::create_set_field_data_function<double, float>(f); }, "typed-write-accepted", d); }
    }
    F bad = f;
    bad.datatype = r.chance(0.5) ? 0 : 77;
    vr::expect_throw([&] { pct::create_get_field_data_function<double>(bad); }, "unknown-type-read", d);
    vr::expect_throw([&] { pct::create_set_field_data_function<double>(bad); }, "unknown-type-write", d);
    switch (r.integer(0, 7)) {
        case 0: cast_to<F::INT8>(r, c, f.name, d); break;
        case 1: cast_to<F::UINT8>(r, c, f.name, d); break;
        case 2: cast_to<F::INT16>(r, c, f.name, d); break;
        case 3: cast_to<F::UINT16>(r, c, f.name, d); break;
        case 4: cast_to<F::INT32>(r, c, f.name, d); break;
        case 5: cast_to<F::UINT32>(r, c, f.name, d); break;
        case 6: cast_to<F::FLOAT32>(r, c, f.name, d); break;
        default: cast_to<F::FLOAT64>(r, c, f.name, d); break;
    }
    for (int t : TYPES) vr::check(pct::is_8bit(t) == (size_of(t) == 1) && pct::is_16bit(t) == (size_of(t) == 2) && pct::is_32bit(t) == (size_of(t) == 4) && pct::is_64bit(t) == (size_of(t) == 8), "bit-depth", vr::cat("type ", t));
    // scaling
    if (f.datatype == F::FLOAT32 || f.datatype == F::FLOAT64) {
        Cloud s = c;
        const double k = r.uniform(-3, 3);
        pct::scale_field(s, f.name, k);
        vr::check(others_kept(c, s, f.offset, size_of(f.datatype)), "scale-touched-other-data", d);
        for (std::size_t i = 0; i < n_of(c); ++i) vr::check(vr::close(value(s, f, i), value(c, f, i) * k, f.datatype == F::FLOAT64 ? 1e-13 : 1e-6), "scale", d);
        vr::event("fields_scaled");
    }
}

static void analysis(Rng& r) {
    Cloud c = cloud(r, {{"x", F::FLOAT32}, {"y", F::FLOAT32}, {"z", F::FLOAT32}, {"normal_x", F::FLOAT32}, {"normal_y", F::FLOAT32}, {"normal_z", F::FLOAT32}, {"v", r.pick(TYPES)}});
    const std::string d = layout(c);
    const std::size_t n = n_of(c);
    const F v = named(c, "v");
    vr::nontrivial(vr::hash_bytes(c.data.data(), c.data.size(), c.point_step));
    // threshold filter
    double lim = any(r, v.datatype);
    if (n && r.chance(0.4)) lim = value(c, v, r.integer(0, n - 1));
    Cloud f;
    f.data.resize(r.integer(0, 50));
    f.width = r.integer(0, 9);
    if (r.chance(0.5)) pct::filter_max<double>(c, f, "v", lim); else pct::filter_max<double>(c, f, v, lim);
    std::vector<std::uint8_t> want;
    std::size_t kept = 0;
    for (std::size_t i = 0; i < n; ++i) if (value(c, v, i) <= lim) { want.insert(want.end(), c.data.begin() + i * c.point_step, c.data.begin() + (i + 1) * c.point_step); ++kept; }
    bool ok = f.header.stamp == c.header.stamp && f.header.frame_id == c.header.frame_id && f.point_step == c.point_step && static_cast<std::size_t>(f.width) * f.height == kept && f.row_step == f.width * f.point_step && f.fields.size() == c.fields.size();
    for (std::size_t i = 0; ok && i < f.fields.size(); ++i) ok = field_eq(f.fields[i], c.fields[i]);
    vr::check(ok, "filter-metadata", d);
    vr::check(std::vector<std::uint8_t>(f.data.begin(), f.data.end()) == want, "filter-points", vr::cat(d, " limit ", lim, " kept ", kept));
    vr::event("points_filtered", n);
    vr::event("points_kept", kept);
    // statistics
    if (n == 0) {
        vr::expect_throw([&] { pct::min<double>(c, "v"); }, "min-of-nothing", d);
        vr::expect_throw([&] { pct::max<double>(c, v); }, "max-of-nothing", d);
        vr::event("empty_clouds");
        return;
    }
    long double lo = value(c, v, 0), hi = lo, sum = 0, sq = 0;
    for (std::size_t i = 0; i < n; ++i) { const long double x = value(c, v, i); lo = std::min(lo, x); hi = std::max(hi, x); sum += x; }
    const long double mean = sum / n;
    for (std::size_t i = 0; i < n; ++i) { const long double x = value(c, v, i) - mean; sq += x * x; }
    const double var = static_cast<double>(sq / n);
    vr::check(pct::min<double>(c, v) == static_cast<double>(lo) && pct::min<double>(c, "v") == static_cast<double>(lo), "min", d);
    vr::check(pct::max<double>(c, v) == static_cast<double>(hi) && pct::max<double>(c, "v") == static_cast<double>(hi), "max", d);
    const double tol = 1e-9, big = std::max(std::abs(static_cast<double>(lo)), std::abs(static_cast<double>(hi)));
    vr::check(std::abs(pct::mean<double>(c, v) - static_cast<double>(mean)) <= tol * (1 + big) && std::abs(pct::mean(c, "v") - static_cast<double>(mean)) <= tol * (1 + big), "mean", d);
    vr::check(std::abs(pct::sum<double>(c, v) - static_cast<double>(sum)) <= tol * (1 + big) * n, "sum", d);
    vr::check(std::abs(pct::variance<double>(c, v) - var) <= tol * (1 + big) * (1 + big) && std::abs(pct::variance(c, "v") - var) <= tol * (1 + big) * (1 + big), "variance", d);
    vr::check(std::abs(pct::standard_deviation(c, v) - std::sqrt(var)) <= 1e-4 * (1 + big), "standard-deviation", d);
    const auto st = pct::statistics(c);
    ok = st.statistics.size() == c.fields.size() && st.header.frame_id == c.header.frame_id;
    vr::check(ok, "statistics-shape", d);
    for (std::size_t k = 0; ok && k < c.fields.size(); ++k) {
        const F& g = c.fields[k];
        double l = value(c, g, 0), h = l, s = 0;
        for (std::size_t i = 0; i < n; ++i) { l = std::min(l, value(c, g, i)); h = std::max(h, value(c, g, i)); s += value(c, g, i); }
        vr::check(st.statistics[k].label == g.name && st.statistics[k].count == n && st.statistics[k].min == l && st.statistics[k].max == h && std::abs(st.statistics[k].mean - s / n) <= 1e-9 * (1 + std::max(std::abs(l), std::abs(h))), "statistics", vr::cat(d, " ", g.name));
    }
    pct::info_string(c);
    vr::event("statistics_computed");
    // directions
    bool zero = false;
    for (std::size_t i = 0; i < n; ++i) {
        ref::V3 p(r.gauss(), r.gauss(), r.gauss());
        if (r.chance(0.2)) p *= 1e-4;
        if (r.chance(0.03)) { p.setZero(); zero = true; }
        put(c, named(c, "x"), i, p[0]); put(c, named(c, "y"), i, p[1]); put(c, named(c, "z"), i, p[2]);
    }
    if (zero) {
        vr::expect_throw([&] { pct::add_unit_vectors(c); }, "direction-of-zero", d);
        vr::expect_throw([&] { pct::unit_vectors<float>(c); }, "direction-of-zero", d);
        vr::event("zero_points_refused");
    } else {
        const Cloud u = pct::add_unit_vectors(c);
        const auto m = pct::unit_vectors<float>(c);
        const auto po = pct::polar_coordinates<double>(c);
        vr::check(m.cols() == static_cast<long>(n) && po.cols() == static_cast<long>(n), "directions-count", d);
        for (std::size_t i = 0; i < n; ++i) {
            const ref::V3 p(value(c, named(c, "x"), i), value(c, named(c, "y"), i), value(c, named(c, "z"), i)), w = p / p.norm();
            const ref::V3 g(value(u, named(u, "ux"), i), value(u, named(u, "uy"), i), value(u, named(u, "uz"), i));
            vr::check(vr::mat_close(g, w, 1e-5) && vr::mat_close(m.col(i).cast<double>().eval(), w, 1e-5), "directions", vr::cat(d, " point ", i));
            bool same = true;
            for (auto& q : c.fields) same = same && std::memcmp(u.data.data() + i * u.point_step + q.offset, c.data.data() + i * c.point_step + q.offset, size_of(q.datatype) * q.count) == 0;
            vr::check(same, "directions-changed-points", d);
            vr::check(std::abs(po(0, i) - p.norm()) <= 1e-6 * (1 + p.norm()), "polar-range", d);
        }
        vr::event("directions", n);
    }
    // unnormalised normals
    int bad = 0;
    for (std::size_t i = 0; i < n; ++i) {
        ref::V3 q(r.gauss(), r.gauss(), r.gauss());
        q /= q.norm();
        if (r.chance(0.3)) { q *= r.chance(0.5) ? 1.01 : 0.98; ++bad; }
        put(c, named(c, "normal_x"), i, q[0]); put(c, named(c, "normal_y"), i, q[1]); put(c, named(c, "normal_z"), i, q[2]);
    }
    vr::check(pct::check_normals(c, 1e-3f) == bad, "normals-count", d);
    vr::event("normals_judged", n);
}

static void deskew(Rng& r) {
    const int tt = r.chance(0.7) ? F::FLOAT32 : F::FLOAT64, xt = r.chance(0.7) ? F::FLOAT32 : F::FLOAT64;
    Cloud src = cloud(r, {{"x", xt}, {"y", xt}, {"z", xt}, {"t", tt}, {"intensity", F::FLOAT32}});
    const double dt = r.chance(0.8) ? r.uniform(0.02, 0.2) : r.uniform(0.2, 5);
    // The twist stays the same a little before and after the sweep: points measured there, and target times there.
    const bool outside = r.chance(0.2);
    const double reach = r.chance(0.7) ? 40 : r.uniform(0.5, 250);
    for (std::size_t i = 0; i < n_of(src); ++i) {
        for (const char* k : {"x", "y", "z"}) put(src, named(src, k), i, r.uniform(-reach, reach));
        put(src, named(src, "t"), i, r.chance(0.1) ? 0.0 : r.chance(0.1) ? dt : outside ? r.uniform(-0.5 * dt, 1.5 * dt) : r.uniform(0, dt));
    }
    Eigen::Isometry3d skew = Eigen::Isometry3d::Identity();
    const ref::V3 w = ref::V3(r.gauss(), r.gauss(), r.gauss()) * (r.chance(0.2) ? 0.0 : r.chance(0.3) ? 1e-3 : 0.5);
    const ref::V3 tr = ref::V3(r.gauss(), r.gauss(), r.gauss()) * (r.chance(0.2) ? 0.0 : 1.0);
    skew.linear() = ref::exp_so3(w);
    skew.translation() = tr;
    const std::int64_t off = r.chance(0.2) ? 0 : r.chance(0.2) ? static_cast<std::int64_t>(dt * 1e6) : static_cast<std::int64_t>(r.uniform(r.chance(0.15) ? -dt : 0.0, r.chance(0.15) ? 2 * dt : dt) * 1e6);
    const std::uint64_t nt = src.header.stamp + off;
    const bool still = w.norm() == 0 && tr.norm() == 0;
    const std::string d = vr::cat(layout(src), " dt ", dt, " to ", off * 1e-6, " w ", w.transpose(), " t ", tr.transpose());
    Cloud dst;
    dst.data.resize(r.integer(0, 100));
    if (!still) vr::expect_throw([&] { Cloud x; pct::deskew(skew, r.chance(0.5) ? 0.0 : -dt, nt, src, x); }, "deskew-no-duration", d);
    const Cloud before = src;
    pct::deskew(skew, dt, nt, src, dst);
    vr::check(src.data == before.data && src.header.stamp == before.header.stamp, "deskew-source-modified", d);
    vr::check(dst.header.stamp == nt, "deskew-stamp", d);
    bool ok = dst.header.frame_id == src.header.frame_id && dst.width == src.width && dst.height == src.height && dst.point_step == src.point_step && dst.row_step == src.row_step && dst.is_dense == src.is_dense && dst.data.size() == src.data.size() && dst.fields.size() == src.fields.size();
    for (std::size_t i = 0; ok && i < dst.fields.size(); ++i) ok = field_eq(dst.fields[i], src.fields[i]);
    if (!vr::check(ok, "deskew-metadata", d)) return;
    std::vector<char> mine(src.point_step, 0);
    for (const char* k : {"x", "y", "z", "t"}) { const F& f = named(src, k); for (int b = 0; b < size_of(f.datatype); ++b) mine[f.offset + b] = 1; }
    for (std::size_t i = 0; i < src.data.size(); ++i) if (!mine[i % src.point_step] && src.data[i] != dst.data[i]) ok = false;
    vr::check(ok, "deskew-other-fields", d);
    auto at = [&](double s) { const double f = s / dt; return ref::hom(ref::exp_so3(w * f), tr * f); };
    if (w.norm() > 3.0) return;  // more than a half turn per sweep: the shorter rotation is taken
    const ref::M4 N = ref::inv(at(off * 1e-6));
    for (std::size_t i = 0; i < n_of(src); ++i) {
        Eigen::Vector4d p(value(src, named(src, "x"), i), value(src, named(src, "y"), i), value(src, named(src, "z"), i), 1);
        const double t = value(src, named(src, "t"), i);
        const Eigen::Vector4d q = N * at(t) * p;
        const Eigen::Vector3d g(value(dst, named(dst, "x"), i), value(dst, named(dst, "y"), i), value(dst, named(dst, "z"), i));
        vr::check_lazy((g - q.head<3>()).norm() <= (xt == F::FLOAT32 ? 1e-4 : 1e-6) * std::max(1.0, reach / 40), off < 0 ? "deskew-to-before-start" : "deskew-point", [&] { return vr::cat(d, " point ", p.transpose(), " t ", t, " -> ", g.transpose(), " expected ", q.transpose()); });
        if (!still) vr::check(value(dst, named(dst, "t"), i) == 0.0, "deskew-time-left", d);
    }
    vr::event("points_deskewed", n_of(src));
    if (off < 0) vr::event("deskewed_to_before_start");
    if (off * 1e-6 > dt) vr::event("deskewed_to_after_end");
    if (still) vr::event("no_motion");
    vr::maximum("sweep_rotation_rad", w.norm());
    vr::nontrivial(vr::hash_bytes(src.data.data(), src.data.size(), nt));
    Cloud missing = src;
    const char* gone[] = {"x", "y", "z", "t"};
    pct::change_field_name(missing, gone[r.integer(0, 3)], "gone");
    if (!still) vr::expect_throw([&] { Cloud x; pct::deskew(skew, dt, nt, missing, x); }, "deskew-missing-field", d);
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"layout", layout_edits}, {"values", values}, {"analysis", analysis}, {"deskew", deskew}}); }
