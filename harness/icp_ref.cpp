#include "icp_ref.hpp"
#include "jet.hpp"
namespace icp_ref {
using J = ad::Jet<12>;
static void cross(const J a[3], const J b[3], J o[3]) {
    o[0] = a[1] * b[2] - a[2] * b[1];
    o[1] = a[2] * b[0] - a[0] * b[2];
    o[2] = a[0] * b[1] - a[1] * b[0];
}
void derivatives(Model m, const ref::V3& rv, const ref::V3& tv, const ref::V3& pv, const ref::V3& qv, const ref::V3& nv, ref::M6& dx2, ref::M6& dzdx) {
    J r[3], t[3], p[3], q[3];
    for (int i = 0; i < 3; ++i) {
        r[i] = J::var(rv(i), i);
        t[i] = J::var(tv(i), 3 + i);
        p[i] = J::var(pv(i), 6 + i);
        q[i] = J::var(qv(i), 9 + i);
    }
    J rp[3], e[3];
    cross(r, p, rp);
    if (m == Model::PointPointNonlinear || m == Model::PointPlaneNonlinear) {
        J rrp[3];
        cross(r, rp, rrp);
        const J s = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
        const J A = ad::sinc(s), B = ad::cosc(s);
        for (int i = 0; i < 3; ++i) e[i] = p[i] + A * rp[i] + B * rrp[i] + t[i] - q[i];
    } else {
        for (int i = 0; i < 3; ++i) e[i] = p[i] + rp[i] + t[i] - q[i];
    }
    J F;
    if (m == Model::PointPointNonlinear || m == Model::PointPointLinearised) {
        F = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    } else {
        const J d = J(nv(0)) * e[0] + J(nv(1)) * e[1] + J(nv(2)) * e[2];
        F = d * d;
    }
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) {
            dx2(i, j) = 0.5L * F.h[i * 12 + j];
            dzdx(i, j) = 0.5L * F.h[i * 12 + 6 + j];
        }
}
}
